package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// With VERIF_COVER=FILE, the blocks of the repository that were interpreted and those that were not are written there.

var (
	coverFile = os.Getenv("VERIF_COVER")
	coverMu   sync.Mutex
	coverAll  []*Machine
)

func coverMachine(m *Machine) {
	if coverFile != "" {
		coverMu.Lock()
		coverAll = append(coverAll, m)
		coverMu.Unlock()
	}
}

func writeCover(p *Program) {
	if coverFile == "" || p == nil {
		return
	}
	done := map[*ssa.BasicBlock]bool{}
	for _, m := range coverAll {
		for b := range m.covered {
			done[b] = true
		}
	}
	var out []string
	for _, f := range p.SrcFuncs {
		if f.Pkg == nil || !strings.Contains(f.Pkg.Pkg.Path(), "puppet-parser") {
			continue
		}
		for _, b := range f.Blocks {
			pos := token.NoPos
			for _, i := range b.Instrs {
				if pos = i.Pos(); pos.IsValid() {
					break
				}
			}
			out = append(out, fmt.Sprintf("%t\t%s\t%s\t%d", done[b], p.pos(pos), f.String(), b.Index))
		}
	}
	sort.Strings(out)
	os.WriteFile(coverFile, []byte(strings.Join(out, "\n")+"\n"), 0o644)
}
