package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
)

func main() {
	prop := flag.String("prop", "", "property ids, comma separated, or all")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "where evidence goes")
	tier := flag.String("tier", "quick", "quick or thorough")
	gen := flag.Bool("gen", false, "write the spec tables")
	dump := flag.String("dump", "", "show the table of a part of the grammar: name,bound,facet,first tokens,options")
	lex := flag.String("lex", "", "show the table of a task of the lexer: name,bound,facet")
	vd := flag.String("rules", "", "show the table of the validator for a part of the tasks: name of the task, or all")
	flag.Parse()
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(4 << 30)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	p, err := safeLoad(*repo)
	if *dump != "" && err == nil {
		a := append(strings.Split(*dump, ","), "", "", "", "")
		b, _ := strconv.Atoi(a[1])
		dumpGrammar(p, a[0], b, 300000, strings.Fields(a[4]), nonEmpty(strings.Fields(a[3])), a[2])
		return
	}
	if *vd != "" && err == nil {
		dumpRules(p, *vd)
		return
	}
	if *lex != "" && err == nil {
		if f := os.Getenv("CPUPROFILE"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		a := append(strings.Split(*lex, ","), "", "", "")
		b, _ := strconv.Atoi(a[len(a)-5])
		dumpLexer(p, strings.Join(a[:len(a)-5], ","), b, a[len(a)-4])
		return
	}
	rc := 0
	for _, d := range props {
		if *prop != "all" && !strings.Contains(","+*prop+",", ","+d.id+",") {
			continue
		}
		if runProp(p, err, d, *verif, *tier, seed, *gen) != 0 {
			rc = 1
		}
	}
	writeCover(p)
	os.Exit(rc)
}

func safeLoad(repo string) (p *Program, err error) {
	defer func() {
		if r := recover(); r != nil {
			if fe, ok := r.(*fatalError); ok {
				err = fmt.Errorf("%s", fe.msg)
			} else {
				err = fmt.Errorf("%v", r)
			}
		}
	}()
	return load(repo)
}

func nonEmpty(s []string) []string {
	if len(s) == 0 {
		return nil
	}
	return s
}
