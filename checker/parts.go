package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The parts of the grammar are methods of the parser. A part that was renamed is found by its shape; a part whose
// signature changed, or that is no longer there, is not analysed, nor is what used it.

func (g *grammar) methods() (fs []*ssa.Function) {
	for _, f := range g.p.SrcFuncs {
		if r := f.Signature.Recv(); r != nil && f.Pkg == g.p.Parser && f.Parent() == nil {
			if n := namedOf(r.Type()); n == g.ctxType {
				fs = append(fs, f)
			}
		}
	}
	return
}

func sigText(f *ssa.Function) string {
	tup := func(t *types.Tuple) string {
		var s []string
		for i := 0; i < t.Len(); i++ {
			s = append(s, shortT(t.At(i).Type()))
		}
		return "(" + strings.Join(s, ",") + ")"
	}
	return tup(f.Signature.Params()) + tup(f.Signature.Results())
}

// features counts what a function is made of
func features(f *ssa.Function) map[string]int {
	m := map[string]int{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				k := strings.TrimPrefix(fmt.Sprintf("%T", i), "*ssa.")
				if c, ok := i.(ssa.CallInstruction); ok {
					if c.Common().IsInvoke() {
						k = "call." + c.Common().Method.Name()
					} else if s := c.Common().StaticCallee(); s != nil {
						k = "call." + s.Name()
					}
				}
				m[k]++
				for _, o := range i.Operands(nil) {
					if o == nil || *o == nil {
						continue
					}
					if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() != constant.Bool {
						if s := c.Value.ExactString(); len(s) < 40 && !strings.ContainsAny(s, " \n:") {
							m["const."+s]++
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(f)
	return m
}

func similar(a, b map[string]int) float64 {
	in, all := 0, 0
	for k, n := range a {
		if b[k] < n {
			in, all = in+b[k], all+n
		} else {
			in, all = in+n, all+b[k]
		}
	}
	for k, n := range b {
		if a[k] == 0 {
			all += n
		}
	}
	if all == 0 {
		return 0
	}
	return float64(in) / float64(all)
}

// partShapes is the table of the methods of the parser
func (g *grammar) partShapes() (ls []string) {
	for _, f := range g.methods() {
		m := features(f)
		var s []string
		for k, n := range m {
			s = append(s, k+":"+itoa(n))
		}
		sort.Strings(s)
		ls = append(ls, f.Name()+" => "+sigText(f)+" | "+strings.Join(s, " "))
	}
	sort.Strings(ls)
	return
}

// part finds the method that is a part of the grammar, nil when there is none
func (g *grammar) part(name string) *ssa.Function {
	f := g.p.findMethod(types.NewPointer(g.ctxType), g.p.Parser.Pkg, name)
	if genAccessors {
		return f
	}
	base := readTable("parser_methods")
	d := strings.SplitN(base[name], " | ", 2)
	if len(d) < 2 {
		return f
	}
	if f != nil {
		if sigText(f) != d[0] {
			return nil
		}
		return f
	}
	want := map[string]int{}
	for _, s := range strings.Fields(d[1]) {
		if i := strings.LastIndex(s, ":"); i > 0 {
			n, _ := strconv.Atoi(s[i+1:])
			want[s[:i]] = n
		}
	}
	best, next := 0.0, 0.0
	for _, c := range g.methods() {
		if base[c.Name()] != "" || sigText(c) != d[0] {
			continue
		}
		s := similar(want, features(c))
		if s > best {
			best, next, f = s, best, c
		} else if s > next {
			next = s
		}
	}
	if best < 0.6 || next > best-0.1 {
		return nil
	}
	return f
}

var partRef = regexp.MustCompile(`<(\w+)`)

// partUsers finds the parts that use one of the missing parts
func partUsers(missing map[string]bool) map[string]string {
	users := map[string]string{}
	if len(missing) == 0 {
		return users
	}
	for k := range readTable("grammar_tree") {
		i := strings.IndexAny(k, "[{: ")
		if i < 0 {
			continue
		}
		for _, m := range partRef.FindAllStringSubmatch(k, -1) {
			if missing[m[1]] {
				users[k[:i]] = m[1]
			}
		}
	}
	return users
}
