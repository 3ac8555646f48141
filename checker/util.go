package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initGlobals interprets the package initialisers, in dependency order, and returns the memory that
// they leave behind.
func (p *Program) initGlobals(hook func(c *CallCtx) (bool, []Exit)) (map[string]Val, *Interp) {
	in := newInterp(p)
	in.Hook = hook
	in.Ordered = false
	in.Limit = 3000000
	g := map[string]Val{}
	done := map[*ssa.Package]bool{}
	var run func(sp *ssa.Package)
	run = func(sp *ssa.Package) {
		if done[sp] {
			return
		}
		done[sp] = true
		for _, imp := range sp.Pkg.Imports() {
			if ip := p.ByPath[imp.Path()]; ip != nil && strings.HasPrefix(imp.Path(), modPath) {
				run(ip)
			}
		}
		f := sp.Func("init")
		st := newState()
		for k, v := range g {
			st.mem[k] = v
		}
		// the guard
		st.mem["g:"+sp.Pkg.Path()+".init$guard"] = mkBool(false)
		old := in.Inline
		in.Inline = func(fn *ssa.Function) bool {
			if fn.Name() == "init" && fn.Pkg != sp {
				return false
			}
			return old(fn)
		}
		exits := in.Run(f, nil, st)
		in.Inline = old
		for i, e := range exits {
			for k, v := range e.St.mem {
				if i == 0 {
					g[k] = v
				} else {
					g[k] = join(g[k], v)
				}
			}
		}
	}
	var paths []string
	for path := range p.ByPath {
		if strings.HasPrefix(path, modPath) {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	for _, path := range paths {
		run(p.ByPath[path])
	}
	return g, in
}

// recvSym is a symbolic, non nil, receiver of the given type
func recvSym(name string, t types.Type) Val {
	return one(&Atom{K: KSym, Name: name, T: t, Roots: []string{name}, NonNil: true})
}

func shortT(t types.Type) string {
	return types.TypeString(t, func(*types.Package) string { return "" })
}

func sortedUnique(ss []string) []string {
	m := map[string]bool{}
	for _, s := range ss {
		m[s] = true
	}
	return sortedKeys(m)
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// findMethod finds a method, nil when there is none
func (p *Program) findMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := p.Prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.Prog.MethodValue(sel)
}

func structOf(t types.Type) *types.Struct { return t.Underlying().(*types.Struct) }

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }
