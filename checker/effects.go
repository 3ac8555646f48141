package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// callTargets resolves the possible callees of a call: the static callee, the methods of all types in the
// program that implement the interface, or all functions of that signature whose address is taken.
type callTargets struct {
	p       *Program
	taken   map[string][]*ssa.Function // by signature
	byIface map[string][]*ssa.Function
	scope   func(fn *ssa.Function) bool
}

func newCallTargets(p *Program, scope func(fn *ssa.Function) bool) *callTargets {
	ct := &callTargets{p: p, taken: map[string][]*ssa.Function{}, byIface: map[string][]*ssa.Function{}, scope: scope}
	seen := map[*ssa.Function]bool{}
	take := func(f *ssa.Function) {
		if !seen[f] && len(f.Blocks) > 0 && scope(f) {
			seen[f] = true
			k := sigKey(f.Signature)
			ct.taken[k] = append(ct.taken[k], f)
		}
	}
	for fn := range ssautil.AllFunctions(p.Prog) {
		if !scope(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					take(mc.Fn.(*ssa.Function))
					continue
				}
				var callee ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && *op != callee {
						take(f)
					}
				}
			}
		}
	}
	return ct
}

func sigKey(s *types.Signature) string {
	q := func(p *types.Package) string { return p.Path() }
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), q)
}

func (ct *callTargets) of(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		key := c.Value.Type().String() + "." + c.Method.Name()
		if fs, ok := ct.byIface[key]; ok {
			return fs
		}
		var fs []*ssa.Function
		for _, t := range ct.p.universe(c.Value.Type()) {
			sel := ct.p.Prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel == nil {
				continue
			}
			if f := ct.p.Prog.MethodValue(sel); f != nil && len(f.Blocks) > 0 {
				fs = append(fs, f)
			}
		}
		ct.byIface[key] = fs
		return fs
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}
	case *ssa.Builtin:
		return nil
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	}
	return ct.taken[sigKey(c.Signature())]
}

// reach returns the functions that are reachable from the roots. Functions whose address is taken in a reachable
// function are reachable as well.
func (ct *callTargets) reach(roots []*ssa.Function, skip func(*ssa.Function) bool) map[*ssa.Function]*ssa.Function {
	from := map[*ssa.Function]*ssa.Function{}
	var todo []*ssa.Function
	add := func(f, by *ssa.Function) {
		if _, ok := from[f]; ok || len(f.Blocks) == 0 || !ct.scope(f) || skip != nil && skip(f) {
			return
		}
		from[f] = by
		todo = append(todo, f)
	}
	for _, r := range roots {
		add(r, nil)
	}
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, t := range ct.of(c.Common()) {
						add(t, f)
					}
				}
				for _, op := range ins.Operands(nil) {
					switch x := (*op).(type) {
					case *ssa.Function:
						add(x, f)
					case *ssa.MakeClosure:
						add(x.Fn.(*ssa.Function), f)
					}
				}
			}
		}
	}
	return from
}

// pathTo renders how a function is reached
func pathTo(from map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var ss []string
	for i := 0; f != nil && i < 12; i++ {
		ss = append([]string{f.RelString(nil)}, ss...)
		f = from[f]
	}
	for i := range ss {
		ss[i] = strings.Replace(ss[i], modPath+"/", "", -1)
	}
	return strings.Join(ss, " -> ")
}

func shortFn(f *ssa.Function) string {
	return strings.Replace(f.RelString(nil), modPath+"/", "", -1)
}

// onceClosures are the functions that are only used as the argument of Do of a sync.Once
func (p *Program) onceClosures() map[*ssa.Function]bool {
	used, once := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	for fn := range ssautil.AllFunctions(p.Prog) {
		if !p.inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.MakeClosure); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					var f *ssa.Function
					switch x := (*op).(type) {
					case *ssa.Function:
						f = x
					case *ssa.MakeClosure:
						f = x.Fn.(*ssa.Function)
					}
					if f == nil {
						continue
					}
					used[f]++
					if c, ok := ins.(ssa.CallInstruction); ok && isOnceDo(c.Common()) {
						once[f]++
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for f, n := range once {
		if used[f] == n {
			out[f] = true
		}
	}
	return out
}

func isOnceDo(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	return f != nil && f.Name() == "Do" && f.Signature.Recv() != nil && strings.HasSuffix(f.Signature.Recv().Type().String(), "sync.Once")
}

// locked tells if a mutex is locked before an instruction, on all paths
func locked(ins ssa.Instruction) bool {
	at := ins.Block()
	for _, b := range at.Parent().Blocks {
		if !b.Dominates(at) {
			continue
		}
		for _, x := range b.Instrs {
			if x == ins {
				break
			}
			if c, ok := x.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.Name() == "Lock" && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" {
					return true
				}
			}
		}
	}
	return false
}

func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refType(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refType(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// addrRoot follows an address to the value it is derived from without a load
func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}

// mutates returns the values whose memory an instruction writes to
func mutates(ins ssa.Instruction) []ssa.Value {
	switch x := ins.(type) {
	case *ssa.Store:
		return []ssa.Value{x.Addr}
	case *ssa.MapUpdate:
		return []ssa.Value{x.Map}
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append", "copy", "delete", "clear":
				return c.Args[:1]
			}
			return nil
		}
		if f := c.StaticCallee(); f != nil && fnPkg(f) != nil {
			switch fnPkg(f).Path() {
			case "sort", "slices":
				if strings.HasPrefix(f.Name(), "Search") || strings.HasPrefix(f.Name(), "Index") || strings.HasPrefix(f.Name(), "Contains") ||
					strings.HasPrefix(f.Name(), "Binary") || strings.HasSuffix(f.Name(), "AreSorted") || strings.HasPrefix(f.Name(), "IsSorted") ||
					strings.HasPrefix(f.Name(), "Equal") || strings.HasPrefix(f.Name(), "Clone") {
					return nil
				}
				if len(c.Args) > 0 {
					return c.Args[:1]
				}
			}
		}
	}
	return nil
}

// globalTaint finds values that refer to memory that is reachable from package level variables
type globalTaint struct {
	ct     *callTargets
	fns    map[*ssa.Function]*ssa.Function
	vals   map[ssa.Value]string // the variable it comes from
	fields map[string]string    // by type and field
	rets   map[*ssa.Function]string
	again  bool
}

func (g *globalTaint) mark(v ssa.Value, from string) {
	if from == "" || v == nil || g.vals[v] != "" || !refType(v.Type()) {
		return
	}
	g.vals[v] = from
	g.again = true
}

func fieldKey(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return t.String() + "." + t.Underlying().(*types.Struct).Field(fa.Field).Name()
}

func (g *globalTaint) of(v ssa.Value) string {
	if gl, ok := v.(*ssa.Global); ok {
		return gl.RelString(nil)
	}
	return g.vals[v]
}

func (g *globalTaint) run() {
	for g.again = true; g.again; {
		g.again = false
		for f := range g.fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					g.step(f, ins)
				}
			}
		}
	}
}

func (g *globalTaint) step(f *ssa.Function, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.UnOp:
		g.mark(x, g.of(x.X))
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			g.mark(x, g.fields[fieldKey(fa)])
		}
	case *ssa.FieldAddr:
		g.mark(x, g.of(x.X))
	case *ssa.IndexAddr:
		g.mark(x, g.of(x.X))
	case *ssa.Field:
		g.mark(x, g.of(x.X))
	case *ssa.Index:
		g.mark(x, g.of(x.X))
	case *ssa.Slice:
		g.mark(x, g.of(x.X))
	case *ssa.Lookup:
		g.mark(x, g.of(x.X))
	case *ssa.Extract:
		g.mark(x, g.of(x.Tuple))
	case *ssa.TypeAssert:
		g.mark(x, g.of(x.X))
	case *ssa.ChangeType:
		g.mark(x, g.of(x.X))
	case *ssa.ChangeInterface:
		g.mark(x, g.of(x.X))
	case *ssa.MakeInterface:
		g.mark(x, g.of(x.X))
	case *ssa.Range:
		if s := g.of(x.X); s != "" && g.vals[x] == "" {
			g.vals[x] = s
			g.again = true
		}
	case *ssa.Next:
		if s := g.of(x.Iter); s != "" && g.vals[x] == "" {
			g.vals[x] = s
			g.again = true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			g.mark(x, g.of(e))
		}
	case *ssa.MakeClosure:
		for i, bnd := range x.Bindings {
			g.mark(x.Fn.(*ssa.Function).FreeVars[i], g.of(bnd))
		}
	case *ssa.Store:
		s := g.of(x.Val)
		if s == "" || !refType(x.Val.Type()) {
			return
		}
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr:
			if k := fieldKey(a); g.fields[k] == "" {
				g.fields[k] = s
				g.again = true
			}
		case *ssa.Alloc:
			// the variable now holds a reference to shared memory, writing to the variable does not change that
			g.markLoads(a, s)
		case *ssa.FreeVar:
			g.markLoads(a, s)
		}
	case *ssa.Return:
		for _, r := range x.Results {
			if s := g.of(r); s != "" && refType(r.Type()) && g.rets[f] == "" {
				g.rets[f] = s
				g.again = true
			}
		}
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			if v := x.Value(); v != nil && b.Name() == "append" {
				g.mark(v, g.of(c.Args[0]))
			}
			return
		}
		for _, t := range g.ct.of(c) {
			if len(t.Blocks) == 0 {
				continue
			}
			args := c.Args
			if c.IsInvoke() {
				args = append([]ssa.Value{c.Value}, args...)
			}
			for i, a := range args {
				if i < len(t.Params) {
					g.mark(t.Params[i], g.of(a))
				}
			}
			if v := x.Value(); v != nil {
				g.mark(v, g.rets[t])
			}
		}
	}
}

func (g *globalTaint) markLoads(addr ssa.Value, s string) {
	if addr.Referrers() == nil {
		return
	}
	for _, r := range *addr.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.X == addr {
			g.mark(u, s)
		}
	}
}

// exportedAPI returns the exported functions, and exported methods of all types, of the library packages
func (p *Program) exportedAPI(pkgs ...*ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, sp := range pkgs {
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				if x.Object() != nil && x.Object().Exported() {
					out = append(out, x)
				}
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := p.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := p.Prog.MethodValue(ms.At(i)); f != nil && ms.At(i).Obj().Exported() {
							out = append(out, f)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].RelString(nil) < out[j].RelString(nil) })
	return out
}
