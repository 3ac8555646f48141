package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "Taint analysis over the SSA form of the library packages and the issue package: values that refer to memory reachable from a package level variable are followed through "+
		"assignments, fields, calls, closures and returns. No function that the exported API can reach, other than package initialisers, writes through such a value unless a mutex or sync.Once protects it.", checkGlobals)
	register("C10", "Effect analysis: no function that is reachable from the operations on a finished syntax tree (methods of nodes, validation, conversions) stores to a field of a node or locator, or to an element of a "+
		"list of nodes, unless the object is created in that function or the store is protected by a sync.Once; what is initialised in a sync.Once is read only after it.", checkImmutable)
	register("C08", "Upward exposed uses: interprocedural must-definition analysis of the fields of the parser object over Parse and everything it reaches. No field that parsing can change is read "+
		"before Parse has assigned it, on any path. Additionally no reachable function iterates over a map with an effect that depends on the order, or uses time, randomness or the environment.", checkReuse)
}

func (p *Program) libPackages() []*ssa.Package {
	return []*ssa.Package{p.Parser, p.Valid, p.Literal, p.PN, p.JSON}
}

func checkGlobals(c *Check) {
	p := c.P
	scope := func(f *ssa.Function) bool {
		pk := fnPkg(f)
		return pk != nil && (p.inRepo(f) || pk == p.Issue.Pkg)
	}
	ct := newCallTargets(p, scope)
	api := p.exportedAPI(p.libPackages()...)
	fns := ct.reach(api, func(f *ssa.Function) bool { return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") })
	g := &globalTaint{ct: ct, fns: fns, vals: map[ssa.Value]string{}, fields: map[string]string{}, rets: map[*ssa.Function]string{}}
	g.run()
	once := p.onceClosures()
	writes, shared := 0, 0
	for f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, v := range mutates(ins) {
					writes++
					s := g.of(v)
					if r := addrRoot(v); s == "" {
						if _, ok := r.(*ssa.Global); ok {
							s = g.of(r)
						}
					}
					if s == "" {
						c.obl++
						c.ok++
						continue
					}
					shared++
					s = strings.Replace(s, modPath+"/", "", -1)
					c.obligation(once[f] || locked(ins), "global-write", shortFn(f)+" "+s, p.pos(ins.Pos()), "writes to memory of the package level variable %s, reached by %s", s, pathTo(fns, f))
				}
			}
		}
	}
	c.count("writes to shared memory that a lock protects", shared)
	c.atLeast("exported functions and methods", len(api), 500)
	c.atLeast("reachable functions", len(fns), 700)
	c.atLeast("writes classified", writes, 500)
	n := 0
	for _, s := range g.vals {
		_ = s
		n++
	}
	c.atLeast("values that refer to package level variables", n, 10)
}

// astTypes are the struct types that nodes consist of
func (p *Program) astTypes() map[string]bool {
	out := map[string]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		n := namedOf(t)
		if n == nil || out[n.String()] {
			return
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return
		}
		out[n.String()] = true
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Embedded() {
				add(f.Type())
			}
			if fn := namedOf(f.Type()); fn != nil && fn.Obj().Pkg() == p.Parser.Pkg {
				add(f.Type())
			}
		}
	}
	for _, k := range p.Kinds() {
		add(k)
	}
	return out
}

// fresh tells if a value is memory that the function itself has created
func fresh(v ssa.Value, seen map[ssa.Value]bool) bool {
	v = addrRoot(v)
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !fresh(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return fresh(x.Call.Args[0], seen)
		}
		if f := x.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if len(r.Results) != 1 || !fresh(r.Results[0], seen) {
						return false
					}
				}
			}
			return true
		}
	case *ssa.UnOp:
		// a local variable that only ever holds fresh values
		a, ok := x.X.(*ssa.Alloc)
		if !ok || a.Referrers() == nil {
			return false
		}
		for _, r := range *a.Referrers() {
			switch s := r.(type) {
			case *ssa.Store:
				if s.Addr != a || !fresh(s.Val, seen) {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return false
}

func checkImmutable(c *Check) {
	p := c.P
	ct := newCallTargets(p, p.inRepo)
	ast := p.astTypes()
	c.atLeast("struct types of nodes", len(ast), 70)
	// operations on finished trees
	var roots []*ssa.Function
	kinds := map[*types.Named]bool{}
	for _, k := range p.Kinds() {
		kinds[k] = true
	}
	for _, f := range p.exportedAPI(p.libPackages()...) {
		pk := fnPkg(f)
		if pk == p.Parser.Pkg {
			r := f.Signature.Recv()
			if r == nil {
				// functions that are given expressions
				given := false
				for i := 0; i < f.Signature.Params().Len(); i++ {
					if is, _ := childType(p, f.Signature.Params().At(i).Type()); is {
						given = true
					}
				}
				if !given {
					continue
				}
			} else if n := namedOf(r.Type()); n == nil || !ast[n.String()] || f.Name() == "Init" {
				continue // Init creates a node
			}
		}
		roots = append(roots, f)
	}
	// what only takes a parser to do is creation of a tree
	parse := map[*ssa.Function]bool{}
	for _, in := range []string{"ExpressionParser", "ExpressionFactory", "Lexer"} {
		it := p.typ(p.Parser, in)
		for _, t := range p.universe(it) {
			ms := p.Prog.MethodSets.MethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if f := p.Prog.MethodValue(ms.At(i)); f != nil {
					parse[f] = true
				}
			}
		}
	}
	fns := ct.reach(roots, func(f *ssa.Function) bool { return parse[f] || f.Name() == "init" })
	once := p.onceClosures()
	writes := 0
	onceFields := map[string]*ssa.Function{}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, v := range mutates(ins) {
					writes++
					what := p.treeMemory(v, ast)
					if what == "" {
						c.obl++
						c.ok++
						continue
					}
					if call, ok := ins.(ssa.CallInstruction); ok {
						// append to a list that is not part of a node, like a path
						if bu, ok := call.Common().Value.(*ssa.Builtin); ok && bu.Name() == "append" && !fromNode(v, ast, map[ssa.Value]bool{}) {
							c.obl++
							c.ok++
							continue
						}
					}
					if once[f] {
						if fa, ok := v.(*ssa.FieldAddr); ok {
							onceFields[fieldKey(fa)] = f
						}
						c.obl++
						c.ok++
						continue
					}
					c.obligation(fresh(v, map[ssa.Value]bool{}), "immutable", shortFn(f)+" "+what, p.pos(ins.Pos()), "writes to %s of a finished tree, reached by %s", what, pathTo(fns, f))
				}
			}
		}
	}
	// lazily created parts
	reads := 0
	for _, f := range p.SrcFuncs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || once[f] {
					continue
				}
				k := fieldKey(fa)
				if onceFields[k] == nil {
					continue
				}
				reads++
				c.obligation(afterOnce(fa, onceFields[k]), "once", shortFn(f)+" "+k, p.pos(ins.Pos()), "%s is used without the sync.Once that creates it", k)
			}
		}
	}
	c.count("uses of lazily created parts", reads)
	c.atLeast("operations on trees", len(roots), 400)
	c.atLeast("reachable functions", len(fns), 600)
	c.atLeast("writes classified", writes, 200)
}

// afterOnce tells if a call to Do with the given function dominates an instruction
func afterOnce(at ssa.Instruction, fn *ssa.Function) bool {
	for _, b := range at.Block().Parent().Blocks {
		if !b.Dominates(at.Block()) {
			continue
		}
		for _, ins := range b.Instrs {
			if ins == at {
				break
			}
			if c, ok := ins.(*ssa.Call); ok && isOnceDo(&c.Call) {
				for _, a := range c.Call.Args {
					if mc, ok := a.(*ssa.MakeClosure); ok && mc.Fn == fn {
						return true
					}
					if a == ssa.Value(fn) {
						return true
					}
				}
			}
		}
	}
	return false
}

// treeMemory tells if an address, slice or map is part of a node
func (p *Program) treeMemory(v ssa.Value, ast map[string]bool) string {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if t := x.X.Type().Underlying().(*types.Pointer).Elem(); ast[t.String()] {
				return "field " + t.Underlying().(*types.Struct).Field(x.Field).Name() + " of " + shortT(t)
			}
			v = x.X
		case *ssa.IndexAddr:
			t := x.X.Type()
			if is, list := childType(p, t); is && list {
				return "an element of a list of expressions"
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			t := v.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok && ast[pt.Elem().String()] {
				return "a " + shortT(pt.Elem())
			}
			if is, list := childType(p, t); is && list {
				return "a list of expressions"
			}
			if fromNode(v, ast, map[ssa.Value]bool{}) {
				return "a list or map of a node"
			}
			return ""
		}
	}
}

// fromNode tells if a value is loaded from a field of a node
func fromNode(v ssa.Value, ast map[string]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return ast[fa.X.Type().Underlying().(*types.Pointer).Elem().String()]
		}
	case *ssa.Slice:
		return fromNode(x.X, ast, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fromNode(e, ast, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return fromNode(x.X, ast, seen)
	case *ssa.Call:
		// an accessor
		if x.Call.IsInvoke() {
			n := namedOf(x.Call.Value.Type())
			return n != nil && refType(x.Type()) && len(x.Call.Args) == 0 && isListOrMap(x.Type()) && x.Call.Method.Pkg() == n.Obj().Pkg() && strings.HasSuffix(n.Obj().Pkg().Path(), "/parser")
		}
		if f := x.Call.StaticCallee(); f != nil && isListOrMap(x.Type()) {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 && fromNode(r.Results[0], ast, seen) {
					return true
				}
			}
		}
	}
	return false
}

func isListOrMap(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// ---- C08

type fieldSet map[string]bool

type useDef struct {
	p       *Program
	ct      *callTargets
	structs map[string]bool
	fns     map[*ssa.Function]*ssa.Function
	ue      map[*ssa.Function]map[string]ssa.Instruction
	def     map[*ssa.Function]fieldSet // nil: all
	all     fieldSet
	changed bool
}

// leaves returns the leaf fields that an address within the parser object stands for
func (u *useDef) leaves(fa *ssa.FieldAddr) []string {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	if !u.structs[t.String()] {
		return nil
	}
	f := t.Underlying().(*types.Struct).Field(fa.Field)
	return u.leavesOf(t, f)
}

func (u *useDef) leavesOf(t types.Type, f *types.Var) []string {
	if u.structs[f.Type().String()] {
		return u.structLeaves(f.Type())
	}
	return []string{shortT(t) + "." + f.Name()}
}

func (u *useDef) structLeaves(t types.Type) []string {
	var out []string
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, u.leavesOf(t, st.Field(i))...)
	}
	return out
}

func (u *useDef) addrLeaves(v ssa.Value) []string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return u.leaves(x)
	case *ssa.Alloc:
		return nil // an object of its own
	}
	if pt, ok := v.Type().Underlying().(*types.Pointer); ok && u.structs[pt.Elem().String()] {
		return u.structLeaves(pt.Elem())
	}
	return nil
}

func (u *useDef) function(f *ssa.Function) {
	in := map[*ssa.BasicBlock]fieldSet{}
	in[f.Blocks[0]] = fieldSet{}
	ue := u.ue[f]
	if ue == nil {
		ue = map[string]ssa.Instruction{}
		u.ue[f] = ue
	}
	use := func(s string, cur fieldSet, ins ssa.Instruction) {
		if !cur[s] {
			if _, ok := ue[s]; !ok {
				ue[s] = ins
				u.changed = true
			}
		}
	}
	var ret fieldSet
	done := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		done[b] = true
		cur := fieldSet{}
		for k := range in[b] {
			cur[k] = true
		}
		dead := false
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.UnOp:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					for _, s := range u.addrLeaves(x.X) {
						use(s, cur, ins)
					}
				}
			case *ssa.Store:
				for _, s := range u.addrLeaves(x.Addr) {
					cur[s] = true
				}
			case *ssa.MakeClosure:
				// may be called at any time from here on
				for s, i := range u.ue[x.Fn.(*ssa.Function)] {
					use(s, cur, i)
				}
			case *ssa.Return:
				if ret == nil {
					ret = cur
				} else {
					for k := range ret {
						if !cur[k] {
							delete(ret, k)
						}
					}
				}
			case ssa.CallInstruction:
				ts := u.ct.of(x.Common())
				var d fieldSet
				first, never := true, len(ts) > 0
				for _, t := range ts {
					if _, ok := u.fns[t]; !ok {
						first, never, d = false, false, fieldSet{}
						continue
					}
					for s, i := range u.ue[t] {
						use(s, cur, i)
					}
					td := u.def[t]
					if td == nil {
						continue // never returns, as far as is known
					}
					never = false
					if first {
						first = false
						d = fieldSet{}
						for k := range td {
							d[k] = true
						}
					} else {
						for k := range d {
							if !td[k] {
								delete(d, k)
							}
						}
					}
				}
				if _, isCall := ins.(*ssa.Call); isCall {
					if never {
						dead = true
					}
					for k := range d {
						cur[k] = true
					}
				}
			}
			if dead {
				break
			}
		}
		if dead {
			continue
		}
		for _, s := range b.Succs {
			old, ok := in[s]
			if !ok {
				n := fieldSet{}
				for k := range cur {
					n[k] = true
				}
				in[s] = n
				work = append(work, s)
				continue
			}
			ch := false
			for k := range old {
				if !cur[k] {
					delete(old, k)
					ch = true
				}
			}
			if ch {
				work = append(work, s)
			}
		}
	}
	// the blocks that recover from a panic know nothing
	if f.Recover != nil && len(f.Recover.Preds) == 0 {
		if _, ok := in[f.Recover]; !ok {
			ret = intersect(ret, fieldSet{})
		}
	}
	old, had := u.def[f], u.def[f] != nil
	switch {
	case ret == nil && !had:
	case ret != nil && !had:
		u.def[f] = ret
		u.changed = true
	case ret != nil:
		for k := range old {
			if !ret[k] {
				delete(old, k)
				u.changed = true
			}
		}
	}
}

func intersect(a, b fieldSet) fieldSet {
	out := fieldSet{}
	for k := range a {
		if b[k] {
			out[k] = true
		}
	}
	return out
}

// keeps tells if a store gives a field the value that it already has: *x = T{f: x.f}
func (u *useDef) keeps(st *ssa.Store, leaf string) bool {
	own := func(v ssa.Value) bool {
		ld, ok := v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return false
		}
		l := u.addrLeaves(ld.X)
		return len(l) == 1 && l[0] == leaf && addrRoot(ld.X) == addrRoot(st.Addr)
	}
	if own(st.Val) {
		return true
	}
	ld, ok := st.Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	a, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, b := range st.Parent().Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok || addrRoot(s.Addr) != a {
				continue
			}
			for _, l := range u.addrLeaves(s.Addr) {
				if l == leaf {
					if n++; !own(s.Val) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

func checkReuse(c *Check) {
	p := c.P
	ct := newCallTargets(p, p.inRepo)
	ex := p.universe(p.typ(p.Parser, "ExpressionParser"))
	if len(ex) == 0 {
		c.fail("coverage", "parser", "-", "no implementation of the parser was found")
		return
	}
	for _, t := range ex {
		u := &useDef{p: p, ct: ct, structs: map[string]bool{}, ue: map[*ssa.Function]map[string]ssa.Instruction{}, def: map[*ssa.Function]fieldSet{}}
		var add func(t types.Type)
		add = func(t types.Type) {
			if n, ok := t.(*types.Named); ok && !u.structs[n.String()] && n.Obj().Pkg() == p.Parser.Pkg {
				if st, ok := n.Underlying().(*types.Struct); ok {
					u.structs[n.String()] = true
					for i := 0; i < st.NumFields(); i++ {
						add(st.Field(i).Type())
					}
				}
			}
		}
		n := namedOf(t)
		add(n)
		parse := p.method(t, "Parse")
		u.fns = ct.reach([]*ssa.Function{parse}, nil)
		for u.changed = true; u.changed; {
			u.changed = false
			for f := range u.fns {
				u.function(f)
			}
		}
		// the fields that anything but creation of a parser changes
		muta := map[string]string{}
		all := ct.reach(append(p.exportedAPI(p.Parser), parse), nil)
		for f := range all {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok && !fresh(st.Addr, map[ssa.Value]bool{}) {
						for _, s := range u.addrLeaves(st.Addr) {
							if !u.keeps(st, s) {
								muta[s] = shortFn(f)
							}
						}
					}
				}
			}
		}
		var ms []string
		for s := range muta {
			ms = append(ms, s)
		}
		sort.Strings(ms)
		for _, s := range ms {
			ins, exposed := u.ue[parse][s]
			at, fn := "-", ""
			if exposed {
				at, fn = p.pos(ins.Pos()), shortFn(ins.Parent())
			}
			c.obligation(!exposed, "state", s, at, "the field is changed by parsing (in %s) and %s can read what an earlier parse left in it", muta[s], fn)
		}
		c.sample("%s: fields %s", n.Obj().Name(), strings.Join(ms, " "))
		c.atLeast("fields that parsing changes", len(ms), 8)
		c.atLeast("functions that Parse reaches", len(u.fns), 150)
		// order and environment
		loops, calls := 0, 0
		for f := range ct.reach(p.exportedAPI(p.libPackages()...), nil) {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if r, ok := ins.(*ssa.Range); ok {
						if _, isMap := r.X.Type().Underlying().(*types.Map); isMap {
							loops++
							bad := mapOrder(f, r)
							c.obligation(bad == "", "order", shortFn(f), p.pos(ins.Pos()), "iterates over a map and %s: the result depends on the order", bad)
						}
					}
					if call, ok := ins.(ssa.CallInstruction); ok {
						calls++
						if g := call.Common().StaticCallee(); g != nil && fnPkg(g) != nil {
							switch pk := fnPkg(g).Path(); pk {
							case "time", "math/rand", "crypto/rand", "os", "io/ioutil", "net", "runtime", "os/exec":
								c.fail("environment", shortFn(f)+" "+pk+"."+g.Name(), p.pos(ins.Pos()), "the result depends on more than the arguments")
							}
						}
					}
				}
			}
		}
		c.count("iterations over maps", loops)
		c.atLeast("calls classified", calls, 1500)
	}
}

// mapOrder tells what an iteration over a map does that depends on its order
func mapOrder(f *ssa.Function, r *ssa.Range) string {
	var header *ssa.BasicBlock
	for _, ref := range *r.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			header = n.Block()
		}
	}
	for h, l := range naturalLoops(f) {
		if h != header {
			continue
		}
		for b := range l.body {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if !fresh(x.Addr, map[ssa.Value]bool{}) {
						return "stores a value"
					}
				case *ssa.Panic:
					return "panics"
				case *ssa.Call:
					if bu, ok := x.Call.Value.(*ssa.Builtin); ok && bu.Name() != "append" {
						continue
					}
					if bu, ok := x.Call.Value.(*ssa.Builtin); ok && bu.Name() == "append" {
						return "appends to a list"
					}
					return "calls a function"
				}
			}
		}
	}
	return ""
}
