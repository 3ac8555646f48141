package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The methods of the nodes as decision tables. A method is interpreted for the node that a factory method makes from open
// arguments. The parts of the node are open: the analysed code can tell them apart only by the tests that it makes, and each such test
// is a fork. What a part answers to the same method is opaque, and named after the part.

const nodeLists = 3

type nodes struct {
	*vtree
	pnT    types.Type
	litT   types.Type
	litFn  *ssa.Function
	listFn *ssa.Function
	isNop  map[int]bool
}

type narg struct {
	name string
	v    mval
}

type nrun struct {
	*vrun
	n      *nodes
	opaque map[*mval]string
	seen   map[string]bool // opaque parts that are in the result
	args   map[string][]narg
	visits []string
	asks   bool // the methods of parts are not interpreted
	lists  int
}

func newNodes(c *Check) *nodes {
	t := newVtree(c, "NewTasksChecker")
	n := &nodes{vtree: t, pnT: t.p.typ(t.p.PN, "PN"), litFn: t.p.fn(t.p.PN, "Literal"), listFn: t.p.fn(t.p.PN, "List"), isNop: map[int]bool{}}
	r := t.newRun()
	x, ok := r.m.call(n.litFn, nil, []mval{miface{types.Typ[types.String], "x"}}).(miface)
	if !ok || x.t == nil {
		fatalf("Literal gives no known PN")
	}
	n.litT = x.t
	// which nodes are no operation
	for i, k := range t.kinds {
		if k == nil || t.ctorOf[t.labels[i]] == "" {
			continue
		}
		k := k
		done := false
		r.m.explore(func() {
			if done {
				return
			}
			r.reset()
			x := r.construct(t.ctorOf[t.labels[i]], "x", levelMax, nil)
			if b, ok := r.guard(func() mval { return r.m.call(t.p.method(k, "IsNop"), nil, []mval{x.v}) }).(bool); ok {
				n.isNop[i] = b
				done = true
			}
		})
	}
	return n
}

func (n *nodes) newRun() *nrun {
	r := &nrun{vrun: n.vtree.newRun(), n: n, asks: true, lists: nodeLists}
	r.vrun.parts = r.makeArg
	m := r.m
	// the methods of parts that have a definite kind
	for _, k := range n.kinds {
		if k == nil {
			continue
		}
		for _, mn := range []string{"ToPN", "AllContents", "Contents"} {
			mn := mn
			fn := n.p.method(k, mn)
			if fn == nil || m.mock[fn] != nil {
				continue
			}
			k := k
			m.mock[fn] = func(m *Machine, args []mval) mval {
				c, _ := args[0].(*mval)
				name, ok := r.made[c]
				if !ok || !r.asks || strings.HasPrefix(name, "self") {
					return m.body(fn, args)
				}
				return r.answer(m, miface{k, c}, name, mn, args[1:])
			}
		}
	}
	// opaque representations
	for _, mn := range []string{"AsCall", "AsParameters", "ToData", "Format", "String"} {
		mn := mn
		fn := n.p.method(n.litT, mn)
		if fn == nil {
			fatalf("there is no method %s of a PN", mn)
		}
		m.mock[fn] = func(m *Machine, args []mval) mval {
			c, _ := args[0].(*mval)
			name, ok := r.opaque[c]
			if !ok {
				return m.body(fn, args)
			}
			switch mn {
			case "AsCall":
				return r.newOpaque(name + " as call " + r.show(args[1]))
			case "AsParameters":
				return []mval{r.newOpaque("parameters of " + name)}
			case "ToData":
				return miface{n.litT, c}
			case "Format":
				m.call(n.p.fn(n.p.PN, "Fprintf"), nil, []mval{miface{types.NewPointer(n.p.bufferType()), args[1]}, "%s", []mval{miface{types.Typ[types.String], "‹" + name + "›"}}})
				return nil
			}
			return "‹" + name + "›"
		}
	}
	return r
}

func (p *Program) bufferType() types.Type {
	sig := p.fn(p.PN, "DoubleQuote").Signature
	return sig.Params().At(1).Type().Underlying().(*types.Pointer).Elem()
}

func (r *nrun) start() {
	r.vrun.reset()
	r.opaque, r.seen, r.args = map[*mval]string{}, map[string]bool{}, map[string][]narg{}
	r.visits = nil
	r.nctx.contents = nil
	r.nctx.answer = func(m *Machine, n *lnode, name string) mnativeCall {
		if !r.asks {
			return nil
		}
		switch name {
		case "ToPN", "AllContents", "Contents":
			return func(m *Machine, args []mval) mval { return r.answer(m, n, n.name, name, args) }
		case "IsNop":
			if n.real.t == nil {
				return func(m *Machine, args []mval) mval {
					i := m.split(n.kind, func(i int) interface{} { return r.n.isNop[i] })
					return r.n.isNop[i]
				}
			}
		}
		return nil
	}
}

// answer gives what a part answers to a method
func (r *nrun) answer(m *Machine, v mval, name, method string, args []mval) mval {
	if method == "ToPN" {
		return r.newOpaque(name)
	}
	path, _ := args[0].([]mval)
	path = append(append(make([]mval, 0, len(path)+2), path...), v)
	r.nctx.vars = &[]*symVar{}
	in := r.nctx.node(name+".in", 0, 0, 1, levelMax)
	r.nctx.vars = &r.vars
	in.kind.alive = []int{r.n.index["Nop"]}
	m.apply(args[1], []mval{path, in}, nil)
	return nil
}

func (r *nrun) newOpaque(name string) miface {
	x := r.m.call(r.n.litFn, nil, []mval{miface{}}).(miface)
	r.opaque[x.v.(*mval)] = name
	return x
}

// body interprets a function that is replaced
func (m *Machine) body(f *ssa.Function, args []mval) mval {
	x := m.sh.fn(f)
	if len(x.blocks) == 0 {
		panic(munsupported{"function " + f.String()})
	}
	m.depth++
	fr := &mframe{x: x, regs: make([]mval, x.nreg)}
	for i, rg := range x.params {
		fr.regs[rg] = args[i]
	}
	if x.defers {
		m.runDeferring(fr)
	} else {
		m.runBlocks(fr, 0)
	}
	m.depth--
	return fr.result
}

// nodeKinds: what the parser puts there, where this is not what the validator looks at
var nodeKinds = map[string][]string{
	"body": {"*"}, "lambda": {"nil", "LambdaExpression"}, "Site.statements": {"*"}, "Node.statements": {"*"}, "When.thenExpr": {"*"},
	"Application.body": {"nil", "*"}, "Class.body": {"nil", "*"}, "Definition.body": {"nil", "*"}, "Function.body": {"nil", "*"}, "Plan.body": {"nil", "*"},
	"Lambda.body": {"nil", "*"}, "Parameter.typeExpr": {"nil", "*"},
}

var nodeWords = map[string][]string{
	"Parameter.name": {"a", "_q", "q7_Q", "q::q"}, "QualifiedName.name": {"a", "a::b"}, "": {"a", "a b"},
}

// makeArg makes an open argument of a factory method
func (r *nrun) makeArg(ctor, pn string, pt types.Type, at string, level int) (mval, bool) {
	name := pn
	if at != "self" {
		name = at + "." + ctor + "." + pn
	}
	v, ok := r.makeArg1(ctor, pn, name, pt, at, level)
	if ok && !(pn == "locator" || pn == "offset" || pn == "length") {
		r.args[at] = append(r.args[at], narg{name, v})
	}
	return v, ok
}

func (r *nrun) makeArg1(ctor, pn, name string, pt types.Type, at string, level int) (mval, bool) {
	self := at == "self"
	if later(at) { // the parts of further elements of a list are there, but nothing is open about them
		switch u := pt.Underlying().(type) {
		case *types.Interface:
			if isExpressionIface(pt) {
				return r.open(name, level+1, r.t.plain), true
			}
		case *types.Slice:
			if isExpressionIface(u.Elem()) {
				return []mval{r.openPart(ctor, pn, name+"[0]", u.Elem(), level)}, true
			}
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				return "b", true
			case u.Info()&types.IsBoolean != 0:
				return false, true
			}
		}
	}
	switch u := pt.Underlying().(type) {
	case *types.Interface:
		if isExpressionIface(pt) {
			return r.openPart(ctor, pn, name, pt, level), true
		}
	case *types.Slice:
		if !isExpressionIface(u.Elem()) {
			return nil, false
		}
		max := r.lists
		if !self {
			max = 1
		}
		var lab []string
		for i := 0; i <= max; i++ {
			lab = append(lab, itoa(i))
		}
		v := r.variable(name, lab)
		n := r.m.split(v, func(i int) interface{} { return i })
		l := make([]mval, 0, n)
		for i := 0; i < n; i++ {
			l = append(l, r.openPart(ctor, pn, fmt.Sprintf("%s[%d]", name, i), u.Elem(), level))
		}
		return l, true
	case *types.Basic:
		switch {
		case pn == "offset":
			return int64(3), true
		case pn == "length":
			return int64(4), true
		case u.Info()&types.IsString != 0:
			if ws, ok := lookupParam(paramWords, ctor, pn); ok {
				return r.choice(name, ws), true
			}
			if self {
				if name == "parent" {
					return r.choice(name, []string{"", "q", "Q", "q::q", "::q", "default", "q q"}), true
				}
				return r.choice(name, r.t.words), true
			}
			ws, ok := nodeWords[ctor+"."+pn]
			if !ok {
				ws = nodeWords[""]
			}
			return r.choice(name, ws), true
		case u.Info()&types.IsBoolean != 0:
			return &dep{r.variable(name, []string{"false", "true"}), []mval{false, true}}, true
		case u.Info()&types.IsFloat != 0:
			return &dep{r.variable(name, []string{"1.5", "2.5"}), []mval{1.5, 2.5}}, true
		case u.Info()&types.IsInteger != 0:
			l, vs := []string{"-7", "0", "1"}, []mval{int64(-7), int64(0), int64(1)}
			if pn == "radix" {
				l, vs = []string{"8", "10", "16"}, []mval{int64(8), int64(10), int64(16)}
			}
			return &dep{r.variable(name, l), vs}, true
		}
	}
	return nil, false
}

// later tells if a part belongs to an element of a list that is not the first
func later(at string) bool { return strings.Contains(at, "[1]") || strings.Contains(at, "[2]") }

// openPart makes an open expression
func (r *nrun) openPart(ctor, pn, name string, pt types.Type, level int) mval {
	ks, ok := lookupParam(nodeKinds, ctor, pn)
	if !ok {
		ks, ok = lookupParam(childKinds, ctor, pn)
	}
	if !ok || ks == nil {
		ks = []string{"*"}
	}
	var labels []string
	for _, k := range ks {
		if k == "*" {
			labels = append(labels, r.t.plain...)
		} else {
			labels = append(labels, k)
		}
	}
	var fit []string
	for _, l := range labels {
		if l == "nil" || r.m.assignable(r.t.kinds[r.t.index[l]], pt) {
			fit = append(fit, l)
		}
	}
	return r.open(name, level+1, fit)
}

// data renders what ToData gives
func (r *nrun) data(v mval, depth int) string {
	if depth > 40 {
		panic(mlimit{"depth of the data"})
	}
	switch x := v.(type) {
	case miface:
		if x.t == nil {
			return "nil"
		}
		if c, ok := x.v.(*mval); ok {
			if n, ok := r.opaque[c]; ok {
				r.seen[n] = true
				r.seen[strings.TrimPrefix(n, "parameters of ")] = true
				if i := strings.Index(n, " as call "); i > 0 {
					r.seen[n[:i]] = true
				}
				return n
			}
			return "a pointer"
		}
		return r.data(x.v, depth+1)
	case []mval:
		var s []string
		for _, e := range x {
			s = append(s, r.data(e, depth+1))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *mmap:
		var s []string
		for i, k := range x.keys {
			if !x.dead[i] {
				s = append(s, strings.Trim(r.data(k, depth+1), `"`)+" "+r.data(x.vals[i], depth+1))
			}
		}
		return "{" + strings.Join(s, ", ") + "}"
	case *dep:
		r.seen[x.v.name] = true
		for _, i := range x.v.alive {
			if r.show(x.f[i]) != x.v.label[i] {
				return r.show(x)
			}
		}
		return "<" + x.v.name + ">"
	}
	return r.show(v)
}

// present tells if a part may be there
func (r *nrun) present(v mval) bool {
	switch x := v.(type) {
	case miface:
		return x.t != nil
	case *lnode:
		for _, i := range x.kind.alive {
			if r.n.kinds[i] != nil {
				return true
			}
		}
		return false
	}
	return true
}

// missing lists what is not in the result
func (r *nrun) missing(at string, out *[]string) {
	for _, a := range r.args[at] {
		r.missingArg(at, a, out)
	}
}

func (r *nrun) missingArg(at string, a narg, out *[]string) {
	if r.seen[a.name] {
		return
	}
	switch x := a.v.(type) {
	case []mval:
		for i, e := range x {
			r.missingArg(at, narg{fmt.Sprintf("%s[%d]", a.name, i), e}, out)
		}
	case *lnode:
		if !r.present(x) {
			return
		}
		if x.real.t != nil && len(r.args[x.name]) > 0 {
			r.missing(x.name, out)
			return
		}
		// a part that does nothing needs no representation
		for _, i := range x.kind.alive {
			if r.n.kinds[i] != nil && !r.n.isNop[i] {
				*out = append(*out, a.name)
				return
			}
		}
	}
}

// nleaf is a path through ToPN
type nleaf struct {
	vars  map[string]map[string]bool
	sizes map[string]int
	out   string
}

type pnResult struct {
	c      ctor
	pos    string
	rows   map[string]string
	leaves int
	panics string
	bad    map[string]string // construct -> message
	same   map[string]string
}

// scalar arguments tell nodes apart
func (r *nrun) scalars() (names []string) {
	for _, a := range r.args["self"] {
		if _, ok := a.v.(*dep); ok {
			names = append(names, a.name)
		}
	}
	return
}

var pnOmitted = map[string]string{"Program.definitions": "they are in the body", "ReservedWord.future": "it is not written"}

// pnTable gives the representation of the nodes that a factory method makes
func (n *nodes) pnTable(ct ctor) *pnResult {
	r := n.newRun()
	res := &pnResult{c: ct, pos: n.p.pos(ct.fn.Pos()), bad: map[string]string{}, same: map[string]string{}}
	var leaves []nleaf
	var scal []string
	one := func() {
		r.start()
		x := r.construct(ct.name, "self", 0, nil)
		lf := nleaf{vars: map[string]map[string]bool{}, sizes: map[string]int{}}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(*mpanic); ok {
						res.panics = "a possible node has no representation"
						if k := strings.Join(describeVars(r.vars), " "); k != "" {
							res.panics += ": " + k
						}
					}
					panic(e)
				}
			}()
			p, ok := r.m.call(r.m.invokeName(x, "ToPN"), nil, []mval{x.v}).(miface)
			if !ok || p.t == nil {
				panic(munsupported{"ToPN gives no known PN"})
			}
			d := r.m.call(r.m.invokeName(p, "ToData"), nil, []mval{p.v})
			lf.out = r.data(d, 0)
		}()
		r.reports = []string{lf.out}
		var miss []string
		r.missing("self", &miss)
		for _, w := range miss {
			w = strings.SplitN(w, "[", 2)[0]
			if pnOmitted[ct.name+"."+w] != "" {
				continue
			}
			k := ct.name + "." + w
			if res.bad[k] == "" {
				res.bad[k] = fmt.Sprintf("%s is present but the representation does not contain it: %s", w, plainMarks(lf.out))
			}
		}
		for _, v := range r.vars {
			lf.vars[v.name] = map[string]bool{}
			lf.sizes[v.name] = v.size
			for _, i := range v.alive {
				lf.vars[v.name][v.label[i]] = true
			}
		}
		scal = r.scalars()
		leaves = append(leaves, lf)
	}
	res.rows = n.vtree.table(ct.name, r.vrun, one)
	res.leaves = len(leaves)
	for k, o := range res.rows {
		if strings.Contains(o, "PANIC") {
			delete(res.rows, k)
		}
	}
	for _, s := range scal {
		if pnOmitted[ct.name+"."+s] != "" {
			continue
		}
		for i, a := range leaves {
			if len(a.vars[s]) > 1 && !strings.Contains(a.out, "\x01"+s+"\x02") && !strings.Contains(a.out, "<"+s) {
				res.bad[ct.name+"."+s] = fmt.Sprintf("the representation is the same for several values of %s: %s", s, plainMarks(a.out))
			}
			for _, b := range leaves[i+1:] {
				if a.out == b.out && !strings.Contains(a.out, "<"+s) && !overlap(a.vars[s], b.vars[s]) && compatible(a, b, s) {
					res.bad[ct.name+"."+s] = fmt.Sprintf("the representation is the same for different values of %s: %s", s, plainMarks(a.out))
				}
			}
		}
	}
	return res
}

func plainMarks(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 1:
			b.WriteByte('<')
		case 2:
			b.WriteByte('>')
			for i < len(s) && s[i] != 3 {
				i++
			}
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func describeVars(vs []*symVar) (out []string) {
	for _, v := range vs {
		if len(v.alive) < v.size {
			var l []string
			for _, i := range v.alive {
				l = append(l, v.label[i])
			}
			if len(l) > 3 {
				l = append(l[:3], "...")
			}
			out = append(out, v.name+"="+strings.Join(l, "|"))
		}
	}
	return
}

func overlap(a, b map[string]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

// compatible tells if two paths are possible for nodes that differ in one part only
func compatible(a, b nleaf, but string) bool {
	for k, x := range a.vars {
		if y, ok := b.vars[k]; ok && k != but && !overlap(x, y) {
			return false
		}
	}
	return true
}

func (m *Machine) invokeName(x miface, name string) *ssa.Function {
	f := m.p.method(x.t, name)
	if f == nil {
		panic(munsupported{"method " + name + " of " + x.t.String()})
	}
	return f
}

// pnTables gives the representations of all nodes
func (n *nodes) pnTables() []*pnResult {
	var lock sync.Mutex
	var out []*pnResult
	pl := newPool()
	for _, ct := range n.p.ctors() {
		ct := ct
		pl.do(func() {
			r := n.pnTable(ct)
			lock.Lock()
			out = append(out, r)
			lock.Unlock()
		})
	}
	pl.wait()
	return out
}

func checkPNParts(c *Check) {
	n := newNodes(c)
	leaves := 0
	for _, r := range n.pnTables() {
		leaves += r.leaves
		for i := 0; i < r.c.nargs(); i++ {
			k := r.c.name + "." + r.c.params.At(i).Name()
			c.obligation(r.bad[k] == "", "represented", k, r.pos, "%s", r.bad[k])
			delete(r.bad, k)
		}
		for k, m := range r.bad {
			c.obligation(false, "represented", k, r.pos, "%s", m)
		}
		if len(r.rows) > 0 {
			for k, o := range r.rows {
				c.sample("%s => %s", k, o)
				break
			}
		}
	}
	c.atLeast("paths through the conversion to PN", leaves, 500)
}

func checkPNShapes(c *Check) {
	n := newNodes(c)
	got, at := map[string]string{}, map[string]string{}
	leaves := 0
	for _, r := range n.pnTables() {
		leaves += r.leaves
		c.obligation(r.panics == "", "panics", r.c.name, r.pos, "%s", r.panics)
		for k, o := range r.rows {
			got[k], at[k] = o, r.pos
		}
	}
	c.atLeast("paths through the conversion to PN", leaves, 500)
	n.pnLibrary(got)
	c.table("pn", got, func(k string) string { return at[k] })
}
