package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The rules of the validators as decision tables. The code of validator.Check is interpreted for a node of each kind whose
// parts, and the nodes that contain it, are open: what they are is told apart only by the tests that the code makes, and
// each such test is a fork. The space of the trees is finite (depth, length of lists and the words that names can be are
// bounded), no path is cut off, and the paths are brought into a normal form that does not depend on how the code makes
// its tests.

const (
	levelMax  = 2 // below that, arbitrary expressions are of a kind without parts
	listMax   = 2
	treePaths = 60000
)

type vtree struct {
	c        *Check
	p        *Program
	sh       *mach
	ctors    map[string]ctor
	names    []string
	kinds    []types.Type // index 0 is nil
	labels   []string
	index    map[string]int
	ctorOf   map[string]string // kind -> factory method
	kindOf   map[string]string
	plain    []string // kinds of arbitrary expressions
	newFn    *ssa.Function
	newArgs  []mval
	words    []string
	extra    map[string]string // word -> word of the same shape
	reported *ssa.Function
	validate *ssa.Function
	patterns map[string]bool
	lock     sync.Mutex
	paths    int
}

// structural: what is no expression on its own
var structural = map[string]bool{"Program": true, "Parameter": true, "CaseOption": true, "SelectorEntry": true, "KeyedEntry": true, "ResourceBody": true,
	"AttributeOperation": true, "AttributesOperation": true, "ExportedQuery": true, "VirtualQuery": true, "commaSeparatedList": true, "TextExpression": true}

// leafKinds: expressions at the lowest level
var leafKinds = []string{"LiteralInteger", "LiteralString", "LiteralDefault", "RegexpExpression", "QualifiedName", "QualifiedReference", "ReservedWord", "Nop",
	"VariableExpression", "CollectExpression", "FunctionDefinition", "AssignmentExpression"}
var idemLeafs = []string{"LiteralInteger", "CallNamedFunctionExpression"}

// childKinds: what the parser puts there
var childKinds = map[string][]string{
	"params": {"Parameter"}, "parameters": {"Parameter"}, "body": {"BlockExpression"}, "lambda": {"nil", "LambdaExpression"},
	"Site.statements": {"BlockExpression"}, "Node.statements": {"BlockExpression"},
	"Node.parent": {"nil", "LiteralString", "LiteralDefault", "RegexpExpression", "ConcatenatedString"}, "Node.hostnames": {"LiteralString", "LiteralDefault", "RegexpExpression", "ConcatenatedString"},
	"TypeDefinition.body": nil, "Case.options": {"CaseOption"}, "When.thenExpr": {"BlockExpression"}, "Select.entries": {"SelectorEntry"},
	"Hash.entries": {"KeyedEntry"}, "Resource.bodies": {"ResourceBody"}, "operations": {"AttributeOperation", "AttributesOperation"},
	"CapabilityMapping.mappings": {"AttributeOperation"}, "Collect.query": {"ExportedQuery", "VirtualQuery"}, "ConcatenatedString.segments": {"LiteralString", "TextExpression"},
	"Heredoc.text": {"LiteralString", "ConcatenatedString"}, "Variable.expr": {"QualifiedName", "LiteralInteger"},
	"Parameter.expr": {"nil", "*"}, "Parameter.typeExpr": {"nil", "QualifiedReference", "AccessExpression"},
	"returnType": {"nil", "*"}, "Application.body": {"BlockExpression"},
}

var paramWords = map[string][]string{
	"form": {"regular", "virtual", "exported"}, "style": {"action", "resource", "stateHandler", "workflow", "", "other"},
	"Assignment.op": {"=", "+=", "-="}, "AttributeOp.op": {"=>", "+>"}, "Arithmetic.op": {"%", "*", "+", "-", "/", "<<", ">>"},
	"Comparison.op": {"!=", "<", "<=", "==", ">", ">="}, "Match.op": {"!~", "=~"}, "RelOp.op": {"->", "<-", "<~", "~>"}, "CapabilityMapping.kind": {"produces", "consumes"},
}

// smallWords: names that are not the subject
var smallWords = map[string][]string{
	"Parameter.name": {"a", "name", "title", "q"}, "QualifiedName.name": {"a", "a::b", "class"}, "QualifiedReference.name": {"Runtime", "Foo", "Application"},
	"String.value": {"a", "a b"}, "Class.name": {"a", "A", "string", "application"}, "Definition.name": {"a", "A", "string", "application"},
	"Function.name": {"a", "A", "string", "application"}, "Plan.name": {"a", "A", "string", "application"}, "TypeAlias.name": {"A", "a", "String"},
	"CapabilityMapping.capability": {"a", "A"}, "": {"a"},
}

func newVtree(c *Check, ctorName string, args ...mval) *vtree {
	p := c.P
	t := &vtree{c: c, p: p, sh: &mach{p: p}, ctors: map[string]ctor{}, index: map[string]int{}, ctorOf: map[string]string{}, kindOf: map[string]string{}, newFn: p.fn(p.Valid, ctorName), newArgs: args,
		extra: map[string]string{}, validate: p.fn(p.Valid, "Validate"), reported: p.fn(p.Issue, "NewReported"), patterns: map[string]bool{}}
	t.kinds, t.labels = []types.Type{nil}, []string{"nil"}
	for _, k := range p.Kinds() {
		t.kinds = append(t.kinds, types.NewPointer(k))
		t.labels = append(t.labels, k.Obj().Name())
	}
	for i, l := range t.labels {
		t.index[l] = i
	}
	for _, ct := range p.ctors() {
		t.ctors[ct.name] = ct
		t.names = append(t.names, ct.name)
	}
	// the kinds that the factory methods make
	r := t.newRun()
	for _, n := range t.names {
		r.reset()
		k := ""
		r.m.explore(func() {
			if k != "" {
				return
			}
			r.reset()
			if x, ok := r.guard(func() mval { return r.construct(n, "x", levelMax, nil) }).(miface); ok && x.t != nil {
				k = strings.TrimPrefix(shortT(x.t), "*")
			}
		})
		if k == "" || t.index[k] == 0 {
			fatalf("the kind that the factory method %s makes is not known", n)
		}
		t.kindOf[n] = k
		if t.ctorOf[k] == "" {
			t.ctorOf[k] = n
		}
	}
	for _, l := range t.labels[1:] {
		if t.ctorOf[l] != "" && !structural[l] {
			t.plain = append(t.plain, l)
		}
	}
	t.readWords()
	return t
}

func (t *vtree) readWords() {
	set := map[string]bool{"": true}
	for _, w := range readLines("scenarios/words.txt") {
		set[w] = true
	}
	segs := []string{"q", "Q", "7", "_", "", "qQ", "Qq", "q7", "q_q", "QqQq", "qé", "q-q", "q.q"}
	for _, a := range segs {
		set[a] = true
		set["::"+a] = true
		set[a+"\n"] = true
		for _, b := range segs {
			set[a+"::"+b] = true
		}
	}
	for _, w := range []string{"q::q::q", "Q::Q::Q", "q::q::Q", "Q::Q::q", "::q::q", "::Q::Q", "::q::Q", "::Q::q", "::::q", "q::::q", "q q", "q/q", "q:q", ":q", "q:", "7q", "_q", "7::7", "\nq", "é", "É", "\x00"} {
		set[w] = true
	}
	t.words = sortedKeys(set)
	for _, s := range t.p.sourceStrings() {
		for _, w := range []string{s, strings.ToUpper(s[:1]) + s[1:], strings.ToLower(s[:1]) + s[1:]} {
			if !set[w] && set[shape(w)] && t.extra[w] == "" {
				t.extra[w] = shape(w)
			}
		}
	}
	for _, w := range sortedKeysStr(t.extra) {
		t.words = append(t.words, w)
	}
}

func sortedKeysStr(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// shape replaces each run of letters of the same case, or of digits, by a representative
func shape(s string) string {
	var b strings.Builder
	last := rune(0)
	for _, r := range mask(s) {
		if r == last && (r == 'q' || r == 'Q' || r == '7') {
			continue
		}
		b.WriteRune(r)
		last = r
	}
	return b.String()
}

type vrun struct {
	t        *vtree
	m        *Machine
	vars     []*symVar
	nctx     *nodeCtx
	made     map[*mval]string // the nodes by the cells that hold them
	inner    map[*mval]miface // the template within the lambda that holds its parameters
	reports  []string
	loc      *mval
	dom      map[string][]string
	nodes    int
	checking bool
	index    map[string]map[string]int // positions of the words that a name can be
	fac      miface
	marks    []map[string]string
	markIDs  map[string]int
	shown    map[string]bool
	focus    map[string]bool // parts of the subject that are open, all when nil
	parts    func(ctor, pn string, pt types.Type, at string, level int) (mval, bool)
}

func (t *vtree) newRun() *vrun {
	r := &vrun{t: t, dom: map[string][]string{}, index: map[string]map[string]int{}, markIDs: map[string]int{}}
	m := newMachine(t.sh)
	r.m = m
	m.limit = 4000000
	r.loc = new(mval)
	*r.loc = m.zero(t.p.typ(t.p.Parser, "Locator"))
	f := m.call(t.p.fn(t.p.Parser, "DefaultFactory"), nil, nil)
	x, ok := f.(miface)
	if !ok || x.t == nil {
		fatalf("DefaultFactory does not return one known factory")
	}
	r.fac = x
	m.mock = map[*ssa.Function]func(m *Machine, args []mval) mval{}
	m.mock[t.reported] = func(m *Machine, args []mval) mval {
		var as []string
		if mp, ok := args[2].(*mmap); ok && mp != nil {
			for i, k := range mp.keys {
				if !mp.dead[i] {
					as = append(as, fmt.Sprintf("%v:%s", k, r.show(mp.vals[i])))
				}
			}
		}
		sort.Strings(as)
		s := shortCode(m.str(args[0])) + "@" + r.show(args[3])
		if sv := m.num(args[1]); sv != 4 {
			s += fmt.Sprintf(" severity %d", sv)
		}
		if len(as) > 0 {
			s += " {" + strings.Join(as, ", ") + "}"
		}
		if r.checking {
			r.reports = append(r.reports, s)
		}
		return miface{}
	}
	if fn := t.p.findMethod(types.NewPointer(t.p.typ(t.p.Parser, "Positioned")), t.p.Parser.Pkg, "String"); fn != nil {
		m.mock[fn] = func(m *Machine, args []mval) mval {
			return "«the source text»"
		}
	}
	return r
}

func (r *vrun) reset() {
	r.vars, r.reports = nil, nil
	r.made = map[*mval]string{}
	r.inner = map[*mval]miface{}
	r.shown = map[string]bool{}
	r.nctx = &nodeCtx{types: r.t.kinds, labels: r.t.labels, locator: func() mval { return r.loc }, vars: &r.vars, asked: map[string]bool{}}
	r.nctx.make = func(m *Machine, n *lnode, i int) miface {
		if i == 0 {
			return miface{}
		}
		k := r.t.labels[i]
		ct := r.t.ctorOf[k]
		if ct == "" {
			panic(munsupported{"no factory method makes a " + k})
		}
		return r.construct(ct, n.name, n.depth, nil)
	}
	r.nctx.contents = r.openContents
}

// guard gives nil when the interpretation ends in a panic
func (r *vrun) guard(f func() mval) (v mval) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case *mpanic, mlimit, munsupported:
				r.m.depth = 0
				v = nil
				return
			}
			panic(e)
		}
	}()
	return f()
}

// construct calls a factory method with open arguments
func (r *vrun) construct(name, at string, level int, given map[string]mval) miface {
	ct := r.t.ctors[name]
	args := []mval{r.fac.v}
	for i := 0; i < ct.params.Len(); i++ {
		pn, pt := ct.params.At(i).Name(), ct.params.At(i).Type()
		if v, ok := given[pn]; ok {
			args = append(args, v)
			continue
		}
		args = append(args, r.arg(name, pn, pt, at, level))
	}
	x, ok := r.m.call(ct.fn, nil, args).(miface)
	if !ok || x.t == nil {
		panic(munsupported{"the factory method " + name + " gives no node"})
	}
	if c, ok := x.v.(*mval); ok {
		if name == "EppExpression" {
			if in, ok := within(*c, "*EppExpression"); ok {
				r.inner[c] = in
				r.made[in.v.(*mval)] = at + " within"
			}
		}
		if at == "self" {
			r.made[c] = "self"
		} else {
			r.made[c] = at
		}
	}
	return x
}

// within finds a part of the type
func within(v mval, t string) (miface, bool) {
	switch x := v.(type) {
	case mstruct:
		for _, f := range x {
			if r, ok := within(f, t); ok {
				return r, true
			}
		}
	case miface:
		if _, ok := x.v.(*mval); ok && x.t != nil && shortT(x.t) == t {
			return x, true
		}
	}
	return miface{}, false
}

func lookupParam(m map[string][]string, ctor, pn string) ([]string, bool) {
	if x, ok := m[ctor+"."+pn]; ok {
		return x, true
	}
	x, ok := m[pn]
	return x, ok
}

// arg makes an open argument
func (r *vrun) arg(ctor, pn string, pt types.Type, at string, level int) mval {
	name := pn
	if at != "self" {
		name = at + "." + ctor + "." + pn
	}
	if r.parts != nil {
		if v, ok := r.parts(ctor, pn, pt, at, level); ok {
			return v
		}
	}
	switch u := pt.Underlying().(type) {
	case *types.Interface:
		if pn == "locator" || !isExpressionIface(pt) {
			return miface{}
		}
		return r.child(ctor, pn, name, level)
	case *types.Pointer:
		return r.loc
	case *types.Slice:
		if !isExpressionIface(u.Elem()) || strings.HasSuffix(shortT(u.Elem()), "Definition") {
			return []mval{}
		}
		max := listMax
		if level >= levelMax {
			max = 1
		}
		if ctor == "Access" && level < levelMax || ctor == "Array" {
			max = 2
		}
		var lab []string
		for i := 0; i <= max; i++ {
			lab = append(lab, itoa(i))
		}
		v := r.variable(name, lab)
		n := r.m.split(v, func(i int) interface{} { return i })
		l := make([]mval, 0, n)
		for i := 0; i < n; i++ {
			l = append(l, r.child(ctor, pn, fmt.Sprintf("%s[%d]", name, i), level))
		}
		return l
	case *types.Basic:
		switch {
		case pn == "offset" || pn == "length":
			return int64(len(pn) % 2)
		case u.Info()&types.IsString != 0:
			return r.word(ctor, pn, name, at == "self")
		case u.Info()&types.IsBoolean != 0:
			return &dep{r.variable(name, []string{"false", "true"}), []mval{false, true}}
		case u.Info()&types.IsInteger != 0:
			if pn == "radix" {
				return int64(10)
			}
			return &dep{r.variable(name, []string{"1", "2"}), []mval{int64(1), int64(2)}}
		case u.Info()&types.IsFloat != 0:
			return &dep{r.variable(name, []string{"1.5", "2.5"}), []mval{1.5, 2.5}}
		}
	}
	panic(munsupported{"argument " + name + " of a factory method"})
}

func (r *vrun) variable(name string, labels []string) *symVar {
	v := newSymVar(name, 0, labels)
	r.vars = append(r.vars, v)
	r.domain(name, labels)
	return v
}

func (r *vrun) domain(name string, labels []string) {
	if have, ok := r.dom[name]; ok && len(have) != len(labels) {
		fatalf("the values of %s are not the same everywhere", name)
	}
	r.dom[name] = labels
}

func (r *vrun) word(ctor, pn, name string, subject bool) mval {
	ws, ok := lookupParam(paramWords, ctor, pn)
	if !ok {
		if subject && len(r.focus) == 1 {
			ws = r.t.words
		} else if ws, ok = smallWords[ctor+"."+pn]; !ok {
			ws = smallWords[""]
		}
	}
	if len(ws) == 1 {
		return ws[0]
	}
	return r.choice(name, ws)
}

// choice is one of the words
func (r *vrun) choice(name string, ws []string) mval {
	var vals []mval
	var labels []string
	for _, w := range ws {
		vals = append(vals, w)
		labels = append(labels, strconv.Quote(w))
	}
	if r.index[name] == nil {
		ix := map[string]int{}
		for i, l := range labels {
			ix[l] = i
		}
		r.index[name] = ix
	}
	return &dep{r.variable(name, labels), vals}
}

// child makes an open node
func (r *vrun) child(ctor, pn, name string, level int) mval {
	ks, ok := lookupParam(childKinds, ctor, pn)
	var labels []string
	any := func() {
		switch {
		case level < levelMax-1:
			labels = append(labels, r.t.plain...)
		case ctor == "Block" || level >= levelMax-1 && (ctor == "If" || ctor == "Unless" || ctor == "Case"):
			labels = append(labels, idemLeafs...)
		default:
			labels = append(labels, leafKinds...)
		}
	}
	if len(r.focus) > 1 && level < levelMax-1 {
		level = levelMax - 1
	}
	if ctor == "KeyedEntry" && name != pn {
		ks, ok = []string{"LiteralString", "QualifiedName", "LiteralInteger", "LiteralUndef", "VariableExpression", "LiteralList"}, true
		if pn == "value" {
			ks = []string{"LiteralInteger"}
		}
		level = levelMax
	}
	if ctor == "Array" && strings.HasPrefix(name, "entries[") {
		ks, ok = []string{"LiteralString", "LiteralInteger", "VariableExpression"}, true
	}
	next := level
	if !ok || ks == nil {
		any()
		next = level + 1
	} else {
		for _, k := range ks {
			if k == "*" {
				any()
				next = level + 1
			} else {
				labels = append(labels, k)
			}
		}
	}
	return r.open(name, next, labels)
}

// open makes an open node that is one of the kinds
func (r *vrun) open(name string, level int, labels []string) mval {
	n := r.nctx.node(name, 0, 0, 1, level)
	r.nodes++
	n.kind.alive = nil
	for _, l := range labels {
		i, ok := r.t.index[l]
		if !ok {
			fatalf("there is no kind %s", l)
		}
		n.kind.alive = append(n.kind.alive, i)
	}
	sort.Ints(n.kind.alive)
	r.domain(name, labels)
	if len(n.kind.alive) == 1 && n.kind.alive[0] == 0 {
		return miface{}
	}
	return n
}

// openContents visits what an open node contains
func (r *vrun) openContents(m *Machine, n *lnode, args []mval, deep bool) mval {
	cnt := 0
	if n.depth < levelMax {
		v := r.variable(n.name+" contains", []string{"0", "1", "2"})
		cnt = m.split(v, func(i int) interface{} { return i })
	}
	path, _ := args[0].([]mval)
	path = append(append([]mval{}, path...), n)
	for i := 0; i < cnt; i++ {
		ks := append([]string{"AssignmentExpression", "LambdaExpression"}, leafKinds...)
		m.apply(args[1], []mval{path, r.open(fmt.Sprintf("%s contains %d", n.name, i), n.depth+1, ks)}, nil)
	}
	return nil
}

// show renders an argument of an issue
func (r *vrun) show(v mval) string {
	switch x := v.(type) {
	case *dep:
		if r.index[x.v.name] == nil || len(x.v.alive) == 1 {
			return depText(x, r.show)
		}
		// the text for each word
		mk := map[string]string{}
		var content strings.Builder
		for _, i := range x.v.alive {
			l := x.v.label[i]
			mk[l] = r.show(x.f[i])
			content.WriteString(l + "=" + mk[l] + "\n")
		}
		id, ok := r.markIDs[content.String()]
		if !ok {
			id = len(r.marks)
			r.markIDs[content.String()] = id
			r.marks = append(r.marks, mk)
		}
		r.shown[x.v.name] = true
		return fmt.Sprintf("\x01%s\x02%d\x03", x.v.name, id)
	case *lnode:
		return x.name
	case miface:
		if x.t == nil {
			return "nil"
		}
		return r.show(x.v)
	case *mval:
		if n, ok := r.made[x]; ok {
			return n
		}
		return "another node"
	case string:
		return strconv.Quote(x)
	}
	return fmt.Sprint(v)
}

// ownText refers to the name
func ownText(text, name, label string) string {
	text = strings.Replace(text, label, "<"+name+">", -1)
	if s, err := strconv.Unquote(label); err == nil {
		text = strings.Replace(text, strconv.Quote(strings.ToLower(s)), "<"+name+" in lower case>", -1)
	}
	return text
}

// atWord gives the outcome for one word
func (r *vrun) atWord(o, name, label string) string {
	if r.index[name] == nil {
		return o
	}
	before := o
	mark := "\x01" + name + "\x02"
	for {
		i := strings.Index(o, mark)
		if i < 0 {
			break
		}
		j := strings.Index(o[i:], "\x03") + i
		id, _ := strconv.Atoi(o[i+len(mark) : j])
		t, ok := r.marks[id][label]
		if !ok {
			fatalf("there is no text for %s at %s", name, label)
		}
		o = o[:i] + t + o[j+1:]
	}
	if r.large(name) {
		o = ownText(o, name, label)
	}
	if o != before {
		parts := strings.Split(o, "; ")
		sort.Strings(parts)
		o = strings.Join(parts, "; ")
	}
	return o
}

// large: all words are possible; what is reported about one refers to it by the name of the variable
func (r *vrun) large(name string) bool {
	return len(r.index[name]) >= len(r.t.words) && r.parts == nil
}

// check validates the node with the containers
func (r *vrun) check(path []mval, self mval) {
	t, m := r.t, r.m
	r.checking = false
	chk := m.call(t.newFn, nil, t.newArgs)
	// a root whose only content is the node that is checked
	root := r.nctx.node("root", 0, 0, 1, 0)
	r.vars = r.vars[:len(r.vars)-1]
	root.kind.alive = []int{t.index["Nop"]}
	root.visit = func(m *Machine, args []mval) mval {
		r.checking = true
		m.apply(args[1], []mval{path, self}, nil)
		if x, ok := self.(miface); ok && x.v != nil {
			if c, ok := x.v.(*mval); ok && r.inner[c].t != nil {
				m.apply(args[1], []mval{append(append([]mval{}, path...), self), r.inner[c]}, nil)
			}
		}
		r.checking = false
		return nil
	}
	m.call(t.validate, nil, []mval{chk, root})
}

// leaf makes the outcome of one path
func (r *vrun) leaf(f func()) (lf gleaf) {
	lf.facets = map[string]string{}
	out := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.m.depth = 0
				r.m.rec = nil
				switch x := e.(type) {
				case *mpanic:
					if x.at != nil {
						lf.at = r.t.p.pos(x.at.Pos())
					}
					out = "PANIC " + x.runtime
				case mlimit:
					fatalf("the validation does not end: %s", x.what)
				case munsupported:
					fatalf("%s", x.what)
				default:
					panic(e)
				}
			}
		}()
		f()
		sort.Strings(r.reports)
		out = strings.Join(r.reports, "; ")
		if out == "" {
			out = "none"
		}
	}()
	lf.facets["rules"] = out
	for _, v := range r.vars {
		size := len(r.dom[v.name])
		if len(v.alive) < size || r.shown[v.name] || r.large(v.name) {
			gv := gvar{v.name, 0, map[string]bool{}, size}
			for _, i := range v.alive {
				gv.alive[v.label[i]] = true
			}
			lf.vars = append(lf.vars, gv)
		}
	}
	return
}

// table follows all paths and returns the normal form
func (t *vtree) table(label string, r *vrun, one func()) map[string]string {
	var leaves []gleaf
	r.m.explore(func() {
		if len(leaves) > treePaths {
			fatalf("too many paths through the rules for %s", label)
		}
		leaves = append(leaves, r.leaf(func() { r.reset(); one() }))
	})
	b := &trieBuilder{domains: r.dom, total: true, at: r.atWord, facet: func(l *gleaf) string { return l.facets["rules"] }}
	ls := make([]*gleaf, len(leaves))
	for i := range leaves {
		ls[i] = &leaves[i]
	}
	tr := b.build(ls)
	dom := map[string][]string{}
	for n, d := range r.dom {
		in := map[string]bool{}
		for _, x := range d {
			in[x] = true
		}
		for _, x := range d {
			if s, err := strconv.Unquote(x); err == nil && t.extra[s] != "" && in[strconv.Quote(t.extra[s])] {
				continue
			}
			dom[n] = append(dom[n], x)
		}
	}
	t.dropExtra(tr)
	got := map[string]string{}
	for _, row := range tr.rows(dom) {
		k := label
		if row.path != "" {
			k += " | " + row.path
		}
		if o := got[k]; o != "" && o != row.outcome {
			row.outcome = o + " OR " + row.outcome
		}
		got[k] = row.outcome
	}
	t.lock.Lock()
	t.paths += len(leaves)
	t.lock.Unlock()
	return got
}

// dropExtra removes the words of the source that are treated as all words of their shape
func (t *vtree) dropExtra(x *trie) {
	if len(t.extra) == 0 || x.isLeaf {
		return
	}
	for gi := range x.groups {
		g := &x.groups[gi]
		t.dropExtra(g.next)
		in := map[string]bool{}
		for _, v := range g.values {
			in[v] = true
		}
		var keep []string
		for _, v := range g.values {
			if s, err := strconv.Unquote(v); err == nil && t.extra[s] != "" && in[strconv.Quote(t.extra[s])] {
				continue
			}
			keep = append(keep, v)
		}
		g.values = keep
	}
}
