package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Grammar extraction. For each part of the grammar (a method of the parser) the parser's code is interpreted over
// an open stream of tokens: a token is a variable whose kind is told apart only by the tests that the code makes,
// and the parts of the grammar that the code enters are replaced by what is known about them: they consume an unknown number
// of tokens, give an unknown expression and stop at an unknown token. The result is a table of all paths.

const (
	posScale = 1000 // positions: 1000*serial is where a token starts, 1000*serial+500 where it ends
	posEnd   = 500
	radixVal = 777
)

type tokKind struct {
	label string // name of the constant
	value int64
	text  string // entry of the table of token names
	num   bool   // variable with a numeric name
}

// endReads: so often may the end of the source be read
const endReads = 40

// grammar knows where the parser keeps what
type grammar struct {
	p     *Program
	sh    *mach
	kinds []tokKind
	names []string // texts that the parser tells apart
	types []types.Type
	tlab  []string
	acc   map[string][]string

	ctxType   *types.Named
	nextTok   *ssa.Function
	fKind     int
	fValue    int
	fStart    int
	fRadix    int
	only      map[string]string // the kind of node that is in a field
	fDefs     int
	fNames    int
	fLocator  int
	nts       map[*ssa.Function]string
	ntFn      map[string]*ssa.Function
	missing   []string
	initIssue string
}

// the parts of the grammar
var grammarParts = []string{"parse", "syntacticStatement", "argument", "relationship", "assignment", "step", "resource", "expression",
	"selectExpression", "orExpression", "andExpression", "compareExpression", "equalExpression", "shiftExpression",
	"additiveExpression", "multiplicativeExpression", "matchExpression", "inExpression", "unaryExpression",
	"primaryExpression", "atomExpression", "parameter", "parameterType", "attributeOperation",
	"keyedEntry", "selectorEntry", "caseOption", "hostname", "lambda", "stepProperty", "stateAttribute", "stepExpression", "returnParameter", "Parse"}

func newGrammar(p *Program) *grammar {
	g := &grammar{p: p, sh: &mach{p: p}, nts: map[*ssa.Function]string{}, ntFn: map[string]*ssa.Function{}}
	ct, _ := p.typ(p.Parser, "context").(*types.Named)
	g.ctxType = ct
	st := ct.Underlying().(*types.Struct)
	lexer := types.NewPointer(p.typ(p.Parser, "lexer"))
	g.fKind = g.returnedField(lexer, "CurrentToken")
	g.fValue = g.returnedField(lexer, "tokenValue")
	g.fStart = g.returnedField(lexer, "tokenStartPos")
	for _, b := range p.method(lexer, "NextToken").Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
					g.nextTok = f
				}
			}
		}
	}
	if g.nextTok == nil {
		fatalf("the method that reads a token was not found")
	}
	g.fRadix, g.fDefs, g.fNames, g.fLocator = -1, -1, -1, -1
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch {
		case shortT(f.Type()) == "[]Definition":
			g.fDefs = i
		case shortT(f.Type()) == "[]string":
			g.fNames = i
		case shortT(f.Type()) == "*Locator":
			g.fLocator = i
		}
	}
	g.fRadix = g.radixField()
	if g.fRadix < 0 || g.fDefs < 0 || g.fNames < 0 || g.fLocator < 0 {
		fatalf("the parser has lost a field")
	}
	m := newMachine(g.sh)
	g.readKinds(m)
	g.readNames(m)
	for _, n := range p.Kinds() {
		g.types = append(g.types, types.NewPointer(n))
	}
	if t, ok := p.Parser.Members["commaSeparatedList"]; ok {
		g.types = append(g.types, types.NewPointer(t.Type()))
	}
	for _, t := range g.types {
		g.tlab = append(g.tlab, strings.TrimPrefix(shortT(t), "*"))
	}
	for _, n := range grammarParts {
		f := g.part(n)
		if f == nil {
			g.missing = append(g.missing, n)
			continue
		}
		g.nts[f] = n
		g.ntFn[n] = f
	}
	g.acc = map[string][]string{}
	if l, f := g.functorField(); f != "" {
		g.only = map[string]string{l + "." + f: "NamedAccessExpression"}
	}
	return g
}

// radixField finds the field that the radix of an integer is taken from
func (g *grammar) radixField() int {
	for f := range ssautil.AllFunctions(g.p.Parser.Prog) {
		if f.Pkg != g.p.Parser {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Integer" || len(c.Call.Args) < 2 {
					continue
				}
				if u, ok := c.Call.Args[1].(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), g.ctxType) {
							return fa.Field
						}
					}
				}
			}
		}
	}
	return -1
}

// functorField finds the field of a method call that has its functor, which always is a named access
func (g *grammar) functorField() (label, field string) {
	f := g.p.findMethod(types.NewPointer(g.p.typ(g.p.Parser, "CallMethodExpression")), g.p.Parser.Pkg, "Functor")
	if f == nil {
		return
	}
	for f.Synthetic != "" { // promoted
		var in *ssa.Function
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok && c.Call.StaticCallee() != nil {
					in = c.Call.StaticCallee()
				}
			}
		}
		if in == nil {
			return
		}
		f = in
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if fa, ok := i.(*ssa.FieldAddr); ok {
				return "CallMethodExpression", structOf(fa.X.Type().Underlying().(*types.Pointer).Elem()).Field(fa.Field).Name()
			}
		}
	}
	return
}

// returnedField finds the field that an accessor returns
func (g *grammar) returnedField(t types.Type, name string) int {
	f := g.p.method(t, name)
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if fa, ok := i.(*ssa.FieldAddr); ok {
				if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), g.ctxType) {
					return fa.Field
				}
			}
		}
	}
	fatalf("the field that %s returns was not found", name)
	return 0
}

func (g *grammar) readKinds(m *Machine) {
	var texts map[int64]string
	for _, mem := range g.p.Parser.Members {
		gl, ok := mem.(*ssa.Global)
		if !ok || shortT(gl.Type()) != "*map[int]string" {
			continue
		}
		mp, _ := (*m.global(gl)).(*mmap)
		if mp != nil && mp.n > len(texts) {
			texts = map[int64]string{}
			for i, k := range mp.keys {
				texts[k.(int64)] = m.str(mp.vals[i])
			}
		}
	}
	for n, mem := range g.p.Parser.Members {
		if c, ok := mem.(*ssa.NamedConst); ok && strings.HasPrefix(n, "token") && len(n) > 5 {
			if v, ok := constant.Int64Val(c.Value.Value); ok {
				if t, ok := texts[v]; ok {
					g.kinds = append(g.kinds, tokKind{n[5:], v, t, false})
				}
			}
		}
	}
	sort.Slice(g.kinds, func(i, j int) bool { return g.kinds[i].value < g.kinds[j].value })
	if len(g.kinds) < 70 {
		fatalf("only %d kinds of tokens found", len(g.kinds))
	}
	v := g.kind("Variable")
	g.kinds = append(g.kinds, tokKind{"NumVariable", v.value, v.text, true})
}

func (g *grammar) kind(label string) tokKind {
	for _, k := range g.kinds {
		if k.label == label {
			return k
		}
	}
	fatalf("token kind %s not found", label)
	return tokKind{}
}

// readNames collects the texts that the code of the parser compares with or looks up
func (g *grammar) readNames(m *Machine) {
	set := map[string]bool{}
	add := func(s string) {
		if s != "" && len(s) < 30 && strings.IndexFunc(s, func(r rune) bool { return !(r == ':' || r == '_' || isAlnum(r)) }) < 0 {
			set[s] = true
		}
	}
	kw := map[string]bool{}
	for _, k := range g.kinds {
		kw[k.text] = true
	}
	for _, mem := range g.p.Parser.Members {
		if gl, ok := mem.(*ssa.Global); ok {
			if mp, ok := (*m.global(gl)).(*mmap); ok {
				for _, k := range mp.keys {
					if s, ok := k.(string); ok && !kw[s] && s != "true" && s != "false" {
						add(s)
					}
				}
			}
		}
	}
	for _, f := range g.p.SrcFuncs {
		if f.Pkg != g.p.Parser || f.Signature.Recv() == nil {
			continue
		}
		if !strings.Contains(f.Signature.Recv().Type().String(), "context") {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if bo, ok := i.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
					for _, v := range []ssa.Value{bo.X, bo.Y} {
						if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
							add(constant.StringVal(c.Value))
						}
					}
				}
			}
		}
	}
	if b, err := specFS.ReadFile("spec/grammar_names.txt"); err == nil {
		for _, n := range strings.Fields(string(b)) {
			set[n] = true
		}
	}
	g.names = sortedKeys(set)
}

func isAlnum(r rune) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9'
}

// ---- one interpretation of a part of the grammar

type gitem struct {
	serial int
	isTok  bool
	kind   *symVar
	value  mval
	nt     string
}

type grun struct {
	g      *grammar
	m      *Machine
	ctx    *mval // the parser
	items  []gitem
	cur    int   // index in items of the current token
	pos    int64 // position of the reader
	serial int
	bound  int
	vars   []*symVar
	events []string // events[i] describes serial i+1
	nctx   *nodeCtx
	reader types.Type
	self   *ssa.Function
	tokens []string          // kinds that occur, all when empty
	group  bool              // operators and operands are shown
	top    bool              // the whole parser is analysed: parts may fail
	only   map[int][]string  // kinds that are allowed for a token
	endAt  int               // the source ends with the item of this number, 0 when that is open
	left   map[string]bool   // parts that are entered before a token is read
	empty  map[string]bool   // parts that accept the end of the source
	fixed  map[int][]string  // kinds of tokens
	texts  map[string]string // texts of tokens
	ready  func()            // called when the parser is made
	single bool              // parse is to read one expression
	dom    map[string][]string
	lex    *lexRun // characters are open, not tokens
}

type gleaf struct {
	events  []string
	vars    []gvar
	facets  map[string]string
	at      string
	bounded bool
}

type gvar struct {
	name  string
	order int
	alive map[string]bool
	size  int
}

func (r *grun) text(m *Machine, name string, order int) mval {
	g := r.g
	lab := append([]string{"*"}, g.names...)
	v := newSymVar(name, order, lab)
	v.text = true
	r.vars = append(r.vars, v)
	if t := r.texts[name]; t != "" {
		r.narrow(v, []string{t})
	}
	d := &dep{v, make([]mval, len(lab))}
	d.f[0] = "«" + name + "»"
	for i, s := range g.names {
		d.f[i+1] = s
	}
	return d
}

func (r *grun) event(s string) int {
	r.serial++
	if r.endAt > 0 {
		if r.serial > r.endAt+endReads {
			panic(mlimit{"it reads the end of the source again and again"})
		}
	} else if r.serial > r.bound {
		panic(mlimit{"bound"})
	}
	r.events = append(r.events, s)
	return r.serial
}

// token makes a new open token
func (r *grun) token() gitem {
	g := r.g
	s := r.event("t")
	it := gitem{serial: s, isTok: true}
	lab := make([]string, len(g.kinds))
	kinds := make([]mval, len(g.kinds))
	for i, k := range g.kinds {
		lab[i] = k.label
		kinds[i] = k.value
	}
	it.kind = newSymVar(fmt.Sprintf("t%d", s), 10*s, lab)
	r.vars = append(r.vars, it.kind)
	if r.tokens != nil {
		r.narrow(it.kind, r.tokens)
	}
	if r.endAt > 0 && s >= r.endAt {
		r.narrow(it.kind, []string{"End"})
		r.events[s-1] = "End"
	} else if want := r.only[s]; want != nil {
		r.narrow(it.kind, want)
		r.events[s-1] = strings.Join(want, "|")
	}
	vals := make([]mval, len(g.kinds))
	strT, intT, fltT, boolT := types.Typ[types.String], types.Typ[types.Int64], types.Typ[types.Float64], types.Typ[types.Bool]
	var text mval
	for i, k := range g.kinds {
		switch {
		case k.num:
			vals[i] = miface{intT, int64(900)}
		case k.label == "Identifier", k.label == "TypeName", k.label == "String", k.label == "Variable", k.label == "Regexp", k.label == "RenderString":
			if text == nil {
				text = r.text(r.m, it.kind.name+".text", 10*s+1)
			}
			vals[i] = miface{strT, text}
		case k.label == "Integer":
			vals[i] = miface{intT, int64(901)}
		case k.label == "Float":
			vals[i] = miface{fltT, 1.5}
		case k.label == "Boolean":
			bv := newSymVar(it.kind.name+".value", 10*s+1, []string{"false", "true"})
			r.vars = append(r.vars, bv)
			vals[i] = miface{boolT, &dep{bv, []mval{false, true}}}
		case k.label == "ConcatenatedString", k.label == "Heredoc":
			n := r.nctx.node(it.kind.name+".expr", 10*s+1, int64(s)*posScale, int64(s)*posScale+posEnd, 0)
			want := "ConcatenatedString"
			if k.label == "Heredoc" {
				want = "HeredocExpression"
			}
			r.narrow(n.kind, []string{want})
			vals[i] = n
		case k.label == "Default":
			if t, ok := r.g.p.Parser.Members["Default"]; ok {
				vals[i] = miface{t.Type(), mstruct{}}
			} else {
				vals[i] = miface{strT, k.text}
			}
		case k.value >= 200: // keywords
			vals[i] = miface{strT, k.text}
		default:
			vals[i] = miface{}
		}
	}
	it.value = &dep{it.kind, vals}
	r.items = append(r.items, it)
	return it
}

func (r *grun) narrow(v *symVar, labels []string) {
	var a []int
	for _, i := range v.alive {
		for _, l := range labels {
			if v.label[i] == l {
				a = append(a, i)
			}
		}
	}
	if len(a) == 0 {
		panic(munsupported{"no value left for " + v.name + " in " + strings.Join(labels, " ")})
	}
	v.alive = a
	v.size = len(a)
}

func (r *grun) exclude(v *symVar, label string) {
	var a []int
	for _, i := range v.alive {
		if v.label[i] != label {
			a = append(a, i)
		}
	}
	v.alive, v.size = a, len(a)
}

// next is what reading a token does
func (r *grun) next() {
	k := r.cur + 1
	if r.pos != r.items0End() {
		// the reader was moved: the next token is the first one that starts there
		k = len(r.items)
		for i, it := range r.items {
			if it.isTok && int64(it.serial)*posScale >= r.pos {
				k = i
				break
			}
		}
	}
	if k < len(r.items) && !r.items[k].isTok {
		r.items = r.items[:k] // what was consumed as a whole is read again
	}
	if k >= len(r.items) {
		r.token()
		k = len(r.items) - 1
	}
	r.setCurrent(k)
}

// items0End is the position of the reader when it was not moved since the current token was read
func (r *grun) items0End() int64 {
	if r.cur < 0 {
		return 0
	}
	return int64(r.items[r.cur].serial)*posScale + posEnd
}

func (r *grun) setCurrent(k int) {
	r.cur = k
	it := r.items[k]
	s := (*r.ctx).(mstruct)
	f := make([]mval, len(r.g.kinds))
	for i, kd := range r.g.kinds {
		f[i] = kd.value
	}
	s[r.g.fKind] = &dep{it.kind, f}
	s[r.g.fValue] = it.value
	s[r.g.fStart] = int64(it.serial) * posScale
	if r.g.fRadix >= 0 {
		s[r.g.fRadix] = int64(radixVal)
	}
	r.pos = int64(it.serial)*posScale + posEnd
}

// enter replaces a part of the grammar by an unknown expression
func (r *grun) enter(f *ssa.Function, args []mval) mval {
	name := r.g.nts[f]
	m := r.m
	entry := r.items[r.cur]
	lab := name
	var after []string
	sig := f.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		v := m.force(args[i+1])
		if n, ok := v.(int64); ok && name == "parse" {
			for _, k := range r.g.kinds {
				if k.value == n {
					lab += " " + k.label
					after = append(after, k.label)
				}
			}
			continue
		}
		lab += " " + fmt.Sprint(v)
	}
	st := (*r.ctx).(mstruct)
	if st[r.g.fValue] != entry.value {
		lab += " of " + r.show(st[r.g.fValue])
	}
	if r.endAt > 0 && entry.serial >= r.endAt && !r.empty[name] && !(name == "parse" && len(after) == 1 && after[0] == "End") {
		panic(&mpanic{v: r.reported()}) // this part refuses the end of the source
	}
	if r.cur == 0 && r.left != nil {
		r.left[name] = true
	}
	s := r.event("<" + lab + ">")
	start := int64(entry.serial) * posScale
	n := r.nctx.node(fmt.Sprintf("e%d", s), 10*s, start, int64(s)*posScale+posEnd, 0)
	if name == "parse" {
		if b, ok := m.force(args[2]).(bool); ok && !b {
			r.narrow(n.kind, []string{"BlockExpression"})
		}
	}
	if want := partKinds[name]; want != nil {
		r.narrow(n.kind, want)
	} else if name != "syntacticStatement" {
		r.exclude(n.kind, "commaSeparatedList")
	}
	if r.top {
		r.mayFail(s)
	}
	if name == "parse" || name == "syntacticStatement" {
		// definitions that are found there
		d := r.nctx.node(fmt.Sprintf("definitions of e%d", s), 10*s, 0, 0, 0)
		st[r.g.fDefs] = append(append([]mval{}, st[r.g.fDefs].([]mval)...), d)
	}
	// the item covers the entry token
	r.items = append(r.items[:r.cur+1], gitem{serial: s, nt: name})
	t := r.token()
	if len(after) > 0 {
		r.narrow(t.kind, after)
		r.events[t.serial-1] = strings.Join(after, "|")
	}
	r.setCurrent(len(r.items) - 1)
	if sig.Results().Len() == 1 && isExpressionIface(sig.Results().At(0).Type()) {
		return n
	}
	panic(munsupported{"result of " + name})
}

// mayFail: a part of the grammar may end in a panic
func (r *grun) mayFail(s int) {
	v := newSymVar(fmt.Sprintf("e%d ends", s), 10*s+1, []string{"well", "reported", "error"})
	r.vars = append(r.vars, v)
	switch r.m.split(v, func(i int) interface{} { return i }) {
	case 1:
		panic(&mpanic{v: r.reported()})
	case 2:
		t := types.NewPointer(r.g.p.typ(r.g.p.Parser, "parseError"))
		c := new(mval)
		*c = r.m.zero(t.Elem())
		panic(&mpanic{v: miface{t, c}})
	}
}

// reported is some issue
func (r *grun) reported() miface {
	m := r.m
	for _, f := range r.g.p.SrcFuncs {
		if f.Pkg == r.g.p.Parser && f.Signature.Recv() != nil && namedOf(f.Signature.Recv().Type()) == r.g.ctxType && sigText(f) == "(Code)(Reported)" {
			var res mval
			func() {
				defer func() {
					if e := recover(); e != nil {
						if p, ok := e.(*mpanic); ok {
							res = p.v
							return
						}
						panic(e)
					}
				}()
				res = m.call(f, nil, []mval{r.ctx, "ISSUE"})
			}()
			if i, ok := res.(miface); ok {
				return i
			}
		}
	}
	panic(munsupported{"no way to make an issue"})
}

// partKinds: the expressions that a part gives, where that is known
var partKinds = map[string][]string{
	"parameter":          {"Parameter"},
	"parameterType":      {"QualifiedReference", "AccessExpression"},
	"attributeOperation": {"AttributeOperation", "AttributesOperation"},
}

func newRun(g *grammar, bound int) *grun {
	r := &grun{g: g, bound: bound}
	r.m = newMachine(g.sh)
	m := r.m
	m.mock = map[*ssa.Function]func(m *Machine, args []mval) mval{}
	m.mock[g.nextTok] = func(m *Machine, args []mval) mval {
		r.next()
		return nil
	}
	if f := g.p.findMethod(types.NewPointer(g.ctxType), g.p.Parser.Pkg, "consumeEPP"); f != nil {
		m.mock[f] = m.mock[g.nextTok] // text up to the next tag
	}
	rt := g.readerType()
	set := func(t types.Type, name string, f func(m *Machine, args []mval) mval) {
		if fn := g.p.findMethod(t, g.p.Parser.Pkg, name); fn != nil {
			m.mock[fn] = f
		}
	}
	set(rt, "Pos", func(m *Machine, args []mval) mval { return r.pos })
	set(rt, "SetPos", func(m *Machine, args []mval) mval { r.pos = m.num(args[1]); return nil })
	set(rt, "Advance", func(m *Machine, args []mval) mval { panic(munsupported{"characters are read by the parser"}) })
	set(rt, "Next", func(m *Machine, args []mval) mval { panic(munsupported{"characters are read by the parser"}) })
	set(rt, "PeekAt", func(m *Machine, args []mval) mval { panic(munsupported{"characters are read by the parser"}) })
	set(rt, "Text", func(m *Machine, args []mval) mval { panic(munsupported{"characters are read by the parser"}) })
	set(rt, "From", func(m *Machine, args []mval) mval {
		return fmt.Sprintf("«source %s-%s»", r.position(m.num(args[1])), r.position(r.pos))
	})
	set(rt, "Peek", func(m *Machine, args []mval) mval {
		// what follows the current token without space in between: a digit, or something else
		it := r.items[r.cur]
		v := newSymVar(fmt.Sprintf("after %s", it.kind.name), 10*it.serial+2, []string{"digit", "other"})
		r.vars = append(r.vars, v)
		i := m.split(v, func(i int) interface{} { return i })
		if i == 0 {
			r.only[r.serial+1] = []string{"Integer", "Float"}
			return mtuple{int64('7'), int64(1)}
		}
		return mtuple{int64('?'), int64(1)}
	})
	// the source text of an expression is an open text
	set(types.NewPointer(g.p.typ(g.p.Parser, "Positioned")), "String", func(m *Machine, args []mval) mval {
		ord := 10*r.serial + 5
		return r.text(m, fmt.Sprintf("source%d", ord), ord)
	})
	loc := types.NewPointer(g.p.typ(g.p.Parser, "Locator"))
	set(loc, "LineForOffset", func(m *Machine, args []mval) mval { return args[1] })
	set(loc, "PosOnLine", func(m *Machine, args []mval) mval { return args[1] })
	for f := range g.nts {
		f := f
		m.mock[f] = func(m *Machine, args []mval) mval { return r.enter(f, args) }
	}
	return r
}

// lookInto has parts of the grammar analysed as a piece of what enters them
func (r *grun) lookInto(names ...string) {
	for _, n := range names {
		if f := r.g.ntFn[n]; f != nil {
			delete(r.m.mock, f)
		}
	}
}

// grouping shows how operators and operands are grouped
func (r *grun) grouping(v mval) string {
	m := r.m
	v = m.force(v)
	if n, ok := v.(*lnode); ok && n.real.t == nil {
		return n.name
	}
	x, ok := m.resolve(v).(miface)
	if !ok || x.t == nil {
		return r.show(v)
	}
	get := func(name string) mval {
		f := r.g.p.findMethod(x.t, r.g.p.Parser.Pkg, name)
		if f == nil {
			return nil
		}
		return m.call(f, nil, []mval{x.v})
	}
	kind := strings.TrimPrefix(shortT(x.t), "*")
	op := kind
	if o := get("Operator"); o != nil {
		op += " " + strings.Trim(r.show(o), "'")
	}
	if l, rh := get("Lhs"), get("Rhs"); l != nil && rh != nil {
		return "(" + r.grouping(l) + " " + op + " " + r.grouping(rh) + ")"
	}
	if e := get("Expr"); e != nil {
		return "(" + op + " " + r.grouping(e) + ")"
	}
	return kind
}

func (g *grammar) readerType() types.Type {
	return types.NewPointer(g.p.typ(g.p.Parser, "stringReader"))
}

// start prepares a parser that was made with the given options
func (r *grun) start(options []string) {
	g, m := r.g, r.m
	r.items, r.cur, r.pos, r.serial, r.vars, r.events = nil, -1, 0, 0, nil, nil
	r.only = map[int][]string{}
	var opts []mval
	for _, o := range options {
		c, ok := g.p.Parser.Members[o].(*ssa.NamedConst)
		if !ok {
			fatalf("option %s not found", o)
		}
		opts = append(opts, c.Value.Int64())
	}
	pi := m.call(g.p.fn(g.p.Parser, "CreateParser"), nil, []mval{opts}).(miface)
	r.ctx = pi.v.(*mval)
	s := (*r.ctx).(mstruct)
	loc := new(mval)
	*loc = m.zero(g.p.typ(g.p.Parser, "Locator"))
	s[g.fLocator] = loc
	s[g.fNames] = []mval{"ns"}
	s[g.fDefs] = []mval{}
	r.nctx = &nodeCtx{types: g.types, labels: g.tlab, locator: func() mval { return loc }, vars: &r.vars, text: r.text, asked: map[string]bool{}, only: g.only}
}

// extract follows all paths through one part of the grammar
func (r *grun) extract(name string, options []string, first []string, limit int) (leaves []gleaf, over bool) {
	f := r.g.ntFn[name]
	real := r.m.mock[f]
	if real == nil {
		real = func(m *Machine, args []mval) mval { // called again, it is looked into again
			g := r.m.mock[f]
			delete(r.m.mock, f)
			defer func() { r.m.mock[f] = g }()
			return r.m.call(f, nil, args)
		}
	}
	r.self = f
	n := 0
	r.m.explore(func() {
		n++
		if n > limit {
			over = true
			return
		}
		leaves = append(leaves, r.one(func() mval {
			r.start(options)
			for k, v := range r.fixed {
				r.only[k] = v
			}
			if r.ready != nil {
				r.ready()
			}
			r.top = name == "Parse"
			r.token()
			if first != nil {
				r.narrow(r.items[0].kind, first)
			}
			r.setCurrent(0)
			// the first call is the one that is looked into
			entered := false
			r.m.mock[f] = func(m *Machine, args []mval) mval {
				if !entered {
					entered = true
					g := r.m.mock[f]
					delete(r.m.mock, f)
					defer func() { r.m.mock[f] = g }()
					return r.inside(f, args, real)
				}
				return real(m, args)
			}
			args := []mval{r.ctx}
			if name == "Parse" {
				r.items, r.cur, r.pos = nil, -1, 0
				r.serial, r.events, r.vars = 0, nil, nil
				single := newSymVar("single", 0, []string{"false", "true"})
				r.vars = append(r.vars, single)
				args = append(args, "f", "«source»", &dep{single, []mval{false, true}})
			} else if name == "parse" {
				args = append(args, r.g.kind("Rc").value, r.single)
			}
			return r.m.call(f, nil, args)
		}))
	})
	r.m.mock[f] = real
	return leaves, over
}

// inside interprets the part itself: calls of the same part from there are replaced
func (r *grun) inside(f *ssa.Function, args []mval, real func(m *Machine, args []mval) mval) mval {
	x := r.m.sh.fn(f)
	r.m.mock[f] = real
	fr := &mframe{x: x, regs: make([]mval, x.nreg)}
	for i, p := range x.params {
		fr.regs[p] = args[i]
	}
	if x.defers {
		r.m.runDeferring(fr)
	} else {
		r.m.runBlocks(fr, 0)
	}
	return fr.result
}

func (r *grun) one(f func() mval) (lf gleaf) {
	lf.facets = map[string]string{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.m.depth = 0
				r.m.rec = nil
				switch x := e.(type) {
				case *mpanic:
					if x.at != nil {
						lf.at = r.g.p.pos(x.at.Pos())
					}
					if x.runtime != "" {
						lf.facets["tree"] = "PANIC " + x.runtime
						lf.facets["panic"] = x.runtime
						return
					}
					r.errorFacets(&lf, x.v)
				case mlimit:
					if x.what == "bound" {
						lf.bounded = true
						lf.facets["tree"] = "..."
					} else {
						lf.facets["tree"] = "ENDLESS " + x.what
						lf.facets["endless"] = x.what
					}
				case munsupported:
					lf.facets["tree"] = "UNDECIDED " + x.what
					lf.facets["undecided"] = x.what
				case runtime.Error:
					lf.facets["tree"] = "UNDECIDED"
					lf.facets["undecided"] = "the analysis failed: " + x.Error()
					if debugPanics {
						panic(e)
					}
				default:
					if r.lex != nil && e == lexDone {
						return
					}
					panic(e)
				}
			}
		}()
		v := f()
		if t, ok := v.(mtuple); ok && len(t) == 2 {
			lf.facets["tree"] = "ok"
			if e, ok := r.m.force(t[1]).(miface); ok && e.t != nil {
				r.errorFacets(&lf, e)
				if s := r.tree(t[0], new([]string), 0); s != "nil" {
					lf.facets["tree"] += " with " + s
				}
				return
			}
			v = t[0]
		}
		r.resultFacets(&lf, v)
	}()
	r.finish(&lf)
	return
}

func (r *grun) finish(lf *gleaf) {
	lf.events = append([]string{}, r.events...)
	for _, v := range r.vars {
		if r.dom == nil {
			r.dom = map[string][]string{}
		}
		if v.dom != nil {
			r.dom[v.name] = v.dom
		}
		if len(v.label) > len(r.dom[v.name]) {
			r.dom[v.name] = v.label
		}
		if len(v.alive) == v.size {
			continue
		}
		gv := gvar{name: v.name, order: v.order, size: v.size, alive: map[string]bool{}}
		for _, i := range v.alive {
			gv.alive[v.label[i]] = true
		}
		lf.vars = append(lf.vars, gv)
	}
}

func (r *grun) errorFacets(lf *gleaf, v miface) {
	m := r.m
	rep := r.g.p.iface(r.g.p.Issue, "Reported")
	if p, ok := v.t.(*types.Pointer); ok && types.Identical(p.Elem(), r.g.p.typ(r.g.p.Parser, "parseError")) {
		lf.facets["tree"], lf.facets["error"] = "error", "parseError"
		return
	}
	if !types.Implements(v.t, rep) {
		lf.facets["tree"] = "PANIC with a " + shortT(v.t)
		lf.facets["panic"] = "value of type " + shortT(v.t)
		return
	}
	meth := func(recv miface, name string, args ...mval) mval {
		f := r.g.p.findMethod(recv.t, nil, name)
		return m.call(f, nil, append([]mval{recv.v}, args...))
	}
	code := r.show(meth(v, "Code"))
	sev := r.show(meth(v, "Severity"))
	var args []string
	keys := meth(v, "Keys").([]mval)
	for _, k := range keys {
		a := meth(v, "Argument", k)
		args = append(args, m.str(k)+"="+r.show(a))
	}
	sort.Strings(args)
	loc := "nowhere"
	if l, ok := meth(v, "Location").(miface); ok && l.t != nil {
		loc = r.position(m.num(meth(l, "Line")))
		if p2 := r.position(m.num(meth(l, "Pos"))); p2 != loc {
			loc += "/" + p2
		}
	}
	lf.facets["tree"] = "error"
	lf.facets["error"] = strings.Trim(code, "'") + "(" + strings.Join(args, ", ") + ")"
	if sev != "4" && sev != "1" {
		lf.facets["severity"] = sev
	}
	lf.facets["errorpos"] = loc
	lf.facets["code"] = strings.Trim(code, "'")
}

func (r *grun) position(n int64) string {
	if r.lex != nil {
		return r.lex.position(int(n))
	}
	s, o := n/posScale, n%posScale
	if n < posScale {
		return fmt.Sprint(n)
	}
	switch {
	case o == 0:
		return fmt.Sprintf("s%d", s)
	case o == posEnd:
		return fmt.Sprintf("e%d", s)
	case o > posEnd+symLen/6:
		return fmt.Sprintf("s%d+len+%d", s, o-symLen)
	case o < posEnd:
		return fmt.Sprintf("s%d+%d", s, o)
	}
	return fmt.Sprintf("e%d+%d", s, o-posEnd)
}

func (r *grun) resultFacets(lf *gleaf, v mval) {
	s := (*r.ctx).(mstruct)
	if r.group {
		lf.facets["group"] = r.grouping(v)
		lf.facets["tree"] = "ok"
		return
	}
	var ext []string
	tree := r.tree(v, &ext, 0)
	cur := r.items[r.cur].kind.name
	if r.pos != r.items0End() {
		cur += " but the reader is at " + r.position(r.pos)
	}
	lf.facets["tree"] = tree + " then " + cur
	if defs := s[r.g.fDefs].([]mval); len(defs) > 0 {
		var ds []string
		for _, d := range defs {
			var x []string
			ds = append(ds, r.tree(d, &x, 1))
		}
		lf.facets["defs"] = strings.Join(ds, "; ")
	}
	if ns := r.show(s[r.g.fNames]); ns != "['ns']" && !r.top {
		lf.facets["defs"] += " and leaves the names " + ns
	}
	lf.facets["extents"] = strings.Join(ext, " ")
}

// show renders a plain value
func (r *grun) show(v mval) string {
	switch x := v.(type) {
	case *dep:
		return r.depText(x)
	case miface:
		if x.t == nil {
			return "nil"
		}
		return r.show(x.v)
	case string:
		if r.lex != nil {
			return showText(x)
		}
		return "'" + x + "'"
	case mtext:
		return showText(x)
	case msym:
		return x.s
	case int64:
		switch {
		case r.lex != nil:
		case x == radixVal:
			return "radix"
		case x == 901 || x == 900:
			return "int"
		case x == -901 || x == -900:
			return "-int"
		}
		return fmt.Sprint(x)
	case float64:
		if x == 1.5 {
			return "float"
		}
		if x == -1.5 {
			return "-float"
		}
		return fmt.Sprint(x)
	case bool:
		return fmt.Sprint(x)
	case []mval:
		ss := make([]string, len(x))
		for i, e := range x {
			ss[i] = r.show(e)
		}
		return "[" + strings.Join(ss, " ") + "]"
	case *lnode:
		if x.real.t == nil {
			return x.name
		}
		return x.name
	case mstruct:
		return "struct"
	case nil:
		return "nil"
	}
	return fmt.Sprintf("%T", v)
}

func (r *grun) depText(d *dep) string {
	if r.lex != nil && isCharDep(d) {
		return showChar(d)
	}
	same := true
	for _, i := range d.v.alive {
		if d.v.text || !strings.HasPrefix(d.v.name, "t") || strings.Contains(d.v.name, ".") || r.show(d.f[i]) != "'"+r.g.kinds[i].text+"'" {
			same = false
		}
	}
	if same && len(d.v.alive) > 1 {
		return "<" + d.v.name + ">"
	}
	if d.v.text {
		ident := true
		for _, i := range d.v.alive {
			if i > 0 && r.show(d.f[i]) != "'"+d.v.label[i]+"'" {
				ident = false
			}
		}
		if ident {
			return "<" + d.v.name + ">"
		}
		// a text that is made of the open text
		for _, i := range d.v.alive {
			if i == 0 {
				return r.show(d.f[0])
			}
		}
	}
	return depText(d, r.show)
}

// tree renders an expression by means of its accessors
func (r *grun) tree(v mval, ext *[]string, depth int) string {
	m := r.m
	switch x := v.(type) {
	case *dep:
		if plainDep(x) {
			return r.show(x)
		}
		return r.tree(m.force(x), ext, depth)
	case *lnode:
		pos, other := x.changed()
		if x.real.t != nil && (pos || other) {
			return r.tree(x.real, ext, depth)
		}
		if pos {
			*ext = append(*ext, x.name+":"+r.position(x.start)+"-"+r.position(x.end))
		}
		return x.name
	case miface:
		if x.t == nil {
			return "nil"
		}
		p, ok := x.v.(*mval)
		if !ok || p == nil {
			return r.show(x)
		}
		kind := strings.TrimPrefix(shortT(x.t), "*")
		call := func(name string) (mval, bool) {
			f := r.g.p.findMethod(x.t, r.g.p.Parser.Pkg, name)
			if f == nil {
				return nil, false
			}
			return m.call(f, nil, []mval{x.v}), true
		}
		n := r.nctx.made[p] // an expression that was open and is shown by its name as long as it is not changed
		pos, other := false, true
		if n != nil {
			if pos, other = n.changed(); !pos && !other {
				return n.name
			}
		}
		off, ok1 := call("ByteOffset")
		ln, ok2 := call("ByteLength")
		if ok1 && ok2 && !other {
			o, l := m.num(off), m.num(ln)
			*ext = append(*ext, n.name+":"+r.position(o)+"-"+r.position(o+l))
			return n.name
		}
		if ok1 && ok2 {
			o, l := m.num(off), m.num(ln)
			*ext = append(*ext, kind+":"+r.position(o)+"-"+r.position(o+l))
		}
		if depth > 12 {
			return "deep"
		}
		var parts []string
		shown := func(a string, ext *[]string) string {
			res, ok := call(a)
			if !ok {
				return "?"
			}
			if t, ok := res.(mtuple); ok {
				res = t[0]
			}
			return r.tree(res, ext, depth+1)
		}
		for _, a := range r.g.accessors(x.t, kind) {
			s := shown(a, ext)
			if n != nil { // only what was changed
				now := *p
				*p = n.orig
				was := shown(a, new([]string))
				*p = now
				if s != was {
					parts = append(parts, a+"="+s)
				}
				continue
			}
			if s == "?" {
				parts = append(parts, a+s)
			} else if s != "false" && s != "nil" && s != "[]" && s != "''" {
				parts = append(parts, a+"="+s)
			}
		}
		if n != nil {
			return n.name + "{" + strings.Join(parts, " ") + "}"
		}
		return kind + "{" + strings.Join(parts, " ") + "}"
	case []mval:
		ss := make([]string, len(x))
		for i, e := range x {
			ss[i] = r.tree(e, ext, depth+1)
		}
		return "[" + strings.Join(ss, " ") + "]"
	}
	return r.show(v)
}

var accessorLock sync.Mutex
var frozenAccessors map[string]string

// accessors lists the accessors of a kind of expression that the tables show
func (g *grammar) accessors(t types.Type, kind string) []string {
	accessorLock.Lock()
	defer accessorLock.Unlock()
	if a, ok := g.acc[kind]; ok {
		return a
	}
	if frozenAccessors == nil {
		frozenAccessors = map[string]string{}
		if b, err := specFS.ReadFile("spec/accessors.txt"); err == nil && !genAccessors {
			for _, l := range strings.Split(string(b), "\n") {
				if i := strings.Index(l, " => "); i > 0 {
					frozenAccessors[l[:i]] = l[i+4:]
				}
			}
		}
	}
	if a, ok := frozenAccessors[kind]; ok {
		g.acc[kind] = strings.Fields(a)
		return g.acc[kind]
	}
	ms := g.p.Prog.MethodSets.MethodSet(t)
	skip := map[string]bool{"ByteOffset": true, "ByteLength": true, "File": true, "Line": true, "Pos": true, "Locator": true, "Label": true,
		"ToDefinition": true, "ToLiteralValue": true, "ToUnaryExpression": true, "ToBinaryExpression": true, "LiteralValue": true,
		"ToQueryExpression": true, "ToBooleanExpression": true, "ToDefinitionExpression": true, "ToCallExpression": true, "ToAbstractResource": true}
	var out []string
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		sig := f.Type().(*types.Signature)
		n := f.Name()
		if rt := namedOf(sig.Recv().Type()); rt != nil && rt.Obj().Name() == "Positioned" {
			continue
		}
		if !f.Exported() || sig.Params().Len() != 0 || sig.Results().Len() == 0 || skipAccessors[n] || skip[n] || strings.HasPrefix(n, "To") {
			continue
		}
		out = append(out, n)
	}
	sort.Strings(out)
	g.acc[kind] = out
	return out
}

var genAccessors, debugPanics bool

func (r *grun) domains() map[string][]string { return r.dom }

// plainDep: whether the values are plain ones
func plainDep(d *dep) bool {
	for _, i := range d.v.alive {
		switch x := d.f[i].(type) {
		case mtext, msym, string, int64, bool, float64:
		case *dep:
			if !plainDep(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// about limits what is analysed
func (r *grun) about(how string) {
	id := []string{"Identifier"}
	switch how {
	case withState:
		r.inState()
	case withActivities:
		r.fixed = map[int][]string{1: id, 2: id, 3: {"Lc"}, 4: {"Rc"}, 5: {"Lc"}}
		r.texts = map[string]string{"t1.text": "workflow"}
	case asSingle:
		r.single = true
	}
}

// inState has a step read as a resource with one value in its state. The value is any expression; what is in it is any
// expression that is treated in a way of its own, or a number.
func (r *grun) inState() {
	id := []string{"Identifier"}
	r.fixed = map[int][]string{1: id, 2: id, 3: {"Lc"}, 4: {"Rc"}, 5: {"Lc"}, 6: id, 7: {"Farrow"}, 10: {"Rc"}}
	r.texts = map[string]string{"t1.text": "resource"}
	r.lookInto("stateAttribute")
	r.ready = func() {
		r.nctx.deeper = 1
		r.nctx.lengths = func(n *lnode) []string {
			if n.depth == 0 {
				return []string{"0", "1", "2"}
			}
			return []string{"0", "1"}
		}
		r.nctx.closer = func(parent, x *lnode, field string, i int) {
			var want []string
			switch {
			case parent.label() == "VariableExpression":
				if want = []string{"QualifiedName"}; parent.depth == 0 {
					want = append(want, "LiteralInteger") // what the parser makes a variable of
				}
			case strings.HasPrefix(parent.label(), "Call") && !strings.Contains(x.name, "["):
				if parent.depth == 0 {
					return
				}
				want = []string{"QualifiedName", "QualifiedReference", "LiteralInteger"}
			case parent.depth == 0 && i == 0:
				want = []string{"LiteralList", "LiteralHash", "KeyedEntry", "CallNamedFunctionExpression", "VariableExpression", "LiteralInteger"}
			default:
				want = []string{"VariableExpression", "LiteralInteger"}
			}
			r.narrow(x.kind, want)
		}
	}
}
