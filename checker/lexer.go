package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Extraction of the lexer. The lexer's code, with the reader below it, is interpreted over a source whose characters
// are open: each is a variable that is split only where the code tells characters apart. Expressions inside of strings are
// replaced by an unknown expression that takes up an unknown piece of the source.

type ltask struct {
	name   string
	group  string // the property that it belongs to
	prefix string // the source starts with this
	alpha  string // labels of the characters that follow, all when empty
	suffix string // what follows these, when it is not the end
	opts   string
	simple bool // the lexer without interpolation
	before bool // the token before is open
	wide   bool // one character may be wider than a byte
	tokens int  // so many tokens are read, all when 0
	limit  int  // paths
	deeper int  // how much deeper interpolated expressions are looked into
}

const gapSize = 100

type lexRun struct {
	*grun
	task   ltask
	src    *source
	depth  int
	again  int
	nested bool // the first token of a nested expression was read
	toks   []string
	ext    []string
	alpha  []int
	names  map[string]int
	epp    *ssa.Function
}

type lexDoneType struct{}

var lexDone = lexDoneType{}

func newLexRun(g *grammar, t ltask, bound int) *lexRun {
	r := newRun(g, bound)
	l := &lexRun{grun: r, task: t}
	r.lex = l
	m := r.m
	rt := g.readerType()
	for _, n := range []string{"Pos", "SetPos", "Advance", "Next", "PeekAt", "Text", "From", "Peek"} {
		if f := g.p.findMethod(rt, g.p.Parser.Pkg, n); f != nil {
			delete(m.mock, f)
		}
	}
	m.newVar = func(order int, name string, labels []string) *symVar {
		l.names[name]++
		if n := l.names[name]; n > 1 {
			name = fmt.Sprintf("%s#%d", name, n)
		}
		v := newSymVar(name, order, labels)
		r.vars = append(r.vars, v)
		return v
	}
	m.mock[g.nextTok] = func(m *Machine, args []mval) mval {
		if l.depth == 0 {
			l.drive(g.nextTok, args)
		}
		if l.inBrace() {
			l.nested = true
			return nil
		}
		return l.real(g.nextTok, args)
	}
	delete(m.mock, l.epp)
	delete(m.mock, g.ntFn["Parse"])
	for f, n := range g.nts {
		if n != "Parse" {
			n := n
			m.mock[f] = func(m *Machine, args []mval) mval { return l.gap(n, args) }
		}
	}
	if t.alpha != "" {
		in := map[string]bool{}
		for _, lab := range strings.Fields(t.alpha) {
			if i := strings.Index(lab, ".."); i > 0 {
				for c := lab[0]; c <= lab[len(lab)-1]; c++ {
					in[charLabel(rune(c))] = true
				}
				continue
			}
			in[lab] = true
		}
		for i, lab := range charLabels {
			if in[lab] {
				l.alpha = append(l.alpha, i)
				delete(in, lab)
			}
		}
		for lab := range in {
			panic("no character " + lab)
		}
	}
	return l
}

// real interprets a function that has a mock
func (l *lexRun) real(f *ssa.Function, args []mval) mval {
	m := l.m
	x := m.sh.fn(f)
	fr := &mframe{x: x, regs: make([]mval, x.nreg)}
	for i, p := range x.params {
		fr.regs[p] = args[i]
	}
	m.depth++
	if m.depth > 400 {
		panic(mlimit{"recursion does not end"})
	}
	if x.defers {
		m.runDeferring(fr)
	} else {
		m.runBlocks(fr, 0)
	}
	m.depth--
	return fr.result
}

func (l *lexRun) method(name string, args ...mval) mval {
	f := l.g.p.findMethod(l.g.readerType(), l.g.p.Parser.Pkg, name)
	st := (*l.ctx).(mstruct)
	i := l.g.readerField()
	return l.m.call(f, nil, append([]mval{&st[i]}, args...))
}

func (g *grammar) readerField() int {
	st := structOf(g.ctxType)
	for i := 0; i < st.NumFields(); i++ {
		if shortT(st.Field(i).Type()) == "stringReader" {
			return i
		}
	}
	fatalf("the reader of the parser was not found")
	return 0
}

// inBrace: the character before is an opening brace of an interpolation
func (l *lexRun) inBrace() bool {
	pos := int(l.m.num(l.method("Pos")))
	if pos < 2 {
		return false
	}
	a, b := l.src.find(pos-2), l.src.find(pos-1)
	is := func(it *sitem, c rune) bool {
		if it == nil {
			return false
		}
		n, ok := charVal(it.v).(int64)
		return ok && n == int64(c)
	}
	return is(a, '$') && is(b, '{')
}

// drive reads tokens
func (l *lexRun) drive(f *ssa.Function, args []mval) {
	m, g := l.m, l.g
	l.ctx = args[0].(*mval)
	st := (*l.ctx).(mstruct)
	l.depth++
	if l.task.before {
		lab := make([]string, 0, len(g.kinds))
		vals := make([]mval, 0, len(g.kinds))
		for _, k := range g.kinds {
			if !k.num {
				lab = append(lab, k.label)
				vals = append(vals, k.value)
			}
		}
		v := newSymVar("before", 1, lab)
		l.vars = append(l.vars, v)
		st[g.fKind] = &dep{v, vals}
	}
	for n := 0; ; n++ {
		l.real(f, args)
		f = g.nextTok
		k := m.num(st[g.fKind])
		lab := fmt.Sprint(k)
		for _, kd := range g.kinds {
			if kd.value == k && !kd.num {
				lab = kd.label
			}
		}
		var ext []string
		s := lab
		if v, ok := m.force(st[g.fValue]).(miface); ok && v.t != nil {
			s += " " + shortT(v.t) + " " + l.tree(v, &ext, 0)
		}
		if lab == "Integer" && g.fRadix >= 0 {
			s += " radix " + fmt.Sprint(m.num(st[g.fRadix]))
		}
		s += " @" + l.position(int(m.num(l.method("Pos"))))
		l.toks = append(l.toks, s)
		e := lab + ":" + l.position(int(m.num(st[g.fStart])))
		if len(ext) > 0 {
			e += " " + strings.Join(ext, " ")
		}
		l.ext = append(l.ext, e)
		if lab == "End" || l.task.tokens > 0 && n+1 >= l.task.tokens {
			break
		}
		if n > endReads {
			panic(mlimit{"it reads tokens again and again"})
		}
	}
	panic(lexDone)
}

// gap is a nested expression
func (l *lexRun) gap(name string, args []mval) mval {
	m, g := l.m, l.g
	st := (*l.ctx).(mstruct)
	pos := int(m.num(l.method("Pos")))
	lab := "<" + name
	end := int64(-1)
	if name == "parse" {
		end = m.num(args[1])
		for _, k := range g.kinds {
			if k.value == end {
				lab += " " + k.label
			}
		}
		lab += fmt.Sprintf(" %v", m.bool(args[2]))
	}
	if !l.nested {
		lab += " without the first token"
	}
	l.nested = false
	if l.src.find(pos) != nil {
		// the text of the expression was read before: it goes up to the next closing brace
		lo := pos
		for {
			if !l.src.has(m, pos) {
				l.toks = append(l.toks, lab+" unterminated>")
				panic(lexDone)
			}
			it := l.src.find(pos)
			if _, ok := it.v.(msym); ok {
				panic(munsupported{"an expression is read again"})
			}
			c := m.bool(m.charEqual(charVal(it.v), int64('}')))
			pos += l.src.size(m, it)
			if c {
				break
			}
		}
		l.method("SetPos", int64(pos))
		st[g.fKind], st[g.fValue], st[g.fStart] = end, miface{}, int64(pos-1)
		l.again++
		n := l.nctx.node(fmt.Sprintf("r%d", l.again), 10*l.serial+1, int64(lo), int64(pos-1), 0)
		l.exclude(n.kind, "commaSeparatedList")
		l.toks = append(l.toks, lab+">")
		return n
	}
	// what is before was read
	if l.serial >= l.bound {
		panic(mlimit{"bound"})
	}
	l.serial++
	s := l.serial
	l.events = append(l.events, lab+">")
	l.src.items = append(l.src.items, &sitem{pos: pos, size: gapSize, v: msym{fmt.Sprintf("e%d", s)}, serial: s})
	sort.Slice(l.src.items, func(i, j int) bool { return l.src.items[i].pos < l.src.items[j].pos })
	l.method("SetPos", int64(pos+gapSize))
	st[g.fKind], st[g.fValue], st[g.fStart] = end, miface{}, int64(pos+gapSize-1)
	n := l.nctx.node(fmt.Sprintf("e%d", s), 10*s, int64(pos), int64(pos+gapSize-1), 0)
	l.exclude(n.kind, "commaSeparatedList")
	return n
}

// make makes an open character
func (l *lexRun) make(pos int) *sitem {
	s := l.serial + 1
	if s > l.bound+len(l.task.suffix)+1 {
		panic(mlimit{"the source is read beyond its end"})
	}
	l.serial = s
	l.events = append(l.events, "c")
	if k := s - l.bound - 1; k >= 0 && k < len(l.task.suffix) {
		return &sitem{pos: pos, size: 1, v: int64(l.task.suffix[k]), serial: s}
	}
	v := newSymVar(fmt.Sprintf("c%d", s), 10*s, charLabels)
	in := l.alpha
	if s > l.bound {
		in = []int{0} // sources of this length are looked at
	} else if in == nil {
		for i := range charLabels {
			if i <= lastASCII || l.src.wide {
				in = append(in, i)
			}
		}
	} else if l.src.wide && s <= l.bound {
		in = append(append([]int{}, in...), 129, 130)
	}
	if l.task.suffix != "" && s <= l.bound {
		for len(in) > 0 && in[0] == 0 {
			in = in[1:]
		}
	}
	v.alive = append([]int{}, in...)
	v.size = len(in)
	for _, i := range in {
		v.dom = append(v.dom, charLabels[i])
	}
	l.vars = append(l.vars, v)
	d := &dep{v, make([]mval, len(charLabels))}
	for i := range charLabels {
		d.f[i] = charOf(i)
	}
	it := &sitem{pos: pos, v: d, sv: v, serial: s}
	if !l.src.wide {
		it.size = 1
	}
	return it
}

// position tells after how many characters a position is
func (l *lexRun) position(n int) string {
	k, p := 0, 0
	for _, it := range l.src.items {
		sz := it.size
		if sz == 0 && it.sv.alive[len(it.sv.alive)-1] <= lastASCII {
			sz = 1
		}
		if it.pos > p || it.pos+sz > n {
			break
		}
		if it.sv != nil && len(it.sv.alive) == 1 && it.sv.alive[0] == 0 {
			break
		}
		if sz == 0 {
			break
		}
		p = it.pos + sz
		k++
	}
	if p == n {
		return fmt.Sprint(k)
	}
	return fmt.Sprintf("%d%+d", k, n-p)
}

// prepare makes a source and what reads it
func (l *lexRun) run() (lf gleaf) {
	g, m := l.g, l.m
	l.items, l.cur, l.pos, l.serial, l.vars, l.events = nil, -1, 0, 0, nil, nil
	l.only = map[int][]string{}
	l.toks, l.ext, l.depth, l.again, l.nested = nil, nil, 0, 0, false
	l.names = map[string]int{}
	l.src = &source{end: -1, wide: l.task.wide, make: l.make}
	pos := 0
	for _, c := range l.task.prefix {
		n := utf8.RuneLen(c)
		l.src.items = append(l.src.items, &sitem{pos: pos, size: n, v: int64(c)})
		pos += n
	}
	l.nctx = &nodeCtx{types: g.types, labels: g.tlab, locator: func() mval { return (*l.ctx).(mstruct)[g.fLocator] }, vars: &l.vars, text: l.text, asked: map[string]bool{}, deeper: l.task.deeper, only: g.only}
	lf = l.one(func() mval {
		whole := srcRange{l.src, 0}
		if l.task.simple {
			x := m.call(g.p.fn(g.p.Parser, "NewSimpleLexer"), nil, []mval{"f", whole}).(miface)
			defer func() {
				if e := recover(); e != nil {
					l.m.rec = nil
					panic(e)
				}
			}()
			m.call(g.p.findMethod(x.t, g.p.Parser.Pkg, "NextToken"), nil, []mval{x.v})
			return nil
		}
		var opts []mval
		for _, o := range strings.Fields(l.task.opts) {
			if o == "CreatePspecParser" {
				continue
			}
			c, ok := g.p.Parser.Members[o].(*ssa.NamedConst)
			if !ok {
				fatalf("option %s not found", o)
			}
			opts = append(opts, c.Value.Int64())
		}
		var pi miface
		if l.task.opts == "CreatePspecParser" {
			pi = m.call(g.p.fn(g.p.Parser, l.task.opts), nil, nil).(miface)
		} else {
			pi = m.call(g.p.fn(g.p.Parser, "CreateParser"), nil, []mval{opts}).(miface)
		}
		l.ctx = pi.v.(*mval)
		if strings.Contains(l.task.opts, "EppMode") {
			// text comes first
			m.mock[l.epp] = func(m *Machine, args []mval) mval {
				if l.depth == 0 {
					l.drive(l.epp, args)
				}
				return l.real(l.epp, args)
			}
		}
		return m.call(g.ntFn["Parse"], nil, []mval{l.ctx, "f", whole, false})
	})
	for n := len(lf.events); n > 0 && lf.events[n-1] == "c"; n-- {
		used := false
		for _, v := range lf.vars {
			used = used || v.order/10 == n
		}
		if used {
			break
		}
		lf.events = lf.events[:n-1]
	}
	end := ""
	switch {
	case lf.bounded:
		end = "..."
		l.toks, l.ext = nil, nil
	case lf.facets["panic"] != "":
		end = "PANIC " + lf.facets["panic"]
	case lf.facets["error"] != "":
		end = lf.facets["code"]
		if end == "" {
			end = lf.facets["error"]
		}
	case lf.facets["endless"] != "":
		end = "ENDLESS " + lf.facets["endless"]
	case lf.facets["undecided"] != "":
		end = "UNDECIDED " + lf.facets["undecided"]
	}
	all := append([]string{}, l.toks...)
	if end != "" {
		all = append(all, end)
	}
	lf.facets["tokens"] = strings.Join(all, " ; ")
	lf.facets["extents"] = strings.Join(l.ext, " ; ")
	return
}

func (g *grammar) runLexer(t ltask, bound, limit int) (res gresult) {
	res.bound = bound
	defer func() {
		if e := recover(); e != nil {
			if fe, ok := e.(*fatalError); ok {
				res.broken = fe.msg
				return
			}
			if u, ok := e.(munsupported); ok {
				res.broken = u.what
				return
			}
			panic(e)
		}
	}()
	if g.ntFn["Parse"] == nil || g.ntFn["parse"] == nil && !t.simple {
		res.broken = "the part parse was not found"
		return
	}
	l := newLexRun(g, t, bound)
	l.epp = g.eppFn()
	if strings.Contains(t.opts, "EppMode") && l.epp == nil {
		res.broken = "the function that reads text was not found"
		return
	}
	delete(l.m.mock, l.epp)
	n := 0
	l.m.explore(func() {
		n++
		if n > limit {
			res.over = true
			return
		}
		res.leaves = append(res.leaves, l.run())
	})
	res.dom = l.domains()
	return
}

func (g *grammar) eppFn() *ssa.Function {
	return g.part("consumeEPP")
}
