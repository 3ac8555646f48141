package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// pnLibrary gives the conversions and the text of each kind of PN whose elements are opaque
func (n *nodes) pnLibrary(got map[string]string) {
	c := n.c
	r := n.newRun()
	m := r.m
	bt := types.NewPointer(n.p.bufferType())
	elem := func(name string) mval { return r.newOpaque(name) }
	text := func(x miface) string {
		b := new(mval)
		*b = m.zero(n.p.bufferType())
		m.call(n.p.method(bt, "WriteString"), nil, []mval{b, "before "})
		m.call(m.invokeName(x, "Format"), nil, []mval{x.v, b})
		s, ok := m.call(n.p.method(bt, "String"), nil, []mval{b}).(string)
		if !ok || !strings.HasPrefix(s, "before ") {
			return "replaces what was written before: " + s
		}
		return s[len("before "):]
	}
	run := func(f func() string) (s string) {
		m.explore(func() {
			r.start()
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(*mpanic); !ok {
						panic(e)
					}
					s = "PANIC"
				}
			}()
			s = f()
		})
		return
	}
	describe := func(label string, mk func() miface) {
		got[label+" Format"] = run(func() string { return text(mk()) })
		got[label+" String"] = run(func() string {
			x := mk()
			return m.str(m.call(m.invokeName(x, "String"), nil, []mval{x.v}))
		})
		got[label+" ToData"] = run(func() string {
			x := mk()
			return r.data(m.call(m.invokeName(x, "ToData"), nil, []mval{x.v}), 0)
		})
		got[label+" AsCall"] = run(func() string {
			x := mk()
			return text(m.call(m.invokeName(x, "AsCall"), nil, []mval{x.v, "fn"}).(miface))
		})
		got[label+" AsParameters"] = run(func() string {
			x := mk()
			var s []string
			for _, e := range m.call(m.invokeName(x, "AsParameters"), nil, []mval{x.v}).([]mval) {
				s = append(s, text(e.(miface)))
			}
			return "[" + strings.Join(s, ", ") + "]"
		})
		got[label+" WithName"] = run(func() string {
			x := mk()
			e := m.call(m.invokeName(x, "WithName"), nil, []mval{x.v, "key"}).(miface)
			return m.str(m.call(m.invokeName(e, "Key"), nil, []mval{e.v})) + " " + text(m.call(m.invokeName(e, "Value"), nil, []mval{e.v}).(miface))
		})
	}
	entry := func(key, val string) mval {
		x := elem(val).(miface)
		return m.call(m.invokeName(x, "WithName"), nil, []mval{x.v, key})
	}
	for k := 0; k <= nodeLists; k++ {
		k := k
		elems := func() (es []mval) {
			for i := 0; i < k; i++ {
				es = append(es, elem("x"+itoa(i)))
			}
			return
		}
		describe("List of "+itoa(k), func() miface { return m.call(n.listFn, nil, []mval{elems()}).(miface) })
		for _, nm := range []string{"name", "=>"} {
			nm := nm
			describe("Call of "+strings.Replace(nm, "=>", "an arrow", 1)+" with "+itoa(k), func() miface {
				return m.call(n.p.fn(n.p.PN, "Call"), nil, []mval{nm, elems()}).(miface)
			})
		}
		describe("Map of "+itoa(k), func() miface {
			var es []mval
			for i := 0; i < k; i++ {
				es = append(es, entry("k"+itoa(i), "x"+itoa(i)))
			}
			return m.call(n.p.fn(n.p.PN, "Map"), nil, []mval{es}).(miface)
		})
	}
	// the same key twice
	describe("Map with the same key twice", func() miface {
		return m.call(n.p.fn(n.p.PN, "Map"), nil, []mval{[]mval{entry("k", "x0"), entry("k", "x1")}}).(miface)
	})
	// the keys of maps
	pos := n.p.pos(n.p.fn(n.p.PN, "Map").Pos())
	words := append([]string{}, n.words...)
	for b := 0; b < 256; b++ {
		words = append(words, string(rune(b)), "a"+string(rune(b)), "a"+string(rune(b))+"b")
	}
	for _, w := range words {
		w := w
		s := run(func() string {
			return text(m.call(n.p.fn(n.p.PN, "Map"), nil, []mval{[]mval{entry(w, "x")}}).(miface))
		})
		want := "PANIC"
		if isKey(w) {
			want = "{:" + w + " ‹x›}"
		}
		c.obligation(s == want, "key", strconv.Quote(w), pos, "the map with that key is %s rather than %s", s, want)
	}
	// literals
	lit := func(t types.Type, v mval, want string) {
		label := fmt.Sprintf("%s %v", t, v)
		s := run(func() string { return text(m.call(n.litFn, nil, []mval{miface{t, v}}).(miface)) })
		c.obligation(s == want, "literal", label, n.p.pos(n.litFn.Pos()), "the text of the literal is %s rather than %s", s, want)
		d := run(func() string {
			x := m.call(n.litFn, nil, []mval{miface{t, v}}).(miface)
			y, ok := m.call(m.invokeName(x, "ToData"), nil, []mval{x.v}).(miface)
			if !ok || y.t == nil || !types.Identical(y.t, t) {
				return "another type"
			}
			return fmt.Sprint(y.v)
		})
		c.obligation(d == fmt.Sprint(v), "literal data", label, n.p.pos(n.litFn.Pos()), "the data of the literal is %s", d)
	}
	for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64} {
		bits := map[types.BasicKind]uint{types.Int: 64, types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Uint: 64, types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64}[k]
		vs := []int64{0, 1, 7, 10, 65, 100, 127}
		if unsigned(k) {
			if bits < 64 {
				vs = append(vs, 1<<bits-1)
			}
		} else {
			vs = append(vs, -1, -10, -1<<(bits-1), 1<<(bits-1)-1)
		}
		for _, v := range vs {
			lit(types.Typ[k], v, strconv.FormatInt(v, 10))
		}
	}
	for _, b := range []bool{false, true} {
		lit(types.Typ[types.Bool], b, strconv.FormatBool(b))
	}
	describe("Literal nil", func() miface { return m.call(n.litFn, nil, []mval{miface{}}).(miface) })
	chars := []string{"", "ab", "a\"b", "\u0080", "\u00e9", "\u2028", "\ufffd", "\U0010ffff", "a\\", "\\n", "\t\t", "\"\"", "\x1b[0m", "$x", "${x}", "'", "\x7f"}
	for i := 0; i < 128; i++ {
		chars = append(chars, string(rune(i)), "a"+string(rune(i))+"7")
	}
	dq := n.p.fn(n.p.PN, "DoubleQuote")
	for _, s := range chars {
		s := s
		want := quotedPN(s)
		x := run(func() string {
			b := new(mval)
			*b = m.zero(n.p.bufferType())
			m.call(dq, nil, []mval{s, b})
			return m.str(m.call(n.p.method(bt, "String"), nil, []mval{b}))
		})
		c.obligation(x == want, "quoted", strconv.Quote(s), n.p.pos(dq.Pos()), "the text is %s rather than %s", x, want)
		lit(types.Typ[types.String], s, want)
	}
	// issues
	rp := n.p.fn(n.p.PN, "ReportedToPN")
	got["ReportedToPN"] = run(func() string {
		ctx := &nodeCtx{types: []types.Type{types.NewPointer(types.Typ[types.Int])}, vars: &[]*symVar{}, asked: map[string]bool{}, labels: []string{"issue"}}
		ctx.answer = func(m *Machine, l *lnode, name string) mnativeCall {
			v, ok := map[string]mval{"Code": "THE_CODE", "Severity": int64(3), "Error": "the \"message\""}[name]
			if !ok {
				return nil
			}
			return func(m *Machine, args []mval) mval { return v }
		}
		return text(m.call(rp, nil, []mval{ctx.node("issue", 0, 0, 0, 0)}).(miface))
	})
}

// isKey tells if a word can be the key of a map
func isKey(s string) bool {
	for i, c := range s {
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '-'
		if !letter && !(i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return s != ""
}

// quotedPN is the documented text of a string
func quotedPN(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '\t':
			b.WriteString("\\t")
		case c == '\n':
			b.WriteString("\\n")
		case c == '\r':
			b.WriteString("\\r")
		case c == '"' || c == '\\':
			b.WriteString("\\" + string(c))
		case c < 32:
			b.WriteString("\\o0" + string(rune('0'+c/8)) + string(rune('0'+c%8)))
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// ---- traversal

func checkVisits(c *Check) {
	n := newNodes(c)
	got, at := map[string]string{}, map[string]string{}
	leaves := 0
	var results []*visitResult
	for _, ct := range n.p.ctors() {
		results = append(results, n.visitTable(ct.name, n.p.pos(ct.fn.Pos()), false))
	}
	for i, k := range n.kinds {
		if k != nil && n.ctorOf[n.labels[i]] == "" {
			results = append(results, n.visitTable(n.labels[i], n.p.pos(namedOf(k).Obj().Pos()), true))
		}
	}
	for _, r := range results {
		leaves += r.leaves
		for k, m := range r.bad {
			c.obligation(false, k, r.name, r.pos, "%s", m)
		}
		c.obligation(len(r.bad) == 0, "visits", r.name, r.pos, "the traversal is not as required")
		c.obl += r.visits
		c.ok += r.visits
		for k, o := range r.rows {
			got[k], at[k] = o, r.pos
		}
	}
	c.count("visits", leaves)
	c.atLeast("paths through the traversals", leaves, 300)
	c.table("traversal", got, func(k string) string { return at[k] })
}

type visitResult struct {
	name, pos      string
	rows           map[string]string
	bad            map[string]string
	leaves, visits int
}

type visit struct {
	who  string
	path string
}

// bare makes a node of a kind that no factory method makes
func (r *nrun) bare(t types.Type) miface {
	c := new(mval)
	st := t.(*types.Pointer).Elem()
	*c = r.m.zero(st)
	var fill func(s mstruct, st *types.Struct)
	fill = func(s mstruct, st *types.Struct) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if u, ok := f.Type().Underlying().(*types.Struct); ok {
				if sub, ok := s[i].(mstruct); ok {
					fill(sub, u)
				}
				continue
			}
			if v, ok := r.makeArg("", f.Name(), f.Type(), "self", 0); ok {
				s[i] = v
			}
		}
	}
	fill((*c).(mstruct), st.Underlying().(*types.Struct))
	r.made[c] = "self"
	return miface{t, c}
}

// subject makes the node that is looked at
func (r *nrun) self(name string, bare bool) miface {
	if bare {
		return r.bare(r.n.kinds[r.n.index[name]])
	}
	return r.construct(name, "self", 0, nil)
}

func (r *nrun) nodeName(v mval) string {
	switch x := v.(type) {
	case *lnode:
		if x.isNil(r.m) {
			return "absent " + x.name
		}
		return x.name
	case miface:
		if x.t == nil {
			return "nil"
		}
		if n, ok := r.made[x.v.(*mval)]; ok {
			return n
		}
	case *dep:
		return r.nodeName(r.m.force(x))
	}
	return "another value"
}

func (r *nrun) traverse(x miface, method string, above int) (vs []visit) {
	r.nctx.vars = &[]*symVar{}
	path := make([]mval, 0, above)
	for i := 0; i < above; i++ {
		p := r.nctx.node("p"+itoa(i), 0, 0, 1, levelMax)
		p.kind.alive = []int{r.n.index["Nop"]}
		path = append(path, p)
	}
	r.nctx.vars = &r.vars
	visitor := mnativeCall(func(m *Machine, args []mval) mval {
		var ps []string
		l, _ := args[0].([]mval)
		for _, p := range l {
			ps = append(ps, r.nodeName(p))
		}
		vs = append(vs, visit{r.nodeName(args[1]), strings.Join(ps, " ")})
		return nil
	})
	r.m.call(r.m.invokeName(x, method), nil, []mval{x.v, path, visitor})
	return
}

func (n *nodes) visitTable(name, pos string, bare bool) *visitResult {
	r := n.newRun()
	res := &visitResult{name: name, pos: pos, bad: map[string]string{}}
	bad := func(rule, f string, a ...interface{}) {
		if res.bad[rule] == "" {
			res.bad[rule] = fmt.Sprintf(f, a...)
		}
	}
	one := func() {
		r.start()
		x := r.self(name, bare)
		above := r.m.split(r.variable("nodes above", []string{"0", "1", "2"}), func(i int) interface{} { return i })
		base := []string{"p0", "p1"}[:above]
		in := func(s ...string) string { return strings.Join(append(append([]string{}, base...), s...), " ") }
		var deep, shallow []visit
		func() {
			defer func() {
				if e := recover(); e != nil {
					if p, ok := e.(*mpanic); ok {
						bad("panics", "the traversal panics: %s, with %s", p.runtime, strings.Join(describeVars(r.vars), " "))
					}
					panic(e)
				}
			}()
			deep = r.traverse(x, "AllContents", above)
			shallow = r.traverse(x, "Contents", above)
		}()
		res.leaves++
		var tops []string
		seen := map[string]int{}
		for i := 0; i < len(deep); {
			v := deep[i]
			i++
			res.visits++
			tops = append(tops, v.who)
			seen[v.who]++
			if v.path != in("self") {
				bad("path", "%s is visited with the path %q rather than %q", v.who, v.path, in("self"))
			}
			if v.who == "self within" {
				for i+1 < len(deep) && deep[i].path == in("self", "self within") {
					seen[deep[i].who]++
					if deep[i+1] != (visit{deep[i].who + ".in", in("self", "self within", deep[i].who)}) {
						bad("descend", "what %s contains is not visited directly after it", deep[i].who)
					}
					i += 2
				}
				continue
			}
			if i >= len(deep) || deep[i] != (visit{v.who + ".in", in("self", v.who)}) {
				bad("descend", "what %s contains is not visited, with the path that ends with it, directly after it", v.who)
				continue
			}
			i++
		}
		if r.inner[x.v.(*mval)].t != nil {
			seen["self within"]--
		}
		var parts []string
		var collect func(a narg)
		collect = func(a narg) {
			switch v := a.v.(type) {
			case []mval:
				for i, e := range v {
					collect(narg{fmt.Sprintf("%s[%d]", a.name, i), e})
				}
			case *lnode:
				if r.present(v) {
					parts = append(parts, v.name)
				}
			}
		}
		for _, a := range r.args["self"] {
			if pnOmitted[name+"."+a.name] == "" || name != "Program" {
				collect(a)
			}
		}
		for _, p := range parts {
			if seen[p] != 1 {
				bad("child", "%s is visited %d times when it is present", p, seen[p])
			}
			delete(seen, p)
		}
		for p, k := range seen {
			if k != 0 {
				bad("child", "%s is visited, which is no present part", p)
			}
		}
		var sh []string
		for _, v := range shallow {
			sh = append(sh, v.who)
			if v.path != in("self") {
				bad("path", "%s is visited with the path %q rather than %q", v.who, v.path, in("self"))
			}
		}
		if strings.Join(sh, " ") != strings.Join(tops, " ") {
			bad("same order", "the shallow traversal visits %v, the deep one %v", sh, tops)
		}
		r.reports = []string{strings.Join(sh, " ")}
	}
	res.rows = n.vtree.table(name, r.vrun, one)
	if bare {
		res.rows = nil
	}
	for k, o := range res.rows {
		if strings.Contains(o, "PANIC") {
			delete(res.rows, k)
		}
	}
	return res
}
