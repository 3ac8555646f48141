package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Which expressions have a literal value, and which value.

// literalPart makes the parts of an expression. Those of the expression itself can be of all kinds.
func (r *nrun) literalPart(ctor, pn string, pt types.Type, at string, level int) (mval, bool) {
	name := pn
	if at != "self" {
		name = at + "." + ctor + "." + pn
	}
	note := func(v mval) (mval, bool) {
		r.args[at] = append(r.args[at], narg{name, v})
		return v, true
	}
	part := func(name string, pt types.Type, further bool) mval {
		var ks []string
		switch {
		case level == 0 && !further:
			if ks, _ = lookupParam(childKinds, ctor, pn); ctor != "Hash" {
				ks = r.t.plain
			}
		case ctor == "Hash" && pn == "entries":
			ks = []string{"KeyedEntry"}
		case further:
			ks = []string{"LiteralString", "Nop"}
		case ctor == "KeyedEntry" && strings.Contains(name, "[1]"):
			ks = []string{"LiteralString", "Nop"}
		case ctor == "KeyedEntry" && level == 1 && !strings.Contains(name, "[1]"):
			ks = r.t.plain
		case level <= 2:
			ks = []string{"LiteralString", "LiteralInteger", "LiteralList", "LiteralUndef", "Nop"}
		default:
			ks = []string{"LiteralString", "Nop"}
		}
		var fit []string
		for _, l := range ks {
			if l == "nil" || r.m.assignable(r.t.kinds[r.t.index[l]], pt) {
				fit = append(fit, l)
			}
		}
		return r.open(name, level+1, fit)
	}
	switch u := pt.Underlying().(type) {
	case *types.Interface:
		if isExpressionIface(pt) {
			return note(part(name, pt, false))
		}
	case *types.Slice:
		if !isExpressionIface(u.Elem()) {
			return nil, false
		}
		max := 2
		if level >= 2 {
			max = 1
		}
		var lab []string
		for i := 0; i <= max; i++ {
			lab = append(lab, itoa(i))
		}
		n := r.m.split(r.variable(name, lab), func(i int) interface{} { return i })
		l := make([]mval, 0, n)
		for i := 0; i < n; i++ {
			l = append(l, part(fmt.Sprintf("%s[%d]", name, i), u.Elem(), i > 0))
		}
		return note(l)
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return note(r.choice(name, []string{"a", "b"}))
		}
	}
	if u, ok := pt.Underlying().(*types.Basic); ok && u.Kind() != types.String && pn != "offset" && pn != "length" {
		if v, ok := r.makeArg1(ctor, pn, name, pt, "self", level); ok {
			return note(v)
		}
	}
	return nil, false
}

// literal renders a literal value
func (r *nrun) literal(v mval, depth int) string {
	if depth > 40 {
		panic(mlimit{"depth of a literal value"})
	}
	switch x := v.(type) {
	case *dep:
		same := len(x.v.alive) > 1
		for _, i := range x.v.alive {
			same = same && r.show(x.f[i]) == x.v.label[i]
		}
		if same {
			return "<" + x.v.name + ">"
		}
		return r.show(x)
	case miface:
		if x.t == nil {
			return "nil"
		}
		if _, ok := x.v.(*mval); ok {
			return "the " + strings.TrimPrefix(shortT(x.t), "*")
		}
		switch u := x.t.(type) {
		case *types.Slice, *types.Map:
			if u.String() != "[]interface{}" && u.String() != "map[interface{}]interface{}" {
				return u.String() + r.literal(x.v, depth+1)
			}
			return r.literal(x.v, depth+1)
		case *types.Basic:
			switch u.Kind() {
			case types.String, types.Int64, types.Float64, types.Bool:
				return r.literal(x.v, depth+1)
			}
		}
		return shortT(x.t) + " " + r.literal(x.v, depth+1)
	case *lnode:
		return x.name
	case []mval:
		var s []string
		for _, e := range x {
			s = append(s, r.literal(e, depth+1))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *mmap:
		var s []string
		if x != nil {
			for i, k := range x.keys {
				if !x.dead[i] {
					s = append(s, r.literal(k, depth+1)+" "+r.literal(x.vals[i], depth+1))
				}
			}
		}
		sort.Strings(s)
		return "{" + strings.Join(s, ", ") + "}"
	case *mval:
		return "a pointer"
	}
	return r.show(v)
}

func checkLiteralValues(c *Check) {
	n := newNodes(c)
	fn := n.p.fn(n.p.Literal, "ToLiteral")
	pos := n.p.pos(fn.Pos())
	got := map[string]string{}
	runs := 0
	result := func(r *nrun, x mval) string {
		runs++
		res, ok := r.call(fn, x).(mtuple)
		if !ok {
			return "panic"
		}
		switch k := r.show(r.m.force(res[1])); k {
		case "false":
			return "not literal"
		case "true":
			return r.literal(res[0], 0)
		default:
			return "literal " + k
		}
	}
	run := func() *nrun {
		r := n.newRun()
		r.asks = false
		r.vrun.parts = r.literalPart
		return r
	}
	for _, ct := range n.p.ctors() {
		r := run()
		bad, more := "", 0
		r.m.explore(func() {
			r.start()
			x := r.construct(ct.name, "self", 0, nil)
			have := result(r, x)
			want, known := r.literalOf(ct.name, "self")
			if !known && have == "not literal" || want != have {
				if bad == "" {
					bad = fmt.Sprintf("the result is %s rather than %s for %s", have, want, strings.Join(describeVars(r.vars), " "))
				}
				more++
			}
			c.obl++
			c.ok++
		})
		c.obligation(bad == "", "value", ct.name, n.p.pos(ct.fn.Pos()), "%s (%d paths)", bad, more)
	}
	lr := run()
	for _, l := range readLines("scenarios/literals.txt") {
		x, _ := parseSexp(l)
		for k, s := range n.vtree.table(l, lr.vrun, func() {
			lr.start()
			t := lr.tree(x, n.p.typ(n.p.Parser, "Expression"), "self", "", "", levelMax)
			lr.reports = []string{result(lr, t)}
		}) {
			got[k] = s
		}
	}
	for k, s := range got {
		c.obligation(!strings.Contains(strings.ToLower(s), "panic"), "total", k, pos, "ToLiteral does not return a result: %s", s)
	}
	c.atLeast("interpretations of ToLiteral", runs, 1000)
	c.table("literals", got, func(string) string { return pos })
}

// literalLeaves are the kinds that have their argument as value
var literalLeaves = map[string]string{
	"String": "value", "Integer": "value", "Float": "value", "Boolean": "value", "QualifiedName": "name", "QualifiedReference": "name",
	"Regexp": "value", "RenderString": "text", "ReservedWord": "value",
}

// literalOf is the literal value of a node as it ought to be. It is not known when it depends on parts that nothing is known of.
func (r *nrun) literalOf(ctor, at string) (string, bool) {
	const no = "not literal"
	arg := func(pn string) mval {
		for _, a := range r.args[at] {
			if strings.HasSuffix("."+a.name, "."+pn) {
				return a.v
			}
		}
		panic(munsupported{"argument " + pn + " of " + ctor})
	}
	all := func(l []mval, f func(e mval) (string, bool)) (vs []string, literal, known bool) {
		literal, known = true, true
		for _, e := range l {
			v, k := f(e)
			if k && v == no {
				return nil, false, true
			}
			known = known && k
			vs = append(vs, v)
		}
		return
	}
	if pn, ok := literalLeaves[ctor]; ok {
		return r.literal(arg(pn), 0), true
	}
	switch ctor {
	case "Undef":
		return "nil", true
	case "Default":
		return "Default []", true
	case "Program":
		return r.literalPartOf(arg("body"))
	case "Heredoc":
		return r.literalPartOf(arg("text"))
	case "ConcatenatedString":
		l := arg("segments").([]mval)
		if len(l) != 1 {
			return no, true
		}
		if r.kindOf(l[0]) == "String" {
			return r.literalPartOf(l[0])
		}
		if e, ok := l[0].(*lnode); ok {
			for _, i := range e.kind.alive {
				if r.n.labels[i] == "LiteralString" {
					return "?", false
				}
			}
		}
		return no, true
	case "Array":
		vs, lit, known := all(arg("expressions").([]mval), r.literalPartOf)
		if !lit {
			return no, true
		}
		return "[" + strings.Join(vs, " ") + "]", known
	case "Hash":
		var ks, vs []mval
		made := true
		for _, e := range arg("entries").([]mval) {
			n, ok := e.(*lnode)
			if !ok || n.real.t == nil {
				made = false
				continue
			}
			for _, a := range r.args[n.name] {
				if strings.HasSuffix(a.name, ".key") {
					ks = append(ks, a.v)
				} else {
					vs = append(vs, a.v)
				}
			}
		}
		keys, lit1, known1 := all(ks, func(e mval) (string, bool) {
			v, k := r.literalPartOf(e)
			if r.compound(e) {
				return no, true
			}
			return v, k
		})
		vals, lit2, known2 := all(vs, r.literalPartOf)
		if !lit1 || !lit2 {
			return no, true
		}
		if !made {
			return "?", false
		}
		m := map[string]string{}
		for i, k := range keys {
			m[k] = vals[i]
		}
		var out []string
		for k, v := range m {
			out = append(out, k+" "+v)
		}
		sort.Strings(out)
		return "{" + strings.Join(out, ", ") + "}", known1 && known2
	}
	return no, true
}

// kindOf gives the factory method that made a part, "?" when nothing is known of it
func (r *nrun) kindOf(v mval) string {
	n, ok := v.(*lnode)
	if !ok {
		return "nil"
	}
	kind := ""
	for _, i := range n.kind.alive {
		k := r.n.labels[i]
		if ct := r.n.ctorOf[k]; ct != "" {
			k = ct
		}
		switch _, leaf := literalLeaves[k]; {
		case leaf, k == "Undef", k == "Default", k == "Program", k == "Heredoc", k == "ConcatenatedString", k == "Array", k == "Hash":
		default:
			k = "no literal"
		}
		if kind != "" && kind != k {
			return "?"
		}
		kind = k
	}
	return kind
}

func (r *nrun) literalPartOf(v mval) (string, bool) {
	switch k := r.kindOf(v); k {
	case "?":
		return "?", false
	case "no literal", "nil":
		return "not literal", true
	case "Undef":
		return "nil", true
	default:
		n := v.(*lnode)
		if n.real.t == nil {
			return "?", false
		}
		return r.literalOf(k, n.name)
	}
}

// compound tells if the value is a list or a hash
func (r *nrun) compound(v mval) bool {
	switch k := r.kindOf(v); k {
	case "Array", "Hash":
		return true
	case "Program", "Heredoc":
		n := v.(*lnode)
		for _, a := range r.args[n.name] {
			if p, ok := a.v.(*lnode); ok && (strings.HasSuffix(a.name, ".body") || strings.HasSuffix(a.name, ".text")) {
				return r.compound(p)
			}
		}
	}
	return false
}
