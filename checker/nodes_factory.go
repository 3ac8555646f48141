package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// What the nodes that the factory methods make answer about themselves.

// accessors that the other properties are about
var otherMethods = map[string]bool{"Contents": true, "AllContents": true, "ToPN": true, "Label": true, "ToLambda": true, "Init": true}

// value renders what an accessor gives
func (r *nrun) value(v mval) string {
	if d, ok := v.(*dep); ok {
		same, lower := true, true
		for _, i := range d.v.alive {
			l := d.v.label[i]
			same = same && r.show(d.f[i]) == l
			if w, err := strconv.Unquote(l); err == nil {
				l = strconv.Quote(strings.ToLower(w))
			}
			lower = lower && r.show(d.f[i]) == l
		}
		if r.argument(d.v.name) != nil {
			if same {
				return d.v.name
			}
			if lower {
				return d.v.name + " in lower case"
			}
		}
		switch r.m.force(d).(type) {
		case miface, *lnode, *mval, []mval:
			return r.value(r.m.force(d))
		}
		return r.show(d)
	}
	switch x := v.(type) {
	case *lnode:
		if x.isNil(r.m) {
			return "nil"
		}
		return x.name
	case []mval:
		for _, a := range r.args["self"] {
			l, ok := a.v.([]mval)
			if !ok || len(l) != len(x) || len(l) == 0 {
				continue
			}
			same := true
			for i := range l {
				if l[i] != x[i] {
					same = false
				}
			}
			if same {
				return a.name
			}
		}
		var s []string
		for _, e := range x {
			s = append(s, r.value(e))
		}
		return "[" + strings.Join(s, " ") + "]"
	case miface:
		if x.t == nil {
			return "nil"
		}
		if c, ok := x.v.(*mval); ok {
			return r.pointer(c, shortT(x.t))
		}
		return r.value(x.v)
	case *mval:
		return r.pointer(x, "")
	}
	return r.show(v)
}

func (r *nrun) pointer(c *mval, t string) string {
	if c == nil {
		return "nil"
	}
	if n, ok := r.made[c]; ok {
		return n
	}
	if c == r.loc {
		return "locator"
	}
	return strings.TrimSpace("another " + strings.TrimPrefix(t, "*"))
}

func (r *nrun) argument(name string) mval {
	for _, a := range r.args["self"] {
		if a.name == name {
			return a.v
		}
	}
	return nil
}

// holds collects the arguments that are part of a value
func (r *nrun) holds(v mval, seen map[*mval]bool, out map[string]bool) {
	switch x := v.(type) {
	case *lnode:
		out[x.name] = true
	case *dep:
		out[x.v.name] = true
	case []mval:
		for _, e := range x {
			r.holds(e, seen, out)
		}
	case mstruct:
		for _, e := range x {
			r.holds(e, seen, out)
		}
	case miface:
		r.holds(x.v, seen, out)
	case *mval:
		if x != nil && !seen[x] {
			seen[x] = true
			r.holds(*x, seen, out)
		}
	}
}

type factoryResult struct {
	c      ctor
	pos    string
	rows   map[string]string
	at     map[string]string
	leaves int
	bad    map[string]string
}

const factoryText = "ab\nc\u00e9defghij\n"

func (n *nodes) factoryTable(ct ctor) *factoryResult {
	res := &factoryResult{c: ct, pos: n.p.pos(ct.fn.Pos()), rows: map[string]string{}, at: map[string]string{}, bad: map[string]string{}}
	p := n.p
	r := n.newRun()
	m := r.m
	if fn := p.findMethod(types.NewPointer(p.typ(p.Parser, "Positioned")), p.Parser.Pkg, "String"); fn != nil {
		delete(m.mock, fn)
	}
	r.loc = m.call(p.fn(p.Parser, "NewLocator"), nil, []mval{"the/file.pp", factoryText}).(*mval)
	bad := func(k, f string, a ...interface{}) {
		if res.bad[k] == "" {
			res.bad[k] = fmt.Sprintf(f, a...)
		}
	}
	// the kinds of node and what is stored
	var kinds []types.Type
	rows := n.vtree.table(ct.name, r.vrun, func() {
		r.start()
		x := r.construct(ct.name, "self", 0, nil)
		res.leaves++
		known := false
		for _, k := range kinds {
			known = known || types.Identical(k, x.t)
		}
		if !known {
			kinds = append(kinds, x.t)
		}
		in := map[string]bool{}
		r.holds(x, map[*mval]bool{}, in)
		for _, a := range r.args["self"] {
			if ct.name == "EppExpression" && a.name == "parameters" {
				continue // a node only remembers if parameters are specified
			}
			switch v := a.v.(type) {
			case []mval:
				for _, e := range v {
					if l, ok := e.(*lnode); ok && !in[l.name] {
						bad("stored "+a.name, "the argument is not part of the created node")
					}
				}
			case *lnode:
				if r.present(v) && !in[a.name] {
					bad("stored "+a.name, "the argument is not part of the created node")
				}
			case *dep:
				if len(v.v.alive) > 1 && !in[a.name] {
					bad("stored "+a.name, "the argument is not part of the created node")
				}
			}
		}
		r.reports = []string{strings.TrimPrefix(shortT(x.t), "*")}
	})
	for k, o := range rows {
		res.rows[k] = o
		res.at[k] = res.pos
	}
	for _, k := range kinds {
		k := k
		kn := namedOf(k).Obj().Name()
		n.copies(r, ct, k, res, bad)
		ms := p.Prog.MethodSets.MethodSet(k)
		for i := 0; i < ms.Len(); i++ {
			o := ms.At(i).Obj().(*types.Func)
			sig := o.Type().(*types.Signature)
			if !o.Exported() || sig.Params().Len() != 0 || sig.Results().Len() == 0 || otherMethods[o.Name()] {
				continue
			}
			f := p.Prog.MethodValue(ms.At(i))
			key := ct.name + "/" + kn + "." + o.Name()
			want, fixed := map[string]string{"Locator": "locator", "ByteOffset": "3", "ByteLength": "4", "String": strconv.Quote("c\u00e9d"), "File": `"the/file.pp"`, "Line": "2", "Pos": "1",
				"Location": `"the/file.pp" 2 1`}[o.Name()]
			if fixed && ct.name == "Heredoc" && o.Name() == "String" {
				fixed = false
			}
			rows := n.vtree.table(key, r.vrun, func() {
				r.start()
				x := r.construct(ct.name, "self", 0, nil)
				if !types.Identical(x.t, k) {
					return
				}
				res.leaves++
				s := ""
				answer := m.call(f, nil, []mval{x.v})
				if l, ok := answer.(miface); ok && o.Name() == "Location" && l.t != nil {
					for _, q := range []string{"File", "Line", "Pos"} {
						s += " " + r.value(m.call(m.invokeName(l, q), nil, []mval{l.v}))
					}
					answer = nil
					s = s[1:]
				}
				switch v := answer.(type) {
				case nil:
				case mtuple:
					for i, e := range v {
						if i > 0 {
							s += ", "
						}
						s += r.value(e)
					}
				default:
					s = r.value(v)
				}
				if fixed && s != want {
					bad("location "+o.Name(), "the answer is %s rather than %s", s, want)
				}
				r.reports = []string{s}
			})
			if fixed {
				for _, o2 := range rows {
					if strings.Contains(o2, "PANIC") {
						bad("location "+o.Name(), "the method panics")
					}
				}
				continue
			}
			for k, s := range rows {
				res.rows[k] = s
				res.at[k] = p.pos(f.Pos())
			}
		}
	}
	return res
}

// copies: what the methods give that make a copy of a node with something else in it
func (n *nodes) copies(r *nrun, ct ctor, k types.Type, res *factoryResult, bad func(k, f string, a ...interface{})) {
	p, m := n.p, r.m
	kn := namedOf(k).Obj().Name()
	ms := p.Prog.MethodSets.MethodSet(k)
	for i := 0; i < ms.Len(); i++ {
		w := ms.At(i).Obj().(*types.Func)
		sig := w.Type().(*types.Signature)
		if !w.Exported() || !strings.HasPrefix(w.Name(), "With") || sig.Params().Len() != 1 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), k) {
			continue
		}
		wf := p.Prog.MethodValue(ms.At(i))
		pt := sig.Params().At(0).Type()
		if !isExpressionIface(pt) && !types.Identical(pt, types.Typ[types.String]) {
			continue
		}
		for j := 0; j < ms.Len(); j++ {
			o := ms.At(j).Obj().(*types.Func)
			sig := o.Type().(*types.Signature)
			if !o.Exported() || sig.Params().Len() != 0 || sig.Results().Len() == 0 || otherMethods[o.Name()] || o.Name() == "Location" {
				continue
			}
			f := p.Prog.MethodValue(ms.At(j))
			key := ct.name + "/" + kn + "." + w.Name() + " then " + o.Name()
			rows := n.vtree.table(key, r.vrun, func() {
				r.start()
				x := r.construct(ct.name, "self", 0, nil)
				if !types.Identical(x.t, k) {
					return
				}
				res.leaves++
				var arg mval = "Other::Name"
				if isExpressionIface(pt) {
					arg = r.construct("Undef", "other", levelMax, nil)
				}
				cell := x.v.(*mval)
				before := snapshot(*cell)
				y, ok := m.call(wf, nil, []mval{cell, arg}).(*mval)
				if !ok || y == nil || y == cell || !sameVal(*cell, before) {
					bad("copy", "%s.%s changes the node rather than making another one", kn, w.Name())
					return
				}
				switch v := m.call(f, nil, []mval{y}).(type) {
				case mtuple:
					s := ""
					for i, e := range v {
						if i > 0 {
							s += ", "
						}
						s += r.value(e)
					}
					r.reports = []string{s}
				default:
					r.reports = []string{r.value(v)}
				}
			})
			for rk, s := range rows {
				res.rows[rk] = s
				res.at[rk] = p.pos(wf.Pos())
			}
		}
	}
}

// hashGet: the value that a hash has for a text, for keys of all kinds that name something
func (n *nodes) hashGet() {
	c, p := n.c, n.p
	f := p.findMethod(types.NewPointer(p.typ(p.Parser, "LiteralHash")), p.Parser.Pkg, "Get")
	if f == nil || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 1 {
		c.undecided("LiteralHash has no method that gives the value for a text")
		return
	}
	r := n.newRun()
	m := r.m
	kinds := []string{"String", "QualifiedName", "QualifiedReference", "Integer"}
	texts := []string{"a", "B"}
	var keys [][2]string
	for _, k := range kinds {
		for _, t := range texts {
			keys = append(keys, [2]string{k, t})
		}
	}
	var lists [][][2]string
	lists = append(lists, nil)
	for _, a := range keys {
		lists = append(lists, [][2]string{a})
		for _, b := range keys {
			lists = append(lists, [][2]string{a, b}, [][2]string{a, {"Integer", "0"}, b})
		}
	}
	bad := ""
	for _, l := range lists {
		for _, q := range []string{"a", "B", "b", "0", ""} {
			want, got := "nothing", "nothing"
			desc := ""
			for i := len(l) - 1; i >= 0; i-- {
				if l[i][0] != "Integer" && l[i][1] == q {
					want = "value " + itoa(i)
				}
			}
			m.explore(func() {
				r.start()
				var es []mval
				values := map[*mval]string{}
				desc = ""
				for i, k := range l {
					given := map[string]mval{}
					ct := n.vtree.ctors[k[0]]
					pn := ct.params.At(0).Name()
					if k[0] == "Integer" {
						given[pn] = int64(0)
					} else {
						given[pn] = k[1]
					}
					desc += fmt.Sprintf(" %s %q", k[0], k[1])
					key := r.construct(k[0], "k"+itoa(i), levelMax, given)
					val := r.construct("Undef", "v"+itoa(i), levelMax, nil)
					values[val.v.(*mval)] = "value " + itoa(i)
					ke := n.vtree.ctors["KeyedEntry"]
					es = append(es, r.construct("KeyedEntry", "e"+itoa(i), levelMax, map[string]mval{ke.params.At(0).Name(): key, ke.params.At(1).Name(): val}))
				}
				h := n.vtree.ctors["Hash"]
				x := r.construct("Hash", "h", levelMax, map[string]mval{h.params.At(0).Name(): es})
				func() {
					defer func() {
						if e := recover(); e != nil {
							if _, ok := e.(*mpanic); !ok {
								panic(e)
							}
							got = "a panic"
						}
					}()
					got = "nothing"
					if v, ok := m.force(m.call(f, nil, []mval{x.v, q})).(miface); ok && v.t != nil {
						got = "another value"
						if cell, ok := v.v.(*mval); ok && values[cell] != "" {
							got = values[cell]
						}
					}
				}()
			})
			c.obl++
			c.ok++
			if got != want && bad == "" {
				bad = fmt.Sprintf("for the keys%s and the text %q, the hash gives %s rather than %s", desc, q, got, want)
			}
		}
	}
	c.obligation(bad == "", "get", "LiteralHash.Get", p.pos(f.Pos()), "%s", bad)
}

func checkAccessors(c *Check) {
	n := newNodes(c)
	got, at := map[string]string{}, map[string]string{}
	leaves := 0
	for _, ct := range n.p.ctors() {
		r := n.factoryTable(ct)
		leaves += r.leaves
		for k, s := range r.rows {
			got[k], at[k] = s, r.at[k]
		}
		for i := 0; i < ct.nargs(); i++ {
			k := "stored " + ct.params.At(i).Name()
			c.obligation(r.bad[k] == "", "stored", ct.name+" "+ct.params.At(i).Name(), r.pos, "%s", r.bad[k])
			delete(r.bad, k)
		}
		if len(r.bad["copy"]) > 0 {
			c.obligation(false, "copy", ct.name, r.pos, "%s", r.bad["copy"])
		}
		for _, l := range []string{"Locator", "ByteOffset", "ByteLength", "String", "File", "Line", "Pos", "Location"} {
			k := "location " + l
			c.obligation(r.bad[k] == "", "location", ct.name+" "+l, r.pos, "%s", r.bad[k])
		}
	}
	c.atLeast("paths through the accessors", leaves, 600)
	n.hashGet()
	c.table("factory", got, func(k string) string { return at[k] })
}
