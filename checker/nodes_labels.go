package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// labelOf gives what a node of the kind is called in messages, where * is a name or operator of the node
func (n *nodes) labelOf(name string, bare bool) string {
	r := n.newRun()
	r.lists = 1
	m := r.m
	texts := map[string]map[string]bool{} // word -> labels
	add := func(word, text string) {
		if texts[word] == nil {
			texts[word] = map[string]bool{}
		}
		texts[word][text] = true
	}
	m.explore(func() {
		r.start()
		x := r.self(name, bare)
		f := n.p.method(x.t, "Label")
		if f == nil {
			add("", "no label")
			return
		}
		v := r.call(f, x.v)
		if d, ok := v.(*dep); ok {
			for _, i := range d.v.alive {
				s, ok := d.f[i].(string)
				w, err := strconv.Unquote(d.v.label[i])
				if !ok || err != nil {
					panic(munsupported{"label that depends on " + d.v.name})
				}
				add(w, s)
			}
			return
		}
		s := m.str(v)
		for _, a := range r.args["self"] {
			d, ok := a.v.(*dep)
			if !ok || len(d.v.alive) == d.v.size {
				continue
			}
			for _, i := range d.v.alive {
				if w, err := strconv.Unquote(d.v.label[i]); err == nil {
					add(w, s)
				}
			}
			return
		}
		add("", s)
	})
	one := func(s map[string]bool) string {
		var l []string
		for t := range s {
			l = append(l, strconv.Quote(t))
		}
		sort.Strings(l)
		return strings.Join(l, " or ")
	}
	// the same for all words
	all := map[string]bool{}
	for _, s := range texts {
		for t := range s {
			all[t] = true
		}
	}
	if len(all) == 1 {
		return one(all)
	}
	// the word between the same texts
	long := ""
	for w := range texts {
		if len(w) > len(long) || len(w) == len(long) && w < long {
			long = w
		}
	}
	for t := range texts[long] {
		i := strings.Index(t, long)
		if i < 0 || long == "" || len(texts[long]) != 1 {
			break
		}
		pre, post := t[:i], t[i+len(long):]
		same := true
		for w, s := range texts {
			same = same && len(s) == 1 && s[pre+w+post]
		}
		if same {
			return strconv.Quote(pre + "*" + post)
		}
	}
	var ws []string
	for w := range texts {
		ws = append(ws, w)
	}
	sort.Strings(ws)
	var out []string
	for _, w := range ws {
		out = append(out, strconv.Quote(w)+": "+one(texts[w]))
	}
	return strings.Join(out, ", ")
}

// checkLabels decides the labels and the families of the kinds
func checkLabels(c *Check) {
	p := c.P
	n := newNodes(c)
	got, at := map[string]string{}, map[string]string{}
	k := 0
	for _, ct := range p.ctors() {
		got["label of "+ct.name] = n.labelOf(ct.name, false)
		at["label of "+ct.name] = p.pos(ct.fn.Pos())
		k++
	}
	for i, t := range n.kinds {
		if t != nil && n.ctorOf[n.labels[i]] == "" {
			got["label of "+n.labels[i]] = n.labelOf(n.labels[i], true)
			at["label of "+n.labels[i]] = p.pos(namedOf(t).Obj().Pos())
			k++
		}
	}
	c.atLeast("kinds with a label", k, 60)
	// every exported interface of the parser package that is a family of expressions
	sc := p.Parser.Pkg.Scope()
	ex := p.iface(p.Parser, "Expression")
	k = 0
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || !tn.Exported() || tn.IsAlias() || name == "Expression" {
			continue
		}
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok || !types.Implements(tn.Type(), ex) {
			continue
		}
		var ks []string
		for _, kd := range p.Kinds() {
			if implements(types.NewPointer(kd), it) {
				ks = append(ks, kd.Obj().Name())
			}
			k++
		}
		got["family "+name] = strings.Join(ks, " ")
		at["family "+name] = p.pos(tn.Pos())
	}
	c.atLeast("pairs of kind and family", k, 500)
	c.table("labels", got, func(k string) string { return at[k] })
}

// call gives "panic" when the method panics
func (r *nrun) call(f *ssa.Function, args ...mval) (v mval) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(*mpanic); !ok {
				panic(e)
			}
			v = "panic"
		}
	}()
	return r.m.call(f, nil, args)
}
