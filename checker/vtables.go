package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"
)

// minimal is what the parts of a node are that are not looked at
func (r *vrun) minimal(ctor, pn string, pt types.Type) mval {
	switch u := pt.Underlying().(type) {
	case *types.Slice:
		return []mval{}
	case *types.Interface:
		ks, ok := lookupParam(childKinds, ctor, pn)
		if ok && len(ks) > 0 && ks[0] == "BlockExpression" {
			return r.construct("Block", pn, levelMax, map[string]mval{"expressions": []mval{}})
		}
		return miface{}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if pn == "name" && strings.HasPrefix(ctor, "Type") {
				return "A"
			}
			if pn == "name" {
				return "a"
			}
			return ""
		}
		return false
	}
	return nil
}

// heavy: the parts of these nodes are looked at in pairs
var heavy = map[string]bool{"Class": true, "Definition": true, "Function": true, "Plan": true, "Node": true, "Lambda": true, "EppExpression": true, "TypeAlias": true}

// subject makes the node that is validated, and its containers
func (r *vrun) subject(ctor string, focus []string) ([]mval, mval) {
	ct := r.t.ctors[ctor]
	given := map[string]mval{}
	open := map[string]bool{}
	for _, f := range focus {
		open[f] = true
	}
	r.focus = open
	var path []mval
	if focus == nil || open["C"] {
		v := r.variable("C", []string{"0", "1", "2", "3"})
		n := r.m.split(v, func(i int) interface{} { return i })
		for i := n; i > 0; i-- {
			var ks []string
			for _, l := range r.t.labels[1:] {
				if r.t.ctorOf[l] != "" {
					ks = append(ks, l)
				}
			}
			path = append(path, r.open(fmt.Sprintf("C%d", i), levelMax-1, ks))
		}
	} else {
		path = []mval{r.construct("Program", "C1", levelMax, map[string]mval{"body": miface{}})}
	}
	if focus != nil {
		for i := 0; i < ct.nargs(); i++ {
			if pn := ct.params.At(i).Name(); !open[pn] {
				given[pn] = r.minimal(ctor, pn, ct.params.At(i).Type())
			}
		}
	}
	return path, r.construct(ctor, "self", 0, given)
}

type vtask struct {
	ctor  string
	focus []string
}

func (x vtask) label() string {
	if x.focus == nil {
		return x.ctor
	}
	return x.ctor + "(" + strings.Join(x.focus, " ") + ")"
}

func (t *vtree) tasks() []vtask {
	var ts []vtask
	for _, n := range t.names {
		ct := t.ctors[n]
		if !heavy[n] {
			ts = append(ts, vtask{n, nil})
			if n == "Parameter" || n == "CapabilityMapping" || n == "ReservedWord" || n == "AttributeOp" || n == "String" {
				for i := 0; i < ct.nargs(); i++ {
					if b, ok := ct.params.At(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						ts = append(ts, vtask{n, []string{ct.params.At(i).Name()}})
					}
				}
			}
			continue
		}
		parts := []string{"C"}
		for i := 0; i < ct.nargs(); i++ {
			parts = append(parts, ct.params.At(i).Name())
		}
		for i, a := range parts {
			ts = append(ts, vtask{n, []string{a}})
			for _, b := range parts[i+1:] {
				ts = append(ts, vtask{n, []string{a, b}})
			}
		}
	}
	return ts
}

// run computes the tables
func (t *vtree) run(ts []vtask, lines []string) (map[string]string, map[string]map[string]string) {
	got := map[string]string{}
	byTask := map[string]map[string]string{}
	var lock sync.Mutex
	pl := newPool()
	put := func(label string, x map[string]string) {
		lock.Lock()
		defer lock.Unlock()
		byTask[label] = x
		for k, v := range x {
			got[k] = v
		}
	}
	for _, x := range ts {
		x := x
		pl.do(func() {
			r := t.newRun()
			put(x.label(), t.table(x.label(), r, func() {
				path, self := r.subject(x.ctor, x.focus)
				r.check(path, self)
			}))
		})
	}
	for _, l := range lines {
		l := l
		pl.do(func() {
			r := t.newRun()
			put(l, t.table(l, r, func() { r.scenario(l) }))
		})
	}
	pl.wait()
	return got, byTask
}

// scenario validates the tree of a line
func (r *vrun) scenario(line string) {
	i := strings.Index(line, "|-")
	if i < 0 {
		fatalf("bad scenario %s", line)
	}
	x, rest := parseSexp(line[i+2:])
	if strings.TrimSpace(rest) != "" {
		fatalf("bad scenario %s", line)
	}
	et := r.t.p.typ(r.t.p.Parser, "Expression")
	self := r.tree(x, et, "self", "", "", 0)
	var path []mval
	for j, cs := 0, strings.TrimSpace(line[:i]); cs != ""; j++ {
		var c sexp
		c, cs = parseSexp(cs)
		cs = strings.TrimSpace(cs)
		if c.open == 0 {
			c.atom = "$" + c.atom
		}
		path = append(path, r.tree(c, et, fmt.Sprintf("container%d", j), "", "", levelMax))
	}
	r.check(path, self)
}

func (r *vrun) tree(x sexp, pt types.Type, at, ctor, pn string, level int) mval {
	switch {
	case x.open == '[':
		sl := pt.Underlying().(*types.Slice)
		l := make([]mval, 0, len(x.list))
		for i, e := range x.list {
			l = append(l, r.tree(e, sl.Elem(), fmt.Sprintf("%s[%d]", at, i), ctor, pn, level))
		}
		return l
	case x.open == '(':
		n := x.list[0].atom
		ct, ok := r.t.ctors[n]
		if !ok {
			fatalf("scenario: no factory method %s", n)
		}
		given := map[string]mval{}
		for i := 0; i < ct.nargs(); i++ {
			p, t := ct.params.At(i).Name(), ct.params.At(i).Type()
			if i+1 < len(x.list) {
				a := p
				if at != "self" {
					a = at + "." + n + "." + p
				}
				given[p] = r.tree(x.list[i+1], t, a, n, p, level+1)
			}
		}
		if level < levelMax-1 {
			level = levelMax - 1
		}
		return r.construct(n, at, level, given)
	case x.str && x.atom == "%":
		return r.choice(at, r.t.words)
	case x.str:
		return x.atom
	case x.atom == "nil":
		return miface{}
	case x.atom == "true" || x.atom == "false":
		return x.atom == "true"
	case x.atom == "_":
		return r.arg(ctor, pn, pt, strings.TrimSuffix(strings.TrimSuffix(at, pn), "."+ctor+"."), levelMax)
	case strings.HasPrefix(x.atom, "$"):
		return r.open(at, levelMax, []string{x.atom[1:]})
	case x.atom[0] >= '0' && x.atom[0] <= '9':
		var i int64
		fmt.Sscanf(x.atom, "%d", &i)
		if b, ok := pt.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return float64(i)
		}
		return i
	}
	fatalf("scenario: bad atom %s", x.atom)
	return nil
}

func strictness(c *Check, name string) mval {
	k := c.P.Valid.Const(name)
	if k == nil {
		fatalf("no constant %s", name)
	}
	v, _ := constant.Int64Val(k.Value.Value)
	return v
}

func checkRules2(c *Check) {
	t := newVtree(c, "NewChecker", strictness(c, "StrictError"))
	lines := append(readLines("scenarios/validator.txt"), readLines("scenarios/names.txt")...)
	got, _ := t.run(t.tasks(), lines)
	var ks []string
	for _, x := range t.tasks() {
		ks = append(ks, x.label())
	}
	sort.Strings(ks)
	c.count("node kinds with the parts that are open", len(ks))
	c.count("nested constructs", len(lines))
	c.count("paths through the rules", t.paths)
	c.table("rules", got, nil)
}

func dumpRules(p *Program, what string) {
	c := &Check{P: p, Counts: map[string]int{}}
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(*fatalError); ok {
				fmt.Println("fatal:", f.msg)
				return
			}
			panic(e)
		}
	}()
	t := newVtree(c, "NewChecker", strictness(c, "StrictError"))
	for _, x := range t.tasks() {
		if x.label() != what && what != "all" && !(strings.HasSuffix(what, "*") && strings.HasPrefix(x.label(), what[:len(what)-1])) {
			continue
		}
		before, start := t.paths, time.Now()
		func() {
			defer func() {
				if e := recover(); e != nil {
					f, ok := e.(*fatalError)
					if !ok {
						panic(e)
					}
					fmt.Println("FATAL", x.label(), f.msg)
				}
			}()
			got, _ := t.run([]vtask{x}, nil)
			fmt.Printf("%-40s paths %6d rows %5d %v\n", x.label(), t.paths-before, len(got), time.Since(start).Round(time.Millisecond))
			if what != "all" {
				ks := sortedKeysStr(got)
				for _, k := range ks {
					fmt.Println("  ", k, "=>", got[k])
				}
			}
		}()
	}
	if i := strings.Index(what, "|-"); i >= 0 {
		got, _ := t.run(nil, []string{what})
		for _, k := range sortedKeysStr(got) {
			fmt.Println("  ", k, "=>", got[k])
		}
	}
}
