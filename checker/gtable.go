package main

import (
	"fmt"
	"sort"
	"strings"
)

// A table of paths in a normal form that does not depend on the order in which the code makes its tests: at each
// point of the input the values of the open variables are grouped by what follows.

type trieRow struct {
	path    string
	outcome string
	at      string
}

type trie struct {
	outcome string
	at      string
	isLeaf  bool
	event   string // what is read here
	groups  []trieGroup
	dim     string
	key     string
}

type trieGroup struct {
	values []string
	next   *trie
}

type trieBuilder struct {
	domains map[string][]string // all values of a variable
	facet   func(l *gleaf) string
	chars   bool // the variables c1, c2... are characters; outcomes refer to them as «c1», «c2»...
	tokens  []tokKind
	at      func(outcome, name, value string) string // the outcome for one value of a variable
	total   bool                                     // the paths are all that there are: values that are missing are not possible
}

// build makes the normal form of the leaves
func (b *trieBuilder) build(ls []*gleaf) *trie {
	return b.step(ls, 0, -1, "")
}

// step looks at the next event or variable; ev events were read
func (b *trieBuilder) step(ls []*gleaf, ev int, order int, name string) *trie {
	// the next variable that some leaf restricts, within the events that were read
	var best *gvar
	for _, l := range ls {
		for k := range l.vars {
			v := &l.vars[k]
			if v.order < order || v.order == order && v.name <= name || v.order >= 10*(ev+1) {
				continue
			}
			if best == nil || v.order < best.order || v.order == best.order && v.name < best.name {
				best = v
			}
		}
	}
	if best != nil {
		return b.split(ls, ev, best)
	}
	// the next event
	done := true
	var labels []string
	sub := map[string][]*gleaf{}
	for _, l := range ls {
		lab := ""
		if ev < len(l.events) {
			done = false
			lab = l.events[ev]
		}
		if sub[lab] == nil {
			labels = append(labels, lab)
		}
		sub[lab] = append(sub[lab], l)
	}
	if done {
		t := &trie{isLeaf: true}
		outs := map[string]bool{}
		for _, l := range ls {
			outs[b.facet(l)] = true
			if l.at != "" {
				t.at = l.at
			}
		}
		t.outcome = strings.Join(sortedKeys(outs), " OR ")
		t.key = "=" + t.outcome
		return t
	}
	t := &trie{dim: "event"}
	sort.Strings(labels)
	for _, lab := range labels {
		var n *trie
		if lab == "" {
			n = b.step(sub[lab], 1<<20, order, name)
		} else {
			n = b.step(sub[lab], ev+1, 10*(ev+1)-1, "")
		}
		t.groups = append(t.groups, trieGroup{[]string{lab}, n})
	}
	t.seal()
	return t
}

func (b *trieBuilder) split(ls []*gleaf, ev int, v *gvar) *trie {
	dom := b.domains[v.name]
	memo := map[string]*trie{}
	byKey := map[string]*trieGroup{}
	var order []string
	for _, val := range dom {
		var sub []*gleaf
		var id strings.Builder
		for i, l := range ls {
			ok := true
			for k := range l.vars {
				if l.vars[k].name == v.name && !l.vars[k].alive[val] {
					ok = false
					break
				}
			}
			if ok {
				sub = append(sub, l)
				fmt.Fprintf(&id, "%d,", i)
			}
		}
		if len(sub) == 0 {
			continue
		}
		n := memo[id.String()]
		if n == nil {
			n = b.step(sub, ev, v.order, v.name)
			memo[id.String()] = n
		}
		if b.at != nil {
			n = b.rewrite(n, func(o string) string { return b.at(o, v.name, val) })
		}
		g := byKey[n.key]
		if g == nil {
			g = &trieGroup{nil, n}
			byKey[n.key] = g
			order = append(order, n.key)
		}
		g.values = append(g.values, val)
	}
	if b.chars && isCharName(v.name) {
		order = mergeChars("«"+v.name+"»", labelLit, charIndex, byKey, order)
	}
	if len(b.tokens) > 0 && isTokName(v.name) {
		text, index := map[string]string{}, map[string]int{}
		for i, k := range b.tokens {
			text[k.label], index[k.label] = "'"+k.text+"'", i
		}
		order = mergeChars("<"+v.name+">", func(l string) string { return text[l] }, index, byKey, order)
	}
	if len(order) == 1 {
		// all values have the same outcome; some may be missing because they are excluded
		if b.total || len(byKey[order[0]].values) == len(dom) {
			return byKey[order[0]].next
		}
	}
	t := &trie{dim: v.name}
	for _, k := range order {
		t.groups = append(t.groups, *byKey[k])
	}
	t.seal()
	return t
}

func (t *trie) seal() {
	var b strings.Builder
	b.WriteString("(" + t.dim)
	for _, g := range t.groups {
		b.WriteString(" " + strings.Join(g.values, "|") + ">" + g.next.key)
	}
	b.WriteString(")")
	t.key = b.String()
}

// rows lists the paths
func (t *trie) rows(domains map[string][]string) []trieRow {
	var out []trieRow
	var walk func(t *trie, path []string, last string)
	walk = func(t *trie, path []string, last string) {
		if t.isLeaf {
			var ps []string
			for _, x := range path {
				if x != "?" { // a token that the code does not look at
					ps = append(ps, x)
				}
			}
			p := strings.Join(ps, " ")
			out = append(out, trieRow{p, t.outcome, t.at})
			return
		}
		for _, g := range t.groups {
			np := append([]string{}, path...)
			switch {
			case t.dim == "event":
				if g.values[0] != "" {
					np = append(np, eventText(g.values[0]))
				}
			case isCharName(t.dim):
				set := charSetOf(g.values, domains[t.dim])
				if len(np) > 0 && np[len(np)-1] == "." {
					np[len(np)-1] = set
				} else {
					np = append(np, t.dim+"="+set)
				}
			case strings.HasPrefix(t.dim, "t") && !strings.Contains(t.dim, ".") && len(np) > 0 && np[len(np)-1] == "?":
				np[len(np)-1] = valueSet(g.values, domains[t.dim])
			default:
				np = append(np, t.dim+"="+valueSet(g.values, domains[t.dim]))
			}
			walk(g.next, np, "")
		}
	}
	walk(t, nil, "")
	return out
}

func eventText(e string) string {
	if e == "t" {
		return "?"
	}
	if e == "c" {
		return "."
	}
	return e
}

func valueSet(vals, dom []string) string {
	if len(vals) == 1 {
		return vals[0]
	}
	v := append([]string{}, vals...)
	sort.Strings(v)
	if len(v) > len(dom)/2 {
		in := map[string]bool{}
		for _, x := range v {
			in[x] = true
		}
		var out []string
		for _, x := range dom {
			if !in[x] {
				out = append(out, x)
			}
		}
		sort.Strings(out)
		if len(out) == 0 {
			return "any"
		}
		return "not(" + strings.Join(out, "|") + ")"
	}
	return strings.Join(v, "|")
}

// ---- characters

func isCharName(n string) bool { return isNumbered(n, 'c') }
func isTokName(n string) bool  { return isNumbered(n, 't') }

func isNumbered(n string, first byte) bool {
	if len(n) < 2 || n[0] != first {
		return false
	}
	for _, c := range n[1:] {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

var charIndex = func() map[string]int {
	m := map[string]int{}
	for i, l := range charLabels {
		m[l] = i
	}
	return m
}()

func labelLit(l string) string {
	i := charIndex[l]
	if i == 0 {
		return "{End}"
	}
	if n := charOf(i).(int64); n >= 0 {
		return litChar(rune(n))
	}
	return "{BAD}"
}

func charSetOf(vals, dom []string) string {
	if len(vals) == len(dom) {
		return "."
	}
	in, all := make([]bool, len(charLabels)), make([]bool, len(charLabels))
	for _, v := range dom {
		all[charIndex[v]] = true
	}
	for _, v := range vals {
		in[charIndex[v]] = true
	}
	return charSet(in, all)
}

// mergeChars brings the groups of characters in a form that does not depend on how the code tells characters
// apart: characters whose outcomes differ only in the character itself make one group.
func mergeChars(ph string, labelLit func(l string) string, charIndex map[string]int, byKey map[string]*trieGroup, order []string) []string {
	one := func(vals []string) bool { // all values are written in the same way
		for _, v := range vals {
			if labelLit(v) != labelLit(vals[0]) {
				return false
			}
		}
		return true
	}
	var gs []*trieGroup
	for _, k := range order {
		gs = append(gs, byKey[k])
		delete(byKey, k)
	}
	if len(gs) > 1 && len(gs) < 60 {
		var out []*trieGroup
		for _, g := range gs {
			done := false
			for _, o := range out {
				lg, lo := labelLit(g.values[0]), labelLit(o.values[0])
				t := antiUnify(o.next.subst(ph, lo), g.next.subst(ph, lg), lo, lg, ph)
				if t == nil || !one(o.values) && t.key != o.next.key || !one(g.values) && t.key != g.next.key {
					continue
				}
				o.values, o.next = append(append([]string{}, o.values...), g.values...), t
				done = true
				break
			}
			if !done {
				out = append(out, g)
			}
		}
		gs = out
	}
	order = nil
	for _, g := range gs {
		if one(g.values) {
			g.next = g.next.subst(ph, labelLit(g.values[0]))
		}
		if o := byKey[g.next.key]; o != nil {
			o.values = append(append([]string{}, o.values...), g.values...)
			continue
		}
		byKey[g.next.key] = g
		order = append(order, g.next.key)
	}
	for _, k := range order {
		vals := byKey[k].values
		sort.Slice(vals, func(i, j int) bool { return charIndex[vals[i]] < charIndex[vals[j]] })
	}
	sort.SliceStable(order, func(i, j int) bool {
		return charIndex[byKey[order[i]].values[0]] < charIndex[byKey[order[j]].values[0]]
	})
	return order
}

// rewrite changes the outcomes; what comes out the same is one group afterwards
func (b *trieBuilder) rewrite(t *trie, f func(string) string) *trie {
	if t.isLeaf {
		o := f(t.outcome)
		if o == t.outcome {
			return t
		}
		n := *t
		n.outcome, n.key = o, "="+o
		return &n
	}
	xs := make([]*trie, len(t.groups))
	same := true
	for i, g := range t.groups {
		xs[i] = b.rewrite(g.next, f)
		same = same && xs[i] == g.next
	}
	if same {
		return t
	}
	n := *t
	n.groups = nil
	at := map[string]int{}
	merged := false
	for i, g := range t.groups {
		if j, ok := at[xs[i].key]; ok {
			n.groups[j].values = append(append([]string{}, n.groups[j].values...), g.values...)
			merged = true
			continue
		}
		at[xs[i].key] = len(n.groups)
		n.groups = append(n.groups, trieGroup{g.values, xs[i]})
	}
	if merged {
		if len(n.groups) == 1 && (b.total || len(n.groups[0].values) == len(b.domains[t.dim])) {
			return n.groups[0].next
		}
		index := map[string]int{}
		for i, v := range b.domains[t.dim] {
			index[v] = i
		}
		for _, g := range n.groups {
			sort.Slice(g.values, func(i, j int) bool { return index[g.values[i]] < index[g.values[j]] })
		}
		sort.SliceStable(n.groups, func(i, j int) bool { return index[n.groups[i].values[0]] < index[n.groups[j].values[0]] })
	}
	n.seal()
	return &n
}

// subst replaces a placeholder
func (t *trie) subst(ph, lit string) *trie {
	if !strings.Contains(t.key, ph) {
		return t
	}
	n := *t
	if t.isLeaf {
		n.outcome = strings.Replace(t.outcome, ph, lit, -1)
		n.key = "=" + n.outcome
		return &n
	}
	n.groups = make([]trieGroup, len(t.groups))
	for i, g := range t.groups {
		n.groups[i] = trieGroup{g.values, g.next.subst(ph, lit)}
	}
	n.seal()
	return &n
}

// antiUnify gives the trie from which a and b come by replacing the placeholder by la or lb
func antiUnify(a, b *trie, la, lb, ph string) *trie {
	if a.key == b.key {
		return a
	}
	if a.isLeaf != b.isLeaf || a.dim != b.dim || len(a.groups) != len(b.groups) {
		return nil
	}
	n := *a
	if a.isLeaf {
		x, y := a.outcome, b.outcome
		var s strings.Builder
		for x != "" || y != "" {
			if strings.HasPrefix(x, la) && strings.HasPrefix(y, lb) {
				s.WriteString(ph)
				x, y = x[len(la):], y[len(lb):]
				continue
			}
			if x == "" || y == "" || x[0] != y[0] {
				return nil
			}
			s.WriteByte(x[0])
			x, y = x[1:], y[1:]
		}
		n.outcome = s.String()
		n.key = "=" + n.outcome
		return &n
	}
	n.groups = make([]trieGroup, len(a.groups))
	for i := range a.groups {
		if strings.Join(a.groups[i].values, "|") != strings.Join(b.groups[i].values, "|") {
			return nil
		}
		t := antiUnify(a.groups[i].next, b.groups[i].next, la, lb, ph)
		if t == nil {
			return nil
		}
		n.groups[i] = trieGroup{a.groups[i].values, t}
	}
	n.seal()
	return &n
}
