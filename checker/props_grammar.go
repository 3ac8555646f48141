package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// The grammar of the parser, extracted from its source and compared with reviewed tables.

type gtask struct {
	part  string
	first string // kinds of the first token, all when empty
	opts  string
	end   int             // the source ends with this item
	empty map[string]bool // parts that accept the end of the source
	how   string          // what it is about when that is not everything
}

func (t gtask) key() string {
	k := t.part
	if t.how != "" {
		k += " " + t.how
	}
	if t.first != "" {
		k += "[" + t.first + "]"
	}
	if t.opts != "" {
		k += "{" + t.opts + "}"
	}
	if t.end > 0 {
		k += " where the source ends with item " + itoa(t.end)
	}
	return k
}

// firstKinds: parts that are analysed separately for groups of first tokens
var firstKinds = map[string][]string{
	"atomExpression": {"If", "Unless", "Case", "Class", "Type", "Plan", "Function", "Node", "Define", "Application", "Site",
		"Lp|Wslp", "Lb|Listb", "Lc", "Variable|NumVariable", "Identifier|TypeName", "*"},
}

func grammarTasks() []gtask {
	var ts []gtask
	ts = append(ts, gtask{part: "Parse", opts: "EppMode"}, gtask{part: "stepExpression", how: withState},
		gtask{part: "stepExpression", how: withActivities}, gtask{part: "parse", how: asSingle})
	for _, o := range []string{"", "TasksEnabled WorkflowEnabled"} {
		for _, n := range grammarParts {
			if f := firstKinds[n]; f != nil {
				for _, k := range f {
					ts = append(ts, gtask{part: n, first: k, opts: o})
				}
			} else {
				ts = append(ts, gtask{part: n, opts: o})
			}
		}
	}
	return ts
}

// what a task is about
const (
	withState      = "with a state"
	withActivities = "with activities"
	asSingle       = "of a single expression"
)

type gresult struct {
	task   gtask
	leaves []gleaf
	dom    map[string][]string
	bound  int
	over   bool
	broken string
	left   map[string]bool // parts that it enters before it reads a token
}

const (
	grammarPaths = 1200
	grammarBound = 16
)

// morePaths: parts that need more paths to reach what is interesting
var morePaths = map[string]int{"parse": 5000, "primaryExpression": 9000, "returnParameter": 2500, "stepExpression": 2500, "resource": 3000}

func (g *grammar) firstOf(t gtask) []string {
	if t.first == "" {
		return nil
	}
	if t.first != "*" {
		return strings.Split(t.first, "|")
	}
	in := map[string]bool{}
	for _, f := range firstKinds[t.part] {
		for _, k := range strings.Split(f, "|") {
			in[k] = true
		}
	}
	var out []string
	for _, k := range g.kinds {
		if !in[k.label] {
			out = append(out, k.label)
		}
	}
	return out
}

func (g *grammar) run(t gtask, bound, limit int) (res gresult) {
	res.task, res.bound = t, bound
	defer func() {
		if e := recover(); e != nil {
			if fe, ok := e.(*fatalError); ok {
				res.broken = fe.msg
				return
			}
			if u, ok := e.(munsupported); ok {
				res.broken = u.what
				return
			}
			panic(e)
		}
	}()
	r := newRun(g, bound)
	r.endAt, r.empty, r.left = t.end, t.empty, map[string]bool{}
	res.left = r.left
	r.about(t.how)
	res.leaves, res.over = r.extract(t.part, strings.Fields(t.opts), g.firstOf(t), limit)
	res.dom = r.domains()
	return
}

// grammarRun analyses all parts of the grammar
func grammarRun(c *Check) (*grammar, []gresult) {
	genAccessors = c.generate
	g := newGrammar(c.P)
	tasks := grammarTasks()
	var bounds map[string]string
	if c.generate {
		bounds = map[string]string{}
	} else {
		bounds = readTable("grammar_bounds")
	}
	missing := map[string]bool{}
	for _, n := range g.missing {
		missing[n] = true
		c.Notes = append(c.Notes, "the part "+n+" of the grammar was not found: nothing is decided about it")
	}
	users := partUsers(missing)
	out := make([]gresult, len(tasks))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var mu sync.Mutex
	fail := ""
	for i, t := range tasks {
		if missing[t.part] {
			out[i].broken = "part not found"
			out[i].task = t
			continue
		}
		if u := users[t.part]; u != "" {
			out[i].broken = "it uses the part " + u + ", which was not found"
			out[i].task = t
			continue
		}
		wg.Add(1)
		go func(i int, t gtask) {
			defer wg.Done()
			sem <- true
			defer func() {
				<-sem
				if e := recover(); e != nil {
					mu.Lock()
					fail = fmt.Sprint(e)
					mu.Unlock()
				}
			}()
			if c.generate {
				for b := 2; b <= grammarBound; b++ {
					lim := grammarPaths
					if m := morePaths[t.part]; m > lim {
						lim = m
					}
					r := g.run(t, b, lim)
					if r.over {
						break
					}
					out[i] = r
				}
				mu.Lock()
				bounds[t.key()] = fmt.Sprintf("%d %d", out[i].bound, len(out[i].leaves))
				mu.Unlock()
				return
			}
			f := strings.Fields(bounds[t.key()])
			if len(f) != 2 {
				panic("no bound for " + t.key())
			}
			b, _ := strconv.Atoi(f[0])
			n, _ := strconv.Atoi(f[1])
			if c.Tier == "thorough" {
				n *= 4
			}
			out[i] = g.run(t, b, 20*n+2000)
		}(i, t)
	}
	wg.Wait()
	if fail != "" {
		panic(fail)
	}
	if c.generate {
		c.gen["grammar_names"] = g.names
		c.gen["parser_methods"] = g.partShapes()
		var as []string
		for i, t := range g.types {
			as = append(as, g.tlab[i]+" => "+strings.Join(g.accessors(t, g.tlab[i]), " "))
		}
		c.gen["accessors"] = as
		var ls []string
		for k, v := range bounds {
			ls = append(ls, k+" => "+v)
		}
		sort.Strings(ls)
		c.gen["grammar_bounds"] = ls
	}
	paths := 0
	for _, r := range out {
		paths += len(r.leaves)
	}
	c.count("parts of the grammar", len(g.ntFn))
	c.count("paths through the parser", paths)
	return g, out
}

// grammarTable makes the table of one aspect
func grammarTable(c *Check, name string, g *grammar, res []gresult, facet func(l *gleaf) string) {
	got := map[string]string{}
	at := map[string]string{}
	skip := map[string]bool{}
	undecided := 0
	same, rows := map[string]int{}, map[string]int{}
	for _, r := range res {
		k := r.task.key()
		if r.broken != "" || r.over {
			skip[k] = true
			c.Notes = append(c.Notes, k+" is not decided: "+r.broken)
			undecided++
			continue
		}
		und := ""
		var pl []*gleaf
		for i := range r.leaves {
			if u := r.leaves[i].facets["undecided"]; u != "" {
				und = u
			}
			pl = append(pl, &r.leaves[i])
		}
		if und != "" {
			skip[k] = true
			undecided++
			c.Notes = append(c.Notes, k+" is not decided: "+und)
			continue
		}
		b := &trieBuilder{domains: r.dom, facet: facet, tokens: g.kinds}
		for _, row := range b.build(pl).rows(b.domains) {
			if row.outcome == "" {
				continue
			}
			rk := k + ": " + row.path
			if n := (gtask{part: r.task.part, first: r.task.first}).key(); n != k && c.generate && got[n+": "+row.path] == row.outcome {
				same[k]++
			}
			if o, ok := got[rk]; ok && o != row.outcome {
				row.outcome = o + " OR " + row.outcome
			}
			got[rk] = row.outcome
			at[rk] = row.at
			rows[k]++
		}
	}
	c.count("parts not decided", undecided)
	task := func(rk string) string { return rk[:strings.Index(rk, ": ")] }
	if c.generate {
		// what does not depend on the options is written once
		for _, r := range res {
			if r.task.opts == "" {
				continue
			}
			k, n := r.task.key(), (gtask{part: r.task.part, first: r.task.first}).key()
			if same[k] == rows[k] && rows[k] == rows[n] {
				for rk := range got {
					if task(rk) == k {
						delete(got, rk)
					}
				}
				got[k+": *"] = "as without options"
			}
		}
		c.table(name, got, nil)
		return
	}
	want := readTable(name)
	for rk, o := range want {
		if o == "as without options" {
			delete(want, rk)
			k := task(rk)
			n := k[:strings.Index(k, "{")]
			for rk, o := range want {
				if task(rk) == n {
					want[k+rk[len(n):]] = o
				}
			}
		}
	}
	for k := range want {
		if skip[task(k)] {
			delete(want, k)
		}
	}
	pos := func(rk string) string {
		if at[rk] != "" {
			return at[rk]
		}
		part := task(rk)
		if i := strings.IndexAny(part, "[{ "); i > 0 {
			part = part[:i]
		}
		if f := g.ntFn[part]; f != nil {
			return g.p.pos(f.Pos())
		}
		return "-"
	}
	for _, k := range sortedKeysOf(want) {
		if o, ok := got[k]; ok {
			c.obligation(o == want[k], name, k, pos(k), "expected %s, the source gives %s", want[k], o)
		} else {
			c.obligation(false, name, k, pos(k), "expected %s, the source does not treat this input as a case of its own", want[k])
		}
	}
	for _, k := range sortedKeysOf(got) {
		if _, ok := want[k]; !ok {
			c.obligation(false, name, k, pos(k), "the source gives %s, which is not expected", got[k])
		}
	}
	c.count("cases of "+name, len(got))
}

func sortedKeysOf(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func checkGrammarTable(name string, facet func(l *gleaf) string, more ...func(c *Check, g *grammar)) func(c *Check) {
	return func(c *Check) {
		g, res := grammarRun(c)
		grammarTable(c, name, g, res, facet)
		for _, f := range more {
			f(c, g)
		}
		if !c.generate && len(c.Notes) == 0 {
			c.atLeast("paths through the parser", c.Counts["paths through the parser"], 10000)
		}
	}
}

// grammarEnds interprets the parts with sources that end after some tokens
func grammarEnds(c *Check, g *grammar, res []gresult) []gresult {
	run := func(ts []gtask) []gresult {
		out := make([]gresult, len(ts))
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		var mu sync.Mutex
		fail := ""
		for i, t := range ts {
			wg.Add(1)
			go func(i int, t gtask) {
				defer wg.Done()
				sem <- true
				defer func() {
					<-sem
					if e := recover(); e != nil {
						mu.Lock()
						fail = fmt.Sprint(e)
						mu.Unlock()
					}
				}()
				out[i] = g.run(t, 0, 20000)
			}(i, t)
		}
		wg.Wait()
		if fail != "" {
			panic(fail)
		}
		return out
	}
	var parts []gtask
	for _, r := range res {
		if r.broken == "" && !r.over && r.task.part != "Parse" && (r.task.how == "" || r.task.how == asSingle) {
			parts = append(parts, r.task)
		}
	}
	// which parts do not refuse a source that is at its end?
	empty := map[string]bool{}
	for {
		var ts []gtask
		for _, t := range parts {
			if t.first == "" || t.first == "*" {
				t.end, t.empty = 1, empty
				ts = append(ts, t)
			}
		}
		more := map[string]bool{}
		for _, r := range run(ts) {
			for i := range r.leaves {
				if l := &r.leaves[i]; l.facets["error"] == "" && l.facets["panic"] == "" && l.facets["endless"] == "" && !empty[r.task.part] {
					more[r.task.part] = true
				}
			}
		}
		if len(more) == 0 {
			break
		}
		for k := range empty {
			more[k] = true
		}
		empty = more
	}
	c.count("parts that accept the end of the source", len(empty))
	var ts []gtask
	for _, r := range res {
		for _, t := range parts {
			if t.key() != r.task.key() {
				continue
			}
			for k := 1; k <= r.bound; k++ {
				if k == 1 && t.first != "" && t.first != "*" {
					continue
				}
				t.end, t.empty = k, empty
				ts = append(ts, t)
			}
		}
	}
	return run(ts)
}

// leftRecursion: a part that enters itself before it reads a token does not come to an end
func leftRecursion(c *Check, g *grammar, res []gresult) {
	left := map[string]map[string]bool{}
	for _, r := range res {
		if left[r.task.part] == nil {
			left[r.task.part] = map[string]bool{}
		}
		for k := range r.left {
			left[r.task.part][k] = true
		}
	}
	for _, part := range sortedKeysOf2(left) {
		seen := map[string]bool{}
		var path []string
		var visit func(n string) bool
		visit = func(n string) bool {
			path = append(path, n)
			for _, k := range sortedKeys(left[n]) {
				if k == part {
					path = append(path, k)
					return true
				}
				if !seen[k] {
					seen[k] = true
					if visit(k) {
						return true
					}
				}
			}
			path = path[:len(path)-1]
			return false
		}
		found := visit(part)
		at := "-"
		if f := g.ntFn[part]; f != nil {
			at = g.p.pos(f.Pos())
		}
		c.obligation(!found, "left recursion", part, at, "%s enters itself before it has read a token: %s", part, strings.Join(path, " -> "))
	}
	c.count("parts without left recursion", len(left))
}

func sortedKeysOf2(m map[string]map[string]bool) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// checkContained: no path ends in a panic that Parse does not turn into an error, or goes on without end
func checkContained(what string) func(c *Check) {
	return func(c *Check) {
		g, res := grammarRun(c)
		if what == "endless" {
			leftRecursion(c, g, res)
			res = append(res, grammarEnds(c, g, res)...)
		}
		paths := 0
		for _, r := range res {
			if r.broken != "" {
				c.Notes = append(c.Notes, r.task.key()+" is not decided: "+r.broken)
				continue
			}
			bad := 0
			for i := range r.leaves {
				l := &r.leaves[i]
				if u := l.facets["undecided"]; u != "" {
					c.Notes = append(c.Notes, r.task.key()+" is not decided on some paths: "+u)
					continue
				}
				paths++
				if l.facets[what] == "" {
					c.obl++
					c.ok++
					continue
				}
				if bad++; bad > 20 {
					continue
				}
				at := l.at
				if at == "" && g.ntFn[r.task.part] != nil {
					at = g.p.pos(g.ntFn[r.task.part].Pos())
				}
				c.obligation(false, what, r.task.key()+": "+pathText(l), at, "%s", l.facets[what])
			}
		}
		paths += lexerContained(c, g, what)
		if len(c.Notes) == 0 {
			c.atLeast("paths decided", paths, 10000)
		}
	}
}

// pathText shows the path of a leaf
func pathText(l *gleaf) string {
	var out []string
	for i, e := range l.events {
		s := eventText(e)
		if s == "?" {
			name := "t" + itoa(i+1)
			for k := range l.vars {
				if l.vars[k].name == name {
					s = valueSetOf(&l.vars[k])
				}
			}
		}
		out = append(out, s)
	}
	return strings.Join(out, " ")
}

func valueSetOf(v *gvar) string {
	ks := sortedKeys(v.alive)
	if len(ks) > 6 {
		return fmt.Sprintf("%s|+%d", strings.Join(ks[:4], "|"), len(ks)-4)
	}
	return strings.Join(ks, "|")
}

func init() {
	const how = "The source of each part of the grammar is interpreted abstractly over an open stream of tokens. A token is a set of kinds that is split only where the code tells kinds apart, nested parts are replaced " +
		"by summaries (any expression, any number of tokens), and all paths up to a bound on the number of tokens and nested parts are followed. "
	register("C06", how+"No path may end in a run-time panic or in a panic with a value that Parse does not turn into an error, and the analysis of Parse itself must return an error for each issue and each error raised below it.", checkContained("panic"),
		"the tokens carry the values that the lexer gives them: text for names and strings, numbers for numbers")
	register("C17", how+"The tree that each path builds, the token at which it stops, and the refusal of the others are compared, in a normal form that does not depend on the order of tests, with a reviewed table of the Puppet grammar.",
		checkGrammarTable("grammar_tree", func(l *gleaf) string { return l.facets["tree"] }))
	register("C19", how+"The extent that each path gives to each node it makes, in terms of where the tokens start and end, is compared with a reviewed table.",
		checkGrammarTable("grammar_extents", func(l *gleaf) string { return l.facets["extents"] }, func(c *Check, g *grammar) {
			lexerTable(c, "lexer_extents", g, lexerRun(c, g, "tokens strings heredoc epp", 1, nil), lexExtents)
		}))
	register("C20", how+"The issue, its arguments and its location with which each path refuses the input are compared with a reviewed table.",
		checkGrammarTable("grammar_errors", func(l *gleaf) string {
			s := strings.TrimSpace(l.facets["error"] + " " + l.facets["errorpos"])
			if sv := l.facets["severity"]; sv != "" {
				s += " severity " + sv
			}
			return s
		}, func(c *Check, g *grammar) {
			lexerTable(c, "lexer_errors", g, lexerRun(c, g, "", 1, nil), lexErrors)
		}))
	register("C21", how+"The definitions that each path has registered at its end, in their order, and the namespace that it leaves behind are compared with a reviewed table.",
		checkGrammarTable("grammar_defs", func(l *gleaf) string { return l.facets["defs"] }))
	register("C25", how+"No path may go on without reading a token: an interpretation that exceeds the limit of steps or of recursion before it reaches the bound of tokens is reported.", checkContained("endless"))
}
