package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"sync"
	"time"
)

// words that may mean something in the language; the others are covered by open characters
var words = strings.Fields("activity actor and application attr case class consumes default define else elsif environment false function if import in " +
	"inherits node or plan private produces site step style true type undef unless workflow")

const (
	nameAlpha = "End a..z A..Z 0..9 _ : DASH SP $"
	wsAlpha   = "End SP TAB NL CR # / * a"
)

func lexTasks() []ltask {
	var ts []ltask
	add := func(t ltask) { ts = append(ts, t) }
	// tokens
	add(ltask{name: "one token", group: "tokens", before: true, tokens: 1, limit: 6000})
	add(ltask{name: "tokens", group: "tokens", limit: 6000})
	add(ltask{name: "wide character", group: "tokens", wide: true, tokens: 1, limit: 3000})
	add(ltask{name: "names", group: "tokens", alpha: nameAlpha, tokens: 2, limit: 6000})
	add(ltask{name: "words", group: "tokens", alpha: "End a..z SP", tokens: 1, limit: 3000})
	for _, w := range words {
		add(ltask{name: "word", group: "tokens", prefix: w, alpha: "End a A 0 _ : DASH SP", tokens: 1, limit: 80})
	}
	add(ltask{name: "dashes", group: "tokens", prefix: "a", alpha: "End a DASH : B 1 SP", tokens: 2, limit: 4000})
	add(ltask{name: "qualified names", group: "tokens", prefix: "a::", alpha: "End a..z A..Z 0..9 _ :", tokens: 1, limit: 3000})
	add(ltask{name: "qualified types", group: "tokens", prefix: "A::", alpha: "End a..z A..Z 0..9 _ :", tokens: 1, limit: 3000})
	add(ltask{name: "variables", group: "tokens", prefix: "$", tokens: 1, limit: 3000})
	add(ltask{name: "qualified variables", group: "tokens", prefix: "$::", alpha: "End a..z A..Z 0..9 _ :", tokens: 1, limit: 3000})
	add(ltask{name: "space and comments", group: "tokens", alpha: wsAlpha, limit: 6000})
	add(ltask{name: "comments", group: "tokens", prefix: "/*", alpha: wsAlpha, limit: 4000})
	add(ltask{name: "lines", group: "tokens", prefix: "a", alpha: "End SP NL ( [ #", limit: 6000})
	add(ltask{name: "bars", group: "tokens", prefix: "|", alpha: "End SP NL BAR > { a #", before: true, limit: 6000})
	add(ltask{name: "regular expressions", group: "tokens", prefix: "/", before: true, tokens: 1, limit: 4000})
	add(ltask{name: "in a regular expression", group: "tokens", prefix: "(/a", alpha: "/ \\ NL b [ ] *", suffix: "c/ d", limit: 6000})
	add(ltask{name: "before the end of a comment", group: "tokens", prefix: "a", alpha: "/ * # NL SP b", suffix: "*/ (c", limit: 6000})
	add(ltask{name: "before a bracket", group: "tokens", prefix: "a", alpha: "SP TAB NL CR # ) ] b", suffix: "[(c", limit: 6000})
	add(ltask{name: "angles", group: "tokens", alpha: "End < BAR > = DASH ~ +", limit: 6000})
	add(ltask{name: "after a selector", group: "tokens", prefix: "?", alpha: "End { SP NL a [ (", limit: 3000})
	// options
	for _, o := range []string{"HandleBacktickStrings", "HandleHexEscapes", "TasksEnabled", "WorkflowEnabled"} {
		add(ltask{name: "one token", group: "options", opts: o, tokens: 1, limit: 800})
	}
	const allOptions = "HandleBacktickStrings HandleHexEscapes TasksEnabled WorkflowEnabled"
	const reversed = "WorkflowEnabled TasksEnabled HandleHexEscapes HandleBacktickStrings"
	for _, o := range []string{"CreatePspecParser", allOptions, reversed, "HandleBacktickStrings HandleBacktickStrings"} {
		add(ltask{name: "one token", group: "options", opts: o, tokens: 1, limit: 800})
		add(ltask{name: "hex escapes", group: "options", opts: o, prefix: "\"\\x", tokens: 1, limit: 800})
		add(ltask{name: "backtick strings", group: "options", opts: o, prefix: "`", tokens: 1, limit: 800})
		add(ltask{name: "words", group: "options", alpha: "p l a n SP End", opts: o, tokens: 1, limit: 3000})
	}
	for _, o := range []string{"HandleBacktickStrings", "HandleHexEscapes", "TasksEnabled", "WorkflowEnabled"} {
		for _, oo := range []string{o + " EppMode", "EppMode " + o} {
			add(ltask{name: "tags", group: "options", opts: oo, prefix: "a<% ", alpha: "` \" \\ x p a % > SP", suffix: "lan %>b", limit: 800})
			add(ltask{name: "text", group: "options", opts: oo, alpha: "` \" \\ x a < % SP", suffix: "b", limit: 800})
		}
	}
	add(ltask{name: "tags", group: "options", opts: "EppMode", prefix: "a<% ", alpha: "` \" \\ x p a % > SP", suffix: "lan %>b", limit: 800})
	add(ltask{name: "words", group: "options", simple: true, alpha: "p l a n SP End", tokens: 1, limit: 3000})
	add(ltask{name: "backtick strings", group: "options", simple: true, prefix: "`", tokens: 1, limit: 800})
	add(ltask{name: "hex escapes", group: "options", simple: true, prefix: "\"\\x", tokens: 1, limit: 800})
	add(ltask{name: "words", group: "options", alpha: "p l a n SP End", opts: "TasksEnabled", tokens: 1, limit: 3000})
	add(ltask{name: "words", group: "options", alpha: "p l a n SP End", opts: "WorkflowEnabled", tokens: 1, limit: 3000})
	add(ltask{name: "words", group: "options", alpha: "p l a n SP End", opts: "", tokens: 1, limit: 3000})
	add(ltask{name: "backtick strings", group: "options", opts: "HandleBacktickStrings", prefix: "`", tokens: 1, limit: 3000})
	add(ltask{name: "hex escapes", group: "options", opts: "HandleHexEscapes", prefix: "\"\\x", tokens: 1, limit: 3000})
	add(ltask{name: "hex escapes", group: "options", prefix: "\"\\x", tokens: 1, limit: 3000})
	// numbers
	const digits = "End 0..9 . e E + DASH x X a f g _ SP"
	add(ltask{name: "numbers", group: "numbers", alpha: digits, tokens: 2, limit: 6000})
	add(ltask{name: "octal", group: "numbers", prefix: "0", tokens: 1, limit: 3000})
	add(ltask{name: "hexadecimal", group: "numbers", prefix: "0x", tokens: 1, limit: 3000})
	add(ltask{name: "decimal", group: "numbers", prefix: "12", tokens: 1, limit: 3000})
	add(ltask{name: "fraction", group: "numbers", prefix: "12.3", tokens: 1, limit: 3000})
	add(ltask{name: "exponent", group: "numbers", prefix: "1.5e", tokens: 1, limit: 3000})
	add(ltask{name: "exponent of an integer", group: "numbers", prefix: "15E", tokens: 1, limit: 3000})
	add(ltask{name: "fraction of zero", group: "numbers", prefix: "0.", tokens: 1, limit: 3000})
	add(ltask{name: "large", group: "numbers", prefix: "922337203685477580", alpha: digits, tokens: 1, limit: 3000})
	add(ltask{name: "large hexadecimal", group: "numbers", prefix: "0x7ffffffffffffff", tokens: 1, limit: 3000})
	add(ltask{name: "large octal", group: "numbers", prefix: "0777777777777777777777", tokens: 1, limit: 3000})
	// strings
	for _, s := range []bool{false, true} {
		n := ""
		if s {
			n = " for the simple lexer"
		}
		add(ltask{name: "single quotes" + n, group: "strings", simple: s, prefix: "'", wide: !s, tokens: 1, limit: 3000})
		add(ltask{name: "double quotes" + n, group: "strings", simple: s, prefix: "\"", wide: s, tokens: 1, limit: 6000})
		add(ltask{name: "escapes" + n, group: "strings", simple: s, prefix: "\"a\\", tokens: 1, limit: 3000})
		add(ltask{name: "unicode escapes" + n, group: "strings", simple: s, prefix: "\"\\u", alpha: "End 0..9 a..z A..Z { } \" NL", tokens: 1, limit: 3000})
		add(ltask{name: "braced unicode escapes" + n, group: "strings", simple: s, prefix: "\"\\u{", alpha: "End 0..9 a..z A..Z { } \" NL", tokens: 1, limit: 3000})
		add(ltask{name: "one token" + n, group: "strings", simple: s, tokens: 1, limit: 3000})
	}
	add(ltask{name: "interpolation", group: "strings", prefix: "\"$", tokens: 1, limit: 4000})
	add(ltask{name: "interpolation in text", group: "strings", prefix: "\"a", alpha: "End $ { } \" b B \\ : 1", tokens: 1, limit: 6000})
	add(ltask{name: "text in double quotes", group: "strings", prefix: "\"a", alpha: "$ { } \\ a B : 1 _ SP", suffix: "x}\" y", limit: 6000})
	add(ltask{name: "text in single quotes", group: "strings", prefix: "'a", alpha: "\\ ' NL $ n", suffix: "x' y", limit: 6000})
	add(ltask{name: "after an interpolation", group: "strings", prefix: "\"${a}", alpha: "$ { } \\ a SP [", suffix: "x}\" y", limit: 6000})
	add(ltask{name: "hex escapes", group: "strings", opts: "HandleHexEscapes", prefix: "\"\\x", tokens: 1, limit: 3000})
	add(ltask{name: "hex escapes in text", group: "strings", opts: "HandleHexEscapes", prefix: "\"a", alpha: "\\ x 4 b F _ \"", suffix: "4c\" d", limit: 6000})
	const chain = ". [ ] ( ) b SP"
	for _, p := range []string{"a", "1", "A"} {
		add(ltask{name: "interpolated", group: "strings", prefix: "\"${" + p, alpha: chain, suffix: "}x\" y", limit: 900, deeper: 2})
	}
	add(ltask{name: "interpolated calls with blocks", group: "strings", prefix: "\"${a.b |$x| {", alpha: "} { $ a SP .", suffix: "}}x\" y", limit: 900})
	add(ltask{name: "interpolated strings", group: "strings", prefix: "\"${a['", alpha: "' \" } $ { ]", suffix: "']}x\" y", limit: 900})
	// heredocs
	for _, s := range []bool{false, true} {
		n := ""
		if s {
			n = " for the simple lexer"
		}
		add(ltask{name: "heredoc tag" + n, group: "heredoc", simple: s, prefix: "@(", alpha: "End E ) : / \" NL n SP", limit: 6000})
		add(ltask{name: "heredoc flags" + n, group: "heredoc", simple: s, prefix: "@(E/", tokens: 1, alpha: "End t r n s u L $ ) x / : NL", limit: 3000})
		add(ltask{name: "heredoc end" + n, group: "heredoc", simple: s, prefix: "@(E)\n", alpha: "End E a BAR DASH SP TAB NL CR", limit: 9000})
		add(ltask{name: "heredoc with text" + n, group: "heredoc", simple: s, prefix: "@(E)\n  a\n", alpha: "End E BAR DASH SP NL", limit: 6000})
		add(ltask{name: "heredoc escapes" + n, group: "heredoc", simple: s, prefix: "@(E/tn$L)\n\\", alpha: "End t n $ s \\ NL E a", limit: 6000})
		add(ltask{name: "heredoc all escapes" + n, group: "heredoc", simple: s, prefix: "@(E/trnsuL$)\n\\", tokens: 1, limit: 3000})
		add(ltask{name: "heredoc interpolation" + n, group: "heredoc", simple: s, prefix: "@(\"E\")\n", alpha: "End $ { } a NL E \\", limit: 6000})
	}
	add(ltask{name: "heredoc lines after an interpolation", group: "heredoc", prefix: "@(\"E\"/tL$)\n  $a", alpha: "\\ NL SP t $ {", suffix: " b\n  | E\nc", limit: 6000})
	add(ltask{name: "heredoc escapes after an interpolation", group: "heredoc", prefix: "@(\"E\"/rnsu$)\n$a", alpha: "\\ r n s u $ 0", suffix: "b\nE\nc", limit: 6000})
	add(ltask{name: "heredoc end tag", group: "heredoc", prefix: "@(EN)\n", alpha: "End E N SP NL BAR", limit: 6000})
	add(ltask{name: "heredoc margin", group: "heredoc", prefix: "@(E)\n  a\n b\n  ", alpha: "End E BAR DASH SP NL", limit: 6000})
	add(ltask{name: "heredoc margin with escapes", group: "heredoc", prefix: "@(E/L)\n  a\\\n   b\n ", alpha: "End E BAR DASH SP NL", limit: 6000})
	add(ltask{name: "heredoc rest of line", group: "heredoc", prefix: "@(E)", alpha: "End a SP NL E # / *", limit: 9000})
	add(ltask{name: "after a heredoc", group: "heredoc", prefix: "@(E)\nE", alpha: "End a SP NL E BAR", limit: 6000})
	add(ltask{name: "after a heredoc and more", group: "heredoc", prefix: "@(E) (\na\nE\n", alpha: "End a SP NL ( BAR", limit: 6000})
	add(ltask{name: "two heredocs", group: "heredoc", prefix: "@(E)@(F)\na\nE\n", alpha: "End b F NL BAR DASH", limit: 6000})
	add(ltask{name: "heredoc syntax", group: "heredoc", prefix: "@(E:x", alpha: "End ) : / NL E n", limit: 6000})
	const indent = "SP TAB NL a"
	for _, s := range []bool{false, true} {
		n := ""
		if s {
			n = " for the simple lexer"
		}
		add(ltask{name: "heredoc lines" + n, group: "heredoc", simple: s, prefix: "@(E)\n", alpha: indent, suffix: "b\n   | E\nc", limit: 6000})
		add(ltask{name: "heredoc lines without margin" + n, group: "heredoc", simple: s, prefix: "@(E)\n", alpha: indent + " CR", suffix: "b\n   - E\nc", limit: 6000})
		add(ltask{name: "heredoc lines with escapes" + n, group: "heredoc", simple: s, prefix: "@(E/tL)\n", alpha: indent + " \\ t", suffix: "b\n  |- E\nc", limit: 6000})
		add(ltask{name: "heredoc lines with interpolation" + n, group: "heredoc", simple: s, prefix: "@(\"E\"/n)\n", alpha: "SP NL a $ \\ n", suffix: " b\n  | E\nc", limit: 6000})
		add(ltask{name: "heredoc tag" + n, group: "heredoc", simple: s, prefix: "@(", alpha: "E F / : \" SP n L", suffix: ")\n x\nF\n |E\nb", limit: 6000})
	}
	add(ltask{name: "rest of the line of a heredoc", group: "heredoc", prefix: "(@(E)", alpha: "a SP ( , ) + # . [ NL", suffix: " )\nx\nE\n z", limit: 6000})
	add(ltask{name: "more heredocs", group: "heredoc", prefix: "@(E) @(", alpha: "F G ) @ ( SP", suffix: ")\nx\nE\ny\nF\nw\nG\n z", limit: 6000})
	// text with tags
	const epp = "EppMode"
	add(ltask{name: "text", group: "epp", opts: epp, alpha: "End < % > DASH = # SP NL a", limit: 20000})
	add(ltask{name: "any text", group: "epp", opts: epp, wide: true, limit: 4000})
	add(ltask{name: "comment", group: "epp", opts: epp, prefix: "x<%#", alpha: "End < % > DASH NL a", limit: 6000})
	add(ltask{name: "tag", group: "epp", opts: epp, prefix: "x <%", alpha: "End < % > DASH = # SP NL a BAR", limit: 6000})
	add(ltask{name: "end of a tag", group: "epp", opts: epp, prefix: "<% a ", alpha: "End < % > DASH SP TAB NL CR a", limit: 6000})
	add(ltask{name: "trimming end of a tag", group: "epp", opts: epp, prefix: "<%= a -%>", alpha: "End < % DASH SP TAB NL CR a", limit: 6000})
	add(ltask{name: "bars", group: "epp", opts: epp, prefix: "<%|", alpha: "End SP BAR % DASH > { a", tokens: 3, limit: 6000})
	add(ltask{name: "one tag", group: "epp", opts: epp, prefix: "<%", tokens: 1, limit: 3000})
	add(ltask{name: "tags without text mode", group: "epp", alpha: "End < % > DASH = # SP", limit: 6000})
	add(ltask{name: "text before a tag", group: "epp", opts: epp, alpha: "SP TAB NL CR a < %", suffix: "<%- a %>b", limit: 6000})
	add(ltask{name: "text between tags", group: "epp", opts: epp, prefix: "<%= a -%>", alpha: "SP TAB NL CR b < %", suffix: "<%- c -%>\n", limit: 6000})
	add(ltask{name: "kind of a tag", group: "epp", opts: epp, prefix: "a \n <%", alpha: "DASH = # % SP a BAR >", suffix: " b %> \n c", limit: 6000})
	add(ltask{name: "code of a tag", group: "epp", opts: epp, prefix: "a<% b", alpha: "DASH % > SP NL c \" #", suffix: " -%> \nd", limit: 6000})
	return ts
}

func (t ltask) key() string {
	k := t.group + ": " + t.name
	if t.simple && t.group == "options" {
		k += " for the simple lexer"
	}
	if t.opts != "" {
		k += "{" + t.opts + "}"
	}
	if t.prefix != "" {
		k += " after " + showText(t.prefix)
	}
	if t.suffix != "" {
		k += " before " + showText(t.suffix)
	}
	return strings.Replace(k, ": ", ", ", -1)
}

// lexer tables are kept small enough to be read
const (
	lexBound = 8
	lexRows  = 3500
)

func (t ltask) table(res gresult, facet func(l *gleaf) string) []trieRow {
	b := &trieBuilder{domains: res.dom, facet: facet, chars: true}
	var pl []*gleaf
	for i := range res.leaves {
		pl = append(pl, &res.leaves[i])
	}
	if len(pl) == 0 {
		return nil
	}
	return b.build(pl).rows(b.domains)
}

func lexTokens(l *gleaf) string { return l.facets["tokens"] }

// largest finds the largest bound for which the lexer is analysed in reasonable time
func (g *grammar) largest(t ltask) (res gresult) {
	for b := 1; b <= lexBound; b++ {
		r := g.runLexer(t, b, 5*t.limit)
		if r.over || b > 1 && len(t.table(r, lexTokens)) > lexRows {
			break
		}
		res = r
		if r.broken != "" {
			break
		}
	}
	return
}

type lresult struct {
	gresult
	task ltask
}

// lexerRun analyses the lexer for the tasks of some groups, or all
func lexerRun(c *Check, g *grammar, groups string, less int, each func(r *lresult)) []lresult {
	var tasks []ltask
	for _, t := range lexTasks() {
		if groups == "" || strings.Contains(" "+groups+" ", " "+t.group+" ") {
			tasks = append(tasks, t)
		}
	}
	bounds := readTable("lexer_bounds")
	out := make([]lresult, len(tasks))
	paths := 0
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, 8)
	fail := ""
	for i, t := range tasks {
		wg.Add(1)
		go func(i int, t ltask) {
			defer wg.Done()
			sem <- true
			defer func() {
				<-sem
				if debugPanics {
					return
				}
				if e := recover(); e != nil {
					mu.Lock()
					fail = fmt.Sprint(t.key(), ": ", e)
					mu.Unlock()
				}
			}()
			out[i].task = t
			mu.Lock()
			f := strings.Fields(bounds[t.key()])
			mu.Unlock()
			if len(f) != 2 {
				if !c.generate {
					panic("no bound")
				}
				out[i].gresult = g.largest(t)
				mu.Lock()
				bounds[t.key()] = fmt.Sprintf("%d %d", out[i].bound, len(out[i].leaves))
				mu.Unlock()
				return
			}
			b, _ := strconv.Atoi(f[0])
			n, _ := strconv.Atoi(f[1])
			if b -= less; b < 2 {
				b = 2
			}
			if c.Tier == "thorough" {
				n *= 4
			}
			out[i].gresult = g.runLexer(t, b, 4*n+2000)
			mu.Lock()
			defer mu.Unlock()
			paths += len(out[i].leaves)
			if each != nil {
				each(&out[i])
				out[i].leaves, out[i].dom = nil, nil
			}
		}(i, t)
	}
	wg.Wait()
	if fail != "" {
		panic(fail)
	}
	if c.generate {
		var ls []string
		for k, v := range bounds {
			ls = append(ls, k+" => "+v)
		}
		sort.Strings(ls)
		c.gen["lexer_bounds"] = ls
	}
	c.count("paths through the lexer", paths)
	return out
}

// undecided tells why a task has no result
func (r *lresult) undecided() string {
	if r.broken != "" {
		return r.broken
	}
	if r.over {
		return "too many paths"
	}
	for i := range r.leaves {
		if u := r.leaves[i].facets["undecided"]; u != "" {
			return u
		}
	}
	return ""
}

// lexerTable compares one aspect of the lexer with a table
func lexerTable(c *Check, name string, g *grammar, res []lresult, facet func(l *gleaf) string) {
	got, at := map[string]string{}, map[string]string{}
	skip := map[string]bool{}
	task := func(rk string) string { return rk[:strings.Index(rk, ": ")] }
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := range res {
		r := &res[i]
		k := r.task.key()
		if u := r.undecided(); u != "" {
			skip[k] = true
			c.Notes = append(c.Notes, k+" is not decided: "+u)
			c.count("sources not decided", 1)
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			rows := r.task.table(r.gresult, facet)
			mu.Lock()
			defer mu.Unlock()
			for _, row := range rows {
				if row.outcome == "" {
					continue
				}
				rk := k + ": " + row.path
				if o, ok := got[rk]; ok && o != row.outcome {
					if o > row.outcome {
						o, row.outcome = row.outcome, o
					}
					row.outcome = o + " OR " + row.outcome
				}
				got[rk], at[rk] = row.outcome, row.at
			}
		}()
	}
	wg.Wait()
	if c.generate {
		c.table(name, got, nil)
		return
	}
	in := map[string]bool{}
	for _, r := range res {
		in[r.task.key()] = true
	}
	want := readTable(name)
	keys := map[string]bool{}
	for k := range want {
		if skip[task(k)] || !in[task(k)] {
			delete(want, k)
			continue
		}
		keys[k] = true
	}
	for k := range got {
		keys[k] = true
	}
	def := "-"
	if g.nextTok != nil {
		def = g.p.pos(g.nextTok.Pos())
	}
	for _, k := range sortedKeys(keys) {
		pos := at[k]
		if pos == "" {
			pos = def
		}
		w, inW := want[k]
		o, inG := got[k]
		switch {
		case inW && inG:
			c.obligation(o == w, name, k, pos, "expected %s, the source gives %s", w, o)
		case inW:
			c.obligation(false, name, k, pos, "expected %s, the source does not treat this text as a case of its own", w)
		default:
			c.obligation(false, name, k, pos, "the source gives %s, which is not expected", o)
		}
	}
	c.count("cases of "+name, len(got))
}

func dumpLexer(p *Program, name string, bound int, facet string) {
	g := newGrammar(p)
	debugPanics = os.Getenv("DEBUGPANICS") != ""
	for _, t := range lexTasks() {
		if !strings.HasPrefix(t.key(), name) {
			continue
		}
		t0 := time.Now()
		var res gresult
		if bound > 0 {
			res = g.runLexer(t, bound, 200000)
		} else {
			res = g.largest(t)
		}
		t1 := time.Now()
		r := lresult{gresult: res, task: t}
		rows := t.table(res, func(l *gleaf) string { return l.facets[facet] })
		fmt.Println(t.key(), "bound", res.bound, "paths", len(res.leaves), "rows", len(rows), r.undecided(), t1.Sub(t0).Round(time.Millisecond), time.Since(t1).Round(time.Millisecond))
		if facet != "none" {
			var out []string
			for _, x := range rows {
				out = append(out, "   "+x.path+" => "+x.outcome)
			}
			sort.Strings(out)
			fmt.Println(strings.Join(out, "\n"))
		}
	}
}

func checkLexer(groups string, tables map[string]func(l *gleaf) string) func(c *Check) {
	return func(c *Check) {
		g := newGrammar(c.P)
		res := lexerRun(c, g, groups, 0, nil)
		for _, n := range sortedKeysOfFn(tables) {
			lexerTable(c, n, g, res, tables[n])
		}
		if groups == "tokens" && !c.generate {
			keywordTokens(c, g)
		}
		if !c.generate && len(c.Notes) == 0 {
			c.atLeast("paths through the lexer", c.Counts["paths through the lexer"], 500)
		}
	}
}

// keywordTokens: a token is that of a keyword when the lexer makes it for a word that is reserved. The texts
// true and false make a value.
func keywordTokens(c *Check, g *grammar) {
	f, _ := c.P.Parser.Members["IsKeywordToken"].(*ssa.Function)
	if f == nil || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 1 {
		c.undecided("no function tells tokens of keywords from others")
		return
	}
	m := newMachine(g.sh)
	reserved := map[int64]string{}
	for _, mem := range c.P.Parser.Members {
		gl, ok := mem.(*ssa.Global)
		if !ok || shortT(gl.Type()) != "*map[string]int" {
			continue
		}
		if mp, ok := (*m.global(gl)).(*mmap); ok {
			for i, k := range mp.keys {
				if v, ok := mp.vals[i].(int64); ok {
					reserved[v] = m.str(k)
				}
			}
		}
	}
	if len(reserved) < 20 {
		c.undecided("the table of reserved words was not found")
		return
	}
	for _, k := range g.kinds {
		want := reserved[k.value] != "" && k.label != "Boolean"
		var got mval
		broken := func() (e interface{}) {
			defer func() { e = recover() }()
			m.explore(func() { got = m.force(m.call(f, nil, []mval{k.value})) })
			return
		}()
		if broken != nil {
			c.undecided("IsKeywordToken: %v", broken)
			return
		}
		c.obligation(got == mval(want), "keyword", "IsKeywordToken("+k.label+")", c.P.pos(f.Pos()),
			"the token %q is taken for that of a keyword: %v, but the lexer says: %v", k.text, got, want)
	}
}

func sortedKeysOfFn(m map[string]func(l *gleaf) string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func lexErrors(l *gleaf) string {
	return strings.TrimSpace(l.facets["error"] + " " + l.facets["errorpos"])
}

func lexExtents(l *gleaf) string {
	return l.facets["extents"]
}

func init() {
	const how = "The source of the lexer and of the reader below it is interpreted abstractly over a source text whose characters are open: each is a set of characters that is split only where the code tells characters apart, " +
		"and all paths for texts up to a bound are followed. Nested expressions in strings are replaced by an unknown expression. "
	for _, x := range []struct{ id, group, what string }{
		{"C16", "tokens", "The sequence of tokens with their values and ends is compared, in a normal form that does not depend on the order of tests, with a reviewed table."},
		{"C22", "options", "This is done for each option; the tokens are compared with reviewed tables."},
		{"C24", "numbers", "The token, the digits and the base from which its value is computed, and the refusal of the other texts are compared with a reviewed table."},
		{"C26", "heredoc", "The text or the segments of the heredoc, where reading goes on, and the refusal of the others are compared with a reviewed table."},
		{"C27", "strings", "The characters of each string or its segments and the refusal of the others are compared with a reviewed table."},
		{"C28", "epp", "The rendered texts and the tokens between them are compared with a reviewed table."},
	} {
		register(x.id, how+x.what, checkLexer(x.group, map[string]func(l *gleaf) string{"lexer_" + x.group: lexTokens}))
	}
}

// lexerContained: no path through the lexer ends in a panic that Parse does not turn into an error, or goes on without end
func lexerContained(c *Check, g *grammar, what string) (paths int) {
	lexerRun(c, g, "", 0, func(r *lresult) {
		if r.broken != "" {
			c.Notes = append(c.Notes, r.task.key()+" is not decided: "+r.broken)
			return
		}
		bad := 0
		for i := range r.leaves {
			l := &r.leaves[i]
			if u := l.facets["undecided"]; u != "" {
				c.Notes = append(c.Notes, r.task.key()+" is not decided on some paths: "+u)
				continue
			}
			paths++
			if l.facets[what] == "" {
				c.obl++
				c.ok++
				continue
			}
			if bad++; bad > 20 {
				continue
			}
			at := l.at
			if at == "" {
				at = g.p.pos(g.nextTok.Pos())
			}
			c.obligation(false, what, r.task.key()+": "+charsText(l), at, "%s", l.facets[what])
		}
	})
	return
}

// charsText shows the characters of a path
func charsText(l *gleaf) string {
	var out []string
	for k := range l.vars {
		if v := &l.vars[k]; isCharName(v.name) {
			out = append(out, v.name+"="+valueSetOf(v))
		}
	}
	return strings.Join(out, " ")
}
