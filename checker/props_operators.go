package main

import (
	"strings"
)

// The binary operators, from the loosest to the tightest, as documented for the Puppet language.
var operatorLevels = []struct {
	kind  string
	right bool
	ops   []string
}{
	{"RelationshipExpression", false, []string{"->", "~>", "<-", "<~"}},
	{"AssignmentExpression", true, []string{"=", "+=", "-="}},
	{"OrExpression", false, []string{"or"}},
	{"AndExpression", false, []string{"and"}},
	{"ComparisonExpression", false, []string{"<", "<=", ">", ">="}},
	{"ComparisonExpression", false, []string{"==", "!="}},
	{"ArithmeticExpression", false, []string{"<<", ">>"}},
	{"ArithmeticExpression", false, []string{"+", "-"}},
	{"ArithmeticExpression", false, []string{"*", "/", "%"}},
	{"MatchExpression", false, []string{"=~", "!~"}},
	{"InExpression", false, []string{"in"}},
}

var prefixKinds = map[string]string{"!": "NotExpression", "-": "UnaryMinusExpression", "*": "UnfoldExpression"}

type opItem struct {
	operand string
	op      string
	name    string // how the operator is shown
	digit   bool   // the operator is followed by a digit
}

type opReader struct {
	items []opItem
	pos   int
	bad   string
}

func (o *opReader) next() *opItem {
	if o.pos < len(o.items) {
		return &o.items[o.pos]
	}
	return &opItem{}
}

// binary reads an expression whose operators are at the given level or tighter
func (o *opReader) binary(level int) string {
	if level == len(operatorLevels) {
		return o.unary()
	}
	l := operatorLevels[level]
	lhs := o.binary(level + 1)
	for {
		op := o.next().op
		found := false
		for _, x := range l.ops {
			if x == op && op != "" {
				found = true
			}
		}
		if !found {
			return lhs
		}
		at := o.pos
		o.pos++
		var rhs string
		if l.right {
			rhs = o.binary(level)
		} else {
			rhs = o.binary(level + 1)
		}
		name := l.kind
		if l.kind != "OrExpression" && l.kind != "AndExpression" && l.kind != "InExpression" {
			name += " " + o.items[at].name
		}
		lhs = "(" + lhs + " " + name + " " + rhs + ")"
	}
}

func (o *opReader) unary() string {
	it := o.next()
	if it.op != "" {
		o.pos++
		if it.digit {
			if it.op != "-" && it.op != "+" {
				o.bad = "digit"
			}
			x := o.next().operand
			o.pos++
			return x
		}
		k := prefixKinds[it.op]
		if k == "" {
			o.bad = "the operator " + it.op + " has no operand to the left"
			return "?"
		}
		if it.op == "-" {
			x := o.next()
			o.pos++
			if x.operand == "" {
				o.bad = "nothing to negate"
			}
			return "(" + k + " " + x.operand + ")"
		}
		return "(" + k + " " + o.unary() + ")"
	}
	o.pos++
	if it.operand == "" {
		o.bad = "an operand is missing"
	}
	return it.operand
}

func checkOperators(c *Check) {
	g := newGrammar(c.P)
	binary, prefix := 9, 7
	if c.Tier == "thorough" {
		binary, prefix = 12, 9
	}
	n := operators(c, g, "unaryExpression", binary) + operators(c, g, "primaryExpression", prefix)
	if len(c.Notes) == 0 {
		c.atLeast("sequences of operators decided", n, 500)
	}
}

// operators decides how sequences of operators with the given kind of operands are grouped
func operators(c *Check, g *grammar, operand string, bound int) int {
	start := "relationship"
	for _, n := range []string{start, operand} {
		if g.ntFn[n] == nil {
			c.Notes = append(c.Notes, "the part "+n+" of the grammar was not found: nothing is decided")
			return 0
		}
	}
	r := newRun(g, bound)
	r.group = true
	for n := range g.ntFn {
		switch n {
		case operand, "primaryExpression", "parse", "lambda", "parameter", "hostname":
		default:
			r.lookInto(n)
		}
	}
	text := map[string]string{}
	isOp := map[string]bool{}
	for _, l := range operatorLevels {
		for _, op := range l.ops {
			isOp[op] = true
		}
	}
	isOp["!"] = true
	levelOf := map[string]int{"!": -1}
	for i, l := range operatorLevels {
		for _, op := range l.ops {
			levelOf[op] = i
			if prefixKinds[op] != "" || op == "+" {
				levelOf[op] = 100*i + len(levelOf)
			}
		}
	}
	seen := map[string]bool{}
	for _, k := range g.kinds {
		text[k.label] = k.text
		if isOp[k.text] {
			r.tokens = append(r.tokens, k.label)
			seen[k.text] = true
		}
	}
	for op := range isOp {
		c.obligation(seen[op], "operator", op, "-", "no token has the text of the operator %s", op)
	}
	r.tokens = append(r.tokens, "End", "Variable")
	leaves, over := r.extract(start, nil, nil, 400000)
	if over {
		c.Notes = append(c.Notes, "there are too many paths: nothing is decided")
		return 0
	}
	pos := c.P.pos(g.ntFn[start].Pos())
	decided, bounded := 0, 0
	for i := range leaves {
		l := &leaves[i]
		if l.facets["undecided"] != "" {
			c.Notes = append(c.Notes, "not decided: "+l.facets["undecided"])
			continue
		}
		if l.bounded {
			bounded++
			continue
		}
		vals := map[string]map[string]bool{}
		for k := range l.vars {
			vals[l.vars[k].name] = l.vars[k].alive
		}
		// the operators and operands that were read
		var items []opItem
		stop := ""
		for k, e := range l.events {
			if strings.HasPrefix(e, "<") {
				items = append(items, opItem{operand: "e" + itoa(k+1)})
				continue
			}
			if k+1 < len(l.events) && strings.HasPrefix(l.events[k+1], "<") {
				continue // the first token of an operand
			}
			name := "t" + itoa(k+1)
			if k+1 == len(l.events) {
				stop = name
				continue
			}
			op := ""
			lv := map[int]bool{}
			for v := range vals[name] {
				if op == "" || text[v] < op {
					op = text[v]
				}
				lv[levelOf[text[v]]] = true
			}
			shown := op
			if len(vals[name]) > 1 {
				shown = "<" + name + ">"
			}
			if len(lv) > 1 {
				c.obligation(false, "apart", strings.Join(sortedKeys(vals[name]), " "), l.at, "the source does not tell these operators apart")
			}
			items = append(items, opItem{op: op, name: shown, digit: vals["after "+name]["digit"] && !vals["after "+name]["other"]})
		}
		var words []string
		for _, it := range items {
			if it.op != "" {
				words = append(words, it.op)
				if it.digit {
					words = append(words, "digits of")
				}
			} else {
				words = append(words, it.operand)
			}
		}
		key := strings.Join(words, " ")
		at := l.at
		if at == "" {
			at = pos
		}
		if l.facets["tree"] != "ok" {
			// refused: the last token is one that cannot stand there
			o := &opReader{items: items}
			if stop != "" {
				ok := false
				for v := range vals[stop] {
					if isOp[text[v]] && prefixKinds[text[v]] == "" {
						ok = true
					}
				}
				c.obligation(ok, "refused", key, at, "the parser refuses %s with %s%s", key, l.facets["error"], l.facets["panic"])
				decided++
				continue
			}
			_ = o
			continue
		}
		o := &opReader{items: items}
		want := o.binary(0)
		decided++
		if o.bad != "" {
			c.obligation(false, "accepted", key, at, "the parser accepts %s although %s", key, o.bad)
			continue
		}
		c.obligation(want == l.facets["group"] && o.pos == len(items), "grouping", key, at, "the operators must be grouped as %s, the source groups them as %s", want, l.facets["group"])
		for v, alive := range vals[stop] {
			if alive && isOp[text[v]] && text[v] != "!" {
				c.obligation(false, "stops", key+" "+text[v], at, "the expression ends at the operator %s", text[v])
			}
		}
		if vals[stop] == nil {
			c.obligation(false, "stops", key, at, "the expression ends without a look at the next token")
		}
	}
	c.count("paths that reach the bound", bounded)
	return decided
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

func init() {
	register("C18", "The source of the parser is interpreted abstractly over an open stream of operators and operands, with the parts below the operators replaced by summaries. For every sequence of operators up to a bound, the grouping that "+
		"the source builds must be the one that the documented levels of precedence and associativity give, and no expression may end at an operator or be refused.", checkOperators,
		"operands are arbitrary expressions; sequences of up to two binary operators (three in the thorough tier), and of binary and prefix operators")
}
