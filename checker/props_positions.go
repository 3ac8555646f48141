package main

import (
	"fmt"
	"go/types"
	"runtime"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C29", "Parse is interpreted up to its first token for sources of open characters of all widths, and then what asks for the line and the position of an offset, in all orders of two requests, and of nodes at that offset. "+
		"The answers are compared with the numbers of line breaks and characters before the offset.", checkPositions)
}

type posRun struct {
	c     *Check
	g     *grammar
	m     *Machine
	vars  []*symVar
	loc   mval
	lines []*ssa.Function // of an offset: line, position
}

type posStop struct{}

// source makes a text: a letter for each character, with the width of it. 1 is open, and so is b in a text with few of them
func (r *posRun) source(shape string) mval {
	var t mtext
	for i, w := range shape {
		var x tchar
		switch w {
		case '1':
			v := newSymVar(fmt.Sprintf("c%d", i+1), 10*(i+1), charLabels)
			v.alive = nil
			for k := 1; k <= lastASCII; k++ {
				v.alive = append(v.alive, k)
			}
			v.size = len(v.alive)
			d := &dep{v, make([]mval, len(charLabels))}
			for k := range charLabels {
				d.f[k] = charOf(k)
			}
			r.vars = append(r.vars, v)
			x = tchar{d, 1}
		case '2':
			x = tchar{int64('é'), 2}
		case '3':
			x = tchar{int64('€'), 3}
		case '4':
			x = tchar{int64('😀'), 4}
		case 'X':
			x = tchar{int64(-badByte), 1}
		default:
			x = tchar{int64(w), 1}
		}
		t.ch = append(t.ch, x)
	}
	return normText(t)
}

// locator gives what a parser knows the positions from
func (r *posRun) locator(text mval) (loc mval) {
	m, g := r.m, r.g
	m.mock[g.nextTok] = func(m *Machine, args []mval) mval {
		r.loc = (*args[0].(*mval)).(mstruct)[g.fLocator]
		panic(posStop{})
	}
	pi := m.call(g.p.fn(g.p.Parser, "CreateParser"), nil, []mval{[]mval{}}).(miface)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(posStop); !ok {
				panic(e)
			}
			m.depth, m.rec = 0, nil
			loc = r.loc
		}
	}()
	m.call(g.ntFn["Parse"], nil, []mval{pi.v, "the file", text, false})
	panic(munsupported{"no token is read"})
}

// isNewline tells what is known of a character after the code looked at it
func isNewline(v mval) (is, known bool) {
	switch x := charVal(v).(type) {
	case int64:
		return x == '\n', true
	case *dep:
		n := 0
		for _, i := range x.v.alive {
			if x.f[i] == int64('\n') {
				n++
			}
		}
		return n > 0, n == 0 || n == len(x.v.alive)
	}
	return false, false
}

func (r *posRun) check(shape, what string, all bool) {
	c, m := r.c, r.m
	r.vars = nil
	text := r.source(shape)
	t, _ := m.textOf(text)
	offs, at := []int{}, 0
	for _, ch := range t.ch {
		offs = append(offs, at)
		at += ch.size
	}
	offs = append(offs, at)
	show := func() string {
		var s []string
		for i, ch := range t.ch {
			if is, known := isNewline(ch.v); known && is {
				s = append(s, "NL")
			} else if w := shape1(shape, i); known && w == '1' {
				s = append(s, "a")
			} else {
				s = append(s, strings.NewReplacer("1", "any", "2", "é", "3", "€", "4", "😀", "X", "\\x80").Replace(string(w)))
			}
		}
		if len(s) > 12 {
			s = append([]string{"..."}, s[len(s)-12:]...)
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	fnPos := map[string]string{}
	ask := func(loc mval, kind string, i int) {
		open := false
		var have mval
		var fn *ssa.Function
		m.steps = 0
		off := int64(offs[i])
		switch kind {
		case "line", "position":
			fn = r.lines[0]
			if kind == "position" {
				fn = r.lines[1]
			}
			have = m.call(fn, nil, []mval{loc, off})
		default:
			x := r.node(loc, off)
			name := map[string]string{"line of a node": "Line", "position of a node": "Pos"}[kind]
			fn = r.g.p.findMethod(x.t, r.g.p.Parser.Pkg, name)
			have = m.call(fn, nil, []mval{x.v})
		}
		want := int64(1)
		for k := i - 1; k >= 0; k-- {
			is, known := isNewline(t.ch[k].v)
			open = open || !known
			if strings.HasPrefix(kind, "line") {
				if is {
					want++
				}
				continue
			}
			if is || open {
				break
			}
			want++
		}
		c.obl++
		n, ok := m.force(have).(int64)
		if ok && n == want && !open {
			c.ok++
			return
		}
		if open {
			c.fail("open", kind, r.g.p.pos(fn.Pos()), "the %s of offset %d in %s is %v, whatever the characters before it are", kind, off, show(), have)
			return
		}
		if fnPos[kind] == "" {
			fnPos[kind] = r.g.p.pos(fn.Pos())
			c.fail("position", kind+" "+what, fnPos[kind], "the %s of offset %d in %s is %v rather than %d", kind, off, show(), have, want)
		}
	}
	paths := m.explore(func() {
		for _, v := range r.vars {
			v.alive = v.alive[:0:0]
			for k := 1; k <= lastASCII; k++ {
				v.alive = append(v.alive, k)
			}
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					m.depth, m.rec = 0, nil
					switch x := e.(type) {
					case *mpanic:
						at := "-"
						if x.at != nil {
							at = r.g.p.pos(x.at.Pos())
						}
						c.fail("panic", what, at, "looking for a position in %s panics: %s", show(), x.runtime)
					case munsupported:
						c.undecided("%s: %s", shape, x.what)
					case mlimit:
						c.fail("endless", what, "-", "looking for a position in %s does not end: %s", show(), x.what)
					case runtime.Error:
						c.undecided("%s: %v", shape, x)
					default:
						panic(e)
					}
				}
			}()
			if all {
				loc := r.locator(text)
				for i := range offs {
					for j := range offs {
						ask(loc, "line", i)
						ask(loc, "position", j)
						ask(loc, "position", i)
						ask(loc, "line", j)
					}
				}
			}
			for i := range offs {
				if !all && i < len(offs)-8 {
					continue
				}
				ask(r.locator(text), "position", i)
				ask(r.locator(text), "line", i)
				ask(r.locator(text), "line of a node", i)
				ask(r.locator(text), "position of a node", i)
			}
		}()
	})
	c.count("paths", paths)
}

func shape1(shape string, i int) rune { return []rune(shape)[i] }

// node makes a node at an offset
func (r *posRun) node(loc mval, off int64) miface {
	g, m := r.g, r.m
	x := m.call(g.p.fn(g.p.Parser, "DefaultFactory"), nil, nil).(miface)
	f := g.p.findMethod(x.t, g.p.Parser.Pkg, "Nop")
	return m.call(f, nil, []mval{x.v, loc, off, int64(0)}).(miface)
}

func checkPositions(c *Check) {
	g := newGrammar(c.P)
	r := &posRun{c: c, g: g}
	loc := types.NewPointer(g.p.typ(g.p.Parser, "Locator"))
	for _, n := range []string{"LineForOffset", "PosOnLine"} {
		r.lines = append(r.lines, g.p.findMethod(loc, g.p.Parser.Pkg, n))
	}
	bound := 4
	if c.Tier == "thorough" {
		bound = 5
	}
	r.m = newMachine(g.sh)
	r.m.mock = map[*ssa.Function]func(m *Machine, args []mval) mval{}
	shapes := []string{""}
	for from, n := 0, 0; n < bound; n++ {
		to := len(shapes)
		for _, s := range shapes[from:to] {
			for _, w := range "1234X" {
				shapes = append(shapes, s+string(w))
			}
		}
		from = to
	}
	for _, s := range shapes {
		r.check(s, "of a short text", true)
	}
	// more lines, and longer ones
	long := ""
	for i := 0; i < 70; i++ {
		long += "\n" + strings.Repeat("a2b3c4", i%5)
		switch i {
		case 0, 1, 7, 8, 14, 15, 30, 31, 32, 33, 63, 64, 69:
			for _, s := range []string{"11", "2111", "131"} {
				r.check(long+s, "of a text with many lines", false)
			}
		}
	}
	wide := strings.Repeat("ab2", 100)
	r.check(wide+"111", "of a text with a long line", false)
	r.check("\n"+wide+"111", "of a text with a long line", false)
	c.count("shapes of texts", len(shapes)+13*3+2)
	// the file
	r.vars = nil
	x := r.node(r.locator("a"), 0)
	f := g.p.findMethod(x.t, g.p.Parser.Pkg, "File")
	have := r.m.call(f, nil, []mval{x.v})
	c.obligation(have == "the file", "file", "node", g.p.pos(f.Pos()), "the file of a node is %v rather than that of the source", have)
}
