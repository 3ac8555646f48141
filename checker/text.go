package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Open source text. A character is a variable over all ASCII characters, the end of the source and, where that is
// asked for, some wider characters. It is split only where the code tells characters apart. What the
// code does with the bytes of the source - indexing, slicing, decoding - is done on these variables.

// tchar is a character of a text: a number, a value that depends on a variable, or something opaque
type tchar struct {
	v    mval
	size int
}

// mtext is a text that is not definite
type mtext struct{ ch []tchar }

// msym is something that is only known by how it was made
type msym struct{ s string }

type sitem struct {
	pos, size int // size 0: not known yet
	v         mval
	sv        *symVar
	serial    int
}

// source is the text of an open source; what is read at a position is made when it is looked at
type source struct {
	items []*sitem // by position, without gaps
	end   int      // the length when it is known, or -1
	wide  bool     // one character may be wider than a byte
	make  func(pos int) *sitem
}

// srcRange is the source from some offset on
type srcRange struct {
	s    *source
	from int
}

// srcLen is the length of the source, and something
type srcLen struct {
	s   *source
	off int64
}

// the characters, in the order of their codes
const (
	wideLetter = 'é'
	wideOther  = '€'
	badByte    = 0x80 // is not valid where a character starts
	lastASCII  = 128  // index
)

var charLabels = func() []string {
	l := []string{"End"}
	for c := 0; c < 128; c++ {
		l = append(l, charLabel(rune(c)))
	}
	return append(l, string(wideLetter), string(wideOther), "BAD")
}()

func charLabel(c rune) string {
	switch c {
	case 0:
		return "NUL"
	case '\n':
		return "NL"
	case '\r':
		return "CR"
	case '\t':
		return "TAB"
	case ' ':
		return "SP"
	case '|':
		return "BAR"
	case '-':
		return "DASH"
	case '?':
		return "QMARK"
	}
	if c < ' ' || c == 127 {
		return fmt.Sprintf("x%02x", c)
	}
	return string(c)
}

func charOf(i int) mval {
	switch {
	case i == 0:
		return int64(0)
	case i <= 128:
		return int64(i - 1)
	case i == 129:
		return int64(wideLetter)
	case i == 130:
		return int64(wideOther)
	}
	return int64(-badByte)
}

// charSet shows a set of characters out of dom: indices into charLabels
func charSet(in, dom []bool) string {
	n, all := 0, 0
	for i := range charLabels {
		if dom[i] {
			all++
		}
		if in[i] {
			n++
		}
	}
	inv := n > 4 && n > all/2
	var parts []string
	for i := 0; i < len(charLabels); i++ {
		show := func(i int) bool { return dom[i] && in[i] != inv }
		if !show(i) {
			continue
		}
		j := i
		for j+1 <= lastASCII && i > 0 && show(j+1) {
			j++
		}
		switch {
		case j-i < 2:
			j = i
			parts = append(parts, charLabels[i])
		default:
			parts = append(parts, charLabels[i]+"-"+charLabels[j])
		}
		i = j
	}
	s := strings.Join(parts, "|")
	if inv {
		return "not(" + s + ")"
	}
	return s
}

func (s *source) find(pos int) *sitem {
	for _, it := range s.items {
		if pos == it.pos || pos > it.pos && pos < it.pos+it.size {
			return it
		}
	}
	return nil
}

// has tells if the source has a byte at the position
func (s *source) has(m *Machine, pos int) bool {
	if pos < 0 {
		return true
	}
	if s.end >= 0 {
		return pos < s.end
	}
	for {
		p := 0
		for _, it := range s.items {
			if it.sv != nil {
				if i := m.split(it.sv, func(i int) interface{} { return i == 0 }); i == 0 {
					s.end = it.pos
					return pos < s.end
				}
			}
			if it.pos == pos {
				return true
			}
			p = it.pos + s.size(m, it)
			if p > pos {
				return true
			}
		}
		if pos-p > 1000 {
			panic(munsupported{"a position far off"})
		}
		s.add(p)
	}
}

func (s *source) add(pos int) *sitem {
	it := s.make(pos)
	it.pos = pos
	s.items = append(s.items, it)
	return it
}

// size makes the number of bytes of a character definite
func (s *source) size(m *Machine, it *sitem) int {
	if it.size > 0 {
		return it.size
	}
	i := m.split(it.sv, func(i int) interface{} {
		if i <= lastASCII {
			return 1
		}
		return i
	})
	it.size = 1
	if i > lastASCII {
		it.size = len(normText(mtext{[]tchar{{charOf(i), 1}}}).(string))
		s.wide = false // one is enough
	}
	return it.size
}

// byteAt is the byte at a position, which must exist
func (s *source) byteAt(m *Machine, pos int) mval {
	it := s.find(pos)
	if it.sv == nil {
		if _, ok := it.v.(msym); ok {
			panic(munsupported{"the text of a nested expression is read"})
		}
		return it.v
	}
	if it.pos == pos {
		d := it.v.(*dep)
		return m.mapDep(d, func(v mval) mval {
			if n := v.(int64); n < 0 {
				return -n
			}
			return int64(string(rune(v.(int64)))[0])
		})
	}
	c := string(rune(m.num(it.v)))
	return int64(c[pos-it.pos])
}

// cut is the text between two positions
func (s *source) cut(m *Machine, lo, hi int) (mval, bool) {
	if lo < 0 || hi < lo {
		return nil, false
	}
	if hi > 0 && !s.has(m, hi-1) {
		return nil, false
	}
	var ch []tchar
	for p := lo; p < hi; {
		s.has(m, p)
		it := s.find(p)
		n := s.size(m, it)
		if p != it.pos || it.pos+n > hi {
			ch = append(ch, tchar{msym{fmt.Sprintf("byte %d of %s", p-it.pos, s.name(it))}, 1})
			p++
			continue
		}
		ch = append(ch, tchar{it.v, n})
		p += n
	}
	return normText(mtext{ch}), true
}

func (s *source) name(it *sitem) string {
	if it.sv != nil {
		return it.sv.name
	}
	return "c"
}

// ---- texts

// charVal makes a character definite if it can only be one
func charVal(v mval) mval {
	if d, ok := v.(*dep); ok && len(d.v.alive) == 1 {
		return charVal(d.f[d.v.alive[0]])
	}
	return v
}

// normText gives a plain string if the text is definite
func normText(t mtext) mval {
	var b strings.Builder
	for _, c := range t.ch {
		n, ok := charVal(c.v).(int64)
		if !ok {
			return t
		}
		if n < 0 {
			b.WriteByte(byte(-n))
		} else {
			b.WriteRune(rune(n))
		}
	}
	return b.String()
}

// textOf gives the characters of a text
func (m *Machine) textOf(v mval) (mtext, bool) {
	switch x := v.(type) {
	case mtext:
		return x, true
	case string:
		var t mtext
		for i := 0; i < len(x); {
			r, n := utf8.DecodeRuneInString(x[i:])
			if r == utf8.RuneError && n == 1 {
				t.ch = append(t.ch, tchar{-int64(x[i]), 1})
			} else {
				t.ch = append(t.ch, tchar{int64(r), n})
			}
			i += n
		}
		return t, true
	case *dep:
		return m.textOf(m.force(x))
	}
	return mtext{}, false
}

func (t mtext) len() int {
	n := 0
	for _, c := range t.ch {
		n += c.size
	}
	return n
}

// at is the byte at an offset
func (t mtext) at(m *Machine, off int) (mval, bool) {
	if off < 0 {
		return nil, false
	}
	for _, c := range t.ch {
		if off < c.size {
			if c.size == 1 {
				if n, ok := c.v.(int64); ok && n < 0 {
					return -n, true
				}
				return c.v, true
			}
			return int64(string(rune(m.num(c.v)))[off]), true
		}
		off -= c.size
	}
	return nil, false
}

func (t mtext) cut(lo, hi int) (mval, bool) {
	if lo < 0 || hi < lo || hi > t.len() {
		return nil, false
	}
	var ch []tchar
	p := 0
	for _, c := range t.ch {
		if p >= lo && p+c.size <= hi {
			ch = append(ch, c)
		} else if p+c.size > lo && p < hi {
			return nil, false
		}
		p += c.size
	}
	return normText(mtext{ch}), true
}

// textEqual compares texts character by character
func (m *Machine) textEqual(a, b mtext, at ssa.Instruction) bool {
	if a.len() != b.len() {
		return false
	}
	if len(a.ch) != len(b.ch) {
		return false
	}
	for i := range a.ch {
		if _, ok := a.ch[i].v.(msym); ok {
			panic(munsupported{"comparison of a text that is not known"})
		}
		if _, ok := b.ch[i].v.(msym); ok {
			panic(munsupported{"comparison of a text that is not known"})
		}
		if !m.bool(m.charEqual(a.ch[i].v, b.ch[i].v)) {
			return false
		}
	}
	return true
}

// charEqual compares two characters. If both are open then they are the same one or not; it is not followed
// further which ones they are.
func (m *Machine) charEqual(x, y mval) mval {
	x, y = charVal(x), charVal(y)
	dx, isX := x.(*dep)
	dy, isY := y.(*dep)
	switch {
	case isX && isY && dx.v == dy.v:
		r := &dep{dx.v, make([]mval, len(dx.f))}
		for _, j := range dx.v.alive {
			r.f[j] = dx.f[j] == dy.f[j]
		}
		return r
	case isX && isY:
		if m.newVar == nil {
			return m.num(x) == m.num(y)
		}
		v := m.newVar(orderOf(mtext{[]tchar{{x, 1}, {y, 1}}})+3, dy.v.name+"="+dx.v.name, []string{"no", "yes"})
		return &dep{v, []mval{false, true}}
	case isX:
		return m.mapDep(dx, func(v mval) mval { return v == y })
	case isY:
		return m.mapDep(dy, func(v mval) mval { return v == x })
	}
	return x == y
}

// lookupText looks an open text up in a map: it is one of the keys, or none of them
func (m *Machine) lookupText(mp *mmap, t mtext, zero mval) (mval, mval) {
	if m.newVar == nil || mp == nil {
		panic(munsupported{"look up of an open text"})
	}
	labels := []string{"other"}
	vals := []mval{zero}
	oks := []mval{false}
	var keys []string
	n := t.len()
	for i, k := range mp.keys {
		s, ok := k.(string)
		if !ok || mp.dead[i] || len(s) != n {
			continue
		}
		fits := true
		for j, c := range t.ch {
			fits = fits && c.size == 1 && canBe(c.v, s[j])
		}
		if fits {
			labels = append(labels, s)
			vals = append(vals, copyVal(mp.vals[i]))
			oks = append(oks, true)
			keys = append(keys, s)
		}
	}
	if len(keys) == 0 {
		return zero, false
	}
	name := "word"
	for _, c := range t.ch {
		if d, ok := c.v.(*dep); ok {
			name += "." + d.v.name
			break
		}
	}
	v := m.newVar(orderOf(t)+1, fmt.Sprintf("%s+%d", name, n), labels)
	// the characters follow from the word
	i := m.split(v, func(i int) interface{} { return i })
	if i > 0 {
		for j, c := range t.ch {
			if d, ok := c.v.(*dep); ok {
				m.split1(d, int64(keys[i-1][j]))
			}
		}
	}
	return vals[i], oks[i]
}

// split1 narrows a variable to what gives the value
func (m *Machine) split1(d *dep, val mval) {
	var a []int
	for _, i := range d.v.alive {
		if d.f[i] == val {
			a = append(a, i)
		}
	}
	if len(a) == 0 {
		panic(munsupported{"no value left for " + d.v.name})
	}
	d.v.alive = a
}

func canBe(v mval, b byte) bool {
	switch x := charVal(v).(type) {
	case int64:
		return x == int64(b)
	case *dep:
		for _, i := range x.v.alive {
			if x.f[i] == int64(b) {
				return true
			}
		}
	}
	return false
}

// parsed is the number that an open text stands for
func (m *Machine) parsed(what string, base, size int64, t mtext, digit func(c byte) bool) mval {
	if m.newVar == nil {
		panic(munsupported{"number of an open text"})
	}
	labels := []string{"fits"}
	if size == 0 {
		size = 64
	}
	// the largest number that can be written this way
	if base == 0 || float64(len(t.ch))*math.Log2(float64(base)) >= float64(size-1) {
		labels = append(labels, "too large")
	}
	syntax := len(t.ch) == 0
	for i, c := range t.ch {
		ok := true
		switch x := charVal(c.v).(type) {
		case int64:
			ok = x < 128 && x >= 0 && (digit(byte(x)) || i == 0 && (x == '-' || x == '+'))
		case *dep:
			for _, j := range x.v.alive {
				n, isN := x.f[j].(int64)
				ok = ok && isN && n < 128 && digit(byte(n))
			}
		default:
			ok = false
		}
		syntax = syntax || !ok
	}
	if syntax {
		labels = append(labels, "not a number")
	}
	var v *symVar
	if len(labels) > 1 {
		v = m.newVar(orderOf(t)+2, "number", labels)
	}
	errs := make([]mval, len(labels))
	errs[0] = miface{}
	for i := 1; i < len(labels); i++ {
		errs[i] = m.goError(labels[i])
	}
	if len(labels) == 1 {
		return mtuple{msym{what + "(" + showText(t) + ")"}, errs[0]}
	}
	return mtuple{msym{what + "(" + showText(t) + ")"}, &dep{v, errs}}
}

// orderOf is the order of the last open character
func orderOf(t mtext) int {
	o := 1
	for _, c := range t.ch {
		if d, ok := c.v.(*dep); ok && d.v.order > o {
			o = d.v.order
		}
	}
	return o
}

// showText shows a text; «c3» stands for an open character
func showText(v mval) string {
	switch x := v.(type) {
	case string:
		var b strings.Builder
		for i := 0; i < len(x); {
			c, n := utf8.DecodeRuneInString(x[i:])
			if c == utf8.RuneError && n == 1 {
				fmt.Fprintf(&b, "\\x%02x", x[i])
			} else {
				b.WriteString(litChar(c))
			}
			i += n
		}
		return "'" + b.String() + "'"
	case mtext:
		var b strings.Builder
		for _, c := range x.ch {
			switch y := charVal(c.v).(type) {
			case int64:
				if y < 0 {
					fmt.Fprintf(&b, "\\x%02x", -y)
				} else {
					b.WriteString(litChar(rune(y)))
				}
			case msym:
				b.WriteString("{" + y.s + "}")
			case *dep:
				b.WriteString(showChar(y))
			default:
				fmt.Fprintf(&b, "{%T}", y)
			}
		}
		return "'" + b.String() + "'"
	}
	return fmt.Sprintf("%T", v)
}

// litChar is how a character is written in a text
func litChar(c rune) string {
	switch c {
	case '\n':
		return `\n`
	case '\r':
		return `\r`
	case '\t':
		return `\t`
	case '\'', '\\':
		return `\` + string(c)
	}
	if c < ' ' || c == 127 {
		return fmt.Sprintf(`\x%02x`, c)
	}
	return string(c)
}

// showChar shows a character that depends on a variable
func showChar(d *dep) string {
	ident, inner := true, false
	for _, i := range d.v.alive {
		if _, ok := d.f[i].(*dep); ok {
			inner = true
		}
		if len(d.f) != len(charLabels) || d.f[i] != charOf(i) {
			ident = false
		}
	}
	if ident {
		return "«" + d.v.name + "»"
	}
	if inner {
		return "{" + d.v.name + "?}"
	}
	return depText(d, func(v mval) string {
		if n, ok := v.(int64); ok {
			return charLabel(rune(n))
		}
		return fmt.Sprint(v)
	})
}

// appendText adds to a buffer
func (m *Machine) appendText(buf mval, more mval) mval {
	if s, ok := buf.(string); ok {
		if t, ok := more.(string); ok {
			return s + t
		}
	}
	a, ok1 := m.textOf(buf)
	b, ok2 := m.textOf(more)
	if !ok1 || !ok2 {
		panic(munsupported{fmt.Sprintf("text %T", more)})
	}
	return normText(mtext{append(append([]tchar{}, a.ch...), b.ch...)})
}

// runeText is a text of one character
func (m *Machine) runeText(v mval) mval {
	switch x := charVal(v).(type) {
	case int64:
		return string(rune(x))
	case msym:
		return mtext{[]tchar{{x, 1}}}
	case *dep:
		size := func(i int) int {
			n, ok := x.f[i].(int64)
			if !ok {
				return -1
			}
			return len(string(rune(n)))
		}
		i := m.split(x.v, func(i int) interface{} { return size(i) })
		if size(i) < 0 {
			return m.runeText(m.force(x))
		}
		if n, ok := charVal(x).(int64); ok {
			return string(rune(n))
		}
		return mtext{[]tchar{{x, size(i)}}}
	}
	panic(munsupported{fmt.Sprintf("character %T", v)})
}

// byteText is a text of one byte
func (m *Machine) byteText(v mval) mval {
	switch x := charVal(v).(type) {
	case int64:
		return string([]byte{byte(x)})
	case msym:
		return mtext{[]tchar{{x, 1}}}
	case *dep:
		for _, i := range x.v.alive {
			if n, ok := x.f[i].(int64); !ok || n >= 128 {
				return m.byteText(m.force(x))
			}
		}
		return mtext{[]tchar{{x, 1}}}
	}
	panic(munsupported{fmt.Sprintf("byte %T", v)})
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
