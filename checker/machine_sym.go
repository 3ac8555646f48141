package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbolic values: a variable that has one of finitely many values, and values that depend on it. A path narrows
// the variable to the values for which the analysed code takes that path; no variable is enumerated before the
// code tells its values apart.

type symVar struct {
	name  string
	order int // position in the rows of a table
	label []string
	alive []int
	size  int
	text  bool     // the values are texts
	dom   []string // the labels that it may have at first, when these are not all
}

const symLen = 600 // stands for the length of an open text

type mnativeCall func(m *Machine, args []mval) mval

type dep struct {
	v *symVar
	f []mval // the value for each value of the variable
}

func newSymVar(name string, order int, label []string) *symVar {
	v := &symVar{name: name, order: order, label: label, size: len(label)}
	v.alive = make([]int, len(label))
	for i := range v.alive {
		v.alive[i] = i
	}
	return v
}

func mkeyOf(v mval) interface{} {
	switch x := v.(type) {
	case int64, string, bool, float64, *mval, *dep, *lnode, nil, *mmap, *ssa.Function, *mclosure:
		return x
	case miface:
		if x.t == nil {
			return "nil interface"
		}
		return mkey{x.t.String(), mkeyOf(x.v)}
	case []mval:
		if len(x) == 0 {
			return "empty slice"
		}
		return &x[0]
	case mtext:
		return showText(x)
	case msym:
		return x
	case mtuple:
		s := make([]string, len(x))
		for i, e := range x {
			s[i] = fmt.Sprintf("%v", mkeyOf(e))
		}
		return strings.Join(s, "\x00")
	}
	return fmt.Sprintf("%T %v", v, v)
}

// split narrows a variable to one of the groups of its values that have the same key
func (m *Machine) split(v *symVar, key func(i int) interface{}) int {
	first := key(v.alive[0])
	same := true
	for _, i := range v.alive[1:] {
		if key(i) != first {
			same = false
			break
		}
	}
	if same {
		return v.alive[0]
	}
	var order []interface{}
	groups := map[interface{}][]int{}
	for _, i := range v.alive {
		k := key(i)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], i)
	}
	c := m.choose(len(order))
	v.alive = groups[order[c]]
	return v.alive[0]
}

// force makes a value definite
func (m *Machine) force(v mval) mval {
	for {
		switch d := v.(type) {
		case *dep:
			i := m.split(d.v, func(i int) interface{} { return mkeyOf(d.f[i]) })
			v = d.f[i]
			continue
		}
		return v
	}
}

// forceText makes a symbolic value definite as far as that does not tell open texts apart
func (m *Machine) forceText(v mval) mval {
	for {
		d, ok := v.(*dep)
		if !ok || d.v.text {
			return v
		}
		v = d.f[m.split(d.v, func(i int) interface{} { return mkeyOf(d.f[i]) })]
	}
}

// mapDep applies a function to each value that a symbolic value may have
func (m *Machine) mapDep(d *dep, f func(v mval) mval) mval {
	r := &dep{d.v, make([]mval, len(d.f))}
	var of, done *dep // the same open value for several values of the variable stays the same
	for _, i := range d.v.alive {
		if x, ok := d.f[i].(*dep); ok {
			if x != of {
				of = x
				done, _ = f(x).(*dep)
			}
			if done != nil {
				r.f[i] = done
				continue
			}
		}
		r.f[i] = f(d.f[i])
	}
	return r
}

// resolve makes a value definite as far as its dynamic type is concerned
func (m *Machine) resolve(v mval) mval {
	switch x := v.(type) {
	case *dep:
		return m.resolve(m.force(x))
	case *lnode:
		if x.real.t == nil {
			x.materialize(m)
		}
		return x.real
	}
	return v
}

// isNil tells if an open node is absent
func (n *lnode) isNil(m *Machine) bool {
	if n.real.t != nil || n.ctx.types[0] != nil {
		return false
	}
	return m.split(n.kind, func(i int) interface{} { return i == 0 }) == 0
}

// lnode is an expression that results from a part of the grammar that is not looked into. Its type is open
// until the analysed code looks at it.
type lnode struct {
	name       string
	order      int
	start, end int64
	start0     int64
	end0       int64
	kind       *symVar
	real       miface
	orig       mval // the definite expression as it was made
	ctx        *nodeCtx
	depth      int
	visit      mnativeCall // visits what it contains
}

// nodeCtx knows how open expressions are made
type nodeCtx struct {
	types   []types.Type // pointers to the types of expressions
	labels  []string
	locator func() mval
	vars    *[]*symVar
	text    func(m *Machine, name string, order int) mval
	asked   map[string]bool // types that the analysed code tells apart
	made    map[*mval]*lnode
	// how the nodes of the validators are made
	make     func(m *Machine, n *lnode, kind int) miface
	contents func(m *Machine, n *lnode, args []mval, deep bool) mval
	only     map[string]string                                   // the kind of node that is in a field
	deeper   int                                                 // how much deeper nodes are looked into
	closer   func(parent, part *lnode, field string, i int)      // narrows what is in a field
	lengths  func(parent *lnode) []string                        // the lengths of lists
	answer   func(m *Machine, n *lnode, name string) mnativeCall // answers a method
}

func (c *nodeCtx) node(name string, order int, start, end int64, depth int) *lnode {
	n := &lnode{name: name, order: order, start: start, end: end, start0: start, end0: end, ctx: c, depth: depth}
	n.kind = newSymVar(name, order, c.labels)
	*c.vars = append(*c.vars, n.kind)
	return n
}

// method is a method of an expression that can be answered without knowing its type
func (n *lnode) method(m *Machine, name string) func(m *Machine, args []mval) mval {
	if n.ctx.answer != nil {
		if f := n.ctx.answer(m, n, name); f != nil {
			return f
		}
	}
	if n.real.t != nil {
		return nil
	}
	if n.visit != nil && (name == "AllContents" || name == "Contents") {
		return n.visit
	}
	if n.ctx.contents != nil && len(n.kind.alive) > 1 && (name == "AllContents" || name == "Contents") {
		return func(m *Machine, args []mval) mval {
			if n.isNil(m) {
				m.rtPanic(nil, "method %s of a nil interface", name)
			}
			return n.ctx.contents(m, n, args, name == "AllContents")
		}
	}
	switch name {
	case "ByteOffset":
		return func(m *Machine, args []mval) mval { return n.start }
	case "ByteLength":
		return func(m *Machine, args []mval) mval { return n.end - n.start }
	case "Locator":
		return func(m *Machine, args []mval) mval { return n.ctx.locator() }
	case "File":
		return func(m *Machine, args []mval) mval { return "f" }
	case "updateOffsetAndLength":
		return func(m *Machine, args []mval) mval {
			n.start = m.num(args[0])
			n.end = n.start + m.num(args[1])
			return nil
		}
	}
	return nil
}

func (n *lnode) assert(m *Machine, T types.Type) bool {
	if n.real.t != nil {
		return m.assignable(n.real.t, T)
	}
	if !types.IsInterface(T) {
		n.ctx.asked[shortT(T)] = true
	}
	is := func(i int) bool { return n.ctx.types[i] != nil && m.assignable(n.ctx.types[i], T) }
	return is(m.split(n.kind, func(i int) interface{} { return is(i) }))
}

func (n *lnode) label() string {
	if len(n.kind.alive) == 1 {
		return n.kind.label[n.kind.alive[0]]
	}
	return ""
}

// materialize gives an open expression a definite type and open parts
func (n *lnode) materialize(m *Machine) {
	i := m.split(n.kind, func(i int) interface{} { return i })
	t := n.ctx.types[i]
	if n.ctx.make != nil {
		n.real = n.ctx.make(m, n, i)
		if c, ok := n.real.v.(*mval); ok {
			if n.ctx.made == nil {
				n.ctx.made = map[*mval]*lnode{}
			}
			n.ctx.made[c] = n
		}
		return
	}
	st := t.(*types.Pointer).Elem()
	c := new(mval)
	*c = m.zero(st)
	n.fill(m, (*c).(mstruct), st.Underlying().(*types.Struct), 0)
	n.real = miface{t, c}
	n.orig = snapshot(*c)
	if n.ctx.made == nil {
		n.ctx.made = map[*mval]*lnode{}
	}
	n.ctx.made[c] = n
}

// snapshot copies what a later assignment to a part of the value would change
func snapshot(v mval) mval {
	switch x := v.(type) {
	case mstruct:
		c := make(mstruct, len(x))
		for i, e := range x {
			c[i] = snapshot(e)
		}
		return c
	case []mval:
		return append([]mval{}, x...)
	}
	return v
}

// changed tells if the code changed the position, or anything else, of an open expression
func (n *lnode) changed() (pos, other bool) {
	if n.real.t == nil {
		return n.start != n.start0 || n.end != n.end0, false
	}
	p := n.real.v.(*mval)
	return n.differ(*p, n.orig, n.real.t.(*types.Pointer).Elem())
}

func (n *lnode) differ(a, b mval, t types.Type) (pos, other bool) {
	x, ok1 := a.(mstruct)
	y, ok2 := b.(mstruct)
	st, ok3 := t.Underlying().(*types.Struct)
	if !ok1 || !ok2 || !ok3 {
		return false, !sameVal(a, b)
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "Positioned" {
			if p, ok := x[i].(mstruct); ok {
				for j, e := range p {
					if v, ok := e.(int64); ok && v != n.start0 && v != n.end0-n.start0 {
						pos = true
					} else if !ok && !sameVal(e, y[i].(mstruct)[j]) {
						other = true
					}
				}
				if !sameVal(x[i], y[i]) {
					pos = true
				}
			}
			continue
		}
		p, o := n.differ(x[i], y[i], f.Type())
		pos, other = pos || p, other || o
	}
	return
}

func sameVal(a, b mval) bool {
	switch x := a.(type) {
	case mstruct:
		y, ok := b.(mstruct)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case []mval:
		y, ok := b.([]mval)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *lnode:
		if x != b {
			return false
		}
		_, other := x.changed()
		return !other
	case miface:
		y, ok := b.(miface)
		return ok && (x.t == nil && y.t == nil || x.t != nil && y.t != nil && types.Identical(x.t, y.t) && sameVal(x.v, y.v))
	case mtext:
		y, ok := b.(mtext)
		return ok && showText(x) == showText(y)
	case *mval:
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

func (n *lnode) fill(m *Machine, s mstruct, st *types.Struct, ord int) {
	k := 0
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		name := fmt.Sprintf("%s.%d", n.name, k)
		switch u := f.Type().Underlying().(type) {
		case *types.Struct:
			if f.Name() == "Positioned" {
				for j := 0; j < u.NumFields(); j++ {
					switch u.Field(j).Type().Underlying().(type) {
					case *types.Pointer:
						s[i].(mstruct)[j] = n.ctx.locator()
					case *types.Basic:
						if strings.Contains(strings.ToLower(u.Field(j).Name()), "len") {
							s[i].(mstruct)[j] = n.end - n.start
						} else {
							s[i].(mstruct)[j] = n.start
						}
					}
				}
			} else {
				sub := *n
				sub.name = name
				sub.fill(m, s[i].(mstruct), u, ord)
			}
		case *types.Interface:
			if isExpressionIface(f.Type()) {
				if n.depth > 1+n.ctx.deeper {
					panic(mlimit{"bound"})
				}
				x := n.ctx.node(name, n.order, n.start, n.end, n.depth+1)
				if o := n.ctx.only[n.label()+"."+f.Name()]; o != "" {
					for j, l := range x.kind.label {
						if l == o {
							x.kind.alive = []int{j}
						}
					}
				}
				if n.ctx.closer != nil {
					n.ctx.closer(n, x, f.Name(), 0)
				}
				s[i] = x
			}
		case *types.Slice:
			if isExpressionIface(u.Elem()) {
				l := make([]mval, 0, 2)
				cnt := 2 // a list without brackets has more than one element
				if n.label() != "commaSeparatedList" {
					lens := []string{"0", "1", "2"}
					if n.ctx.lengths != nil {
						lens = n.ctx.lengths(n)
					}
					lenVar := newSymVar(name+".len", n.order, lens)
					*n.ctx.vars = append(*n.ctx.vars, lenVar)
					cnt = m.split(lenVar, func(i int) interface{} { return i })
				}
				for j := 0; j < cnt; j++ {
					x := n.ctx.node(fmt.Sprintf("%s[%d]", name, j), n.order, n.start, n.end, n.depth+1)
					if n.ctx.closer != nil {
						n.ctx.closer(n, x, f.Name(), j)
					}
					l = append(l, x)
				}
				s[i] = l
			}
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				s[i] = n.ctx.text(m, name, n.order)
			} else if u.Info()&types.IsInteger != 0 {
				s[i] = int64(7000)
			} else if u.Info()&types.IsBoolean != 0 {
				v := newSymVar(name, n.order, []string{"false", "true"})
				*n.ctx.vars = append(*n.ctx.vars, v)
				s[i] = &dep{v, []mval{false, true}}
			}
		}
		k++
	}
}

// ---- rendering

// value of a symbolic value for the table: the value itself where there is one, otherwise what it depends on
func depText(d *dep, show func(v mval) string) string {
	m := map[string][]string{}
	for _, i := range d.v.alive {
		s := show(d.f[i])
		m[s] = append(m[s], d.v.label[i])
	}
	if len(m) == 1 {
		for s := range m {
			return s
		}
	}
	ident := true
	for _, i := range d.v.alive {
		if show(d.f[i]) != d.v.label[i] {
			ident = false
		}
	}
	if ident {
		return "<" + d.v.name + ">"
	}
	var parts []string
	for s, l := range m {
		sort.Strings(l)
		if len(l) > 4 {
			l = append(l[:3], fmt.Sprintf("+%d", len(l)-3))
		}
		parts = append(parts, strings.Join(l, "|")+":"+s)
	}
	sort.Strings(parts)
	return "<" + d.v.name + " " + strings.Join(parts, " ") + ">"
}

// findDep finds a symbolic value in the arguments of a call
func findDep(v mval) *dep {
	switch x := v.(type) {
	case *dep:
		if len(x.v.alive) > 1 {
			return x
		}
		return findDep(x.f[x.v.alive[0]])
	case miface:
		return findDep(x.v)
	case []mval:
		for _, e := range x {
			if d := findDep(e); d != nil {
				return d
			}
		}
	}
	return nil
}

// subst replaces what depends on a variable by what it is for one value of it
func subst(v mval, sv *symVar, i int) mval {
	switch x := v.(type) {
	case *dep:
		if x.v == sv {
			return subst(x.f[i], sv, i)
		}
		if len(x.v.alive) == 1 {
			return subst(x.f[x.v.alive[0]], sv, i)
		}
	case miface:
		x.v = subst(x.v, sv, i)
		return x
	case []mval:
		n := make([]mval, len(x))
		for k, e := range x {
			n[k] = subst(e, sv, i)
		}
		return n
	}
	return v
}

// otherText finds an open text other than d in the arguments of a call; both may have any value
func otherText(v mval, d *dep) *dep {
	if !d.v.text || d.v.alive[0] != 0 {
		return nil
	}
	switch x := v.(type) {
	case *dep:
		if x.v != d.v && x.v.text && len(x.v.alive) > 1 && x.v.alive[0] == 0 {
			return x
		}
		if len(x.v.alive) == 1 {
			return otherText(x.f[x.v.alive[0]], d)
		}
	case miface:
		return otherText(x.v, d)
	case []mval:
		for _, e := range x {
			if o := otherText(e, d); o != nil {
				return o
			}
		}
	}
	return nil
}
