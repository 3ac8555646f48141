package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The abstract values. A Val is a finite set of atoms. When the set becomes too large it is
// replaced by one Top atom that remembers the roots that the atoms depend on.

type AtomKind int

const (
	KTop AtomKind = iota
	KConst
	KNil
	KSym    // unknown value that has a name
	KPtr    // address of a memory cell
	KSeq    // slice with known segments
	KFn     // function or closure
	KStruct // struct value
	KTuple
	KIdx // index of a loop over all elements of a slice (first, or any later, iteration)
)

type Seg struct {
	Spread bool // zero or more elements rather than exactly one
	V      Val
}

type Atom struct {
	K        AtomKind
	T        types.Type // dynamic type; for a KSym of interface type the type is the static interface
	C        constant.Value
	Name     string   // KSym, KPtr (cell), KIdx (name of the slice)
	Roots    []string // names of the base values that this value depends on
	NonNil   bool
	NonEmpty bool // length > 0 / string not empty / integer > 0
	Impure   bool // two values with the same name are not necessarily equal
	Not      []types.Type
	Segs     []Seg
	Fn       *ssa.Function
	Binds    []Val
	Fields   []Val
	Later    bool // KIdx
	Partial  bool // KIdx
	key      string
}

type Val struct{ as []*Atom }

const maxAtoms = 140

func tkey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (a *Atom) Key() string {
	if a.key == "" {
		var b strings.Builder
		switch a.K {
		case KTop:
			b.WriteString("T{" + strings.Join(a.Roots, ",") + "}" + tkey(a.T))
		case KConst:
			b.WriteString("C" + a.C.ExactString() + ":" + tkey(a.T))
		case KNil:
			b.WriteString("N")
		case KSym:
			b.WriteString("S" + a.Name + ":" + tkey(a.T))
			if a.NonNil {
				b.WriteString("!")
			}
			if a.NonEmpty {
				b.WriteString("+")
			}
			for _, n := range a.Not {
				b.WriteString("-" + tkey(n))
			}
		case KPtr:
			b.WriteString("P" + a.Name)
		case KSeq:
			b.WriteString("Q" + a.Name + "[")
			for _, s := range a.Segs {
				if s.Spread {
					b.WriteString("*")
				}
				b.WriteString(s.V.Key() + ";")
			}
			b.WriteString("]" + tkey(a.T))
		case KFn:
			b.WriteString(fmt.Sprintf("F%s@%p(", a.Fn, a.Fn))
			for _, v := range a.Binds {
				b.WriteString(v.Key() + ";")
			}
			b.WriteString(")")
		case KStruct, KTuple:
			b.WriteString("R" + tkey(a.T) + "(")
			for _, v := range a.Fields {
				b.WriteString(v.Key() + ";")
			}
			b.WriteString(")")
		case KIdx:
			b.WriteString(fmt.Sprintf("I%s/%v/%v", a.Name, a.Later, a.Partial))
		}
		a.key = b.String()
	}
	return a.key
}

func (v Val) Key() string {
	if len(v.as) == 1 {
		return v.as[0].Key()
	}
	ks := make([]string, len(v.as))
	for i, a := range v.as {
		ks[i] = a.Key()
	}
	return "{" + strings.Join(ks, "|") + "}"
}

func (v Val) IsBottom() bool { return len(v.as) == 0 }

func one(a *Atom) Val { return Val{[]*Atom{a}} }

func mkConst(c constant.Value, t types.Type) Val { return one(&Atom{K: KConst, C: c, T: t}) }

func mkBool(b bool) Val { return mkConst(constant.MakeBool(b), types.Typ[types.Bool]) }

func mkInt(i int64) Val { return mkConst(constant.MakeInt64(i), types.Typ[types.Int]) }

func mkStr(s string) Val { return mkConst(constant.MakeString(s), types.Typ[types.String]) }

func mkNil(t types.Type) Val { return one(&Atom{K: KNil, T: t}) }

func mkTop(t types.Type, roots []string) Val {
	return one(&Atom{K: KTop, T: t, Roots: roots})
}

func mkSym(name string, t types.Type, roots ...string) Val {
	if len(roots) == 0 {
		roots = []string{name}
	}
	return one(&Atom{K: KSym, Name: name, T: t, Roots: roots})
}

func mkTuple(vs ...Val) Val { return one(&Atom{K: KTuple, Fields: vs}) }

func unionRoots(rs ...[]string) []string {
	m := map[string]bool{}
	for _, r := range rs {
		for _, s := range r {
			m[s] = true
		}
	}
	out := make([]string, 0, len(m))
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// roots returns the base values that the given value depends on (not including what can be reached
// through memory).
func (v Val) roots() []string {
	m := map[string]bool{}
	v.addRoots(m, 0)
	out := make([]string, 0, len(m))
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func (v Val) addRoots(m map[string]bool, d int) {
	if d > 12 {
		return
	}
	for _, a := range v.as {
		for _, r := range a.Roots {
			m[r] = true
		}
		for _, s := range a.Segs {
			s.V.addRoots(m, d+1)
		}
		for _, f := range a.Fields {
			f.addRoots(m, d+1)
		}
		for _, f := range a.Binds {
			f.addRoots(m, d+1)
		}
	}
}

func mkVal(as []*Atom) Val {
	if len(as) < 2 {
		return Val{as}
	}
	m := make(map[string]*Atom, len(as))
	for _, a := range as {
		m[a.Key()] = a
	}
	for _, a := range as {
		if a.K == KTop {
			return joinTop(as)
		}
	}
	if len(m) > maxAtoms {
		return joinTop(as)
	}
	out := make([]*Atom, 0, len(m))
	for _, a := range m {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key() < out[j].Key() })
	return Val{out}
}

func joinTop(as []*Atom) Val {
	m := map[string]bool{}
	Val{as}.addRoots(m, 0)
	roots := make([]string, 0, len(m))
	for r := range m {
		roots = append(roots, r)
	}
	sort.Strings(roots)
	var t types.Type
	for _, a := range as {
		if a.T != nil {
			if t == nil {
				t = a.T
			} else if !types.Identical(t, a.T) {
				return mkTop(nil, roots)
			}
		}
	}
	return mkTop(t, roots)
}

func join(a, b Val) Val {
	if len(a.as) == 0 {
		return b
	}
	if len(b.as) == 0 {
		return a
	}
	if len(a.as) == len(b.as) {
		same := true
		for i := range a.as {
			if a.as[i] != b.as[i] && a.as[i].Key() != b.as[i].Key() {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	as := make([]*Atom, 0, len(a.as)+len(b.as))
	as = append(as, a.as...)
	as = append(as, b.as...)
	return mkVal(as)
}

func (v Val) Eq(o Val) bool {
	if len(v.as) != len(o.as) {
		return false
	}
	for i := range v.as {
		if v.as[i] != o.as[i] && v.as[i].Key() != o.as[i].Key() {
			return false
		}
	}
	return true
}

// single returns the only atom, or nil
func (v Val) single() *Atom {
	if len(v.as) == 1 {
		return v.as[0]
	}
	return nil
}

func (v Val) constInt() (int64, bool) {
	if a := v.single(); a != nil && a.K == KConst && a.C.Kind() == constant.Int {
		return constant.Int64Val(a.C)
	}
	return 0, false
}

func (v Val) constStr() (string, bool) {
	if a := v.single(); a != nil && a.K == KConst && a.C.Kind() == constant.String {
		return constant.StringVal(a.C), true
	}
	return "", false
}

type tri int

const (
	unknown tri = iota
	yes
	no
)

// truth returns the boolean value, if it is known
func (v Val) truth() tri {
	r := unknown
	for i, a := range v.as {
		if a.K != KConst || a.C.Kind() != constant.Bool {
			return unknown
		}
		t := no
		if constant.BoolVal(a.C) {
			t = yes
		}
		if i > 0 && t != r {
			return unknown
		}
		r = t
	}
	return r
}

func (a *Atom) nilness() tri { // yes = is nil
	switch a.K {
	case KNil:
		return yes
	case KConst, KPtr, KSeq, KFn, KStruct, KTuple, KIdx:
		if a.K == KSeq && len(a.Segs) == 0 && a.Name == "" {
			return no
		}
		return no
	case KSym:
		if a.NonNil {
			return no
		}
		if a.T != nil {
			switch a.T.Underlying().(type) {
			case *types.Basic, *types.Struct, *types.Array:
				return no
			}
		}
	}
	return unknown
}

func (v Val) nilness() tri {
	r := unknown
	for i, a := range v.as {
		n := a.nilness()
		if i == 0 {
			r = n
		} else if r != n {
			return unknown
		}
	}
	return r
}

func (p *Program) hasType(a *Atom, T types.Type) tri {
	switch a.K {
	case KNil:
		return no
	case KTop:
		return unknown
	}
	if a.T == nil {
		return unknown
	}
	T = types.Unalias(T)
	at := types.Unalias(a.T)
	if ai, ok := at.Underlying().(*types.Interface); ok {
		for _, n := range a.Not {
			if types.Identical(n, T) {
				return no
			}
			if ni, ok := n.Underlying().(*types.Interface); ok && implements(T, ni) {
				return no
			}
		}
		if a.NonNil {
			if ti, ok := T.Underlying().(*types.Interface); ok && implements(at, ti) {
				return yes
			}
		}
		if !types.IsInterface(T) && !implements(T, ai) {
			return no
		}
		if isExpressionIface(at) {
			n, m := 0, 0
			for _, u := range p.universe(at) {
				if excluded(u, a.Not) {
					continue
				}
				n++
				if ti, ok := T.Underlying().(*types.Interface); ok {
					if implements(u, ti) {
						m++
					}
				} else if types.Identical(u, T) {
					m++
				}
			}
			if m == 0 {
				return no
			}
			if m == n && a.NonNil {
				return yes
			}
		}
		return unknown
	}
	if ti, ok := T.Underlying().(*types.Interface); ok {
		if implements(at, ti) {
			return yes
		}
		return no
	}
	if types.Identical(at, T) {
		return yes
	}
	return no
}

func excluded(u types.Type, not []types.Type) bool {
	for _, n := range not {
		if types.Identical(n, u) {
			return true
		}
		if ni, ok := n.Underlying().(*types.Interface); ok && implements(u, ni) {
			return true
		}
	}
	return false
}

// String renders a value for reports and tables. Names of allocation sites are left out.
func (v Val) String() string {
	ss := make([]string, len(v.as))
	for i, a := range v.as {
		ss[i] = a.String()
	}
	sort.Strings(ss)
	if len(ss) == 1 {
		return ss[0]
	}
	return "{" + strings.Join(ss, " | ") + "}"
}

func (a *Atom) String() string {
	switch a.K {
	case KTop:
		return "?" + strings.Join(a.Roots, ",")
	case KConst:
		return a.C.ExactString()
	case KNil:
		return "nil"
	case KSym, KIdx:
		return a.Name
	case KPtr:
		return "&" + tkey(a.T)
	case KSeq:
		ss := make([]string, len(a.Segs))
		for i, s := range a.Segs {
			ss[i] = s.V.String()
			if s.Spread {
				ss[i] += "..."
			}
		}
		return "[" + strings.Join(ss, ", ") + "]"
	case KFn:
		return "func " + a.Fn.Name()
	case KStruct, KTuple:
		ss := make([]string, len(a.Fields))
		for i, s := range a.Fields {
			ss[i] = s.String()
		}
		return "(" + strings.Join(ss, ", ") + ")"
	}
	return "-"
}

var implCache sync.Map

// implements is types.Implements with a cache
func implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	if r, ok := implCache.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, it)
	implCache.Store(k, r)
	return r
}

// warm computes the keys of a value that several goroutines share
func (v Val) warm() { v.Key() }
