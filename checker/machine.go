package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// An explicit state machine for the SSA form. It follows one path at a time. Where the analysed code
// depends on something that is left open - the next abstract token, the next class of characters -
// the path forks: choose returns each alternative in turn, and explore follows all paths. The heap of
// the analysed code is a graph of cells; nothing of the analysed code is compiled or run.

type mval = interface{}

type mstruct []mval // the fields of a struct value
type marray []mval
type mtuple []mval

type miface struct {
	t types.Type // nil: the nil interface
	v mval
}

type mclosure struct {
	fn    *ssa.Function
	binds []mval
}

type mmap struct {
	idx  map[interface{}]int
	keys []mval
	vals []mval
	dead []bool
	n    int
}

type miter struct {
	m    *mmap
	s    string
	pos  int
	isSt bool
	t    mtext
	open bool
	at   int
}

type mkey struct {
	t string
	v interface{}
}

// mnative is an object of a package that is not analysed, such as a compiled regular expression
type mnative struct{ v interface{} }

type mpanic struct {
	v       miface
	runtime string
	at      ssa.Instruction
}

type munsupported struct{ what string }

type mlimit struct{ what string }

type operand struct {
	kind uint8 // 0 constant, 1 register, 2 global
	reg  int
	v    mval
	g    *ssa.Global
}

type xins struct {
	i   ssa.Instruction
	ops []operand
	dst int
	t   types.Type
	k   types.BasicKind
	key int
}

type xblock struct {
	b    *ssa.BasicBlock
	ins  []xins
	phis []xins
	id   int
}

type xfn struct {
	fn     *ssa.Function
	nreg   int
	blocks []xblock
	params []int
	free   []int
	native func(m *Machine, args []mval) mval
	defers bool
	// the result depends on the arguments only
	pointwise bool
	pure      bool // the same for a function with a body that takes and gives plain values
}

type mach struct { // shared by all machines
	p       *Program
	fns     sync.Map // *ssa.Function -> *xfn
	methods sync.Map // methodKey -> *ssa.Function
	impl    sync.Map // [2]types.Type -> bool
	lock    sync.Mutex
	blocks  []*ssa.BasicBlock
}

type methodKey struct {
	t types.Type
	m *types.Func
}

type Machine struct {
	sh      *mach
	p       *Program
	globals map[*ssa.Global]*mval
	script  []int
	widths  []int
	at      int
	steps   int
	limit   int
	depth   int
	mock    map[*ssa.Function]func(m *Machine, args []mval) mval
	onCall  func(m *Machine, fn *ssa.Function, args []mval)
	covered map[*ssa.BasicBlock]bool
	newVar  func(order int, name string, labels []string) *symVar // makes a variable that the path depends on
	pures   map[pureKey]mval
	rec     []mval // values of panics that are being recovered
}

func newMachine(sh *mach) *Machine {
	m := &Machine{sh: sh, p: sh.p, globals: map[*ssa.Global]*mval{}, limit: 400000, covered: map[*ssa.BasicBlock]bool{}}
	coverMachine(m)
	for _, sp := range []*ssa.Package{m.p.Issue, m.p.PN, m.p.Parser, m.p.Literal, m.p.Valid} {
		m.initPackage(sp)
	}
	return m
}

func (m *Machine) initPackage(sp *ssa.Package) {
	f := sp.Func("init")
	*m.global(sp.Var("init$guard")) = false
	m.limit = 4000000
	m.steps = 0
	m.call(f, nil, nil)
	m.limit = 400000
	m.steps = 0
}

func (m *Machine) global(g *ssa.Global) *mval {
	if c, ok := m.globals[g]; ok {
		return c
	}
	c := new(mval)
	*c = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[g] = c
	return c
}

// choose returns one of n alternatives; all of them are explored
func (m *Machine) choose(n int) int {
	if m.at == len(m.script) {
		m.script = append(m.script, 0)
		m.widths = append(m.widths, n)
	}
	if n == 0 {
		panic(munsupported{"no choice"})
	}
	c := m.script[m.at]
	m.widths[m.at] = n
	m.at++
	return c
}

// explore calls f for every combination of choices
func (m *Machine) explore(f func()) int {
	m.script, m.widths = nil, nil
	n := 0
	for {
		m.at = 0
		m.steps = 0
		m.depth = 0
		n++
		f()
		m.script, m.widths = m.script[:m.at], m.widths[:m.at]
		k := len(m.script) - 1
		for k >= 0 && m.script[k]+1 >= m.widths[k] {
			k--
		}
		if k < 0 {
			return n
		}
		m.script, m.widths = m.script[:k+1], m.widths[:k+1]
		m.script[k]++
	}
}

// ---- compilation

func (sh *mach) fn(f *ssa.Function) *xfn {
	if x, ok := sh.fns.Load(f); ok {
		return x.(*xfn)
	}
	sh.lock.Lock()
	defer sh.lock.Unlock()
	if x, ok := sh.fns.Load(f); ok {
		return x.(*xfn)
	}
	x := &xfn{fn: f}
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	x.native = natives[name]
	x.pointwise = strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "strconv.") || strings.HasPrefix(name, "unicode.") || name == "fmt.Sprintf" || strings.HasPrefix(name, "(*regexp.Regexp).Match")
	reg := map[ssa.Value]int{}
	newReg := func(v ssa.Value) int {
		if r, ok := reg[v]; ok {
			return r
		}
		r := x.nreg
		x.nreg++
		reg[v] = r
		return r
	}
	for _, p := range f.Params {
		x.params = append(x.params, newReg(p))
	}
	for _, p := range f.FreeVars {
		x.free = append(x.free, newReg(p))
	}
	for _, b := range f.Blocks {
		xb := xblock{b: b}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			xi := xins{i: i, dst: -1}
			if _, ok := i.(*ssa.Defer); ok {
				x.defers = true
			}
			if v, ok := i.(ssa.Value); ok {
				xi.dst = newReg(v)
				xi.t = v.Type()
				if bt, ok := v.Type().Underlying().(*types.Basic); ok {
					xi.k = bt.Kind()
				}
			}
			for _, o := range i.Operands(nil) {
				if *o == nil {
					xi.ops = append(xi.ops, operand{})
					continue
				}
				switch v := (*o).(type) {
				case *ssa.Const:
					xi.ops = append(xi.ops, operand{v: sh.constant(v)})
				case *ssa.Global:
					xi.ops = append(xi.ops, operand{kind: 2, g: v})
				case *ssa.Function:
					xi.ops = append(xi.ops, operand{v: v})
				case *ssa.Builtin:
					xi.ops = append(xi.ops, operand{v: v})
				default:
					xi.ops = append(xi.ops, operand{kind: 1, reg: newReg(v)})
				}
			}
			if _, ok := i.(*ssa.Phi); ok {
				xb.phis = append(xb.phis, xi)
			} else {
				xb.ins = append(xb.ins, xi)
			}
		}
		x.blocks = append(x.blocks, xb)
	}
	x.pure = pureFn(f, 0)
	sh.fns.Store(f, x)
	return x
}

// pureFn: the function only computes with plain values
func pureFn(f *ssa.Function, depth int) bool {
	if depth > 4 || len(f.Blocks) == 0 || len(f.FreeVars) > 0 || f.Signature.Results().Len() != 1 || f.Signature.Params().Len() == 0 {
		return false
	}
	plain := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
	}
	for _, p := range f.Params {
		if !plain(p.Type()) {
			return false
		}
	}
	if !plain(f.Signature.Results().At(0).Type()) {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.BinOp:
				if !plain(x.X.Type()) || x.Op == token.QUO || x.Op == token.REM {
					return false
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					return false
				}
			case *ssa.Convert:
				if !plain(x.X.Type()) || !plain(x.Type()) {
					return false
				}
			case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.ChangeType:
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || x.Call.IsInvoke() {
					return false
				}
				if g.Pkg != nil && g.Pkg.Pkg.Path() == "unicode" {
					continue
				}
				if !pureFn(g, depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func (sh *mach) constant(c *ssa.Const) mval {
	t := c.Type().Underlying()
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	b, ok := t.(*types.Basic)
	if !ok {
		return munsupported{"constant " + c.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case b.Info()&types.IsInteger != 0:
		return wrap(c.Int64(), b.Kind(), c)
	case b.Info()&types.IsFloat != 0:
		return c.Float64()
	}
	return munsupported{"constant " + c.String()}
}

func wrap(v int64, k types.BasicKind, c *ssa.Const) mval {
	if c != nil && (k == types.Uint64 || k == types.Uint || k == types.Uintptr) {
		return int64(c.Uint64())
	}
	switch k {
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32, types.UntypedRune:
		return int64(int32(v))
	case types.Uint8:
		return int64(uint8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

func unsigned(k types.BasicKind) bool {
	return k == types.Uint || k == types.Uint8 || k == types.Uint16 || k == types.Uint32 || k == types.Uint64 || k == types.Uintptr
}

func (m *Machine) zero(t types.Type) mval { return zeroOf(t) }

func zeroOf(t types.Type) mval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Kind() == types.UntypedNil:
			return nil
		case u.Kind() == types.UnsafePointer:
			return (*mval)(nil)
		}
	case *types.Pointer:
		return (*mval)(nil)
	case *types.Slice:
		return []mval(nil)
	case *types.Map:
		return (*mmap)(nil)
	case *types.Signature:
		return (*mclosure)(nil)
	case *types.Interface:
		return miface{}
	case *types.Struct:
		s := make(mstruct, u.NumFields())
		for i := range s {
			s[i] = zeroOf(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := u.Len()
		if n > 1<<16 {
			return munsupported{"large array"}
		}
		a := make(marray, n)
		for i := range a {
			a[i] = zeroOf(u.Elem())
		}
		return a
	case *types.Tuple:
		r := make(mtuple, u.Len())
		for i := range r {
			r[i] = zeroOf(u.At(i).Type())
		}
		return r
	case *types.Chan:
		return munsupported{"channel"}
	}
	return munsupported{"zero value of " + t.String()}
}

func copyVal(v mval) mval {
	switch v := v.(type) {
	case mstruct:
		n := make(mstruct, len(v))
		for i, f := range v {
			n[i] = copyVal(f)
		}
		return n
	case marray:
		n := make(marray, len(v))
		for i, f := range v {
			n[i] = copyVal(f)
		}
		return n
	}
	return v
}

// ---- execution

type mframe struct {
	x      *xfn
	regs   []mval
	defers []func()
	result mval
}

func (m *Machine) rtPanic(i ssa.Instruction, format string, a ...interface{}) {
	panic(&mpanic{runtime: fmt.Sprintf(format, a...), at: i})
}

func (m *Machine) invoke(recv miface, meth *types.Func) *ssa.Function {
	k := methodKey{recv.t, meth}
	if f, ok := m.sh.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	f := m.p.Prog.LookupMethod(recv.t, meth.Pkg(), meth.Name())
	if f == nil {
		panic(munsupported{"method " + meth.Name() + " of " + recv.t.String()})
	}
	m.sh.methods.Store(k, f)
	return f
}

func (m *Machine) callValue(f mval, args []mval, at ssa.Instruction) mval {
	switch f := f.(type) {
	case *ssa.Function:
		return m.call(f, nil, args)
	case *mclosure:
		if f == nil {
			m.rtPanic(at, "call of a nil function")
		}
		return m.call(f.fn, f.binds, args)
	}
	panic(munsupported{fmt.Sprintf("call of %T", f)})
}

func (m *Machine) call(f *ssa.Function, binds, args []mval) mval {
	if m.mock != nil {
		if g, ok := m.mock[f]; ok {
			return g(m, args)
		}
	}
	x := m.sh.fn(f)
	if x.native != nil {
		if x.pointwise {
			if d := findDep(args); d != nil {
				if g := otherText(args, d); g != nil {
					// a text made of several open texts is none of the texts that the code tells apart
					return m.call(f, nil, subst(args, d.v, 0).([]mval))
				}
				r := &dep{d.v, make([]mval, len(d.f))}
				for _, i := range d.v.alive {
					r.f[i] = m.call(f, nil, subst(args, d.v, i).([]mval))
				}
				return r
			}
		}
		return x.native(m, args)
	}
	if x.pure {
		if d := findDep(args); d != nil && plainDep(d) {
			// for each value on its own, which does not tell apart values for which the result is the same
			r := &dep{d.v, make([]mval, len(d.f))}
			for _, i := range d.v.alive {
				r.f[i] = m.pureCall(f, subst(args, d.v, i).([]mval))
			}
			return r
		}
	}
	if len(x.blocks) == 0 {
		panic(munsupported{"function " + f.String()})
	}
	if f.Synthetic != "" && f.Name() == "init" && f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && f.Pkg != m.p.Issue {
		return nil // initialisers of packages outside
	}
	if m.onCall != nil {
		m.onCall(m, f, args)
	}
	m.depth++
	if m.depth > 3000 {
		panic(mlimit{"recursion does not end"})
	}
	fr := &mframe{x: x, regs: make([]mval, x.nreg)}
	for i, r := range x.params {
		fr.regs[r] = args[i]
	}
	for i, r := range x.free {
		fr.regs[r] = binds[i]
	}
	if x.defers {
		m.runDeferring(fr)
	} else {
		m.runBlocks(fr, 0)
	}
	m.depth--
	return fr.result
}

type pureKey struct {
	f *ssa.Function
	v mval
}

func (m *Machine) pureCall(f *ssa.Function, args []mval) mval {
	if len(args) == 1 {
		switch args[0].(type) {
		case int64, bool:
			k := pureKey{f, args[0]}
			if r, ok := m.pures[k]; ok {
				return r
			}
			r := m.call(f, nil, args)
			if findDep(r) == nil {
				if m.pures == nil {
					m.pures = map[pureKey]mval{}
				}
				m.pures[k] = r
			}
			return r
		}
	}
	return m.call(f, nil, args)
}

// runDeferring runs a function that has deferred calls
func (m *Machine) runDeferring(fr *mframe) {
	depth := m.depth
	var p *mpanic
	func() {
		defer func() {
			if r := recover(); r != nil {
				mp, ok := r.(*mpanic)
				if !ok {
					panic(r)
				}
				p = mp
			}
		}()
		m.runBlocks(fr, 0)
	}()
	if p == nil {
		return
	}
	m.depth = depth
	m.rec = append(m.rec, p)
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					mp, ok := r.(*mpanic)
					if !ok {
						panic(r)
					}
					m.rec[len(m.rec)-1] = mp
				}
			}()
			d()
		}()
	}
	last := m.rec[len(m.rec)-1]
	m.rec = m.rec[:len(m.rec)-1]
	if lp, _ := last.(*mpanic); lp != nil {
		panic(lp)
	}
	if fr.x.fn.Recover != nil {
		m.runBlocks(fr, fr.x.fn.Recover.Index)
	} else {
		fr.result = m.zeroResult(fr.x.fn)
	}
}

func (m *Machine) zeroResult(f *ssa.Function) mval {
	r := f.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(r.At(0).Type())
	}
	return m.zero(r)
}

func (m *Machine) get(fr *mframe, o *operand) mval {
	switch o.kind {
	case 1:
		return fr.regs[o.reg]
	case 2:
		return m.global(o.g)
	}
	switch v := o.v.(type) {
	case mstruct, marray:
		return copyVal(v)
	case munsupported:
		panic(v)
	}
	return o.v
}

func (m *Machine) runBlocks(fr *mframe, start int) {
	x := fr.x
	b := &x.blocks[start]
	prev := -1
	var tmp []mval
	for {
		m.covered[b.b] = true
		if len(b.phis) > 0 && prev >= 0 {
			k := 0
			for i, p := range b.b.Preds {
				if p.Index == prev {
					k = i
					break
				}
			}
			tmp = tmp[:0]
			for i := range b.phis {
				tmp = append(tmp, m.get(fr, &b.phis[i].ops[k]))
			}
			for i := range b.phis {
				fr.regs[b.phis[i].dst] = tmp[i]
			}
		}
		next := -1
		for k := range b.ins {
			xi := &b.ins[k]
			m.steps++
			switch i := xi.i.(type) {
			case *ssa.If:
				if m.bool(m.get(fr, &xi.ops[0])) {
					next = b.b.Succs[0].Index
				} else {
					next = b.b.Succs[1].Index
				}
			case *ssa.Jump:
				next = b.b.Succs[0].Index
			case *ssa.Return:
				switch len(xi.ops) {
				case 0:
				case 1:
					fr.result = m.get(fr, &xi.ops[0])
				default:
					t := make(mtuple, len(xi.ops))
					for j := range xi.ops {
						t[j] = m.get(fr, &xi.ops[j])
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				v, _ := m.resolve(m.get(fr, &xi.ops[0])).(miface)
				if v.t == nil {
					m.rtPanic(i, "panic with a nil value")
				}
				panic(&mpanic{v: v, at: i})
			case *ssa.RunDefers:
				for len(fr.defers) > 0 {
					d := fr.defers[len(fr.defers)-1]
					fr.defers = fr.defers[:len(fr.defers)-1]
					d()
				}
			case *ssa.Defer:
				f, args := m.prepare(fr, xi, &i.Call, i)
				fr.defers = append(fr.defers, func() { m.apply(f, args, i) })
			case *ssa.Call:
				f, args := m.prepare(fr, xi, &i.Call, i)
				fr.regs[xi.dst] = m.apply(f, args, i)
			default:
				m.instr(fr, xi)
			}
		}
		if m.steps > m.limit {
			panic(mlimit{"does not end in " + x.fn.String()})
		}
		if next < 0 {
			panic(munsupported{"block without end in " + x.fn.String()})
		}
		prev = b.b.Index
		b = &x.blocks[next]
	}
}

// prepare evaluates the function and the arguments of a call. The operands of a call are the value
// that is called, or the receiver, followed by the arguments.
func (m *Machine) prepare(fr *mframe, xi *xins, com *ssa.CallCommon, at ssa.Instruction) (mval, []mval) {
	ops := xi.ops
	f := m.get(fr, &ops[0])
	args := make([]mval, 0, len(ops))
	if com.IsInvoke() {
		if n, ok := f.(*lnode); ok {
			if n.isNil(m) {
				m.rtPanic(at, "method %s of a nil interface", com.Method.Name())
			}
			if g := n.method(m, com.Method.Name()); g != nil {
				var rest []mval
				for j := 1; j < len(ops); j++ {
					rest = append(rest, copyVal(m.get(fr, &ops[j])))
				}
				return mnativeCall(g), rest
			}
		}
		r := m.resolve(f).(miface)
		if r.t == nil {
			m.rtPanic(at, "method %s of a nil interface", com.Method.Name())
		}
		args = append(args, r.v)
		f = m.invoke(r, com.Method)
	}
	for j := 1; j < len(ops); j++ {
		args = append(args, copyVal(m.get(fr, &ops[j])))
	}
	return f, args
}

func (m *Machine) apply(f mval, args []mval, at ssa.Instruction) mval {
	switch b := f.(type) {
	case *ssa.Builtin:
		return m.builtin(b, args, at)
	case mnativeCall:
		return b(m, args)
	case *dep:
		f = m.force(b)
	}
	return m.callValue(f, args, at)
}

func (m *Machine) instr(fr *mframe, xi *xins) {
	arg := func(k int) mval { return m.get(fr, &xi.ops[k]) }
	set := func(v mval) { fr.regs[xi.dst] = v }
	switch i := xi.i.(type) {
	case *ssa.Alloc:
		c := new(mval)
		*c = m.zero(i.Type().Underlying().(*types.Pointer).Elem())
		set(c)
	case *ssa.Store:
		p, ok := arg(0).(*mval)
		if !ok || p == nil {
			m.rtPanic(i, "store to a nil pointer")
		}
		v := arg(1)
		switch o := (*p).(type) {
		case mstruct: // keep the identity of the cells of the fields
			copy(o, copyVal(v).(mstruct))
		case marray:
			copy(o, copyVal(v).(marray))
		default:
			*p = copyVal(v)
		}
	case *ssa.UnOp:
		x := arg(0)
		if d, ok := x.(*dep); ok && i.Op != token.MUL {
			set(m.mapDep(d, func(v mval) mval { return m.unop(i, xi.k, v) }))
			return
		}
		switch i.Op {
		case token.MUL:
			x = m.force(x)
			p, ok := x.(*mval)
			if !ok {
				panic(munsupported{fmt.Sprintf("load from %T", x)})
			}
			if p == nil {
				m.rtPanic(i, "nil pointer dereference")
			}
			set(copyVal(*p))
		default:
			set(m.unop(i, xi.k, x))
		}
	case *ssa.BinOp:
		set(m.binop(i, xi.k, arg(0), arg(1)))
	case *ssa.FieldAddr:
		p, _ := m.force(arg(0)).(*mval)
		if p == nil {
			m.rtPanic(i, "nil pointer dereference")
		}
		s, ok := (*p).(mstruct)
		if !ok {
			panic(munsupported{fmt.Sprintf("field of %T", *p)})
		}
		set(&s[i.Field])
	case *ssa.Field:
		set(copyVal(arg(0).(mstruct)[i.Field]))
	case *ssa.IndexAddr:
		x, idx := m.force(arg(0)), m.num(arg(1))
		switch x := x.(type) {
		case []mval:
			if idx < 0 || idx >= int64(len(x)) {
				m.rtPanic(i, "index out of range")
			}
			set(&x[idx])
		case *mval:
			if x == nil {
				m.rtPanic(i, "nil pointer dereference")
			}
			a := (*x).(marray)
			if idx < 0 || idx >= int64(len(a)) {
				m.rtPanic(i, "index out of range")
			}
			set(&a[idx])
		default:
			panic(munsupported{fmt.Sprintf("index of %T", x)})
		}
	case *ssa.Index:
		x, idx := m.force(arg(0)), m.num(arg(1))
		switch x := x.(type) {
		case marray:
			if idx < 0 || idx >= int64(len(x)) {
				m.rtPanic(i, "index out of range")
			}
			set(copyVal(x[idx]))
		case string, mtext, srcRange:
			set(m.indexText(x, int(idx), i))
		default:
			panic(munsupported{fmt.Sprintf("index of %T", x)})
		}
	case *ssa.Slice:
		set(m.slice(fr, xi, i))
	case *ssa.Extract:
		set(arg(0).(mtuple)[i.Index])
	case *ssa.MakeInterface:
		set(miface{i.X.Type(), copyVal(arg(0))})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		set(arg(0))
	case *ssa.Convert:
		set(m.convert(arg(0), i.X.Type(), i.Type()))
	case *ssa.MakeClosure:
		bs := make([]mval, len(xi.ops)-1)
		for k := range bs {
			bs[k] = arg(k + 1)
		}
		set(&mclosure{i.Fn.(*ssa.Function), bs})
	case *ssa.MakeMap:
		set(&mmap{idx: map[interface{}]int{}})
	case *ssa.MakeSlice:
		n, c := m.num(arg(0)), m.num(arg(1))
		if n < 0 || c < n || c > 1<<22 {
			m.rtPanic(i, "makeslice: length or capacity out of range")
		}
		s := make([]mval, n, c)
		el := i.Type().Underlying().(*types.Slice).Elem()
		for k := range s {
			s[k] = m.zero(el)
		}
		full := s[:c]
		for k := int(n); k < int(c); k++ {
			full[k] = m.zero(el)
		}
		set(s)
	case *ssa.MapUpdate:
		mp, _ := arg(0).(*mmap)
		if mp == nil {
			m.rtPanic(i, "assignment to entry in nil map")
		}
		mp.put(m.hash(arg(1), i), arg(1), copyVal(arg(2)))
	case *ssa.Lookup:
		x := m.force(arg(0))
		if isStringType(i.X.Type()) {
			set(m.indexText(x, int(m.num(arg(1))), i))
			return
		}
		mp := x.(*mmap)
		mt := i.X.Type().Underlying().(*types.Map)
		key := arg(1)
		if d, isDep := key.(*dep); isDep {
			vals := m.mapDep(d, func(k mval) mval {
				v, ok := mp.get(m.hash(k, i))
				if !ok {
					v = m.zero(mt.Elem())
				}
				return mtuple{copyVal(v), ok}
			}).(*dep)
			first := m.mapDep(vals, func(v mval) mval { return v.(mtuple)[0] })
			if i.CommaOk {
				set(mtuple{first, m.mapDep(vals, func(v mval) mval { return v.(mtuple)[1] })})
			} else {
				set(first)
			}
			return
		}
		if t, isText := key.(mtext); isText {
			if nt, still := normText(t).(mtext); still {
				v, ok := m.lookupText(mp, nt, m.zero(mt.Elem()))
				if i.CommaOk {
					set(mtuple{v, ok})
				} else {
					set(v)
				}
				return
			}
			key = normText(t)
		}
		v, ok := mp.get(m.hash(key, i))
		if !ok {
			v = m.zero(mt.Elem())
		}
		if i.CommaOk {
			set(mtuple{copyVal(v), ok})
		} else {
			set(copyVal(v))
		}
	case *ssa.Range:
		switch x := m.force(arg(0)).(type) {
		case string:
			set(&miter{s: x, isSt: true})
		case mtext:
			set(&miter{t: x, isSt: true, open: true})
		case *mmap:
			set(&miter{m: x})
		default:
			panic(munsupported{fmt.Sprintf("range over %T", x)})
		}
	case *ssa.Next:
		it := arg(0).(*miter)
		if it.open {
			if it.at >= len(it.t.ch) {
				set(mtuple{false, int64(0), int64(0)})
				return
			}
			c := it.t.ch[it.at]
			set(mtuple{true, int64(it.pos), c.v})
			it.pos += c.size
			it.at++
			return
		}
		if it.isSt {
			if it.pos >= len(it.s) {
				set(mtuple{false, int64(0), int64(0)})
				return
			}
			r, n := utf8.DecodeRuneInString(it.s[it.pos:])
			set(mtuple{true, int64(it.pos), int64(r)})
			it.pos += n
			return
		}
		if it.m != nil {
			for it.pos < len(it.m.keys) {
				k := it.pos
				it.pos++
				if !it.m.dead[k] {
					set(mtuple{true, it.m.keys[k], it.m.vals[k]})
					return
				}
			}
		}
		set(mtuple{false, nil, nil})
	case *ssa.TypeAssert:
		v, ok := m.typeAssert(i, arg(0))
		if i.CommaOk {
			set(mtuple{v, ok})
		} else {
			set(v)
		}
	default:
		panic(munsupported{fmt.Sprintf("%T in %s", xi.i, fr.x.fn)})
	}
}

func (m *Machine) unop(i *ssa.UnOp, k types.BasicKind, x mval) mval {
	switch i.Op {
	case token.NOT:
		return !x.(bool)
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		return wrap(-x.(int64), k, nil)
	case token.XOR:
		return wrap(^x.(int64), k, nil)
	}
	panic(munsupported{"operator " + i.Op.String()})
}

// typeAssert: a symbolic value is told apart only by the type in question
func (m *Machine) typeAssert(i *ssa.TypeAssert, x mval) (mval, bool) {
	if d, ok := x.(*dep); ok {
		is := func(k int) bool {
			f, _ := d.f[k].(miface)
			return f.t != nil && m.assignable(f.t, i.AssertedType)
		}
		k := m.split(d.v, func(k int) interface{} { return is(k) })
		if !is(k) {
			x = d.f[k]
		} else if types.IsInterface(i.AssertedType) {
			return d, true
		} else {
			return m.mapDep(d, func(v mval) mval { return v.(miface).v }), true
		}
	}
	if n, ok := x.(*lnode); ok {
		if !n.assert(m, i.AssertedType) {
			x = miface{n.ctx.types[n.kind.alive[0]], nil}
			if n.real.t != nil {
				x = n.real
			}
		} else if types.IsInterface(i.AssertedType) {
			return n, true
		} else {
			x = m.resolve(n)
		}
	}
	f := x.(miface)
	if f.t == nil || !m.assignable(f.t, i.AssertedType) {
		if !i.CommaOk {
			m.rtPanic(i, "type assertion of %v to %v", f.t, i.AssertedType)
		}
		return m.zero(i.AssertedType), false
	}
	if types.IsInterface(i.AssertedType) {
		return f, true
	}
	return f.v, true
}

func (m *Machine) assignable(t, T types.Type) bool {
	if t == T {
		return true
	}
	k := [2]types.Type{t, T}
	if r, ok := m.sh.impl.Load(k); ok {
		return r.(bool)
	}
	var r bool
	if it, ok := T.Underlying().(*types.Interface); ok {
		r = types.Implements(t, it)
	} else {
		r = types.Identical(t, T)
	}
	m.sh.impl.Store(k, r)
	return r
}

func (mp *mmap) put(k interface{}, key, v mval) {
	if j, ok := mp.idx[k]; ok {
		mp.vals[j] = v
		return
	}
	mp.idx[k] = len(mp.keys)
	mp.keys = append(mp.keys, key)
	mp.vals = append(mp.vals, v)
	mp.dead = append(mp.dead, false)
	mp.n++
}

func (mp *mmap) get(k interface{}) (mval, bool) {
	if mp == nil {
		return nil, false
	}
	j, ok := mp.idx[k]
	if !ok {
		return nil, false
	}
	return mp.vals[j], true
}

func (m *Machine) hash(v mval, at ssa.Instruction) interface{} {
	switch v := v.(type) {
	case *dep:
		return m.hash(m.force(v), at)
	case *lnode:
		return v
	case int64, string, bool, float64, *mval:
		return v
	case miface:
		if v.t == nil {
			return nil
		}
		switch v.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			m.rtPanic(at, "runtime error: hash of unhashable type %s", v.t)
		}
		return mkey{v.t.String(), m.hash(v.v, at)}
	case mstruct:
		var b strings.Builder
		for _, f := range v {
			fmt.Fprintf(&b, "%#v;", m.hash(f, at))
		}
		return mkey{"struct", b.String()}
	case mtext:
		return m.str(v)
	}
	panic(munsupported{fmt.Sprintf("key %T", v)})
}

// str makes all characters of a string definite
func (m *Machine) str(v mval) string {
	switch v := v.(type) {
	case *dep:
		return m.str(m.force(v))
	case string:
		return v
	case mtext:
		if t, ok := normText(v).(string); ok {
			return t
		}
		panic(munsupported{"text that is not definite"})
	}
	panic(munsupported{fmt.Sprintf("string %T", v)})
}

func (m *Machine) slice(fr *mframe, xi *xins, i *ssa.Slice) mval {
	x := m.force(m.get(fr, &xi.ops[0]))
	bound := func(k int, v ssa.Value) (mval, bool) {
		if v == nil {
			return nil, false
		}
		return m.get(fr, &xi.ops[k]), true
	}
	lo, hi, mx := int64(0), int64(-1), int64(-1)
	if v, ok := bound(1, i.Low); ok {
		lo = m.num(v)
	}
	if v, ok := bound(2, i.High); ok {
		if sl, isLen := v.(srcLen); isLen {
			if sr, isSrc := x.(srcRange); isSrc && sl.s == sr.s && sl.off == int64(-sr.from) {
				ok = false // up to the end
			}
		}
		if ok {
			hi = m.num(v)
		}
	}
	if v, ok := bound(3, i.Max); ok {
		mx = m.num(v)
	}
	if sr, ok := x.(srcRange); ok {
		if hi < 0 && (i.High == nil || lo >= 0) && m.openEnd(fr, xi, i, sr) {
			if lo < 0 || lo > 0 && !sr.s.has(m, sr.from+int(lo)-1) {
				m.rtPanic(i, "slice bounds out of range")
			}
			return srcRange{sr.s, sr.from + int(lo)}
		}
		if lo < 0 || hi < lo {
			m.rtPanic(i, "slice bounds out of range")
		}
		t, ok := sr.s.cut(m, sr.from+int(lo), sr.from+int(hi))
		if !ok {
			m.rtPanic(i, "slice bounds out of range")
		}
		return t
	}
	if t, ok := x.(mtext); ok {
		if i.High == nil {
			hi = int64(t.len())
		}
		if lo < 0 || hi < lo || hi > int64(t.len()) {
			m.rtPanic(i, "slice bounds out of range")
		}
		r, ok := t.cut(int(lo), int(hi))
		if !ok {
			panic(munsupported{"a character is cut"})
		}
		return r
	}
	switch x := x.(type) {
	case string:
		if i.High == nil {
			hi = int64(len(x))
		}
		if lo < 0 || hi < lo || hi > int64(len(x)) {
			m.rtPanic(i, "slice bounds out of range")
		}
		return x[lo:hi]
	case []mval:
		return m.sliceOf(i, x, lo, hi, mx)
	case *mval:
		if x == nil {
			m.rtPanic(i, "nil pointer dereference")
		}
		a := (*x).(marray)
		return m.sliceOf(i, []mval(a), lo, hi, mx)
	}
	panic(munsupported{fmt.Sprintf("slice of %T", x)})
}

func (m *Machine) sliceOf(i *ssa.Slice, x []mval, lo, hi, mx int64) mval {
	if i.High == nil {
		hi = int64(len(x))
	}
	if i.Max == nil {
		mx = int64(cap(x))
	}
	if lo < 0 || hi < lo || mx < hi || mx > int64(cap(x)) {
		m.rtPanic(i, "slice bounds out of range")
	}
	return x[lo:hi:mx]
}

// num makes a number definite
func (m *Machine) num(v mval) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *dep:
		return m.num(m.force(v))
	case srcLen:
		for p := 0; ; p++ {
			if !v.s.has(m, p) {
				return int64(v.s.end) + v.off
			}
		}
	}
	panic(munsupported{fmt.Sprintf("number %T", v)})
}

func (m *Machine) convert(x mval, from, to types.Type) mval {
	if d, ok := x.(*dep); ok {
		if b, isB := from.Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 && isStringType(to) && m.newVar != nil {
			return m.runeText(d)
		}
		return m.mapDep(d, func(v mval) mval { return m.convert(v, from, to) })
	}
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsInteger != 0:
			switch x := x.(type) {
			case int64:
				return wrap(x, t.Kind(), nil)
			case float64:
				return wrap(int64(x), t.Kind(), nil)
			case srcLen:
				return x
			case msym:
				return x
			}
		case t.Info()&types.IsFloat != 0:
			switch x := x.(type) {
			case int64:
				if b, ok := fu.(*types.Basic); ok && b.Kind() == types.Uint64 {
					return float64(uint64(x))
				}
				return float64(x)
			case float64:
				if t.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			}
		case t.Info()&types.IsString != 0:
			switch x := x.(type) {
			case string, mtext, srcRange:
				return x
			case msym:
				return m.runeText(x)
			case int64:
				return string(rune(x))
			case []mval:
				el, ok := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				isByte := ok && el.Kind() == types.Uint8
				if isByte && allNumbers(x) {
					return string(bytesOf(x))
				}
				var r mval = ""
				for _, c := range x {
					if isByte {
						r = m.appendText(r, m.byteText(c))
					} else {
						r = m.appendText(r, m.runeText(c))
					}
				}
				return r
			}
		}
	case *types.Slice:
		el, _ := t.Elem().Underlying().(*types.Basic)
		if t, ok := x.(mtext); ok && el != nil {
			var r []mval
			for _, c := range t.ch {
				if el.Kind() == types.Uint8 && c.size != 1 {
					return m.convert(m.str(x), from, to)
				}
				r = append(r, c.v)
			}
			return r
		}
		if el != nil {
			s := m.str(x)
			if el.Kind() == types.Uint8 {
				return bytesVal([]byte(s))
			}
			var r []mval
			for _, c := range s {
				r = append(r, int64(c))
			}
			return r
		}
	case *types.Pointer, *types.Map, *types.Signature, *types.Struct:
		return x
	}
	panic(munsupported{fmt.Sprintf("conversion from %s to %s", from, to)})
}

func allNumbers(x []mval) bool {
	for _, v := range x {
		if _, ok := v.(int64); !ok {
			return false
		}
	}
	return true
}

// indexText is a byte of a string
func (m *Machine) indexText(x mval, idx int, at ssa.Instruction) mval {
	if sr, ok := x.(srcRange); ok {
		if idx < 0 || !sr.s.has(m, sr.from+idx) {
			m.rtPanic(at, "index out of range")
		}
		return sr.s.byteAt(m, sr.from+idx)
	}
	if s, ok := x.(string); ok {
		if idx < 0 || idx >= len(s) {
			m.rtPanic(at, "index out of range")
		}
		return int64(s[idx])
	}
	t, ok := m.textOf(x)
	if !ok {
		panic(munsupported{fmt.Sprintf("index of %T", x)})
	}
	v, ok := t.at(m, idx)
	if !ok {
		m.rtPanic(at, "index out of range")
	}
	return v
}

// openEnd: the slice goes up to the end of the source
func (m *Machine) openEnd(fr *mframe, xi *xins, i *ssa.Slice, sr srcRange) bool {
	if i.High == nil {
		return true
	}
	sl, ok := m.get(fr, &xi.ops[2]).(srcLen)
	return ok && sl.s == sr.s && sl.off == int64(-sr.from)
}

func bytesOf(x []mval) []byte {
	b := make([]byte, len(x))
	for i, v := range x {
		b[i] = byte(v.(int64))
	}
	return b
}

func bytesVal(b []byte) []mval {
	r := make([]mval, len(b))
	for i, c := range b {
		r[i] = int64(c)
	}
	return r
}

func (m *Machine) equal(a, b mval, at ssa.Instruction) bool {
	if d, ok := a.(*dep); ok {
		a = m.force(d)
	}
	if d, ok := b.(*dep); ok {
		b = m.force(d)
	}
	if n, ok := b.(*lnode); ok {
		a, b = n, a
	}
	switch x := a.(type) {
	case *lnode:
		if y, ok := b.(miface); ok && y.t == nil {
			return x.isNil(m)
		}
		if y, ok := b.(*lnode); ok {
			return x == y
		}
		return x.real.t != nil && m.equal(x.real, b, at)
	case miface:
		y, ok := b.(miface)
		if !ok {
			panic(munsupported{"comparison of an interface"})
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		switch x.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			m.rtPanic(at, "comparing uncomparable type %s", x.t)
		}
		return m.equal(x.v, y.v, at)
	case mstruct:
		y := b.(mstruct)
		for i := range x {
			if !m.equal(x[i], y[i], at) {
				return false
			}
		}
		return true
	case marray:
		y := b.(marray)
		for i := range x {
			if !m.equal(x[i], y[i], at) {
				return false
			}
		}
		return true
	case []mval:
		y, _ := b.([]mval)
		return x == nil && y == nil
	case *mmap:
		y, _ := b.(*mmap)
		return x == y
	case *mclosure:
		y, ok := b.(*mclosure)
		return ok && x == nil && y == nil
	case *ssa.Function:
		return false
	case *mval:
		y, _ := b.(*mval)
		return x == y
	case mtext:
		t, ok := m.textOf(b)
		if !ok {
			panic(munsupported{fmt.Sprintf("comparison with %T", b)})
		}
		return m.textEqual(x, t, at)
	case string:
		if t, ok := b.(mtext); ok {
			y, _ := m.textOf(x)
			return m.textEqual(y, t, at)
		}
		return x == m.str(b)
	case int64:
		return x == m.num(b)
	case srcRange:
		if y, ok := b.(string); ok && y == "" {
			return !x.s.has(m, x.from)
		}
	case bool, float64:
		return a == b
	case mnative:
		return a == b
	case nil:
		return b == nil
	}
	panic(munsupported{fmt.Sprintf("comparison of %T", a)})
}

func (m *Machine) binop(i *ssa.BinOp, k types.BasicKind, x, y mval) mval {
	dx, isX := x.(*dep)
	dy, isY := y.(*dep)
	switch {
	case isX && isY && dx.v == dy.v:
		r := &dep{dx.v, make([]mval, len(dx.f))}
		for _, j := range dx.v.alive {
			r.f[j] = m.binop(i, k, dx.f[j], dy.f[j])
		}
		return r
	case isX && isY && m.newVar != nil && (i.Op == token.EQL || i.Op == token.NEQ) && isCharDep(dx) && isCharDep(dy):
		r := m.charEqual(x, y)
		if i.Op == token.NEQ {
			return m.mapDep(r.(*dep), func(v mval) mval { return !v.(bool) })
		}
		return r
	case isX && isY && i.Op == token.ADD && k == types.String && !(dx.v.text && dy.v.text):
		return m.binop(i, k, m.forceText(x), m.forceText(y))
	case isX && isY && i.Op == token.ADD && otherText(y, dx) != nil:
		// a text made of several open texts is none of the texts that the code tells apart
		return m.binop(i, k, dx.f[0], dy.f[0])
	case isX && isY:
		return m.binop(i, k, x, m.force(y))
	case isX:
		return m.mapDep(dx, func(v mval) mval { return m.binop(i, k, v, y) })
	case isY:
		return m.mapDep(dy, func(v mval) mval { return m.binop(i, k, x, v) })
	}
	switch i.Op {
	case token.EQL:
		if r, ok := m.lazyCompare(token.EQL, x, y); ok {
			return r
		}
		return m.equal(x, y, i)
	case token.NEQ:
		if r, ok := m.lazyCompare(token.EQL, x, y); ok {
			return !r
		}
		return !m.equal(x, y, i)
	}
	if r, ok := m.lazyCompare(i.Op, x, y); ok {
		return r
	}
	if l, ok := x.(srcLen); ok {
		if n, ok := y.(int64); ok && (i.Op == token.ADD || i.Op == token.SUB) {
			if i.Op == token.SUB {
				n = -n
			}
			return srcLen{l.s, l.off + n}
		}
		x = m.num(l)
	}
	if l, ok := y.(srcLen); ok {
		y = m.num(l)
	}
	switch a := x.(type) {
	case int64:
		b, ok := y.(int64)
		if !ok {
			panic(munsupported{fmt.Sprintf("operand %T", y)})
		}
		bt, _ := i.X.Type().Underlying().(*types.Basic)
		un := bt != nil && unsigned(bt.Kind())
		switch i.Op {
		case token.ADD:
			return wrap(a+b, k, nil)
		case token.SUB:
			return wrap(a-b, k, nil)
		case token.MUL:
			return wrap(a*b, k, nil)
		case token.QUO, token.REM:
			if b == 0 {
				m.rtPanic(i, "integer divide by zero")
			}
			if un {
				if i.Op == token.QUO {
					return wrap(int64(uint64(a)/uint64(b)), k, nil)
				}
				return wrap(int64(uint64(a)%uint64(b)), k, nil)
			}
			if i.Op == token.QUO {
				return wrap(a/b, k, nil)
			}
			return wrap(a%b, k, nil)
		case token.AND:
			return wrap(a&b, k, nil)
		case token.OR:
			return wrap(a|b, k, nil)
		case token.XOR:
			return wrap(a^b, k, nil)
		case token.AND_NOT:
			return wrap(a&^b, k, nil)
		case token.SHL:
			if uint64(b) > 63 {
				return int64(0)
			}
			return wrap(a<<uint64(b), k, nil)
		case token.SHR:
			if un {
				if uint64(b) > 63 {
					return int64(0)
				}
				return wrap(int64(uint64(a)>>uint64(b)), k, nil)
			}
			if uint64(b) > 63 {
				b = 63
			}
			return wrap(a>>uint64(b), k, nil)
		case token.LSS:
			if un {
				return uint64(a) < uint64(b)
			}
			return a < b
		case token.LEQ:
			if un {
				return uint64(a) <= uint64(b)
			}
			return a <= b
		case token.GTR:
			if un {
				return uint64(a) > uint64(b)
			}
			return a > b
		case token.GEQ:
			if un {
				return uint64(a) >= uint64(b)
			}
			return a >= b
		}
	case float64:
		b := y.(float64)
		switch i.Op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case mtext:
		if i.Op == token.ADD {
			return m.appendText(x, y)
		}
	case string:
		if _, ok := y.(mtext); ok && i.Op == token.ADD {
			return m.appendText(x, y)
		}
		s, t := m.str(x), m.str(y)
		switch i.Op {
		case token.ADD:
			return s + t
		case token.LSS:
			return s < t
		case token.LEQ:
			return s <= t
		case token.GTR:
			return s > t
		case token.GEQ:
			return s >= t
		}
	}
	panic(munsupported{fmt.Sprintf("%T %s %T", x, i.Op, y)})
}

func isCharDep(d *dep) bool { return len(d.f) == len(charLabels) }

// lazyCompare compares a number with the length of a text that is not complete: only as many characters are
// chosen as are needed
func (m *Machine) lazyCompare(op token.Token, x, y mval) (bool, bool) {
	if l, ok := y.(srcLen); ok {
		if n, ok := x.(int64); ok {
			// n op len+off
			at := int(n - l.off) // compare at with the length
			switch op {
			case token.GEQ:
				return at >= 0 && !l.s.has(m, at), true
			case token.LSS:
				return at < 0 || l.s.has(m, at), true
			case token.GTR: // at > len
				return at > 0 && !l.s.has(m, at-1), true
			case token.LEQ:
				return at <= 0 || l.s.has(m, at-1), true
			case token.EQL:
				return at >= 0 && (at == 0 || l.s.has(m, at-1)) && !l.s.has(m, at), true
			}
		}
		return false, false
	}
	if _, ok := x.(srcLen); ok {
		if _, ok := y.(int64); ok {
			switch op {
			case token.GEQ:
				return m.lazyCompare(token.LEQ, y, x)
			case token.LSS:
				return m.lazyCompare(token.GTR, y, x)
			case token.GTR:
				return m.lazyCompare(token.LSS, y, x)
			case token.LEQ:
				return m.lazyCompare(token.GEQ, y, x)
			case token.EQL:
				return m.lazyCompare(token.EQL, y, x)
			}
		}
	}
	return false, false
}

func (m *Machine) builtin(b *ssa.Builtin, args []mval, at ssa.Instruction) mval {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *dep:
			if len(x.v.alive) > 1 && x.v.text {
				return int64(symLen)
			}
			return int64(len(m.str(x)))
		case string:
			return int64(len(x))
		case []mval:
			return int64(len(x))
		case marray:
			return int64(len(x))
		case *mval:
			return int64(len((*x).(marray)))
		case *mmap:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case mtext:
			return int64(x.len())
		case srcRange:
			if x.s.end >= 0 {
				return int64(x.s.end - x.from)
			}
			return srcLen{x.s, -int64(x.from)}
		}
	case "cap":
		switch x := args[0].(type) {
		case []mval:
			return int64(cap(x))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		x := m.force(args[0]).([]mval)
		switch y := m.force(args[1]).(type) {
		case []mval:
			if y == nil && x == nil {
				return x
			}
			if len(x)+len(y) > cap(x) {
				n := make([]mval, len(x), 2*len(x)+len(y)+1)
				copy(n, x)
				x = n
			}
			for _, e := range y {
				x = append(x, copyVal(e))
			}
			return x
		default:
			return append(x[:len(x):len(x)], bytesVal([]byte(m.str(y)))...)
		}
	case "copy":
		d := args[0].([]mval)
		switch y := args[1].(type) {
		case []mval:
			return int64(copy(d, y))
		default:
			return int64(copy(d, bytesVal([]byte(m.str(y)))))
		}
	case "delete":
		mp := args[0].(*mmap)
		if mp != nil {
			k := m.hash(args[1], at)
			if j, ok := mp.idx[k]; ok {
				delete(mp.idx, k)
				mp.dead[j] = true
				mp.n--
			}
		}
		return nil
	case "recover":
		if len(m.rec) == 0 || m.rec[len(m.rec)-1] == (*mpanic)(nil) || m.rec[len(m.rec)-1] == nil {
			return miface{}
		}
		p := m.rec[len(m.rec)-1].(*mpanic)
		m.rec[len(m.rec)-1] = (*mpanic)(nil)
		if p.runtime != "" {
			return miface{types.NewPointer(runtimeError), new(mval)}
		}
		return p.v
	case "min", "max":
		r := args[0].(int64)
		for _, a := range args[1:] {
			if v := a.(int64); b.Name() == "min" && v < r || b.Name() == "max" && v > r {
				r = v
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*mval); ok && p == nil {
			m.rtPanic(at, "value method called using nil pointer")
		}
		return args[0]
	case "print", "println":
		return nil
	}
	panic(munsupported{"builtin " + b.Name()})
}

var runtimeError = types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtimeError", nil), types.NewStruct(nil, nil), nil)
