package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// State is what flows along the edges of the control flow graph: the memory, facts about named
// values, and the set of event traces that can lead here.
type State struct {
	mem    map[string]Val
	facts  map[string]Val
	traces map[string]bool
	wr     map[string]bool // cells written since the start of the current function
}

func newState() *State {
	return &State{mem: map[string]Val{}, facts: map[string]Val{}, traces: map[string]bool{"": true}, wr: map[string]bool{}}
}

func (s *State) clone() *State {
	n := &State{make(map[string]Val, len(s.mem)), make(map[string]Val, len(s.facts)), make(map[string]bool, len(s.traces)), make(map[string]bool, len(s.wr))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k := range s.traces {
		n.traces[k] = true
	}
	for k := range s.wr {
		n.wr[k] = true
	}
	return n
}

// fstate is the state within one function activation
type fstate struct {
	*State
	env   map[ssa.Value]Val
	alias map[ssa.Value]string // register -> cell that it was loaded from and that still has the same content
}

func (f *fstate) clone() *fstate {
	n := &fstate{State: f.State.clone(), env: make(map[ssa.Value]Val, len(f.env)), alias: make(map[ssa.Value]string, len(f.alias))}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k, v := range f.alias {
		n.alias[k] = v
	}
	return n
}

// Exit is one way that a function returns
type Exit struct {
	Results []Val
	St      *State
	Ret     ssa.Instruction
	// Panicking is true when the function does not return but panics with Results[0]
	Panicking bool
}

// unwinding is a panic that arrives in a frame
type unwinding struct {
	fs *fstate
	v  Val
}

// panicCell holds the value of the current panic, as recover sees it
const panicCell = "!panic"

// PanicExit is one explicit panic
type PanicExit struct {
	Instr  ssa.Instruction
	V      Val
	Traces map[string]bool
	Stack  string
}

type frame struct {
	fn     *ssa.Function
	ctx    string
	depth  int
	parent *frame
	binds  []Val
	call   ssa.Instruction
	info   *fnInfo
	defers []*ssa.Defer
	iter   string // the iterations of the loops around the current call
	panics []unwinding
}

func (fr *frame) stack() string {
	var ss []string
	for f := fr; f != nil; f = f.parent {
		ss = append(ss, f.fn.RelString(nil))
	}
	return strings.Join(ss, " < ")
}

type CallCtx struct {
	in     *Interp
	fr     *frame
	fs     *fstate
	instr  ssa.CallInstruction
	common *ssa.CallCommon
	callee *ssa.Function // nil for an unresolved invoke
	method *types.Func   // for invoke
	args   []Val         // receiver first
	resT   *types.Tuple
}

// Interp is an abstract interpreter for SSA
type Interp struct {
	P        *Program
	Globals  map[string]Val
	Inline   func(fn *ssa.Function) bool
	Hook     func(c *CallCtx) (handled bool, exits []Exit)
	OnAssert func(fr *frame, fs *fstate, i *ssa.TypeAssert, x Val, r tri)
	OnNil    func(fr *frame, i ssa.Instruction, v Val)
	OnStore  func(fr *frame, i ssa.Instruction, addr Val, v Val)
	OnLoad   func(fr *frame, i ssa.Instruction, cell string, v Val)
	OnIndex  func(fr *frame, fs *fstate, i ssa.Instruction, x, idx Val)
	OnPanic  func(fr *frame, i *ssa.Panic, v Val)
	Unwind   bool // explicit panics unwind to the deferred functions
	Ordered  bool // traces are sequences rather than sets
	Coarse   bool
	Opaque   map[*ssa.Function]bool
	Entered  map[*ssa.Function]int
	MaxRec   int
	MaxDepth int
	Panics   []*PanicExit
	Steps    int
	Limit    int
	Overflow []string
	memoOn   func(fn *ssa.Function) bool
	Assigned map[string]types.Type
	names    map[string]string
	// Present tells if a named value is assumed to be non nil and non empty
	Present func(name string) bool
}

func newInterp(p *Program) *Interp {
	return &Interp{P: p, MaxRec: 2, MaxDepth: 40, Ordered: true, Limit: 40000000, Opaque: map[*ssa.Function]bool{},
		Entered: map[*ssa.Function]int{}, Inline: func(fn *ssa.Function) bool { return p.inRepo(fn) }}
}

// ---- per function information

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	phi    *ssa.Phi // induction variable that starts at the first element, nil when the loop is of another kind
	cond   *ssa.BinOp
	full   bool // the header is the only exit
}

type fnInfo struct {
	order  map[*ssa.BasicBlock]int
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
	loops  map[*ssa.BasicBlock]*loopInfo
	inLoop map[*ssa.BasicBlock][]*loopInfo
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := in.P.infos.Load(fn); ok {
		return fi.(*fnInfo)
	}
	fi := &fnInfo{order: map[*ssa.BasicBlock]int{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}, loops: map[*ssa.BasicBlock]*loopInfo{}, inLoop: map[*ssa.BasicBlock][]*loopInfo{}}
	fi.loops = naturalLoops(fn)
	for _, l := range fi.loops {
		for b := range l.body {
			fi.inLoop[b] = append(fi.inLoop[b], l)
		}
	}
	for _, ls := range fi.inLoop {
		sort.Slice(ls, func(i, j int) bool { return ls[i].header.Index < ls[j].header.Index })
	}
	// order: loop bodies come before what follows the loop
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		succs := append([]*ssa.BasicBlock{}, b.Succs...)
		sort.SliceStable(succs, func(i, j int) bool { return fi.common(b, succs[i]) < fi.common(b, succs[j]) })
		for _, s := range succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, b := range post {
		fi.order[b] = len(post) - i
	}
	// what deferred calls use is needed everywhere, any instruction can panic
	var deferred []ssa.Value
	for _, b := range fn.Blocks {
		for _, di := range b.Instrs {
			if d, ok := di.(*ssa.Defer); ok {
				for _, op := range d.Operands(nil) {
					if *op != nil && isReg(*op) {
						deferred = append(deferred, *op)
					}
				}
			}
		}
	}
	// liveness
	changed := true
	for _, b := range fn.Blocks {
		fi.live[b] = map[ssa.Value]bool{}
	}
	for changed {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			lv := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := -1
				for k, pr := range s.Preds {
					if pr == b {
						pi = k
					}
				}
				for v := range fi.live[s] {
					lv[v] = true
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(lv, ph)
				}
				for k, pr := range s.Preds {
					if pr != b {
						continue
					}
					_ = pi
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if isReg(ph.Edges[k]) {
							lv[ph.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					delete(lv, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					if v, ok := ins.(ssa.Value); ok {
						lv[v] = true // phis are defined on entry
					}
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && isReg(*op) {
						lv[*op] = true
					}
				}
				if ex, ok := ins.(*ssa.If); ok {
					for _, r := range refineOperands(ex.Cond, 0) {
						lv[r] = true
					}
				}
			}
			for _, v := range deferred {
				lv[v] = true
			}
			for v := range lv {
				if !fi.live[b][v] {
					fi.live[b][v] = true
					changed = true
				}
			}
		}
	}
	in.P.infos.Store(fn, fi)
	return fi
}

// registers that a refinement by the given condition can touch
func refineOperands(c ssa.Value, d int) []ssa.Value {
	if d > 3 {
		return nil
	}
	var out []ssa.Value
	add := func(v ssa.Value) {
		if isReg(v) {
			out = append(out, v)
			out = append(out, refineOperands(v, d+1)...)
		}
	}
	switch c := c.(type) {
	case *ssa.UnOp:
		add(c.X)
	case *ssa.BinOp:
		add(c.X)
		add(c.Y)
	case *ssa.Extract:
		add(c.Tuple)
	case *ssa.TypeAssert:
		add(c.X)
	case *ssa.Call:
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			add(c.Call.Args[0])
		}
	case *ssa.ChangeInterface:
		add(c.X)
	case *ssa.MakeInterface:
		add(c.X)
	case *ssa.ChangeType:
		add(c.X)
	}
	return out
}

func isReg(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return true
}

func (fi *fnInfo) common(a, b *ssa.BasicBlock) int {
	n := 0
	for _, l := range fi.inLoop[a] {
		if l.body[b] {
			n++
		}
	}
	return n
}

func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	for _, l := range loops {
		l.full = true
		for b := range l.body {
			if b == l.header {
				continue
			}
			for _, s := range b.Succs {
				if !l.body[s] {
					l.full = false
				}
			}
			if len(b.Succs) == 0 {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					l.full = false
				}
			}
		}
		iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.LSS || l.body[l.header.Succs[0]] == false || l.body[l.header.Succs[1]] {
			continue
		}
		base := bo.X
		first := int64(0)
		if add, ok := bo.X.(*ssa.BinOp); ok && add.Op == token.ADD && constOf(add.Y) == 1 {
			base = add.X
			first = -1
		}
		ph, ok := base.(*ssa.Phi)
		if !ok || ph.Block() != l.header {
			continue
		}
		good := true
		for i, e := range ph.Edges {
			if l.body[l.header.Preds[i]] {
				if first == -1 {
					if e != bo.X {
						good = false
					}
				} else {
					add, ok := e.(*ssa.BinOp)
					if !ok || add.Op != token.ADD || add.X != ph || constOf(add.Y) != 1 {
						good = false
					}
				}
			} else {
				c, ok := e.(*ssa.Const)
				if !ok || c.Value == nil || c.Int64() != first {
					good = false
				}
			}
		}
		if good {
			l.phi = ph
			l.cond = bo
		}
	}
	return loops
}

func constOf(v ssa.Value) int64 {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return c.Int64()
	}
	return -999
}

// ---- traces

func (in *Interp) event(s *State, ev string) {
	nt := make(map[string]bool, len(s.traces))
	for t := range s.traces {
		nt[in.addEvent(t, ev)] = true
	}
	if len(nt) > 600 {
		in.overflow("more than 600 traces")
		nt = map[string]bool{"...": true}
	}
	s.traces = nt
}

const evSep = "\x01"

func (in *Interp) addEvent(t, ev string) string {
	if t == "..." {
		return t
	}
	if t == "" {
		return ev
	}
	es := strings.Split(t, evSep)
	if !in.Ordered {
		for _, e := range es {
			if e == ev {
				return t
			}
		}
		es = append(es, ev)
		sort.Strings(es)
		return strings.Join(es, evSep)
	}
	es = append(es, ev)
	// collapse a repeated suffix
	for w := 1; w <= len(es)/2 && w <= 12; w++ {
		same := true
		for i := 0; i < w; i++ {
			if es[len(es)-1-i] != es[len(es)-1-i-w] {
				same = false
				break
			}
		}
		if same {
			es = es[:len(es)-w]
			break
		}
	}
	if len(es) > 200 {
		in.overflow("trace longer than 200 events")
		return "..."
	}
	return strings.Join(es, evSep)
}

func (in *Interp) overflow(s string) {
	for _, o := range in.Overflow {
		if o == s {
			return
		}
	}
	in.Overflow = append(in.Overflow, s)
}

func splitTrace(t string) []string {
	if t == "" {
		return nil
	}
	return strings.Split(t, evSep)
}

// ---- memory

func (in *Interp) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkConst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return mkConst(constant.MakeInt64(0), t)
		}
		return mkNil(t)
	case *types.Struct:
		fs := make([]Val, u.NumFields())
		for i := range fs {
			fs[i] = in.zero(u.Field(i).Type())
		}
		return one(&Atom{K: KStruct, T: t, Fields: fs})
	case *types.Array:
		return mkTop(t, nil)
	}
	return mkNil(t)
}

func isAllocCell(c string) bool { return strings.HasPrefix(c, "@") }

func (in *Interp) loadCell(s *State, cell string, t types.Type) Val {
	if v, ok := s.mem[cell]; ok {
		return v
	}
	if v, ok := in.Globals[cell]; ok {
		return v
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		fs := make([]Val, st.NumFields())
		for i := range fs {
			fs[i] = in.loadCell(s, cell+"."+st.Field(i).Name(), st.Field(i).Type())
		}
		return one(&Atom{K: KStruct, T: t, Fields: fs})
	}
	if isAllocCell(cell) {
		if strings.HasSuffix(cell, "[?]") || strings.HasSuffix(cell, "[*]") {
			return in.loadSummary(s, cell[:len(cell)-3], t)
		}
		if i := strings.LastIndexByte(cell, '['); i > 0 && strings.HasSuffix(cell, "]") {
			if v, ok := s.mem[cell[:i]+"[?]"]; ok {
				return join(v, in.zero(t))
			}
			if v, ok := s.mem[cell[:i]+"[*]"]; ok {
				return v
			}
		}
		return in.zero(t)
	}
	if strings.HasPrefix(cell, "g:"+modPath) && in.Globals != nil {
		return in.zero(t)
	}
	return in.named(s, cell, t, false, cell)
}

// named creates the value with the given name unless something more specific is known about it
func (in *Interp) named(s *State, name string, t types.Type, impure bool, roots ...string) Val {
	if in.Coarse {
		return one(&Atom{K: KSym, Name: "_", T: t, Impure: true})
	}
	if len(name) > 300 {
		return mkTop(t, roots)
	}
	if v, ok := s.facts[name]; ok {
		return v
	}
	a := &Atom{K: KSym, Name: name, T: t, Roots: roots, Impure: impure}
	if in.Present != nil && in.Present(name) {
		a.NonNil, a.NonEmpty = true, true
		if strings.HasPrefix(name, "IsNop(") {
			return mkBool(false)
		}
	}
	if impure && strings.HasPrefix(name, "~") {
		a.Impure = true
	}
	return one(a)
}

func (in *Interp) loadSummary(s *State, cell string, t types.Type) Val {
	var v Val
	for k, x := range s.mem {
		if strings.HasPrefix(k, cell+"[") {
			rest := k[len(cell)+1:]
			if i := strings.IndexByte(rest, ']'); i == len(rest)-1 {
				v = join(v, x)
			}
		}
	}
	if v.IsBottom() {
		if st, ok := t.Underlying().(*types.Struct); ok && len(s.mem) > 0 {
			// struct elements
			idx := map[string]bool{}
			for k := range s.mem {
				if strings.HasPrefix(k, cell+"[") {
					rest := k[len(cell)+1:]
					if i := strings.IndexByte(rest, ']'); i > 0 {
						idx[rest[:i]] = true
					}
				}
			}
			for ix := range idx {
				fs := make([]Val, st.NumFields())
				for i := range fs {
					fs[i] = in.loadCell(s, cell+"["+ix+"]."+st.Field(i).Name(), st.Field(i).Type())
				}
				v = join(v, one(&Atom{K: KStruct, T: t, Fields: fs}))
			}
		}
	}
	if v.IsBottom() {
		return in.zero(t)
	}
	return v
}

func (in *Interp) load(fr *frame, fs *fstate, i ssa.Instruction, addr Val, t types.Type) Val {
	var out Val
	for _, a := range addr.as {
		switch a.K {
		case KPtr:
			if len(a.Fields) == 1 {
				out = join(out, a.Fields[0])
				continue
			}
			v := in.loadCell(fs.State, a.Name, t)
			if in.OnLoad != nil {
				in.OnLoad(fr, i, a.Name, v)
			}
			out = join(out, v)
		case KSym:
			cell := a.Name + ".*"
			if _, ok := t.Underlying().(*types.Struct); ok {
				cell = a.Name
			}
			v := in.loadCell(fs.State, cell, t)
			if in.OnLoad != nil {
				in.OnLoad(fr, i, cell, v)
			}
			out = join(out, v)
		case KNil:
			if in.OnNil != nil {
				in.OnNil(fr, i, addr)
			}
		default:
			out = join(out, mkTop(t, unionRoots(a.Roots)))
		}
	}
	return out
}

func (in *Interp) storeCell(fs *fstate, cell string, v Val, t types.Type, weak bool) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			var fv Val
			for _, a := range v.as {
				switch {
				case a.K == KStruct && len(a.Fields) == st.NumFields():
					fv = join(fv, a.Fields[i])
				case a.K == KSym:
					fv = join(fv, in.named(fs.State, a.Name+"."+st.Field(i).Name(), st.Field(i).Type(), a.Impure, a.Roots...))
				default:
					fv = join(fv, mkTop(st.Field(i).Type(), a.Roots))
				}
			}
			in.storeCell(fs, cell+"."+st.Field(i).Name(), fv, st.Field(i).Type(), weak)
		}
		return
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		return
	}
	if weak || strings.Contains(cell, "#m") || strings.HasSuffix(cell, "[?]") || strings.HasSuffix(cell, "[*]") {
		if old, ok := fs.mem[cell]; ok {
			v = join(old, v)
		} else if !isAllocCell(cell) {
			v = join(in.loadCell(fs.State, cell, t), v)
		}
	}
	fs.mem[cell] = v
	fs.wr[cell] = true
	for r, c := range fs.alias {
		if c == cell {
			delete(fs.alias, r)
		}
	}
}

func (in *Interp) store(fr *frame, fs *fstate, i ssa.Instruction, addr, v Val, t types.Type) {
	if in.OnStore != nil {
		in.OnStore(fr, i, addr, v)
	}
	for _, a := range addr.as {
		switch a.K {
		case KPtr:
			if len(a.Fields) == 1 {
				continue
			}
			in.storeCell(fs, a.Name, v, t, len(addr.as) > 1)
		case KSym:
			if in.Coarse && a.Name == "_" {
				continue
			}
			cell := a.Name + ".*"
			if _, ok := t.Underlying().(*types.Struct); ok {
				cell = a.Name
			}
			in.storeCell(fs, cell, v, t, len(addr.as) > 1)
		case KNil:
			if in.OnNil != nil {
				in.OnNil(fr, i, addr)
			}
		}
	}
}

// deepRoots returns everything that a value depends on, including what it points to
func (in *Interp) deepRoots(s *State, v Val) []string {
	m := map[string]bool{}
	seen := map[string]bool{}
	var visit func(v Val, d int)
	visit = func(v Val, d int) {
		if d > 20 {
			return
		}
		for _, a := range v.as {
			for _, r := range a.Roots {
				m[r] = true
			}
			for _, sg := range a.Segs {
				visit(sg.V, d+1)
			}
			for _, f := range a.Fields {
				visit(f, d+1)
			}
			for _, f := range a.Binds {
				visit(f, d+1)
			}
			if (a.K == KPtr || a.K == KSeq) && a.Name != "" && !seen[a.Name] {
				seen[a.Name] = true
				for c, x := range s.mem {
					if c == a.Name || strings.HasPrefix(c, a.Name) && (c[len(a.Name)] == '.' || c[len(a.Name)] == '[' || c[len(a.Name)] == '$') {
						visit(x, d+1)
					}
				}
			}
		}
	}
	visit(v, 0)
	out := make([]string, 0, len(m))
	for r := range m {
		out = append(out, r)
	}
	sort.Strings(out)
	return out
}

func joinStates(in *Interp, a, b *State) (*State, bool) {
	changed := false
	for k, v := range b.mem {
		old, ok := a.mem[k]
		if !ok {
			if !isAllocCell(k) {
				if d, ok := in.defaultCell(a, k, v); ok {
					v = join(d, v)
				}
			}
			a.mem[k] = v
			changed = true
			continue
		}
		n := join(old, v)
		if !n.Eq(old) {
			a.mem[k] = n
			changed = true
		}
	}
	for k, v := range a.mem {
		if _, ok := b.mem[k]; !ok && !isAllocCell(k) {
			if d, ok := in.defaultCell(b, k, v); ok {
				n := join(d, v)
				if !n.Eq(v) {
					a.mem[k] = n
					changed = true
				}
			}
		}
	}
	for k, v := range a.facts {
		o, ok := b.facts[k]
		if !ok || !o.Eq(v) {
			delete(a.facts, k)
			changed = true
		}
	}
	for t := range b.traces {
		if !a.traces[t] {
			a.traces[t] = true
			changed = true
		}
	}
	if len(a.traces) > 600 {
		in.overflow("more than 600 traces")
		a.traces = map[string]bool{"...": true}
	}
	for w := range b.wr {
		if !a.wr[w] {
			a.wr[w] = true
			changed = true
		}
	}
	return a, changed
}

// defaultCell is the content of a cell in a state that has not written it
func (in *Interp) defaultCell(s *State, cell string, like Val) (Val, bool) {
	if v, ok := in.Globals[cell]; ok {
		return v, true
	}
	if t, ok := in.Assigned[cell]; ok {
		return in.loadCell(s, cell, t), true
	}
	var t types.Type
	for _, a := range like.as {
		t = a.T
	}
	if v, ok := s.facts[cell]; ok {
		return v, true
	}
	return mkTop(t, []string{cell}), true
}

func joinF(in *Interp, a, b *fstate, widen bool) bool {
	_, ch := joinStates(in, a.State, b.State)
	for k, v := range a.env {
		o, ok := b.env[k]
		if !ok {
			delete(a.env, k)
			ch = true
			continue
		}
		n := join(v, o)
		if !n.Eq(v) {
			if widen {
				n = mkTop(k.Type(), n.roots())
				if n.Eq(v) {
					continue
				}
			}
			a.env[k] = n
			ch = true
		}
	}
	for k, c := range a.alias {
		if b.alias[k] != c {
			delete(a.alias, k)
			ch = true
		}
	}
	if widen {
		for k, v := range a.mem {
			if len(v.as) > 12 && !in.Coarse {
				a.mem[k] = joinTop(v.as)
			}
		}
	}
	return ch
}

// ---- interpretation of one function

func (in *Interp) push(parent *frame, fn *ssa.Function, call ssa.Instruction) *frame {
	fr := &frame{fn: fn, parent: parent, call: call}
	if parent != nil {
		fr.depth = parent.depth + 1
		if !in.Coarse {
			fr.ctx = parent.ctx
			if call != nil {
				fr.ctx = shortCtx(parent.ctx+parent.iter, call)
			}
		}
	}
	fr.info = in.info(fn)
	return fr
}

var ctxIDs = map[string]string{}
var ctxLock sync.Mutex

func shortCtx(parent string, call ssa.Instruction) string {
	k := fmt.Sprintf("%s/%p", parent, call)
	ctxLock.Lock()
	defer ctxLock.Unlock()
	if id, ok := ctxIDs[k]; ok {
		return id
	}
	id := fmt.Sprintf("c%d", len(ctxIDs)+1)
	ctxIDs[k] = id
	return id
}

// Run interprets a function from the given state
func (in *Interp) Run(fn *ssa.Function, args []Val, st *State) []Exit {
	return in.call(nil, nil, fn, args, nil, st)
}

// RunAs interprets a function in a calling context of its own, so that what it allocates is not confused with what
// another run allocated
func (in *Interp) RunAs(ctx string, fn *ssa.Function, args []Val, st *State) []Exit {
	return in.call(&frame{fn: fn, ctx: ctx}, nil, fn, args, nil, st)
}

func (in *Interp) call(parent *frame, site ssa.Instruction, fn *ssa.Function, args, binds []Val, st *State) []Exit {
	in.Entered[fn]++
	if in.memoOn != nil && in.memoOn(fn) {
		return in.callMemo(parent, site, fn, args, binds, st)
	}
	return in.run(parent, site, fn, args, binds, st)
}

type pend struct {
	b   *ssa.BasicBlock
	key string
}

func (in *Interp) run(parent *frame, site ssa.Instruction, fn *ssa.Function, args, binds []Val, st *State) []Exit {
	fr := in.push(parent, fn, site)
	fr.binds = binds
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				fr.defers = append(fr.defers, d)
			}
		}
	}
	fs := &fstate{State: st.clone(), env: map[ssa.Value]Val{}, alias: map[ssa.Value]string{}}
	fs.wr = map[string]bool{}
	for i, p := range fn.Params {
		if i < len(args) {
			fs.env[p] = args[i]
		} else {
			fs.env[p] = mkTop(p.Type(), nil)
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fs.env[p] = binds[i]
		} else {
			fs.env[p] = mkTop(p.Type(), nil)
		}
	}
	ins := map[pend]*fstate{}
	count := map[pend]int{}
	parts := map[*ssa.BasicBlock]map[string]bool{}
	work := map[pend]bool{}
	var exits []Exit
	exitIdx := map[string]int{}
	flow := func(from, to *ssa.BasicBlock, s *fstate) {
		n := in.enter(fr, from, to, s)
		if n == nil {
			return
		}
		key := in.partKey(fr, to, n)
		if parts[to] == nil {
			parts[to] = map[string]bool{}
		}
		if !parts[to][key] {
			if len(parts[to]) >= 48 {
				key = "*"
			}
			parts[to][key] = true
		}
		p := pend{to, key}
		if old, ok := ins[p]; ok {
			count[p]++
			if joinF(in, old, n, count[p] > 40) {
				work[p] = true
			}
			if count[p] > 4000 {
				in.overflow("no fixpoint in " + fn.String())
				delete(work, p)
			}
		} else {
			ins[p] = n
			work[p] = true
		}
	}
	if len(fn.Blocks) == 0 {
		return nil
	}
	e := pend{fn.Blocks[0], ""}
	ins[e] = fs
	work[e] = true
	for len(work) > 0 {
		var best pend
		bi := 1 << 30
		for p := range work {
			o := fr.info.order[p.b]
			if o < bi || o == bi && p.key < best.key {
				bi, best = o, p
			}
		}
		delete(work, best)
		in.Steps++
		if in.Steps > in.Limit {
			fatalf("analysis of %s does not terminate within %d steps", fn, in.Limit)
		}
		for _, o := range in.block(fr, best.b, ins[best].clone()) {
			if o.ret != nil {
				key := retKey(o.ret.Results)
				if i, ok := exitIdx[key]; ok {
					ex := &exits[i]
					for k := range ex.Results {
						ex.Results[k] = join(ex.Results[k], o.ret.Results[k])
					}
					ex.St, _ = joinStates(in, ex.St, o.ret.St)
				} else {
					exitIdx[key] = len(exits)
					exits = append(exits, *o.ret)
				}
				continue
			}
			flow(best.b, o.to, o.s)
		}
	}
	for k := 0; k < len(fr.panics); k++ {
		for _, o := range in.unwind(fr, fr.panics[k]) {
			merged := false
			for j := range exits {
				ex := &exits[j]
				if ex.Panicking == o.Panicking && retKey(ex.Results) == retKey(o.Results) && (!o.Panicking || ex.Results[0].Eq(o.Results[0])) {
					for r := range ex.Results {
						ex.Results[r] = join(ex.Results[r], o.Results[r])
					}
					ex.St, _ = joinStates(in, ex.St, o.St)
					merged = true
					break
				}
			}
			if !merged {
				exits = append(exits, o)
			}
		}
	}
	// A loop can cause exits to be recorded more than once with smaller states, they are joined above.
	for i := range exits {
		for w := range st.wr {
			exits[i].St.wr[w] = true
		}
	}
	return exits
}

// exits are kept apart when their results are definite
// unwind runs the deferred functions of a frame
func (in *Interp) unwind(fr *frame, u unwinding) []Exit {
	if len(fr.defers) == 0 || fr.fn.Recover == nil {
		return []Exit{{Results: []Val{u.v}, St: u.fs.State, Panicking: true}}
	}
	var exits []Exit
	outer := fr.panics
	fr.panics = nil
	states := []*fstate{u.fs.clone()}
	states[0].mem[panicCell] = u.v
	for k := len(fr.defers) - 1; k >= 0; k-- {
		d := fr.defers[k]
		var next []*fstate
		for _, s := range states {
			next = append(next, in.doCall(fr, s, d, nil)...)
		}
		states = next
	}
	for _, s := range states {
		v := s.mem[panicCell]
		delete(s.mem, panicCell)
		if v.nilness() != yes {
			exits = append(exits, Exit{Results: []Val{u.v}, St: s.State, Panicking: true})
			continue
		}
		for _, o := range in.block(fr, fr.fn.Recover, s) {
			if o.ret != nil {
				exits = append(exits, *o.ret)
			}
		}
	}
	for _, x := range fr.panics {
		delete(x.fs.mem, panicCell)
		exits = append(exits, Exit{Results: []Val{x.v}, St: x.fs.State, Panicking: true})
	}
	fr.panics = outer
	return exits
}

func retKey(rs []Val) string {
	var b strings.Builder
	for _, r := range rs {
		b.WriteString(definite(r))
		b.WriteByte(';')
	}
	return b.String()
}

func definite(v Val) string {
	a := v.single()
	if a == nil {
		if v.nilness() == no {
			return "nn"
		}
		return "-"
	}
	switch a.K {
	case KConst:
		if a.C.Kind() == constant.Bool || a.C.Kind() == constant.Int {
			return a.C.ExactString()
		}
		return "nn"
	case KNil:
		return "nil"
	case KIdx:
		return fmt.Sprintf("i%v", a.Later)
	case KTuple:
		return retKey(a.Fields)
	}
	if a.nilness() == no {
		return "nn"
	}
	return "-"
}

func (in *Interp) partKey(fr *frame, b *ssa.BasicBlock, s *fstate) string {
	var ks []string
	for v := range fr.info.live[b] {
		switch v.(type) {
		case *ssa.Phi, *ssa.Call, *ssa.Extract:
		case *ssa.Range:
			if a := s.env[v].single(); a != nil && a.K == KTuple && len(a.Fields) == 2 {
				ks = append(ks, v.Name()+"="+a.Fields[1].String())
			}
			continue
		case *ssa.BinOp:
			if v.(*ssa.BinOp).Op != token.ADD {
				continue
			}
		default:
			continue
		}
		switch u := v.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&(types.IsBoolean|types.IsInteger) == 0 {
				continue
			}
		case *types.Interface, *types.Pointer, *types.Tuple:
		default:
			continue
		}
		x, ok := s.env[v]
		if !ok {
			continue
		}
		if d := definite(x); d != "-" {
			ks = append(ks, v.Name()+"="+d)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// enter computes the state at the start of a block for one incoming edge
func (in *Interp) enter(fr *frame, from, to *ssa.BasicBlock, s *fstate) *fstate {
	n := s
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	l := fr.info.loops[to]
	var phis []*ssa.Phi
	var vals []Val
	for _, i := range to.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		v := in.value(fr, s, ph.Edges[pi])
		if l != nil && l.phi == ph {
			bound := in.boundOf(fr, s, l.cond.Y, to)
			if _, isConst := bound.constInt(); !isConst {
				later := l.body[from]
				nm := "?"
				if a := bound.single(); a != nil && a.K == KSym {
					nm = a.Name
				}
				v = one(&Atom{K: KIdx, Name: nm, Later: later, Partial: !l.full, T: ph.Type()})
			}
		}
		phis = append(phis, ph)
		vals = append(vals, v)
	}
	n = s.clone()
	for i, ph := range phis {
		n.env[ph] = vals[i]
		delete(n.alias, ph)
		if isReg(ph.Edges[pi]) {
			if c, ok := s.alias[ph.Edges[pi]]; ok {
				n.alias[ph] = c
			}
		}
	}
	live := fr.info.live[to]
	for v := range n.env {
		if !live[v] {
			switch v.(type) {
			case *ssa.Parameter, *ssa.FreeVar:
			default:
				delete(n.env, v)
				delete(n.alias, v)
			}
		}
	}
	return n
}

// boundOf evaluates the bound of a loop condition, which can be computed in the header itself
func (in *Interp) boundOf(fr *frame, s *fstate, v ssa.Value, header *ssa.BasicBlock) Val {
	if c, ok := v.(*ssa.Call); ok && c.Block() == header {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			arg := c.Call.Args[0]
			var x Val
			if u, ok := arg.(*ssa.UnOp); ok && u.Block() == header && u.Op == token.MUL {
				var addr Val
				switch ax := u.X.(type) {
				case *ssa.FieldAddr:
					if ax.Block() == header {
						if _, ok := s.env[ax.X]; !ok && isReg(ax.X) {
							return mkTop(v.Type(), nil)
						}
						addr = in.fieldAddr(fr, s, ax, in.value(fr, s, ax.X), ax.Field)
					} else {
						addr = in.value(fr, s, ax)
					}
				default:
					if isReg(u.X) {
						if _, ok := s.env[u.X]; !ok {
							return mkTop(v.Type(), nil)
						}
					}
					addr = in.value(fr, s, u.X)
				}
				x = in.load(fr, s, u, addr, u.Type())
			} else {
				if isReg(arg) {
					if _, ok := s.env[arg]; !ok {
						return mkTop(v.Type(), nil)
					}
				}
				x = in.value(fr, s, arg)
			}
			return in.lenOf(s.State, x)
		}
		return mkTop(v.Type(), nil)
	}
	if isReg(v) {
		if _, ok := s.env[v]; !ok {
			return mkTop(v.Type(), nil)
		}
	}
	return in.value(fr, s, v)
}

type out struct {
	to  *ssa.BasicBlock
	s   *fstate
	ret *Exit
}

func (in *Interp) value(fr *frame, s *fstate, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return in.zero(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Global:
		return one(&Atom{K: KPtr, Name: "g:" + v.Pkg.Pkg.Path() + "." + v.Name(), T: v.Type()})
	case *ssa.Function:
		return one(&Atom{K: KFn, Fn: v, T: v.Type()})
	case *ssa.Builtin:
		return mkTop(v.Type(), nil)
	}
	if x, ok := s.env[v]; ok {
		return x
	}
	return mkTop(v.Type(), nil)
}

// block interprets one block and returns the outgoing states. Calls with several exits fork the state.
func (in *Interp) block(fr *frame, b *ssa.BasicBlock, s0 *fstate) []out {
	states := []*fstate{s0}
	for _, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			var outs []out
			for _, s := range states {
				c := in.value(fr, s, i.Cond)
				t := c.truth()
				if t != no {
					n := s.clone()
					if t == yes || in.refine(fr, n, i.Cond, true, 0) {
						outs = append(outs, out{to: b.Succs[0], s: n})
					}
				}
				if t != yes {
					n := s
					if t == no || in.refine(fr, n, i.Cond, false, 0) {
						outs = append(outs, out{to: b.Succs[1], s: n})
					}
				}
			}
			return outs
		case *ssa.Jump:
			var outs []out
			for _, s := range states {
				outs = append(outs, out{to: b.Succs[0], s: s})
			}
			return outs
		case *ssa.Return:
			var outs []out
			for _, s := range states {
				rs := make([]Val, len(i.Results))
				for k, r := range i.Results {
					rs[k] = in.value(fr, s, r)
				}
				outs = append(outs, out{ret: &Exit{Results: rs, St: s.State, Ret: i}})
			}
			return outs
		case *ssa.Panic:
			for _, s := range states {
				v := in.value(fr, s, i.X)
				if in.OnPanic != nil {
					in.OnPanic(fr, i, v)
				}
				if in.Unwind {
					fr.panics = append(fr.panics, unwinding{s, v})
					continue
				}
				in.Panics = append(in.Panics, &PanicExit{Instr: i, V: v, Traces: s.traces, Stack: fr.stack()})
			}
			return nil
		case *ssa.RunDefers:
			for k := len(fr.defers) - 1; k >= 0; k-- {
				d := fr.defers[k]
				var next []*fstate
				for _, s := range states {
					next = append(next, in.doCall(fr, s, d, nil)...)
				}
				states = next
			}
		case *ssa.Defer, *ssa.Go, *ssa.DebugRef:
			continue
		case *ssa.Call:
			var next []*fstate
			for _, s := range states {
				next = append(next, in.doCall(fr, s, i, i)...)
			}
			states = next
			if len(states) > 32 {
				x := states[0]
				for _, y := range states[1:] {
					joinF(in, x, y, false)
				}
				states = states[:1]
			}
			if len(states) == 0 {
				return nil
			}
		default:
			k := 0
			for _, s := range states {
				if in.instr(fr, s, ins) {
					states[k] = s
					k++
				}
			}
			states = states[:k]
			if k == 0 {
				return nil
			}
		}
	}
	return nil
}

func fieldName(t types.Type, i int) (string, types.Type) {
	t = t.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	st := t.(*types.Struct)
	return st.Field(i).Name(), st.Field(i).Type()
}

func (in *Interp) fieldAddr(fr *frame, s *fstate, i ssa.Instruction, x Val, field int) Val {
	fa := i.(*ssa.FieldAddr)
	name, ft := fieldName(fa.X.Type(), field)
	pt := types.NewPointer(ft)
	var as []*Atom
	for _, a := range x.as {
		switch a.K {
		case KPtr:
			if len(a.Fields) == 1 {
				fv := mkTop(ft, a.Fields[0].roots())
				if sa := a.Fields[0].single(); sa != nil {
					if sa.K == KStruct {
						fv = sa.Fields[field]
					} else if sa.K == KSym {
						fv = in.named(s.State, sa.Name+"."+name, ft, sa.Impure, sa.Name+"."+name)
					}
				}
				as = append(as, &Atom{K: KPtr, Name: "rv:" + fv.Key(), Fields: []Val{fv}, T: pt})
				continue
			}
			as = append(as, &Atom{K: KPtr, Name: a.Name + "." + name, T: pt, Roots: a.Roots})
		case KSym:
			as = append(as, &Atom{K: KPtr, Name: a.Name + "." + name, T: pt, Roots: a.Roots})
		case KNil:
			if in.OnNil != nil {
				in.OnNil(fr, i, x)
			}
		default:
			as = append(as, &Atom{K: KTop, T: pt, Roots: a.Roots})
		}
	}
	return mkVal(as)
}

// instr interprets an instruction that is neither a call nor the end of a block. It returns false
// when execution cannot continue.
func (in *Interp) instr(fr *frame, s *fstate, ins ssa.Instruction) bool {
	switch i := ins.(type) {
	case *ssa.Alloc:
		et := i.Type().Underlying().(*types.Pointer).Elem()
		if in.Coarse {
			if _, ok := et.Underlying().(*types.Struct); ok {
				s.env[i] = one(&Atom{K: KSym, Name: "_", T: i.Type(), NonNil: true, Impure: true})
				return true
			}
		}
		name := fmt.Sprintf("@%s:%s.%s%s", fr.ctx, fr.fn.Name(), i.Name(), in.iteration(fr, s, i.Block()))
		exists := false
		for c := range s.mem {
			if strings.HasPrefix(c, name) {
				rest := c[len(name):]
				if rest == "" || rest[0] == '.' || rest[0] == '[' || rest[0] == '#' || rest[0] == '$' {
					exists = true
					if rest == "" || rest[0] != '#' {
						if !in.escapes(i) {
							delete(s.mem, c)
							exists = false
							continue
						}
						mc := name + "#m" + rest
						s.mem[mc] = join(s.mem[mc], s.mem[c])
					}
				}
			}
		}
		if exists && in.escapes(i) {
			name += "#m"
		} else if st, ok := et.Underlying().(*types.Struct); !ok || st.NumFields() == 0 {
			if _, arr := et.Underlying().(*types.Array); !arr {
				s.mem[name] = in.zero(et)
			} else {
				s.mem[name+"$"] = mkNil(et)
			}
		} else {
			s.mem[name+"$"] = mkNil(et)
		}
		s.env[i] = one(&Atom{K: KPtr, Name: name, T: i.Type()})
	case *ssa.FieldAddr:
		v := in.fieldAddr(fr, s, i, in.value(fr, s, i.X), i.Field)
		if v.IsBottom() {
			return false
		}
		s.env[i] = v
	case *ssa.Field:
		x := in.value(fr, s, i.X)
		name, ft := fieldName(i.X.Type(), i.Field)
		var v Val
		for _, a := range x.as {
			switch a.K {
			case KStruct:
				v = join(v, a.Fields[i.Field])
			case KSym:
				v = join(v, in.named(s.State, a.Name+"."+name, ft, a.Impure, a.Name+"."+name))
			default:
				v = join(v, mkTop(ft, a.Roots))
			}
		}
		s.env[i] = v
	case *ssa.IndexAddr:
		x, idx := in.value(fr, s, i.X), in.value(fr, s, i.Index)
		if in.OnIndex != nil {
			in.OnIndex(fr, s, i, x, idx)
		}
		v := in.indexAddr(s, x, idx, i.Type())
		if v.IsBottom() {
			return false
		}
		s.env[i] = v
	case *ssa.Index:
		x, idx := in.value(fr, s, i.X), in.value(fr, s, i.Index)
		if in.OnIndex != nil {
			in.OnIndex(fr, s, i, x, idx)
		}
		s.env[i] = in.named(s.State, "index("+x.String()+","+idx.String()+")", i.Type(), false, unionRoots(x.roots(), idx.roots())...)
	case *ssa.Lookup:
		s.env[i] = in.lookup(fr, s, i)
	case *ssa.UnOp:
		x := in.value(fr, s, i.X)
		switch i.Op {
		case token.MUL:
			v := in.load(fr, s, i, x, i.Type())
			if v.IsBottom() {
				return false
			}
			s.env[i] = v
			if a := x.single(); a != nil && a.K == KPtr && len(a.Fields) == 0 {
				s.alias[i] = a.Name
			} else {
				delete(s.alias, i)
			}
		case token.NOT:
			s.env[i] = in.notVal(x)
		default:
			var as []*Atom
			for _, a := range x.as {
				if a.K == KConst {
					as = append(as, &Atom{K: KConst, C: constant.UnaryOp(i.Op, a.C, 0), T: i.Type()})
				} else {
					as = append(as, in.named(s.State, i.Op.String()+"("+a.String()+")", i.Type(), a.Impure, a.Roots...).as...)
				}
			}
			s.env[i] = mkVal(as)
		}
	case *ssa.BinOp:
		s.env[i] = in.binop(s.State, i.Op, in.value(fr, s, i.X), in.value(fr, s, i.Y), i.Type())
	case *ssa.ChangeType, *ssa.Convert, *ssa.MultiConvert:
		x := *ins.Operands(nil)[0]
		s.env[ins.(ssa.Value)] = in.convert(s.State, in.value(fr, s, x), ins.(ssa.Value).Type(), x.Type())
	case *ssa.ChangeInterface:
		s.env[i] = in.value(fr, s, i.X)
		if c, ok := s.alias[i.X]; ok {
			s.alias[i] = c
		} else {
			delete(s.alias, i)
		}
	case *ssa.MakeInterface:
		x := in.value(fr, s, i.X)
		as := make([]*Atom, len(x.as))
		for k, a := range x.as {
			n := *a
			n.key = ""
			if a.T == nil || a.K == KTop || a.K == KConst {
				n.T = i.X.Type()
			}
			if a.K == KNil {
				// an interface with a nil pointer in it
				n = Atom{K: KSym, Name: "nil:" + tkey(i.X.Type()), T: i.X.Type(), NonNil: true}
			}
			as[k] = &n
		}
		s.env[i] = mkVal(as)
	case *ssa.MakeClosure:
		bs := make([]Val, len(i.Bindings))
		for k, b := range i.Bindings {
			bs[k] = in.value(fr, s, b)
		}
		s.env[i] = one(&Atom{K: KFn, Fn: i.Fn.(*ssa.Function), Binds: bs, T: i.Type()})
	case *ssa.MakeMap:
		name := fmt.Sprintf("@%s:%s.%s%s", fr.ctx, fr.fn.Name(), i.Name(), in.iteration(fr, s, i.Block()))
		s.env[i] = one(&Atom{K: KPtr, Name: name, T: i.Type()})
	case *ssa.MakeSlice:
		n := in.value(fr, s, i.Len)
		if c, ok := n.constInt(); ok && c == 0 {
			s.env[i] = one(&Atom{K: KSeq, T: i.Type()})
		} else {
			name := fmt.Sprintf("@%s:%s.%s%s", fr.ctx, fr.fn.Name(), i.Name(), in.iteration(fr, s, i.Block()))
			s.env[i] = one(&Atom{K: KSeq, Name: name, T: i.Type(), Fields: []Val{n}})
		}
	case *ssa.MakeChan, *ssa.Range, *ssa.Select:
		x := Val{}
		if r, ok := ins.(*ssa.Range); ok {
			x = in.value(fr, s, r.X)
		}
		s.env[ins.(ssa.Value)] = mkTuple(x)
		if _, ok := x.constStr(); ok {
			s.env[ins.(ssa.Value)] = mkTuple(x, mkInt(0))
		}
	case *ssa.Next:
		it := in.value(fr, s, i.Iter)
		tt := i.Type().(*types.Tuple)
		var x Val
		if a := it.single(); a != nil && a.K == KTuple {
			x = a.Fields[0]
		}
		if str, ok := x.constStr(); ok && i.IsString {
			// the text is known, and so is the position
			pos, _ := it.as[0].Fields[1].constInt()
			if int(pos) >= len(str) {
				s.env[i] = mkTuple(mkBool(false), mkInt(0), mkConst(constant.MakeInt64(0), types.Typ[types.Rune]))
			} else {
				r, n := utf8.DecodeRuneInString(str[pos:])
				s.env[i] = mkTuple(mkBool(true), mkInt(pos), mkConst(constant.MakeInt64(int64(r)), types.Typ[types.Rune]))
				s.env[i.Iter] = mkTuple(x, mkInt(pos+int64(n)))
			}
			return true
		}
		kv, vv := mkTop(tt.At(1).Type(), x.roots()), mkTop(tt.At(2).Type(), x.roots())
		if a := x.single(); a != nil && !i.IsString && (a.K == KPtr || a.K == KSym) {
			var ks, vs Val
			for c, v := range in.mapCells(s.State, a.Name) {
				vs = join(vs, v)
				if c == "?" || strings.HasPrefix(c, "sym ") {
					ks = mkTop(tt.At(1).Type(), nil)
				} else {
					ks = join(ks, mkStr(c))
				}
			}
			if !vs.IsBottom() {
				vv = vs
				if b, ok := tt.At(1).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && !ks.IsBottom() {
					kv = ks
				}
			}
		}
		s.env[i] = mkTuple(mkTop(types.Typ[types.Bool], nil), kv, vv)
	case *ssa.Extract:
		x := in.value(fr, s, i.Tuple)
		if a := x.single(); a != nil && a.K == KTuple && i.Index < len(a.Fields) {
			s.env[i] = a.Fields[i.Index]
		} else {
			var v Val
			for _, a := range x.as {
				if a.K == KTuple && i.Index < len(a.Fields) {
					v = join(v, a.Fields[i.Index])
				} else {
					v = join(v, mkTop(i.Type(), a.Roots))
				}
			}
			s.env[i] = v
		}
	case *ssa.Slice:
		v := in.slice(fr, s, i)
		s.env[i] = v
	case *ssa.TypeAssert:
		return in.typeAssert(fr, s, i)
	case *ssa.Store:
		in.store(fr, s, i, in.value(fr, s, i.Addr), in.value(fr, s, i.Val), i.Val.Type())
	case *ssa.MapUpdate:
		m, k, v := in.value(fr, s, i.Map), in.value(fr, s, i.Key), in.value(fr, s, i.Value)
		if in.OnStore != nil {
			in.OnStore(fr, i, m, v)
		}
		for _, a := range m.as {
			if a.K == KPtr || a.K == KSym {
				cell := a.Name + "[?]"
				if c, ok := mapKey(k); ok {
					cell = a.Name + "[" + c + "]"
				}
				in.storeCell(s, cell, v, i.Value.Type(), len(m.as) > 1)
			}
		}
	case *ssa.Send:
	case *ssa.SliceToArrayPointer:
		s.env[i] = mkTop(i.Type(), nil)
	default:
		fatalf("the analysis does not handle instruction %T at %s", ins, in.P.pos(ins.Pos()))
	}
	return true
}

// mapKey is the cell name of a map key, if the key is a constant or a pure unknown that has a name
func constKey(a *Atom) string {
	if a.K == KNil {
		return "nil"
	}
	return a.C.ExactString()
}

func mapKey(k Val) (string, bool) {
	if a := k.single(); a != nil {
		switch {
		case a.K == KConst || a.K == KNil:
			return constKey(a), true
		case a.K == KSym && !a.Impure && !strings.Contains(a.Name, "[?]") && !strings.Contains(a.Name, "[*]"):
			return "sym " + a.Name, true
		}
	}
	return "", false
}

// escapes tells if an allocation can outlive an iteration of a loop
// iteration tells the iterations of loops apart when the number of an iteration is known
func (in *Interp) iteration(fr *frame, s *fstate, b *ssa.BasicBlock) string {
	if in.Coarse || len(fr.info.loops) == 0 {
		return ""
	}
	r := ""
	for _, l := range fr.info.inLoop[b] {
		if l.phi == nil {
			if nx, ok := l.header.Instrs[0].(*ssa.Next); ok {
				if a := s.env[nx.Iter].single(); a != nil && a.K == KTuple && len(a.Fields) == 2 {
					r += "~" + a.Fields[1].String()
				}
			}
			continue
		}
		if k, ok := s.env[l.phi].constInt(); ok {
			r += fmt.Sprintf("~%d", k)
			continue
		}
		for _, ref := range *l.phi.Referrers() {
			if a, ok := ref.(*ssa.BinOp); ok && a.Op == token.ADD && l.body[a.Block()] {
				if k, ok := s.env[a].constInt(); ok {
					r += fmt.Sprintf("~%d", k)
					break
				}
			}
		}
	}
	return r
}

func (in *Interp) escapes(a *ssa.Alloc) bool { return a.Heap }

func (in *Interp) mapCells(s *State, name string) map[string]Val {
	out := map[string]Val{}
	add := func(m map[string]Val) {
		for c, v := range m {
			if strings.HasPrefix(c, name+"[") && strings.HasSuffix(c, "]") {
				k := c[len(name)+1 : len(c)-1]
				if len(k) > 1 && k[0] == '"' {
					k = constant.StringVal(constant.MakeFromLiteral(k, token.STRING, 0))
				}
				out[k] = v
			}
		}
	}
	if in.Globals != nil {
		add(in.Globals)
	}
	add(s.mem)
	return out
}

func (in *Interp) lookup(fr *frame, s *fstate, i *ssa.Lookup) Val {
	x, k := in.value(fr, s, i.X), in.value(fr, s, i.Index)
	wrap := func(v Val, ok Val) Val {
		if i.CommaOk {
			return mkTuple(v, ok)
		}
		return v
	}
	mt, isMap := i.X.Type().Underlying().(*types.Map)
	if !isMap { // string index
		if in.OnIndex != nil {
			in.OnIndex(fr, s, i, x, k)
		}
		return in.named(s.State, "index("+x.String()+","+k.String()+")", i.Type(), false, unionRoots(x.roots(), k.roots())...)
	}
	anyBool := mkTop(types.Typ[types.Bool], nil)
	a := x.single()
	if a == nil || a.K != KPtr && a.K != KSym {
		if a != nil && a.K == KNil {
			return wrap(in.zero(mt.Elem()), mkBool(false))
		}
		return wrap(mkTop(mt.Elem(), unionRoots(x.roots(), k.roots())), anyBool)
	}
	known := a.K == KPtr && (isAllocCell(a.Name))
	cells := map[string]Val{}
	load := func(c string) (Val, bool) {
		if v, ok := s.mem[c]; ok {
			return v, true
		}
		v, ok := in.Globals[c]
		return v, ok
	}
	_, fuzzy := load(a.Name + "[?]")
	if known && !fuzzy {
		allConst := true
		for _, ka := range k.as {
			if ka.K != KConst && ka.K != KNil {
				allConst = false
			}
		}
		symKeys := false
		for c := range in.mapCells(s.State, a.Name) {
			if strings.HasPrefix(c, "sym ") {
				symKeys = true
			}
		}
		if allConst {
			var v, ok Val
			for _, ka := range k.as {
				if e, found := load(a.Name + "[" + constKey(ka) + "]"); found {
					v, ok = join(v, e), join(ok, mkBool(true))
				} else if symKeys {
					for _, e := range in.mapCells(s.State, a.Name) {
						v = join(v, e)
					}
					v, ok = join(v, in.zero(mt.Elem())), join(ok, anyBool)
				} else {
					v, ok = join(v, in.zero(mt.Elem())), join(ok, mkBool(false))
				}
			}
			return wrap(v, ok)
		}
		cells = in.mapCells(s.State, a.Name)
		if c, ok := mapKey(k); ok {
			if v, found := load(a.Name + "[" + c + "]"); found {
				return wrap(v, mkBool(true))
			}
		}
		if len(cells) == 0 {
			return wrap(in.zero(mt.Elem()), mkBool(false))
		}
		v := in.zero(mt.Elem())
		for _, e := range cells {
			v = join(v, e)
		}
		nm := "has(" + a.Name + "," + k.String() + ")"
		return wrap(v, in.named(s.State, nm, types.Typ[types.Bool], true, k.roots()...))
	}
	if known {
		v := in.zero(mt.Elem())
		for _, e := range in.mapCells(s.State, a.Name) {
			v = join(v, e)
		}
		return wrap(v, anyBool)
	}
	nm := "lookup(" + x.String() + "," + k.String() + ")"
	if len(k.as) == 1 && k.as[0].K == KConst {
		if v, ok := load(a.Name + "[" + k.as[0].C.ExactString() + "]"); ok {
			return wrap(v, mkBool(true))
		}
	}
	return wrap(in.named(s.State, nm, mt.Elem(), false, unionRoots(x.roots(), k.roots())...), in.named(s.State, "has("+nm+")", types.Typ[types.Bool], false, unionRoots(x.roots(), k.roots())...))
}

func (in *Interp) segsOf(s *State, a *Atom) []Seg {
	if a.Name == "" {
		return a.Segs
	}
	et := a.T.Underlying().(*types.Slice).Elem()
	if len(a.Fields) == 1 {
		if n, ok := a.Fields[0].constInt(); ok && n <= 64 {
			segs := make([]Seg, n)
			for k := range segs {
				segs[k] = Seg{V: in.loadCell(s, fmt.Sprintf("%s[%d]", a.Name, k), et)}
			}
			return segs
		}
	}
	return []Seg{{Spread: true, V: in.loadSummary(s, a.Name, et)}}
}

func (in *Interp) indexAddr(s *fstate, x, idx Val, pt types.Type) Val {
	var as []*Atom
	et := pt.Underlying().(*types.Pointer).Elem()
	ref := func(v Val) { as = append(as, &Atom{K: KPtr, Name: "rv:" + v.Key(), Fields: []Val{v}, T: pt}) }
	sub := func(name string, roots []string, seqName string) {
		for _, ia := range idx.as {
			switch {
			case ia.K == KConst:
				as = append(as, &Atom{K: KPtr, Name: name + "[" + ia.C.ExactString() + "]", T: pt, Roots: roots})
			case ia.K == KIdx && !ia.Partial && (ia.Name == "len("+name+")" || seqName != ""):
				as = append(as, &Atom{K: KPtr, Name: name + "[*]", T: pt, Roots: roots})
			default:
				as = append(as, &Atom{K: KPtr, Name: name + "[?]", T: pt, Roots: roots})
			}
		}
	}
	for _, a := range x.as {
		switch a.K {
		case KPtr:
			if len(a.Fields) == 1 {
				ref(mkTop(et, a.Fields[0].roots()))
				continue
			}
			sub(a.Name, a.Roots, "")
		case KSym:
			if in.Coarse {
				ref(in.named(s.State, "_", et, true))
				continue
			}
			sub(a.Name, a.Roots, "")
		case KSeq:
			if a.Name != "" {
				sub(a.Name, nil, "s")
				continue
			}
			if k, ok := idx.constInt(); ok {
				fixed := true
				for j, sg := range a.Segs {
					if sg.Spread {
						fixed = false
						break
					}
					if int64(j) == k {
						ref(sg.V)
						fixed = false
						k = -1
						break
					}
				}
				if k == -1 || fixed {
					continue
				}
			}
			var v Val
			for _, sg := range a.Segs {
				v = join(v, sg.V)
			}
			if !v.IsBottom() {
				ref(v)
			}
		case KNil:
		default:
			ref(mkTop(et, a.Roots))
		}
	}
	return mkVal(as)
}

func (in *Interp) slice(fr *frame, s *fstate, i *ssa.Slice) Val {
	x := in.value(fr, s, i.X)
	lo, hi := int64(0), int64(-1)
	loK, hiK := true, i.High == nil
	lon, hin := "", ""
	var rts []string
	if i.Low != nil {
		v := in.value(fr, s, i.Low)
		lo, loK = v.constInt()
		lon = v.String()
		rts = unionRoots(rts, v.roots())
	}
	if i.High != nil {
		v := in.value(fr, s, i.High)
		hi, hiK = v.constInt()
		hin = v.String()
		rts = unionRoots(rts, v.roots())
	}
	if in.OnIndex != nil {
		in.OnIndex(fr, s, i, x, Val{})
	}
	var as []*Atom
	for _, a := range x.as {
		switch a.K {
		case KPtr: // array
			if at, ok := a.T.Underlying().(*types.Pointer); ok {
				if arr, ok := at.Elem().Underlying().(*types.Array); ok && arr.Len() <= 200 && loK && hiK {
					n := arr.Len()
					if hi >= 0 && hi < n {
						n = hi
					}
					seq := &Atom{K: KSeq, T: i.Type()}
					for k := lo; k < n; k++ {
						seq.Segs = append(seq.Segs, Seg{V: in.loadCell(s.State, fmt.Sprintf("%s[%d]", a.Name, k), arr.Elem())})
					}
					as = append(as, seq)
					continue
				}
			}
			as = append(as, &Atom{K: KTop, T: i.Type()})
		case KSeq:
			segs := in.segsOf(s.State, a)
			fixed := true
			for _, sg := range segs {
				if sg.Spread {
					fixed = false
				}
			}
			if fixed && loK && hiK {
				n := int64(len(segs))
				if hi >= 0 && hi < n {
					n = hi
				}
				if lo <= n {
					as = append(as, &Atom{K: KSeq, T: i.Type(), Segs: segs[lo:n]})
				}
				continue
			}
			if lo == 0 && loK && i.High == nil {
				as = append(as, a)
				continue
			}
			var v Val
			for _, sg := range segs {
				v = join(v, sg.V)
			}
			as = append(as, &Atom{K: KSeq, T: i.Type(), Segs: []Seg{{Spread: true, V: v}}})
		case KConst:
			if a.C.Kind() == constant.String && loK && hiK {
				str := constant.StringVal(a.C)
				n := int64(len(str))
				if hi >= 0 {
					n = hi
				}
				if lo <= n && n <= int64(len(str)) {
					as = append(as, &Atom{K: KConst, C: constant.MakeString(str[lo:n]), T: i.Type()})
				}
				continue
			}
			as = append(as, in.named(s.State, fmt.Sprintf("slice(%s,%s,%s)", a, lon, hin), i.Type(), false, rts...).as...)
		case KSym:
			if loK && lo == 0 && i.High == nil {
				as = append(as, a)
				continue
			}
			as = append(as, in.named(s.State, fmt.Sprintf("slice(%s,%s,%s)", a.Name, lon, hin), i.Type(), a.Impure, unionRoots(a.Roots, rts)...).as...)
		case KNil:
			as = append(as, a)
		default:
			as = append(as, &Atom{K: KTop, T: i.Type(), Roots: unionRoots(a.Roots, rts)})
		}
	}
	return mkVal(as)
}

func (in *Interp) lenOf(s *State, x Val) Val {
	var as []*Atom
	it := types.Typ[types.Int]
	for _, a := range x.as {
		switch a.K {
		case KNil:
			as = append(as, mkInt(0).as...)
		case KConst:
			if a.C.Kind() == constant.String {
				as = append(as, mkInt(int64(len(constant.StringVal(a.C)))).as...)
				continue
			}
			as = append(as, &Atom{K: KTop, T: it})
		case KSeq:
			if a.Name != "" && len(a.Fields) == 1 {
				as = append(as, a.Fields[0].as...)
				continue
			}
			n := 0
			fixed := true
			for _, sg := range a.Segs {
				if sg.Spread {
					fixed = false
				} else {
					n++
				}
			}
			if fixed {
				as = append(as, mkInt(int64(n)).as...)
			} else {
				nm := "len(" + a.Key() + ")"
				if len(nm) > 200 {
					nm = "len(seq)"
				}
				as = append(as, &Atom{K: KSym, Name: nm, T: it, NonEmpty: n > 0, Impure: true, Roots: Val{[]*Atom{a}}.roots()})
			}
		case KSym:
			v := in.named(s, "len("+a.Name+")", it, a.Impure, a.Roots...)
			if a.NonEmpty {
				if va := v.single(); va != nil && va.K == KSym {
					n := *va
					n.key = ""
					n.NonEmpty = true
					v = one(&n)
				}
			}
			as = append(as, v.as...)
		case KPtr:
			if isAllocCell(a.Name) {
				as = append(as, &Atom{K: KSym, Name: "len(" + a.Name + ")", T: it, Impure: true})
				continue
			}
			as = append(as, &Atom{K: KTop, T: it})
		default:
			as = append(as, &Atom{K: KTop, T: it, Roots: a.Roots})
		}
	}
	return mkVal(as)
}

func (in *Interp) notVal(x Val) Val {
	var as []*Atom
	for _, a := range x.as {
		switch {
		case a.K == KConst && a.C.Kind() == constant.Bool:
			as = append(as, &Atom{K: KConst, C: constant.MakeBool(!constant.BoolVal(a.C)), T: a.T})
		case a.K == KSym:
			n := *a
			n.key = ""
			if strings.HasPrefix(a.Name, "!") {
				n.Name = a.Name[1:]
			} else {
				n.Name = "!" + a.Name
			}
			as = append(as, &n)
		default:
			as = append(as, a)
		}
	}
	return mkVal(as)
}

func (in *Interp) convert(s *State, x Val, to, from types.Type) Val {
	var as []*Atom
	for _, a := range x.as {
		n := *a
		n.key = ""
		switch a.K {
		case KConst:
			tb, ok := to.Underlying().(*types.Basic)
			if ok && tb.Info()&types.IsString != 0 && a.C.Kind() == constant.Int {
				k, _ := constant.Int64Val(a.C)
				n.C = constant.MakeString(string(rune(k)))
			} else if !ok {
				as = append(as, in.named(s, "conv:"+tkey(to)+"("+a.String()+")", to, false, a.String()).as...)
				continue
			}
			n.T = to
			as = append(as, &n)
		case KNil:
			n.T = to
			as = append(as, &n)
		case KSym:
			tb, ok1 := to.Underlying().(*types.Basic)
			fb, ok2 := from.Underlying().(*types.Basic)
			if types.Identical(to.Underlying(), from.Underlying()) || ok1 && ok2 && tb.Kind() == fb.Kind() {
				n.T = to
				as = append(as, &n)
				continue
			}
			as = append(as, in.named(s, "conv:"+tkey(to)+"("+a.Name+")", to, a.Impure, a.Roots...).as...)
		case KIdx:
			as = append(as, a)
		default:
			n.T = to
			as = append(as, &n)
		}
	}
	return mkVal(as)
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func (in *Interp) binop(s *State, op token.Token, x, y Val, t types.Type) Val {
	if len(x.as)*len(y.as) > 400 {
		return mkTop(t, unionRoots(x.roots(), y.roots()))
	}
	var as []*Atom
	for _, a := range x.as {
		for _, b := range y.as {
			as = append(as, in.binop1(s, op, a, b, t).as...)
		}
	}
	return mkVal(as)
}

func (in *Interp) binop1(s *State, op token.Token, a, b *Atom, t types.Type) Val {
	roots := unionRoots(Val{[]*Atom{a}}.roots(), Val{[]*Atom{b}}.roots())
	switch op {
	case token.EQL, token.NEQ:
		r := in.equal(a, b)
		if r == unknown {
			if a.K == KTop || b.K == KTop || in.Coarse {
				return mkTop(t, roots)
			}
			x, y := a.String(), b.String()
			if y < x {
				x, y = y, x
			}
			v := in.named(s, "eq("+x+","+y+")", t, a.Impure || b.Impure, roots...)
			if op == token.NEQ {
				return in.notVal(v)
			}
			return v
		}
		return mkBool((r == yes) == (op == token.EQL))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.K == KConst && b.K == KConst {
			return mkBool(constant.Compare(a.C, op, b.C))
		}
		// loop index against the length of the same slice
		if a.K == KIdx && (op == token.LSS) {
			if !a.Later {
				if b.NonEmpty {
					return mkBool(true)
				}
			}
			return mkTop(t, nil)
		}
		// something that is known to be positive, or is never negative
		for k := 0; k < 2; k++ {
			if b.K == KConst && b.C.Kind() == constant.Int && (a.NonEmpty || strings.HasPrefix(a.Name, "len(")) && a.K == KSym {
				c, _ := constant.Int64Val(b.C)
				min := int64(0)
				if a.NonEmpty {
					min = 1
				}
				switch op {
				case token.GTR:
					if min > c {
						return mkBool(true)
					}
				case token.GEQ:
					if min >= c {
						return mkBool(true)
					}
				case token.LSS:
					if min >= c {
						return mkBool(false)
					}
				case token.LEQ:
					if min > c {
						return mkBool(false)
					}
				}
				// normalise comparison with zero
				nm := ""
				neg := false
				switch {
				case op == token.GTR && c == 0 || op == token.GEQ && c == 1:
					nm, neg = "eq("+"0,"+a.String()+")", true
				case op == token.LSS && c == 1 || op == token.LEQ && c == 0:
					nm = "eq(" + "0," + a.String() + ")"
				}
				if nm != "" {
					v := in.named(s, nm, t, a.Impure, roots...)
					if neg {
						return in.notVal(v)
					}
					return v
				}
			}
			a, b = b, a
			op = flip(op)
		}
		if a.K == KTop || b.K == KTop || in.Coarse {
			return mkTop(t, roots)
		}
		x, y := a, b
		neg := false
		switch op {
		case token.GTR:
			x, y = b, a
		case token.GEQ:
			neg = true
		case token.LEQ:
			x, y = b, a
			neg = true
		}
		v := in.named(s, "lt("+x.String()+","+y.String()+")", t, a.Impure || b.Impure, roots...)
		if neg {
			return in.notVal(v)
		}
		return v
	}
	if a.K == KConst && b.K == KConst {
		switch op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(b.C); ok && n < 64 {
				return mkConst(constant.Shift(a.C, op, uint(n)), t)
			}
		case token.QUO, token.REM:
			if constant.Sign(b.C) == 0 {
				return Val{}
			}
			if a.C.Kind() == constant.Int && op == token.QUO {
				op = token.QUO_ASSIGN
			}
			return mkConst(constant.BinaryOp(a.C, op, b.C), t)
		default:
			return mkConst(constant.BinaryOp(a.C, op, b.C), t)
		}
	}
	if a.K == KIdx && op == token.ADD {
		return one(a)
	}
	if a.K == KTop || b.K == KTop || in.Coarse {
		return mkTop(t, roots)
	}
	x, y := a.String(), b.String()
	if op == token.ADD && y < x {
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString == 0 {
			x, y = y, x
		}
	}
	v := in.named(s, "("+x+op.String()+y+")", t, a.Impure || b.Impure, roots...)
	if op == token.ADD {
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 && (a.NonEmpty || b.NonEmpty || a.K == KConst && constant.StringVal(a.C) != "" || b.K == KConst && constant.StringVal(b.C) != "") {
			if va := v.single(); va != nil && va.K == KSym {
				n := *va
				n.key = ""
				n.NonEmpty = true
				return one(&n)
			}
		}
	}
	return v
}

func (in *Interp) equal(a, b *Atom) tri {
	if a.K == KNil || b.K == KNil {
		if a.K == KNil && b.K == KNil {
			return yes
		}
		o := a
		if a.K == KNil {
			o = b
		}
		return o.nilness()
	}
	if a.K == KConst && b.K == KConst {
		if a.C.Kind() != b.C.Kind() {
			return no
		}
		if a.T != nil && b.T != nil && !types.Identical(a.T, b.T) {
			// interfaces with different dynamic types
			an, bn := namedOf(a.T), namedOf(b.T)
			if (an == nil) != (bn == nil) {
				// typed and untyped constants are compared by value
				_ = an
			}
		}
		if constant.Compare(a.C, token.EQL, b.C) {
			return yes
		}
		return no
	}
	if a.K == KConst {
		a, b = b, a
	}
	if b.K == KConst {
		switch {
		case b.C.Kind() == constant.String && constant.StringVal(b.C) == "" && a.NonEmpty:
			return no
		case b.C.Kind() == constant.Int && a.NonEmpty:
			if k, ok := constant.Int64Val(b.C); ok && k <= 0 {
				return no
			}
		case a.K == KPtr || a.K == KSeq || a.K == KFn:
			return no
		}
		return unknown
	}
	if a.K == KPtr && b.K == KPtr {
		if len(a.Fields) > 0 || len(b.Fields) > 0 {
			return unknown
		}
		if a.Name == b.Name && !strings.Contains(a.Name, "#m") {
			return yes
		}
		if a.Name != b.Name {
			return no
		}
		return unknown
	}
	if a.K == KSym && b.K == KSym {
		if a.Name == b.Name && !a.Impure && !b.Impure && !strings.Contains(a.Name, "[*]") && !strings.Contains(a.Name, "[?]") {
			return yes
		}
		if a.T != nil && b.T != nil && !types.IsInterface(a.T) && !types.IsInterface(b.T) && !types.Identical(a.T, b.T) {
			return no
		}
	}
	if (a.K == KPtr && b.K == KSym || a.K == KSym && b.K == KPtr) && (isAllocCell(a.Name) || isAllocCell(b.Name)) {
		return no
	}
	return unknown
}

// ---- refinement by branch conditions

func (in *Interp) subst(s *fstate, a *Atom, with Val) {
	if a.K != KSym || a.Impure {
		return
	}
	k := a.Key()
	rep := func(v Val) (Val, bool) {
		hit := false
		for _, x := range v.as {
			if x.Key() == k {
				hit = true
			}
		}
		if !hit {
			return v, false
		}
		var as []*Atom
		for _, x := range v.as {
			if x.Key() == k {
				as = append(as, with.as...)
			} else {
				as = append(as, x)
			}
		}
		return mkVal(as), true
	}
	for r, v := range s.env {
		if n, ok := rep(v); ok {
			s.env[r] = n
		}
	}
	if strings.Contains(a.Name, "[*]") || strings.Contains(a.Name, "[?]") {
		return
	}
	for c, v := range s.mem {
		if n, ok := rep(v); ok {
			s.mem[c] = n
		}
	}
	s.facts[a.Name] = with
}

// set narrows the value of a register, and the cell that it was loaded from
func (in *Interp) set(fr *frame, s *fstate, r ssa.Value, v Val) bool {
	if v.IsBottom() {
		return false
	}
	if !isReg(r) {
		return true
	}
	old := in.value(fr, s, r)
	if a := old.single(); a != nil {
		in.subst(s, a, v)
	}
	s.env[r] = v
	if c, ok := s.alias[r]; ok {
		s.mem[c] = v
		for o, oc := range s.alias {
			if oc == c && o != r {
				s.env[o] = v
			}
		}
	}
	switch d := r.(type) {
	case *ssa.ChangeInterface:
		if _, ok := s.env[d.X]; ok {
			return in.set(fr, s, d.X, v)
		}
	case *ssa.MakeInterface:
		if _, ok := s.env[d.X]; ok && types.IsInterface(d.X.Type()) {
			return in.set(fr, s, d.X, v)
		}
	case *ssa.ChangeType:
	}
	return true
}

func (in *Interp) refine(fr *frame, s *fstate, c ssa.Value, truth bool, d int) bool {
	if d > 4 {
		return true
	}
	cv := in.value(fr, s, c)
	if a := cv.single(); a != nil && a.K == KSym && !a.Impure {
		base, tv := a, truth
		if strings.HasPrefix(a.Name, "!") {
			b := *a
			b.key = ""
			b.Name = a.Name[1:]
			base = &b
			tv = !truth
		}
		nb := *base
		nb.key = ""
		nb.Name = "!" + base.Name
		in.subst(s, base, mkBool(tv))
		in.subst(s, &nb, mkBool(!tv))
		delete(s.facts, nb.Name)
	} else {
		var keep []*Atom
		for _, a := range cv.as {
			if a.K == KConst && a.C.Kind() == constant.Bool && constant.BoolVal(a.C) != truth {
				continue
			}
			keep = append(keep, a)
		}
		if len(keep) == 0 {
			return false
		}
	}
	if isReg(c) {
		s.env[c] = mkBool(truth)
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return in.refine(fr, s, x.X, !truth, d+1)
		}
		if x.Op == token.MUL {
			return in.set(fr, s, c, mkBool(truth))
		}
	case *ssa.BinOp:
		return in.refineBin(fr, s, x, truth, d)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 && ta.CommaOk {
			return in.narrowAssert(fr, s, ta, truth)
		}
	}
	return true
}

func (in *Interp) narrowType(v Val, T types.Type, truth bool) Val {
	var as []*Atom
	for _, a := range v.as {
		r := in.P.hasType(a, T)
		switch {
		case r == yes && truth, r == no && !truth:
			as = append(as, a)
		case r == unknown:
			n := *a
			n.key = ""
			if truth {
				if a.K == KTop {
					n = Atom{K: KTop, T: T, Roots: a.Roots}
				} else if types.IsInterface(T) {
					// keep the more specific of the two
					if a.T != nil && types.IsInterface(a.T) && implements(a.T, T.Underlying().(*types.Interface)) {
						n.NonNil = true
					} else {
						n.T = T
						n.NonNil = true
					}
				} else {
					n.T = T
					n.NonNil = true
					n.Not = nil
				}
			} else if a.K == KSym {
				// when the interface is not nil, this removes the value
				n.Not = append(append([]types.Type{}, a.Not...), T)
				sort.Slice(n.Not, func(i, j int) bool { return tkey(n.Not[i]) < tkey(n.Not[j]) })
			}
			as = append(as, &n)
		}
	}
	return mkVal(as)
}

func (in *Interp) narrowAssert(fr *frame, s *fstate, ta *ssa.TypeAssert, truth bool) bool {
	x := in.value(fr, s, ta.X)
	nv := in.narrowType(x, ta.AssertedType, truth)
	if nv.IsBottom() {
		return false
	}
	if !in.set(fr, s, ta.X, nv) {
		return false
	}
	var res Val
	if truth {
		res = nv
	} else {
		res = in.zero(ta.AssertedType)
	}
	s.env[ta] = mkTuple(res, mkBool(truth))
	for _, r := range *ta.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			if _, def := s.env[e]; def {
				if e.Index == 0 {
					s.env[e] = res
				} else {
					s.env[e] = mkBool(truth)
				}
			}
		}
	}
	return true
}

func (in *Interp) typeAssert(fr *frame, s *fstate, i *ssa.TypeAssert) bool {
	x := in.value(fr, s, i.X)
	r := unknown
	for k, a := range x.as {
		t := in.P.hasType(a, i.AssertedType)
		if k == 0 {
			r = t
		} else if r != t {
			r = unknown
		}
	}
	if i.CommaOk {
		var res Val
		switch r {
		case yes:
			res = in.narrowType(x, i.AssertedType, true)
			s.env[i] = mkTuple(res, mkBool(true))
		case no:
			s.env[i] = mkTuple(in.zero(i.AssertedType), mkBool(false))
		default:
			res = join(in.narrowType(x, i.AssertedType, true), in.zero(i.AssertedType))
			okv := mkTop(types.Typ[types.Bool], x.roots())
			if a := x.single(); a != nil && a.K == KSym && !in.Coarse {
				okv = in.named(s.State, "is("+a.Name+","+tkey(i.AssertedType)+")", types.Typ[types.Bool], a.Impure, a.Roots...)
			}
			s.env[i] = mkTuple(res, okv)
		}
		return true
	}
	if in.OnAssert != nil {
		in.OnAssert(fr, s, i, x, r)
	}
	if r == no {
		return false
	}
	nv := in.narrowType(x, i.AssertedType, true)
	if nv.IsBottom() {
		return false
	}
	s.env[i] = nv
	if r == unknown {
		return in.set(fr, s, i.X, nv)
	}
	return true
}

func (in *Interp) refineBin(fr *frame, s *fstate, b *ssa.BinOp, truth bool, d int) bool {
	x, y := in.value(fr, s, b.X), in.value(fr, s, b.Y)
	switch b.Op {
	case token.EQL, token.NEQ:
		eq := (b.Op == token.EQL) == truth
		if a := y.single(); a != nil && (a.K == KConst || a.K == KNil) {
			if a.K == KConst && a.C.Kind() == constant.Bool {
				if !in.refine(fr, s, b.X, constant.BoolVal(a.C) == eq, d+1) {
					return false
				}
				return true
			}
			if !in.refineEq(fr, s, b.X, x, a, eq) {
				return false
			}
		} else if a := x.single(); a != nil && (a.K == KConst || a.K == KNil) {
			if !in.refineEq(fr, s, b.Y, y, a, eq) {
				return false
			}
		} else if eq && len(y.as) > 0 && len(x.as) > 0 {
			// keep what they have in common when both consist of constants
			allC := true
			for _, v := range []Val{x, y} {
				for _, a := range v.as {
					if a.K != KConst {
						allC = false
					}
				}
			}
			if allC {
				var as []*Atom
				for _, a := range x.as {
					for _, c := range y.as {
						if in.equal(a, c) == yes {
							as = append(as, a)
						}
					}
				}
				if len(as) == 0 {
					return false
				}
				n := mkVal(as)
				in.set(fr, s, b.X, n)
				in.set(fr, s, b.Y, n)
			}
		}
		return true
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if !in.refineCmp(fr, s, b.X, x, b.Op, y, truth) {
			return false
		}
		return in.refineCmp(fr, s, b.Y, y, flip(b.Op), x, truth)
	}
	return true
}

func (in *Interp) refineCmp(fr *frame, s *fstate, r ssa.Value, x Val, op token.Token, y Val, truth bool) bool {
	c := y.single()
	if c == nil || c.K != KConst || !isReg(r) {
		return true
	}
	var as []*Atom
	for _, a := range x.as {
		if a.K == KConst {
			if constant.Compare(a.C, op, c.C) != truth {
				continue
			}
		}
		as = append(as, a)
	}
	if len(as) == 0 {
		return false
	}
	if len(as) < len(x.as) {
		if !in.set(fr, s, r, mkVal(as)) {
			return false
		}
	}
	if k, ok := y.constInt(); ok {
		if call, ok := r.(*ssa.Call); ok {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				pos := truth && (op == token.GTR && k >= 0 || op == token.GEQ && k >= 1) || !truth && (op == token.LSS && k >= 1 || op == token.LEQ && k >= 0)
				zero := truth && (op == token.LSS && k == 1 || op == token.LEQ && k == 0) || !truth && (op == token.GTR && k == 0 || op == token.GEQ && k == 1)
				return in.refineLen(fr, s, call.Call.Args[0], pos, zero)
			}
		}
	}
	return true
}

func (in *Interp) refineLen(fr *frame, s *fstate, arg ssa.Value, pos, zero bool) bool {
	if !pos && !zero {
		return true
	}
	if _, ok := s.env[arg]; !ok {
		return true
	}
	x := in.value(fr, s, arg)
	var as []*Atom
	for _, a := range x.as {
		n := *a
		n.key = ""
		switch a.K {
		case KNil:
			if pos {
				continue
			}
		case KSeq:
			fixed := 0
			for _, sg := range a.Segs {
				if !sg.Spread {
					fixed++
				}
			}
			if a.Name == "" {
				if pos && len(a.Segs) == 0 || zero && fixed > 0 {
					continue
				}
			}
		case KSym:
			if pos {
				n.NonEmpty = true
			} else {
				if a.NonEmpty {
					continue
				}
				if _, ok := a.T.Underlying().(*types.Slice); ok {
					n = Atom{K: KSeq, T: a.T}
				} else if bt, ok := a.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
					n = Atom{K: KConst, C: constant.MakeString(""), T: a.T}
				}
			}
		}
		as = append(as, &n)
	}
	if len(as) == 0 {
		return false
	}
	return in.set(fr, s, arg, mkVal(as))
}

func (in *Interp) refineEq(fr *frame, s *fstate, r ssa.Value, x Val, c *Atom, eq bool) bool {
	if !isReg(r) {
		return true
	}
	var as []*Atom
	for _, a := range x.as {
		e := in.equal(a, c)
		if eq {
			switch e {
			case yes:
				as = append(as, a)
			case unknown:
				if a.K == KSym || a.K == KTop {
					if c.K == KNil {
						as = append(as, c)
					} else {
						n := *c
						n.key = ""
						as = append(as, &n)
					}
				} else {
					as = append(as, a)
				}
			}
		} else {
			switch e {
			case no:
				as = append(as, a)
			case unknown:
				n := *a
				n.key = ""
				if c.K == KNil && a.K == KSym {
					n.NonNil = true
				}
				if c.K == KConst && c.C.Kind() == constant.String && constant.StringVal(c.C) == "" && a.K == KSym {
					n.NonEmpty = true
				}
				if c.K == KConst && c.C.Kind() == constant.Int && a.K == KSym && constant.Sign(c.C) == 0 && strings.HasPrefix(a.Name, "len(") {
					n.NonEmpty = true
				}
				as = append(as, &n)
			}
		}
	}
	if len(as) == 0 {
		return false
	}
	nv := mkVal(as)
	if !nv.Eq(x) {
		if eq {
			// the name of the value is lost on purpose only in this register
			if a := x.single(); a != nil && a.K == KSym && !a.Impure {
				if !in.set(fr, s, r, nv) {
					return false
				}
			} else if !in.set(fr, s, r, nv) {
				return false
			}
		} else if !in.set(fr, s, r, nv) {
			return false
		}
	}
	if call, ok := r.(*ssa.Call); ok && c.K == KConst && c.C.Kind() == constant.Int && constant.Sign(c.C) == 0 {
		if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return in.refineLen(fr, s, call.Call.Args[0], !eq, eq)
		}
	}
	return true
}

// ---- calls

func (in *Interp) doCall(fr *frame, s *fstate, ci ssa.CallInstruction, reg *ssa.Call) []*fstate {
	com := ci.Common()
	fr.iter = in.iteration(fr, s, ci.Block())
	args := make([]Val, 0, len(com.Args)+1)
	setRes := func(n *fstate, rs []Val) {
		if reg == nil {
			return
		}
		switch len(rs) {
		case 0:
		case 1:
			n.env[reg] = rs[0]
		default:
			n.env[reg] = mkTuple(rs...)
		}
		delete(n.alias, reg)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		for _, a := range com.Args {
			args = append(args, in.value(fr, s, a))
		}
		v, cont := in.builtin(fr, s, ci, b, args)
		if !cont {
			return nil
		}
		if reg != nil {
			s.env[reg] = v
			delete(s.alias, reg)
		}
		return []*fstate{s}
	}
	finish := func(exits []Exit) []*fstate {
		var res []*fstate
		for k, e := range exits {
			n := s
			if k < len(exits)-1 {
				n = s.clone()
			}
			wr := map[string]bool{}
			for w := range n.wr {
				wr[w] = true
			}
			for w := range e.St.wr {
				wr[w] = true
			}
			for r, c := range n.alias {
				if e.St.wr[c] {
					delete(n.alias, r)
				}
			}
			n2 := &fstate{State: e.St.clone(), env: n.env, alias: n.alias}
			n2.wr = wr
			if e.Panicking {
				fr.panics = append(fr.panics, unwinding{n2.clone(), e.Results[0]})
				continue
			}
			setRes(n2, e.Results)
			res = append(res, n2)
		}
		return res
	}
	// facts narrowed inside the callee about names hold in the caller too
	resT := com.Signature().Results()
	var exits []Exit
	if com.IsInvoke() {
		recv := in.value(fr, s, com.Value)
		for _, a := range com.Args {
			args = append(args, in.value(fr, s, a))
		}
		var opaque []*Atom
		targets := map[*ssa.Function][]*Atom{}
		var order []*ssa.Function
		for _, a := range recv.as {
			switch {
			case a.K == KNil:
				if in.OnNil != nil {
					in.OnNil(fr, ci, recv)
				}
			case a.K == KTop || a.T == nil || types.IsInterface(a.T):
				opaque = append(opaque, a)
			default:
				m := in.P.Prog.LookupMethod(a.T, com.Method.Pkg(), com.Method.Name())
				if m == nil {
					opaque = append(opaque, a)
					continue
				}
				if targets[m] == nil {
					order = append(order, m)
				}
				targets[m] = append(targets[m], a)
			}
		}
		for _, m := range order {
			full := append([]Val{mkVal(targets[m])}, args...)
			exits = append(exits, in.dispatch(fr, s, ci, m, nil, full, resT)...)
		}
		if len(opaque) > 0 {
			full := append([]Val{mkVal(opaque)}, args...)
			c := &CallCtx{in: in, fr: fr, fs: s, instr: ci, common: com, method: com.Method, args: full, resT: resT}
			handled := false
			if in.Hook != nil {
				var ex []Exit
				handled, ex = in.Hook(c)
				exits = append(exits, ex...)
			}
			if !handled {
				exits = append(exits, in.opaque(s, com.Method.Name(), full, resT, false))
			}
		}
		return finish(exits)
	}
	for _, a := range com.Args {
		args = append(args, in.value(fr, s, a))
	}
	if f := com.StaticCallee(); f != nil {
		var binds []Val
		if _, ok := com.Value.(*ssa.MakeClosure); ok {
			if fv := in.value(fr, s, com.Value).single(); fv != nil {
				binds = fv.Binds
			}
		}
		return finish(in.dispatch(fr, s, ci, f, binds, args, resT))
	}
	fv := in.value(fr, s, com.Value)
	for _, a := range fv.as {
		switch a.K {
		case KFn:
			exits = append(exits, in.dispatch(fr, s, ci, a.Fn, a.Binds, args, resT)...)
		case KNil:
			if in.OnNil != nil {
				in.OnNil(fr, ci, fv)
			}
		default:
			c := &CallCtx{in: in, fr: fr, fs: s, instr: ci, common: com, args: append([]Val{one(a)}, args...), resT: resT}
			handled := false
			if in.Hook != nil {
				var ex []Exit
				handled, ex = in.Hook(c)
				exits = append(exits, ex...)
			}
			if !handled {
				exits = append(exits, in.opaque(s, "call", c.args, resT, true))
			}
		}
	}
	return finish(exits)
}

func (in *Interp) dispatch(fr *frame, s *fstate, ci ssa.CallInstruction, f *ssa.Function, binds, args []Val, resT *types.Tuple) []Exit {
	c := &CallCtx{in: in, fr: fr, fs: s, instr: ci, common: ci.Common(), callee: f, args: args, resT: resT}
	if in.Hook != nil {
		if ok, ex := in.Hook(c); ok {
			return ex
		}
	}
	if len(f.Blocks) > 0 && !in.Opaque[f] && (in.Inline(f) || f.Synthetic != "" && in.P.inRepo(f)) {
		n := 0
		for p := fr; p != nil; p = p.parent {
			if p.fn == f {
				n++
			}
		}
		if (n < in.MaxRec || in.memoOn != nil && in.memoOn(f)) && fr.depth < in.MaxDepth {
			return in.call(fr, ci, f, args, binds, s.State)
		}
	}
	if v, ok := in.fold(f, args); ok {
		return []Exit{{Results: []Val{v}, St: s.State.clone()}}
	}
	return []Exit{in.opaque(s, fnName(f), args, resT, !pureExternal(f))}
}

// regexpPattern returns the pattern of a value that stems from a regexp.MustCompile of a constant
func regexpPattern(v Val) (string, bool) {
	a := v.single()
	if a == nil || a.K != KSym || !strings.HasPrefix(a.Name, "regexp.MustCompile(") {
		return "", false
	}
	s, err := strconv.Unquote(a.Name[len("regexp.MustCompile(") : len(a.Name)-1])
	return s, err == nil
}

// fold evaluates calls to pure functions with constant arguments
func (in *Interp) fold(f *ssa.Function, args []Val) (Val, bool) {
	pk := fnPkg(f)
	if pk == nil {
		return Val{}, false
	}
	strs := make([]string, len(args))
	all := true
	for i, a := range args {
		s, ok := a.constStr()
		strs[i] = s
		all = all && ok
	}
	switch pk.Path() {
	case "strings":
		if !all {
			return Val{}, false
		}
		switch f.Name() {
		case "ToLower":
			return mkStr(strings.ToLower(strs[0])), true
		case "HasPrefix":
			return mkBool(strings.HasPrefix(strs[0], strs[1])), true
		case "HasSuffix":
			return mkBool(strings.HasSuffix(strs[0], strs[1])), true
		case "Contains":
			return mkBool(strings.Contains(strs[0], strs[1])), true
		case "TrimSuffix":
			return mkStr(strings.TrimSuffix(strs[0], strs[1])), true
		case "ToUpper":
			return mkStr(strings.ToUpper(strs[0])), true
		case "EqualFold":
			return mkBool(strings.EqualFold(strs[0], strs[1])), true
		}
	case "path/filepath", "path":
		if all && f.Name() == "Ext" {
			return mkStr(filepath.Ext(strs[0])), true
		}
	case "regexp":
		if f.Name() == "MatchString" && len(args) == 2 {
			if pt, ok := regexpPattern(args[0]); ok {
				if s, ok := args[1].constStr(); ok {
					if re, err := regexp.Compile(pt); err == nil {
						return mkBool(re.MatchString(s)), true
					}
				}
			}
		}
	}
	return Val{}, false
}

func fnName(f *ssa.Function) string {
	if f.Pkg != nil && f.Signature.Recv() == nil {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	return f.Name()
}

// functions of other packages that do not change their arguments, and whose result depends only on them
func pureExternal(f *ssa.Function) bool {
	pk := fnPkg(f)
	if pk == nil {
		return false
	}
	switch pk.Path() {
	case "strings", "strconv", "unicode", "unicode/utf8", "regexp", "math":
		return true
	case "fmt":
		return strings.HasPrefix(f.Name(), "Sprint")
	}
	return false
}

// opaque is the result of a call to a function that isn't interpreted
func (in *Interp) opaque(s *fstate, name string, args []Val, resT *types.Tuple, effects bool) Exit {
	st := s.State.clone()
	var roots []string
	var ns []string
	for _, a := range args {
		roots = unionRoots(roots, in.deepRoots(st, a))
		ns = append(ns, a.String())
	}
	if effects {
		for _, a := range args {
			for _, at := range a.as {
				if at.K == KPtr && len(at.Fields) == 0 {
					c := at.Name + "$ext"
					st.mem[c] = join(st.mem[c], mkTop(nil, roots))
				}
			}
		}
	}
	nm := name + "(" + strings.Join(ns, ",") + ")"
	var rs []Val
	n := resT.Len()
	for i := 0; i < n; i++ {
		rn := nm
		if n > 1 {
			rn = fmt.Sprintf("%s#%d", nm, i)
		}
		if effects {
			rn = "~" + rn
		}
		if len(roots) == 0 {
			roots = []string{rn}
		}
		rs = append(rs, in.named(st, rn, resT.At(i).Type(), effects, roots...))
	}
	return Exit{Results: rs, St: st}
}

func (in *Interp) builtin(fr *frame, s *fstate, ci ssa.CallInstruction, b *ssa.Builtin, args []Val) (Val, bool) {
	var t types.Type
	if v := ci.Value(); v != nil {
		t = v.Type()
	}
	switch b.Name() {
	case "len":
		return in.lenOf(s.State, args[0]), true
	case "cap":
		return mkTop(t, nil), true
	case "append":
		if in.OnStore != nil {
			in.OnStore(fr, ci, args[0], Val{})
		}
		if in.Coarse {
			return one(&Atom{K: KSym, Name: "_", T: t, NonNil: true, Impure: true}), true
		}
		return in.appendVal(s.State, args[0], args[1], t), true
	case "copy":
		if in.OnStore != nil {
			in.OnStore(fr, ci, args[0], args[1])
		}
		for _, a := range args[0].as {
			if a.K == KSeq && a.Name != "" {
				et := a.T.Underlying().(*types.Slice).Elem()
				for _, x := range args[1].as {
					switch x.K {
					case KSym:
						in.storeCell(s, a.Name+"[*]", in.named(s.State, x.Name+"[*]", et, false, x.Roots...), et, true)
					case KSeq:
						for _, sg := range in.segsOf(s.State, x) {
							in.storeCell(s, a.Name+"[*]", sg.V, et, true)
						}
					}
				}
			}
		}
		return mkTop(t, nil), true
	case "delete":
		if in.OnStore != nil {
			in.OnStore(fr, ci, args[0], Val{})
		}
		return Val{}, true
	case "recover":
		if v, ok := s.mem[panicCell]; ok {
			s.mem[panicCell] = mkNil(t)
			return v, true
		}
		return mkNil(t), true
	case "panic":
		return Val{}, false
	case "ssa:wrapnilchk":
		return args[0], true
	case "print", "println", "close":
		return Val{}, true
	case "min", "max":
		return mkTop(t, nil), true
	}
	if t == nil {
		return Val{}, true
	}
	return mkTop(t, nil), true
}

func (in *Interp) appendVal(s *State, x, y Val, t types.Type) Val {
	segs := func(a *Atom, et types.Type) ([]Seg, bool) {
		switch a.K {
		case KNil:
			return nil, true
		case KSeq:
			return in.segsOf(s, a), true
		case KSym:
			return []Seg{{Spread: true, V: in.named(s, a.Name+"[*]", et, a.Impure, a.Roots...)}}, true
		case KConst:
			return []Seg{{Spread: true, V: one(&Atom{K: KSym, Name: "byte of " + a.String(), T: et})}}, true
		}
		return []Seg{{Spread: true, V: mkTop(et, a.Roots)}}, true
	}
	et := t.Underlying().(*types.Slice).Elem()
	var as []*Atom
	if len(x.as)*len(y.as) > 64 {
		return mkTop(t, unionRoots(x.roots(), y.roots()))
	}
	for _, a := range x.as {
		for _, b := range y.as {
			sa, _ := segs(a, et)
			sb, _ := segs(b, et)
			n := append(append([]Seg{}, sa...), sb...)
			as = append(as, &Atom{K: KSeq, T: t, Segs: normSegs(n)})
		}
	}
	return mkVal(as)
}

// normSegs merges repetitions that stem from loops
func normSegs(n []Seg) []Seg {
	var out []Seg
	for _, sg := range n {
		if len(out) > 0 {
			l := out[len(out)-1]
			if l.V.Eq(sg.V) && (l.Spread || sg.Spread || mentionsElement(sg.V)) {
				out[len(out)-1] = Seg{Spread: true, V: l.V}
				continue
			}
		}
		out = append(out, sg)
	}
	if len(out) > 24 {
		var v Val
		for _, sg := range out {
			v = join(v, sg.V)
		}
		return []Seg{{Spread: true, V: v}}
	}
	return out
}

func mentionsElement(v Val) bool {
	for _, a := range v.as {
		if a.K == KConst || a.K == KNil {
			return false
		}
		if strings.Contains(a.Key(), "[*]") || strings.Contains(a.Key(), "[?]") || a.K == KPtr && strings.Contains(a.Name, "#m") || a.K == KTop {
			continue
		}
		return false
	}
	return len(v.as) > 0
}
