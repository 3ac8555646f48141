package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Issues: every code that is reported is registered, with a message whose placeholders have arguments at each place
// that reports it.

type codeVal struct {
	code string
	args ssa.Value
	in   ssa.Instruction // where the arguments are used
	ok   bool
}

type issueCheck struct {
	c       *Check
	callers map[*ssa.Function][]ssa.CallInstruction
	invokes map[string][]ssa.CallInstruction
	taken   map[*ssa.Function]bool // used as a value
}

func isIssueType(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "lyraproj/issue/issue")
}

func newIssueCheck(c *Check) *issueCheck {
	ic := &issueCheck{c, map[*ssa.Function][]ssa.CallInstruction{}, map[string][]ssa.CallInstruction{}, map[*ssa.Function]bool{}}
	for _, f := range c.P.SrcFuncs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var callee ssa.Value
				if ci, ok := i.(ssa.CallInstruction); ok {
					com := ci.Common()
					callee = com.Value
					if com.IsInvoke() {
						ic.invokes[com.Method.Name()] = append(ic.invokes[com.Method.Name()], ci)
					} else if sf := com.StaticCallee(); sf != nil {
						ic.callers[sf] = append(ic.callers[sf], ci)
					}
				}
				for _, op := range i.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok && *op != callee {
						ic.taken[fn] = true
					}
				}
			}
		}
	}
	return ic
}

// sites are the calls of a function, with all of its arguments, the receiver included
func (ic *issueCheck) sites(f *ssa.Function) (out [][]ssa.Value, at []ssa.Instruction) {
	for _, ci := range ic.callers[f] {
		out = append(out, ci.Common().Args)
		at = append(at, ci.(ssa.Instruction))
	}
	if rv := f.Signature.Recv(); rv != nil {
		for _, ci := range ic.invokes[f.Name()] {
			com := ci.Common()
			it, ok := com.Value.Type().Underlying().(*types.Interface)
			if ok && types.Implements(rv.Type(), it) {
				out = append(out, append([]ssa.Value{com.Value}, com.Args...))
				at = append(at, ci.(ssa.Instruction))
			}
		}
	}
	return
}

// pairs lists the codes with their arguments that reach a call
func (ic *issueCheck) pairs(code, args ssa.Value, at ssa.Instruction, depth int) []codeVal {
	if depth > 12 {
		return []codeVal{{args: args, in: at}}
	}
	switch x := code.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []codeVal{{code: constant.StringVal(x.Value), args: args, in: at, ok: true}}
		}
	case *ssa.ChangeType:
		return ic.pairs(x.X, args, at, depth+1)
	case *ssa.Convert:
		return ic.pairs(x.X, args, at, depth+1)
	case *ssa.Phi:
		var out []codeVal
		ap, both := args.(*ssa.Phi)
		both = both && ap.Block() == x.Block()
		for i, e := range x.Edges {
			a := args
			if both {
				a = ap.Edges[i]
			}
			if e != ssa.Value(x) {
				out = append(out, ic.pairs(e, a, at, depth+1)...)
			}
		}
		return out
	case *ssa.Parameter:
		f := x.Parent()
		if ic.taken[f] || f.Parent() != nil {
			break
		}
		idx := -1
		for i, p := range f.Params {
			if p == x {
				idx = i
			}
		}
		var out []codeVal
		calls, ats := ic.sites(f)
		for i, as := range calls {
			a, in := args, at
			if p, ok := args.(*ssa.Parameter); ok && p.Parent() == f {
				for j, q := range f.Params {
					if q == p {
						a, in = as[j], ats[i]
					}
				}
			}
			out = append(out, ic.pairs(as[idx], a, in, depth+1)...)
		}
		return out
	}
	return []codeVal{{args: args, in: at}}
}

// keys tells which keys a map of arguments has for certain, and which it may have; ok is false when that is not known
func (ic *issueCheck) keys(v ssa.Value, at ssa.Instruction, depth int) (must, may map[string]bool, ok bool) {
	if depth > 12 {
		return nil, nil, false
	}
	switch x := v.(type) {
	case *ssa.MakeMap:
		must, may, ok = map[string]bool{}, map[string]bool{}, true
		for _, r := range *x.Referrers() {
			switch u := r.(type) {
			case *ssa.MapUpdate:
				k, isC := u.Key.(*ssa.Const)
				if !isC || k.Value == nil {
					ok = false
					continue
				}
				s := constant.StringVal(k.Value)
				may[s] = true
				if at == nil || u.Block() != at.Block() && u.Block().Dominates(at.Block()) || u.Block() == at.Block() || u.Parent() != at.Parent() {
					must[s] = true
				}
			}
		}
		return
	case *ssa.ChangeType:
		return ic.keys(x.X, at, depth+1)
	case *ssa.Const: // nil
		return map[string]bool{}, map[string]bool{}, true
	case *ssa.UnOp:
		if g, isG := x.X.(*ssa.Global); isG && g.Name() == "NoArgs" {
			return map[string]bool{}, map[string]bool{}, true
		}
	case *ssa.Phi:
		may, ok = map[string]bool{}, true
		for _, e := range x.Edges {
			m, y, o := ic.keys(e, nil, depth+1)
			if !o {
				return nil, nil, false
			}
			for k := range y {
				may[k] = true
			}
			if must == nil {
				must = m
				continue
			}
			for k := range must {
				if !m[k] {
					delete(must, k)
				}
			}
		}
		return
	case *ssa.Call:
		f := x.Common().StaticCallee()
		if f == nil || !ic.c.P.inRepo(f) {
			break
		}
		may, ok = map[string]bool{}, true
		for _, b := range f.Blocks {
			r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !isR || len(r.Results) != 1 {
				continue
			}
			m, y, o := ic.keys(r.Results[0], r, depth+1)
			if !o {
				return nil, nil, false
			}
			for k := range y {
				may[k] = true
			}
			if must == nil {
				must = m
				continue
			}
			for k := range must {
				if !m[k] {
					delete(must, k)
				}
			}
		}
		return must, may, must != nil
	}
	return nil, nil, false
}

// placeholders of a message, and whether the message can be formatted
func placeholders(msg string) (names []string, err string) {
	for i := 0; i < len(msg); i++ {
		if msg[i] != '%' {
			continue
		}
		i++
		if i < len(msg) && msg[i] == '%' {
			continue
		}
		if i >= len(msg) || msg[i] != '{' && msg[i] != '<' {
			return nil, fmt.Sprintf("there is a %% without a name in %q", msg)
		}
		end := "}"
		if msg[i] == '<' {
			end = ">"
		}
		n := strings.Index(msg[i:], end)
		if n < 2 {
			return nil, fmt.Sprintf("a placeholder is empty or does not end in %q", msg)
		}
		names = append(names, msg[i+1:i+n])
		i += n
	}
	return
}

type registered struct {
	message string
	soft    bool
	formats map[string]string
}

// registeredIssues are the issues that the packages register when they are initialized
func registeredIssues(c *Check) map[string]*registered {
	m := newMachine(&mach{p: c.P})
	var g *ssa.Global
	for _, mem := range c.P.Issue.Members {
		if x, ok := mem.(*ssa.Global); ok {
			if mt, ok := x.Type().(*types.Pointer).Elem().Underlying().(*types.Map); ok && isIssueType(mt.Key(), "Code") {
				g = x
			}
		}
	}
	if g == nil {
		fatalf("the registered issues were not found")
	}
	mp, ok := (*m.global(g)).(*mmap)
	if !ok {
		fatalf("the registered issues are not known")
	}
	out := map[string]*registered{}
	for i, k := range mp.keys {
		if mp.dead != nil && mp.dead[i] {
			continue
		}
		st := (*mp.vals[i].(*mval)).(mstruct)
		r := &registered{formats: map[string]string{}}
		r.message = st[1].(string)
		r.soft = st[3].(bool)
		if fm, ok := st[2].(*mmap); ok && fm != nil {
			for j, fk := range fm.keys {
				name := "?"
				switch f := fm.vals[j].(type) {
				case *mclosure:
					name = f.fn.Name()
				case *ssa.Function:
					name = f.Name()
				}
				r.formats[fk.(string)] = name
			}
		}
		out[k.(string)] = r
	}
	return out
}

func checkIssues(c *Check) {
	reg := registeredIssues(c)
	got := map[string]string{}
	for code, r := range reg {
		kind := "error"
		if r.soft {
			kind = "may be demoted"
		}
		s := kind + ", " + r.message
		for _, k := range sortedStrs(r.formats) {
			s += ", " + k + " shown by " + r.formats[k]
		}
		got[code] = s
	}
	ic := newIssueCheck(c)
	// where issues are reported
	sites, unknown := 0, 0
	reported := map[string]bool{}
	for _, f := range c.P.SrcFuncs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil || callee.Pkg != c.P.Issue {
					continue
				}
				var code, args ssa.Value
				for k, p := range callee.Params {
					if isIssueType(p.Type(), "Code") {
						code = ci.Common().Args[k]
					}
					if isIssueType(p.Type(), "H") {
						args = ci.Common().Args[k]
					}
				}
				if code == nil || args == nil {
					continue
				}
				for _, cv := range ic.pairs(code, args, i, 0) {
					at := c.P.pos(cv.in.Pos())
					fn := fnName(cv.in.Parent())
					if !cv.ok {
						unknown++
						c.Notes = append(c.Notes, fmt.Sprintf("the code of the issue reported at %s is not known", at))
						continue
					}
					sites++
					reported[cv.code] = true
					r := reg[cv.code]
					if !c.obligation(r != nil, "registered", cv.code+" in "+fn, at, "the issue %s is reported but it is not registered: reporting it panics", cv.code) {
						continue
					}
					names, _ := placeholders(r.message)
					must, may, ok := ic.keys(cv.args, cv.in, 0)
					if !ok {
						unknown++
						c.Notes = append(c.Notes, fmt.Sprintf("the arguments of the issue reported at %s are not known", at))
						continue
					}
					for _, n := range names {
						if !must[n] && may[n] {
							c.Notes = append(c.Notes, fmt.Sprintf("the argument %s of the issue reported at %s may be missing", n, at))
							continue
						}
						c.obligation(must[n], "argument", cv.code+" "+n+" in "+fn, at, "the message of %s shows %%{%s}, which is not among the arguments given here (%s)", cv.code, n, strings.Join(sortedKeys(may), " "))
					}
				}
			}
		}
	}
	for _, code := range sortedKeysOf(got) {
		r := reg[code]
		names, err := placeholders(r.message)
		c.obligation(err == "", "message", code, "-", "%s", err)
		in := map[string]bool{}
		for _, n := range names {
			in[n] = true
		}
		for _, k := range sortedStrs(r.formats) {
			c.obligation(in[k], "formatter", code+" "+k, "-", "the issue has a formatter for %s, which its message does not show", k)
		}
	}
	c.count("places that report an issue", sites)
	c.count("places not decided", unknown)
	c.count("registered issues", len(reg))
	c.count("issues that are reported", len(reported))
	c.table("issues", got, nil)
	c.table("token_names", tokenNames(c), nil)
	if !c.generate {
		c.atLeast("places that report an issue", sites, 80)
	}
}

// tokenNames are the names by which messages show tokens
func tokenNames(c *Check) map[string]string {
	g := newGrammar(c.P)
	m := newMachine(&mach{p: c.P})
	out := map[string]string{}
	var maps []*mmap
	for _, mem := range c.P.Parser.Members {
		x, ok := mem.(*ssa.Global)
		if !ok {
			continue
		}
		mt, ok := x.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
		if !ok || shortT(mt.Key()) != "int" || shortT(mt.Elem()) != "string" {
			continue
		}
		if mp, ok := (*m.global(x)).(*mmap); ok {
			maps = append(maps, mp)
		}
	}
	if len(maps) != 1 {
		fatalf("the names of tokens were not found")
	}
	byVal := map[int64]string{}
	for i, k := range maps[0].keys {
		s, ok := maps[0].vals[i].(string)
		if !ok {
			fatalf("the name of a token is not a string")
		}
		byVal[k.(int64)] = s
	}
	for _, k := range g.kinds {
		if !k.num {
			n, ok := byVal[k.value]
			if !ok {
				n = "(no name)"
			}
			out[k.label] = n
		}
	}
	return out
}

func sortedStrs(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func init() {
	register("C07", "The packages' initializers are interpreted to find the registered issues. Every call that makes a reported issue is traced back to the constant codes and the argument maps that reach it, through parameters and "+
		"the callers of the functions in between. Each code must be registered and each placeholder of its message must be among the keys given there; the messages, the way their arguments are shown, whether they can be demoted and "+
		"the names of the tokens in messages are compared with a reviewed table.", checkIssues)
}
