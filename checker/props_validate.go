package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// registeredIssue is what one package initialiser registers
type registeredIssue struct {
	code, format string
	demotable    bool
	formatters   map[string]string
	pos          string
}

// issues interprets the package initialisers and returns the issues that they register
func (p *Program) issues() map[string]registeredIssue {
	reg := map[string]registeredIssue{}
	p.initGlobals(func(cc *CallCtx) (bool, []Exit) {
		if cc.callee == nil || fnPkg(cc.callee) != p.Issue.Pkg {
			return false, nil
		}
		n := cc.callee.Name()
		if n != "Hard" && n != "Hard2" && n != "Soft" && n != "Soft2" {
			return false, nil
		}
		ps := p.pos(cc.instr.Pos())
		code, ok := cc.args[0].constStr()
		fm, ok2 := cc.args[1].constStr()
		if !ok || !ok2 {
			fatalf("an issue is registered at %s with a code or message that is not constant", ps)
		}
		r := registeredIssue{code, fm, strings.HasPrefix(n, "Soft"), map[string]string{}, ps}
		if len(cc.args) > 2 {
			for _, a := range cc.args[2].as {
				for k, v := range cc.in.mapCells(cc.fs.State, a.Name) {
					r.formatters[strings.Trim(k, `"`)] = v.String()
				}
			}
		}
		if o, dup := reg[code]; dup && o.pos != ps {
			r.format += " (registered twice)"
		}
		reg[code] = r
		return true, []Exit{{Results: []Val{recvSym("issue:"+code, cc.resT.At(0).Type())}, St: cc.fs.State}}
	})
	return reg
}

type policyRun struct {
	label string
	ctor  string
	args  []Val
}

func policyRuns(c *Check) []policyRun {
	st := c.P.typ(c.P.Valid, "Strictness")
	k := func(i int64) Val { return mkConst(constant.MakeInt64(i), st) }
	return []policyRun{
		{"puppet off", "NewChecker", []Val{k(1)}},
		{"puppet warning", "NewChecker", []Val{k(3)}},
		{"puppet error", "NewChecker", []Val{k(4)}},
		{"tasks", "NewTasksChecker", nil},
		{"workflow", "NewWorkflowChecker", nil},
	}
}

// accept interprets Accept for one code and returns the severities that are reported
func (v *valRun) accept(st *State, code Val) (string, []Exit) {
	in := newInterp(v.p)
	in.Globals = v.g
	in.Ordered = true
	in.Hook = v.hook(in, nil)
	chk := v.chk.as[0]
	ac := v.p.method(chk.T, "Accept")
	if ac == nil {
		fatalf("the checker has no Accept method")
	}
	e := recvSym("E", v.p.typ(v.p.Parser, "Expression"))
	st = st.clone()
	st.traces = map[string]bool{"": true}
	v.runs++
	ex := in.RunAs(fmt.Sprintf("accept%d", v.runs), ac, []Val{v.chk, code, e, mkTop(ac.Signature.Params().At(2).Type(), []string{"args"})}, st)
	res := map[string]bool{}
	for _, x := range ex {
		for t := range x.St.traces {
			var s []string
			for _, ev := range splitTrace(t) {
				m := detailRe.FindStringSubmatch(strings.SplitN(ev, " ", 2)[1])
				s = append(s, m[1]+" at="+m[2])
			}
			if len(s) == 0 {
				s = []string{"ignored"}
			}
			res[strings.Join(s, " and ")] = true
		}
	}
	return strings.Join(sortedKeys(res), " or "), ex
}

func checkPolicy(c *Check) {
	p := c.P
	reg := p.issues()
	c.atLeast("registered issues", len(reg), 80)
	codeT := p.typ(p.Issue, "Code")
	var codes []string
	for k := range reg {
		codes = append(codes, k)
	}
	sort.Strings(codes)
	got := map[string]string{}
	for k, r := range reg {
		if r.demotable {
			got["issue "+k] = "soft"
		} else {
			got["issue "+k] = "hard"
		}
	}
	for _, pr := range policyRuns(c) {
		v := newValRun(c, pr.ctor, pr.args...)
		n := map[string]int{}
		by := map[string]string{}
		any, _ := v.anyIssues(v.base)
		for _, k := range codes {
			r, _ := v.accept(any, mkConst(constant.MakeString(k), codeT))
			by[k] = r
			n[r]++
			c.count("combinations of code and checker", 1)
		}
		best := ""
		for r, k := range n {
			if best == "" || k > n[best] {
				best = r
			}
		}
		got[pr.label+": *"] = best
		for k, r := range by {
			if r != best {
				got[pr.label+": "+k] = r
			}
		}
		v.demotion(c, pr.label, codes[0], codes[1], got)
		v.collecting(c, pr.label, codeT)
	}
	// the names of the levels
	stT := p.typ(p.Valid, "Strictness")
	for _, s := range []string{"", "off", "warning", "error", "OFF", "Warning", "ERROR", "ignore", "x"} {
		in := newInterp(p)
		ex := in.Run(p.fn(p.Valid, "Strict"), []Val{mkStr(s)}, newState())
		r := "panic"
		for i, x := range ex {
			if i == 0 {
				r = ""
			}
			r += x.Results[0].String()
		}
		got["level named "+fmt.Sprintf("%q", s)] = r
	}
	str := p.method(stT, "String")
	for i := int64(0); i <= 5; i++ {
		in := newInterp(p)
		ex := in.Run(str, []Val{mkConst(constant.MakeInt64(i), stT)}, newState())
		r := "panic"
		for j, x := range ex {
			if j == 0 {
				r = ""
			}
			r += x.Results[0].String()
		}
		got[fmt.Sprintf("name of level %d", i)] = r
	}
	c.table("severity", got, nil)
}

// demotion interprets Demote followed by Accept
func (v *valRun) demotion(c *Check, label, code, other string, got map[string]string) {
	p := v.p
	dm := p.method(v.chk.as[0].T, "Demote")
	if dm == nil {
		fatalf("the checker has no Demote method")
	}
	codeT := p.typ(p.Issue, "Code")
	sevT := p.typ(p.Issue, "Severity")
	for _, demotable := range []bool{true, false} {
		for sev := int64(0); sev <= 5; sev++ {
			in := newInterp(p)
			in.Globals = v.g
			in.Inline = func(f *ssaFunction) bool { return p.inRepo(f) || fnPkg(f) == p.Issue.Pkg }
			in.Hook = func(cc *CallCtx) (bool, []Exit) {
				if cc.callee != nil && cc.callee.Name() == "ForCode" {
					return true, []Exit{{Results: []Val{recvSym("theIssue", cc.resT.At(0).Type())}, St: cc.fs.State}}
				}
				if cc.method != nil && cc.method.Name() == "IsDemotable" {
					return true, []Exit{{Results: []Val{mkBool(demotable)}, St: cc.fs.State}}
				}
				return false, nil
			}
			c1, c2 := mkConst(constant.MakeString(code), codeT), mkConst(constant.MakeString(other), codeT)
			before, _ := v.accept(v.base, c2)
			ex := in.Run(dm, []Val{v.chk, c1, mkConst(constant.MakeInt64(sev), sevT)}, v.base.clone())
			r := ""
			for _, x := range ex {
				a, _ := v.accept(x.St, c1)
				b, _ := v.accept(x.St, c2)
				if b != before {
					a += " and another issue changes to " + b
				}
				r += a
			}
			if r == "" {
				r = "panic"
			}
			kind := "hard"
			if demotable {
				kind = "soft"
			}
			got[fmt.Sprintf("%s: demote %s issue to %d", label, kind, sev)] = r
		}
	}
}

// anyIssues returns the state of a validator that has collected an unknown list of issues
func (v *valRun) anyIssues(st *State) (*State, string) {
	in := newInterp(v.p)
	in.Globals = v.g
	m := v.p.method(v.chk.as[0].T, "Issues")
	ex := in.Run(m, []Val{recvSym("V", v.chk.as[0].T)}, newState())
	if len(ex) != 1 || ex[0].Results[0].single() == nil || !strings.HasPrefix(ex[0].Results[0].single().Name, "V.") {
		fatalf("the issues are not kept in the validator")
	}
	a := *ex[0].Results[0].single()
	cell := v.chk.as[0].Name + a.Name[1:]
	a.Name = "earlier"
	a.K = KSym
	st = st.clone()
	st.mem[cell] = one(&a)
	return st, a.Name
}

// collecting interprets a sequence of reports
func (v *valRun) collecting(c *Check, label string, codeT types.Type) {
	p := v.p
	t := v.chk.as[0].T
	issues := func(st *State) string {
		in := newInterp(p)
		in.Globals = v.g
		ex := in.Run(p.method(t, "Issues"), []Val{v.chk}, st.clone())
		r := map[string]bool{}
		for _, x := range ex {
			r[x.Results[0].String()] = true
		}
		return strings.Join(sortedKeys(r), " or ")
	}
	clear := func(st *State) *State {
		in := newInterp(p)
		in.Globals = v.g
		ex := in.Run(p.method(t, "Clear"), []Val{v.chk}, st.clone())
		if len(ex) != 1 {
			fatalf("Clear does not return")
		}
		return ex[0].St
	}
	st := clear(v.base)
	c.obligation(issues(st) == "[]" || issues(st) == "nil", "issues-after-clear", label, "-", "after Clear the issues are %s", issues(st))
	want := []string{}
	for _, k := range []string{"CODE_A", "CODE_B", "CODE_A"} {
		_, ex := v.accept(st, mkConst(constant.MakeString(k), codeT))
		if len(ex) != 1 {
			c.fail("issues-collected", label, "-", "Accept does not have one outcome for an issue that is not ignored")
			return
		}
		st = ex[0].St
		want = append(want, "reported:"+k)
		w := "[" + strings.Join(want, ", ") + "]"
		c.obligation(issues(st) == w, "issues-collected", label+" "+w, "-", "the issues are %s", issues(st))
	}
	// any issues before
	any, list := v.anyIssues(st)
	for _, sev := range []string{"CODE_A", "CODE_B"} {
		_, ex := v.accept(any, mkConst(constant.MakeString(sev), codeT))
		for _, x := range ex {
			w := "[" + list + "[*]..., reported:" + sev + "]"
			c.obligation(issues(x.St) == w, "issues-collected", label+" "+w, "-", "the issues are %s", issues(x.St))
		}
		c.obligation(len(ex) > 0, "issues-collected", label, "-", "Accept never returns")
	}
	st = clear(st)
	c.obligation(issues(st) == "[]" || issues(st) == "nil", "issues-after-clear", label+" (not empty)", "-", "after Clear the issues are %s", issues(st))
}

// checkValidate decides the order of a validation
func checkValidate(c *Check) {
	p := c.P
	vf := p.fn(p.Valid, "Validate")
	in := newInterp(p)
	in.Ordered = true
	vt := vf.Signature.Params().At(0).Type()
	v := recvSym("V", vt)
	// an argument that no repository type is known for
	e := recvSym("E", p.typ(p.Parser, "Expression"))
	depth := 0
	evName := func(x Val) string {
		if a := x.single(); a != nil && (a.K == KSeq && len(a.Segs) == 0 || a.K == KNil) {
			return "empty"
		}
		return x.String()
	}
	in.Hook = func(cc *CallCtx) (bool, []Exit) {
		if cc.method == nil {
			return false, nil
		}
		recv := cc.args[0].String()
		switch {
		case recv == "V":
			var as []string
			for _, a := range cc.args[1:] {
				as = append(as, evName(a))
			}
			in.event(cc.fs.State, cc.method.Name()+"("+strings.Join(as, ",")+")")
			var rs []Val
			for i := 0; i < cc.resT.Len(); i++ {
				rs = append(rs, recvSym("V."+cc.method.Name(), cc.resT.At(i).Type()))
			}
			return true, []Exit{{Results: rs, St: cc.fs.State}}
		case cc.method.Name() == "AllContents" && len(cc.args) == 3:
			in.event(cc.fs.State, "each of "+recv+" path="+evName(cc.args[1]))
			f := cc.args[2].single()
			if f == nil || f.K != KFn || depth > 0 {
				fatalf("the callback of AllContents is not known")
			}
			ps := f.Fn.Params
			depth++
			ex := in.call(cc.fr, cc.instr, f.Fn, []Val{mkSym("PATH", ps[len(ps)-2].Type(), "PATH"), recvSym("CHILD", ps[len(ps)-1].Type())}, f.Binds, cc.fs.State)
			depth--
			for _, x := range ex {
				in.event(x.St, "end")
			}
			return true, ex
		case cc.method.Name() == "Contents":
			fatalf("validation descends by other means than AllContents")
		}
		return false, nil
	}
	ex := in.Run(vf, []Val{v, e}, newState())
	n := 0
	for _, x := range ex {
		for t := range x.St.traces {
			n++
			evs := splitTrace(t)
			c.sample("%s", strings.Join(evs, "; "))
			validateTrace(c, evs)
		}
	}
	c.atLeast("traces of a validation", n, 1)

	// the convenience functions
	for _, f := range []struct{ name, ctor string }{{"ValidatePuppet", "NewChecker"}, {"ValidateTasks", "NewTasksChecker"}, {"ValidateWorkflow", "NewWorkflowChecker"}} {
		fn := p.fn(p.Valid, f.name)
		for _, level := range []int64{1, 3, 4} {
			in := newInterp(p)
			args := []Val{e}
			var cargs []Val
			if fn.Signature.Params().Len() > 1 {
				k := mkConst(constant.MakeInt64(level), fn.Signature.Params().At(1).Type())
				args = append(args, k)
				cargs = []Val{k}
			}
			bad := ""
			validated := 0
			in.Hook = func(cc *CallCtx) (bool, []Exit) {
				if cc.callee == vf {
					validated++
					if len(cc.args) != 2 || cc.args[1].String() != "E" {
						bad = "validates another expression"
					}
					// remember the state in which the validation starts
					in.event(cc.fs.State, "validate "+describeChecker(p, cc.fs.State, cc.args[0]))
					return true, []Exit{{St: cc.fs.State}}
				}
				return false, nil
			}
			vr := newValRun(c, f.ctor, cargs...)
			want := describeChecker(p, vr.base, vr.chk)
			ex := in.Run(fn, args, newState())
			if len(ex) == 0 {
				bad = "does not return"
			}
			for _, x := range ex {
				for t := range x.St.traces {
					if t != "validate "+want {
						bad = "does not validate exactly once with a new " + want + ": " + t
					}
				}
				if d := describeChecker(p, x.St, x.Results[0]); d != want {
					bad = "returns " + d
				}
			}
			c.obligation(bad == "", "validate-with", fmt.Sprintf("%s level %d", f.name, level), p.pos(fn.Pos()), "%s", bad)
		}
	}
	checkParserValidator(c)
}

// describeChecker renders the type of a checker and the severities that it holds
func describeChecker(p *Program, st *State, v Val) string {
	a := v.single()
	if a == nil {
		return v.String()
	}
	s := tkey(a.T)
	var cells []string
	for k, x := range st.mem {
		if strings.HasPrefix(k, a.Name+".") && strings.HasSuffix(k, ".severities") {
			for _, m := range x.as {
				in := &Interp{P: p}
				for key, sev := range in.mapCells(st, m.Name) {
					cells = append(cells, key+":"+sev.String())
				}
			}
		}
	}
	sort.Strings(cells)
	return s + "{" + strings.Join(cells, " ") + "}"
}

func validateTrace(c *Check, evs []string) {
	cleared := 0
	set := ""
	inEach := false
	root, child, each := 0, 0, 0
	report := func(ok bool, rule, msg string) {
		c.obligation(ok, rule, "validator.Validate", "-", "%s (trace: %s)", msg, strings.Join(evs, "; "))
	}
	for _, ev := range evs {
		switch {
		case ev == "Clear()":
			cleared++
			report(root == 0 && child == 0, "clear-first", "the issues are cleared after a validation")
		case strings.HasPrefix(ev, "setPathAndSubject("):
			set = strings.TrimSuffix(strings.TrimPrefix(ev, "setPathAndSubject("), ")")
		case ev == "Validate(E)":
			root++
			report(set == "empty,E", "root-subject", "the root is validated with path and subject "+set)
			report(cleared > 0, "clear-first", "the root is validated before the issues are cleared")
			report(each == 0 || !inEach, "root-first", "the root is validated within the iteration")
		case strings.HasPrefix(ev, "each of "):
			each++
			inEach = true
			report(ev == "each of E path=empty", "iterate-root", "the iteration is "+ev)
			report(cleared > 0, "clear-first", "the iteration starts before the issues are cleared")
			set = "?"
		case ev == "end":
			inEach = false
		case ev == "Validate(CHILD)":
			child++
			report(set == "PATH,CHILD", "child-subject", "a sub expression is validated with path and subject "+set)
			report(inEach, "child-subject", "a sub expression is validated outside of the iteration")
		default:
			report(false, "unexpected", "unexpected effect "+ev)
		}
	}
	report(root == 1, "root-once", fmt.Sprintf("the root is validated %d times", root))
	report(each == 1, "iterate-once", fmt.Sprintf("the expression is iterated %d times", each))
	report(child == 1, "child-once", fmt.Sprintf("a sub expression is validated %d times per visit", child))
	report(cleared >= 1, "clear-first", "the issues are never cleared")
}

// checkParserValidator decides what the combination of a parser and a validator returns
func checkParserValidator(c *Check) {
	p := c.P
	np := p.fn(p.Valid, "NewParserValidator")
	in := newInterp(p)
	psr := recvSym("PARSER", np.Signature.Params().At(0).Type())
	val := recvSym("VALIDATOR", np.Signature.Params().At(1).Type())
	ex := in.Run(np, []Val{psr, val}, newState())
	if len(ex) != 1 || ex[0].Results[0].single() == nil {
		fatalf("NewParserValidator does not return one known value")
	}
	obj := ex[0].Results[0]
	pm := p.method(obj.as[0].T, "Parse")
	vf := p.fn(p.Valid, "Validate")
	type scen struct {
		err    string // "", "issue", "other"
		issues int
		want   string
	}
	for _, s := range []scen{
		{"issue", 0, "parse(FILE,SOURCE,false) -> nil, result[ERR]"},
		{"other", 0, "parse(FILE,SOURCE,false) -> nil, result[error]"},
		{"", 0, "parse(FILE,SOURCE,false) validate(VALIDATOR,EXPR) -> EXPR, nil"},
		{"", 1, "parse(FILE,SOURCE,false) validate(VALIDATOR,EXPR) -> EXPR, result[ISSUES]"},
	} {
		in := newInterp(p)
		in.Hook = func(cc *CallCtx) (bool, []Exit) {
			st := cc.fs.State
			if cc.method != nil {
				switch {
				case cc.args[0].String() == "PARSER" && cc.method.Name() == "Parse":
					in.event(st, "parse("+strings.Join([]string{cc.args[1].String(), cc.args[2].String(), cc.args[3].String()}, ",")+")")
					et := cc.resT.At(1).Type()
					er := mkNil(et)
					ev := recvSym("EXPR", cc.resT.At(0).Type())
					switch s.err {
					case "issue":
						er = one(&Atom{K: KSym, Name: "ERR", T: p.typ(p.Issue, "Reported"), NonNil: true})
						ev = mkNil(cc.resT.At(0).Type())
					case "other":
						er = one(&Atom{K: KSym, Name: "ERR", T: et, NonNil: true, Not: []types.Type{p.typ(p.Issue, "Reported")}})
						ev = mkNil(cc.resT.At(0).Type())
					}
					return true, []Exit{{Results: []Val{ev, er}, St: st}}
				case cc.args[0].String() == "VALIDATOR" && cc.method.Name() == "Issues":
					if s.issues == 0 {
						return true, []Exit{{Results: []Val{one(&Atom{K: KSeq, T: cc.resT.At(0).Type()})}, St: st}}
					}
					return true, []Exit{{Results: []Val{one(&Atom{K: KSeq, T: cc.resT.At(0).Type(), Segs: []Seg{{V: recvSym("ISSUES", p.typ(p.Issue, "Reported"))}}})}, St: st}}
				}
				return false, nil
			}
			switch {
			case cc.callee == vf:
				in.event(st, "validate("+cc.args[0].String()+","+cc.args[1].String()+")")
				return true, []Exit{{St: st}}
			case cc.callee.Name() == "NewResult" && fnPkg(cc.callee) == p.Issue.Pkg:
				return true, []Exit{{Results: []Val{recvSym("result"+cc.args[0].String(), cc.resT.At(0).Type())}, St: st}}
			case cc.callee.Name() == "NewReported" && fnPkg(cc.callee) == p.Issue.Pkg:
				sv := cc.args[1].String()
				nm := "error"
				if sv != "4" {
					nm = "severity " + sv
				}
				return true, []Exit{{Results: []Val{recvSym(nm, cc.resT.At(0).Type())}, St: st}}
			}
			return false, nil
		}
		xs := in.Run(pm, []Val{obj, mkSym("FILE", types.Typ[types.String], "FILE"), mkSym("SOURCE", types.Typ[types.String], "SOURCE")}, ex[0].St)
		r := map[string]bool{}
		for _, x := range xs {
			for t := range x.St.traces {
				r[strings.Join(splitTrace(t), " ")+" -> "+x.Results[0].String()+", "+x.Results[1].String()] = true
			}
		}
		g := strings.Join(sortedKeys(r), " or ")
		c.obligation(g == s.want, "parser-validator", fmt.Sprintf("error=%q issues=%d", s.err, s.issues), p.pos(pm.Pos()), "expected %s, the source gives %s", s.want, g)
	}
}

// catalog: what makes entries of a catalog
var catalog = map[string]bool{"Application": true, "CapabilityMapping": true, "Class": true, "Collect": true, "Definition": true, "Node": true, "RelOp": true,
	"Resource": true, "ResourceDefaults": true, "ResourceOverride": true, "Site": true}

func checkTasks(c *Check) {
	lines := append(readLines("scenarios/validator.txt"), readLines("scenarios/names.txt")...)
	puppet := newVtree(c, "NewChecker", strictness(c, "StrictError"))
	_, want := puppet.run(puppet.tasks(), lines)
	got := map[string]string{}
	for _, r := range []struct{ label, ctor string }{{"tasks", "NewTasksChecker"}, {"workflow", "NewWorkflowChecker"}} {
		t := newVtree(c, r.ctor)
		_, have := t.run(t.tasks(), lines)
		ctors := map[string]string{}
		for _, x := range t.tasks() {
			ctors[x.label()] = x.ctor
		}
		for _, l := range lines {
			x, _ := parseSexp(l[strings.Index(l, "|-")+2:])
			ctors[l] = x.list[0].atom
		}
		for _, l := range sortedKeysStr(ctors) {
			n := ctors[l]
			if catalog[n] || n == "Step" {
				for k, v := range have[l] {
					got[r.label+" "+k] = v
					if catalog[n] {
						c.obligation(strings.Contains(v, "CATALOG_OPERATION_NOT_SUPPORTED@self"), "catalog", r.label+" "+k, "-", "the construct is not reported as an operation on the catalog: %s", v)
					}
				}
				continue
			}
			c.count("classes of trees", len(want[l]))
			var diff []string
			for k, v := range have[l] {
				if w, ok := want[l][k]; !ok || w != v {
					diff = append(diff, fmt.Sprintf("%s: the puppet checker gives %s, this checker gives %s", k, orWords(w), v))
				}
			}
			for k, w := range want[l] {
				if _, ok := have[l][k]; !ok {
					diff = append(diff, fmt.Sprintf("%s: the puppet checker gives %s, this checker makes other distinctions", k, w))
				}
			}
			sort.Strings(diff)
			d := ""
			if len(diff) > 0 {
				d = diff[0]
			}
			c.obligation(len(diff) == 0, "inherited-rule", r.label+" "+l, "-", "%d differences, the first: %s", len(diff), d)
		}
		c.count("paths through the rules", t.paths)
	}
	c.table("tasks", got, nil)
}

func orWords(s string) string {
	if s == "" {
		return "other classes"
	}
	return s
}

func init() {
	register("C12", "validator.Check is abstractly interpreted with the tasks and the workflow checker for every syntax kind, and for every nested construct "+
		"of the puppet rules. Catalog constructs must always be reported, other constructs never, and the puppet rules stay in force.", checkTasks)
	register("C13", "validator.Validate and its convenience functions are abstractly interpreted with an unknown validator and expression; the event trace must "+
		"clear first, then validate the root with an empty path, then each visited expression with its own path as subject.", checkValidate)
	register("C14", "The checkers are constructed for every strictness, then Accept is interpreted for every registered code, Demote for hard and soft "+
		"issues and every severity, Issues and Clear in sequence. The severities must equal the reviewed table.", checkPolicy)
}
