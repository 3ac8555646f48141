package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "main of the parse command is interpreted on all paths, for open options, file names, outcomes of parsing, numbers and severities of issues. The options that reach the parser, "+
		"the validator that is used, what is written to which stream and the exit status must be those that an independent description of the command gives.", checkCommand)
}

// cliExit is the end of the process
type cliExit struct{ code int64 }

type cliRun struct {
	c    *Check
	p    *Program
	m    *Machine
	vars []*symVar
	// the world
	flags          map[string]*mval
	flagT          map[string]string
	args           []mval
	file           string
	failure        string
	issues         []*dep
	stdout, stderr string
	calls          []string
	std            map[*mval]*string
}

// object makes an object of which only methods are known
func (r *cliRun) object(t types.Type, name string, answers map[string]func(args []mval) mval) *lnode {
	vars := &[]*symVar{}
	ctx := &nodeCtx{types: []types.Type{t}, labels: []string{name}, vars: vars, asked: map[string]bool{}}
	ctx.answer = func(m *Machine, n *lnode, method string) mnativeCall {
		f, ok := answers[method]
		if !ok {
			panic(munsupported{"method " + method + " of " + name})
		}
		return func(m *Machine, args []mval) mval { return f(args) }
	}
	return ctx.node(name, 0, 0, 0, 0)
}

// text gives what is printed for a value
func (r *cliRun) text(v mval) mval {
	switch x := v.(type) {
	case *lnode:
		for _, n := range []string{"Error", "String"} {
			if r.has(x, n) {
				return miface{types.Typ[types.String], x.method(r.m, n)(r.m, nil)}
			}
		}
	case *dep:
		return r.text(r.m.force(x))
	case miface:
		if x.t == nil {
			return x
		}
		if l, ok := x.v.(*lnode); ok {
			return r.text(l)
		}
		for _, n := range []string{"Error", "String"} {
			ms := r.p.Prog.MethodSets.MethodSet(x.t)
			for i := 0; i < ms.Len(); i++ {
				if f := ms.At(i).Obj().(*types.Func); f.Name() == n && f.Type().(*types.Signature).Params().Len() == 0 {
					return miface{types.Typ[types.String], r.m.call(r.p.Prog.MethodValue(ms.At(i)), nil, []mval{x.v})}
				}
			}
		}
	}
	return v
}

func (r *cliRun) has(n *lnode, method string) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(munsupported); !is {
				panic(e)
			}
			ok = false
		}
	}()
	return n.ctx.answer(r.m, n, method) != nil
}

func (r *cliRun) texts(v mval) []mval {
	l, _ := v.([]mval)
	out := make([]mval, len(l))
	for i, e := range l {
		out[i] = r.text(e)
	}
	return out
}

// write writes to a standard stream or something else
func (r *cliRun) write(w mval, s string) mval {
	if x, ok := w.(miface); ok {
		if c, ok := x.v.(*mval); ok {
			if o := r.std[c]; o != nil {
				*o += s
				return mtuple{int64(len(s)), miface{}}
			}
		}
	}
	return r.m.fprint(w, s)
}

func (r *cliRun) mocks() {
	m, p := r.m, r.p
	m.mock = map[*ssa.Function]func(m *Machine, args []mval) mval{}
	set := func(pkg, name string, f func(m *Machine, args []mval) mval) {
		sp := p.Prog.ImportedPackage(pkg)
		if sp == nil {
			return
		}
		if fn := sp.Func(name); fn != nil {
			m.mock[fn] = f
		}
	}
	define := func(t types.BasicKind) func(m *Machine, args []mval) mval {
		return func(m *Machine, args []mval) mval {
			n := m.str(args[0])
			c := new(mval)
			*c = args[1]
			r.flags[n] = c
			r.flagT[n] = types.Typ[t].String()
			return c
		}
	}
	defineVar := func(t types.BasicKind) func(m *Machine, args []mval) mval {
		return func(m *Machine, args []mval) mval {
			n := m.str(args[1])
			r.flags[n] = args[0].(*mval)
			*r.flags[n] = args[2]
			r.flagT[n] = types.Typ[t].String()
			return nil
		}
	}
	set("flag", "Bool", define(types.Bool))
	set("flag", "String", define(types.String))
	set("flag", "BoolVar", defineVar(types.Bool))
	set("flag", "StringVar", defineVar(types.String))
	set("flag", "Parse", func(m *Machine, args []mval) mval { return nil })
	set("flag", "Args", func(m *Machine, args []mval) mval { return append([]mval{}, r.args...) })
	set("flag", "NArg", func(m *Machine, args []mval) mval { return int64(len(r.args)) })
	set("flag", "Arg", func(m *Machine, args []mval) mval {
		if i := m.num(args[0]); i >= 0 && i < int64(len(r.args)) {
			return r.args[i]
		}
		return ""
	})
	set("flag", "PrintDefaults", func(m *Machine, args []mval) mval { r.stderr += "‹the options›\n"; return nil })
	set("os", "Exit", func(m *Machine, args []mval) mval { panic(cliExit{m.num(args[0])}) })
	read := func(m *Machine, args []mval) mval {
		s := "‹content of " + m.str(args[0]) + "›"
		return mtuple{m.convert(s, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte])), miface{}}
	}
	set("io/ioutil", "ReadFile", read)
	set("os", "ReadFile", read)
	sprint := func(as mval) string { return fmt.Sprint(m.goArgs(r.texts(as))...) }
	sprintln := func(as mval) string { return fmt.Sprintln(m.goArgs(r.texts(as))...) }
	sprintf := func(f, as mval) string { return m.str(m.sprintf(m.str(f), r.texts(as))) }
	n := func(s string) mval { return mtuple{int64(len(s)), miface{}} }
	set("fmt", "Print", func(m *Machine, a []mval) mval { s := sprint(a[0]); r.stdout += s; return n(s) })
	set("fmt", "Println", func(m *Machine, a []mval) mval { s := sprintln(a[0]); r.stdout += s; return n(s) })
	set("fmt", "Printf", func(m *Machine, a []mval) mval { s := sprintf(a[0], a[1]); r.stdout += s; return n(s) })
	set("fmt", "Fprint", func(m *Machine, a []mval) mval { return r.write(a[0], sprint(a[1])) })
	set("fmt", "Fprintln", func(m *Machine, a []mval) mval { return r.write(a[0], sprintln(a[1])) })
	set("fmt", "Fprintf", func(m *Machine, a []mval) mval { return r.write(a[0], sprintf(a[1], a[2])) })
	set("fmt", "Sprint", func(m *Machine, a []mval) mval { return sprint(a[0]) })
	set("fmt", "Sprintln", func(m *Machine, a []mval) mval { return sprintln(a[0]) })
	set("fmt", "Sprintf", func(m *Machine, a []mval) mval { return sprintf(a[0], a[1]) })
	set("io", "WriteString", func(m *Machine, a []mval) mval { return r.write(a[0], m.str(a[1])) })
	if sp := p.Prog.ImportedPackage("os"); sp != nil {
		r.std = map[*mval]*string{}
		ft := types.NewPointer(sp.Type("File").Type())
		for name, to := range map[string]*string{"Stdout": &r.stdout, "Stderr": &r.stderr} {
			c := new(mval)
			*c = m.zero(sp.Type("File").Type())
			r.std[c] = to
			*m.global(sp.Var(name)) = c
		}
		if f := p.findMethod(ft, sp.Pkg, "WriteString"); f != nil {
			m.mock[f] = func(m *Machine, a []mval) mval { return r.write(miface{ft, a[0]}, m.str(a[1])) }
		}
		if f := p.findMethod(ft, sp.Pkg, "Write"); f != nil {
			m.mock[f] = func(m *Machine, a []mval) mval {
				return r.write(miface{ft, a[0]}, m.str(m.convert(a[1], types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String])))
			}
		}
	}
	if f := p.fn(p.JSON, "ToJson"); f != nil {
		m.mock[f] = func(m *Machine, a []mval) mval {
			r.write(a[1], "‹json "+r.json(a[0], 0)+"›\n")
			return nil
		}
	}
	m.mock[p.fn(p.PN, "ReportedToPN")] = func(m *Machine, a []mval) mval { return r.pn(r.show(a[0])) }
	m.mock[p.fn(p.Parser, "CreateParser")] = func(m *Machine, a []mval) mval {
		var os []string
		l, _ := a[0].([]mval)
		seen := map[string]bool{}
		for _, o := range l {
			if s := r.option(o); !seen[s] {
				seen[s] = true
				os = append(os, s)
			}
		}
		sort.Strings(os)
		with := "parser with [" + strings.Join(os, " ") + "]"
		return r.object(types.NewPointer(types.NewStruct(nil, nil)), with, map[string]func(args []mval) mval{
			"Parse": func(args []mval) mval {
				r.calls = append(r.calls, fmt.Sprintf("%s %q %q %s", with, m.str(args[0]), m.str(args[1]), r.show(m.force(args[2]))))
				switch r.failure {
				case "issue":
					return mtuple{miface{}, r.issue(-1)}
				case "error":
					return mtuple{miface{}, r.object(types.NewPointer(p.Prog.ImportedPackage("errors").Type("errorString").Type()), "the error", map[string]func(args []mval) mval{
						"Error": func([]mval) mval { return "‹the error›" },
					})}
				}
				return mtuple{r.object(types.NewPointer(p.typ(p.Parser, "Program")), "expr", map[string]func(args []mval) mval{
					"ToPN": func([]mval) mval { return r.pn("expr") },
				}), miface{}}
			},
		})
	}
	for _, mem := range p.Valid.Members {
		f, ok := mem.(*ssa.Function)
		if !ok || f.Signature.Recv() != nil || !strings.HasPrefix(f.Name(), "Validate") || f.Blocks == nil {
			continue
		}
		m.mock[f] = func(m *Machine, a []mval) mval {
			var s []string
			for _, x := range a {
				s = append(s, r.show(x))
			}
			r.calls = append(r.calls, f.Name()+" "+strings.Join(s, " "))
			return r.object(types.NewPointer(p.typ(p.Valid, "basicChecker")), "validator", map[string]func(args []mval) mval{
				"Issues": func([]mval) mval {
					l := make([]mval, 0, len(r.issues))
					for i := range r.issues {
						l = append(l, r.issue(i))
					}
					return l
				},
			})
		}
	}
}

func (r *cliRun) option(v mval) string {
	sc := r.p.Parser.Pkg.Scope()
	s := r.show(r.m.force(v))
	for _, n := range []string{"EppMode", "HandleBacktickStrings", "HandleHexEscapes", "TasksEnabled", "WorkflowEnabled"} {
		if c, ok := sc.Lookup(n).(*types.Const); ok && c.Val().ExactString() == s {
			return n
		}
	}
	return s
}

func (r *cliRun) show(v mval) string {
	switch x := v.(type) {
	case *lnode:
		return x.name
	case miface:
		if x.t == nil {
			return "nil"
		}
		return r.show(x.v)
	case *dep:
		return r.show(r.m.force(x))
	case string:
		return strconv.Quote(x)
	}
	return fmt.Sprint(v)
}

func (r *cliRun) issue(i int) mval {
	name := "issue " + itoa(i)
	if i < 0 {
		name = "the issue"
	}
	text := func([]mval) mval { return "‹" + name + "›" }
	rt := r.p.typ(r.p.Issue, "reported")
	return r.object(types.NewPointer(rt), name, map[string]func(args []mval) mval{
		"Error": text, "String": text,
		"Severity": func([]mval) mval {
			if i < 0 {
				return int64(4)
			}
			return r.issues[i]
		},
	})
}

func (r *cliRun) pn(of string) mval {
	text := "‹PN of " + of + "›"
	return r.object(types.NewPointer(types.NewStruct(nil, nil)), "PN of "+of, map[string]func(args []mval) mval{
		"ToData": func([]mval) mval {
			return r.object(types.NewPointer(types.NewStruct(nil, nil)), "data of "+of, map[string]func(args []mval) mval{})
		},
		"String": func([]mval) mval { return text },
		"Format": func(args []mval) mval {
			r.write(miface{types.NewPointer(r.p.bufferType()), args[0]}, text)
			return nil
		},
	})
}

// json renders what is written as JSON
func (r *cliRun) json(v mval, depth int) string {
	switch x := v.(type) {
	case miface:
		if x.t == nil {
			return "null"
		}
		return r.json(x.v, depth+1)
	case []mval:
		var s []string
		for _, e := range x {
			s = append(s, r.json(e, depth+1))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *mmap:
		var s []string
		if x == nil {
			return "null"
		}
		for i, k := range x.keys {
			if !x.dead[i] {
				s = append(s, r.m.str(k)+": "+r.json(x.vals[i], depth+1))
			}
		}
		sort.Strings(s)
		return "{" + strings.Join(s, ", ") + "}"
	}
	return r.show(v)
}

// checkCommand interprets main
func checkCommand(c *Check) {
	p := c.P
	r := &cliRun{c: c, p: p, m: newMachine(newVtree(c, "NewTasksChecker").sh)}
	r.mocks()
	m := r.m
	main := p.fn(p.Main, "main")
	pos := p.pos(main.Pos())
	bad := map[string]string{}
	count := map[string]int{}
	paths := 0
	m.explore(func() {
		r.flags, r.flagT = map[string]*mval{}, map[string]string{}
		r.stdout, r.stderr, r.calls, r.vars, r.issues = "", "", nil, nil, nil
		m.initPackage(p.Main)
		m.limit = 1000000
		variable := func(name string, labels ...string) *symVar {
			v := newSymVar(name, 0, labels)
			r.vars = append(r.vars, v)
			return v
		}
		pick := func(name string, labels ...string) string {
			return labels[m.split(variable(name, labels...), func(i int) interface{} { return i })]
		}
		for _, n := range []string{"v", "j", "t", "w"} {
			if r.flags[n] == nil || r.flagT[n] != "bool" {
				bad["option"] = "there is no option -" + n + " without value"
				return
			}
			*r.flags[n] = &dep{variable("-"+n, "false", "true"), []mval{false, true}}
		}
		if r.flags["s"] == nil || r.flagT["s"] != "string" {
			bad["option"] = "there is no option -s with a value"
			return
		}
		strict := "off"
		if m.str(*r.flags["s"]) != "off" {
			bad["option"] = "the option -s is not off by default"
		}
		r.args = nil
		r.failure, r.file = "", ""
		nargs := pick("arguments", "1", "0", "2")
		if nargs == "1" {
			r.file = pick("file", "a.pp", "a.epp", "d/b.epp.pp", "epp", "x.EPP", ".epp")
			r.args = []mval{r.file}
			if r.file == "a.pp" {
				if strict = pick("-s", "off", "warning", "error"); strict != "off" {
					*r.flags["s"] = strict
				}
			}
			r.failure = pick("parsing gives", "an expression", "issue", "error")
			if r.failure == "an expression" {
				r.failure = ""
				k := pick("issues", "0", "1", "2", "3")
				for i := 0; i < int(k[0]-'0'); i++ {
					r.issues = append(r.issues, &dep{variable("severity of issue "+itoa(i), "2", "3", "4"), []mval{int64(2), int64(3), int64(4)}})
				}
			}
		} else if nargs == "2" {
			r.args = []mval{"a.pp", "b.pp"}
		}
		end := "exit 0"
		func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case cliExit:
					end = fmt.Sprintf("exit %d", e.code)
				case *mpanic:
					end = "panic"
				default:
					panic(e)
				}
				m.depth = 0
			}()
			m.call(main, nil, nil)
		}()
		paths++
		for k, e := range r.expected(strict, end) {
			count[k]++
			if e[0] != e[1] && bad[k] == "" {
				bad[k] = fmt.Sprintf("%s is %s rather than %s for %s", k, e[1], e[0], strings.Join(describeVars(r.vars), " "))
			}
		}
	})
	keys := []string{"option", "the end", "what is called", "the standard output", "the error output"}
	for _, k := range keys {
		c.obl += count[k]
		c.ok += count[k]
		c.obligation(bad[k] == "", k, "main", pos, "%s", bad[k])
	}
	c.atLeast("paths through main", paths, 500)
	r.checkToJson()
}

// expected gives what ought to be and what is
func (r *cliRun) expected(strict, end string) map[string][2]string {
	flag := func(n string) bool { return r.m.force(*r.flags[n]).(bool) }
	calls := strings.Join(r.calls, "; ")
	if len(r.args) != 1 {
		have := "some text"
		if r.stderr == "" {
			have = "nothing"
		} else if !strings.Contains(r.stderr, "‹the options›") {
			have = "text without the options of the command"
		}
		return map[string][2]string{"the end": {"exit 1", end}, "what is called": {"", calls}, "the standard output": {"", r.stdout}, "the error output": {"some text", have}}
	}
	var opts []string
	if strings.HasSuffix(r.file, ".epp") {
		opts = append(opts, "EppMode")
	}
	if flag("t") {
		opts = append(opts, "TasksEnabled")
	}
	if flag("w") {
		opts = append(opts, "WorkflowEnabled")
	}
	want := []string{fmt.Sprintf("parser with [%s] %q %q false", strings.Join(opts, " "), r.file, "‹content of "+r.file+"›")}
	stdout, stderr, wend := "", "", "exit 0"
	json := map[string]string{}
	if r.failure != "" {
		wend = "exit 1"
		stderr = "‹the " + r.failure + "›\n"
		if r.failure == "issue" {
			json["issues"] = "[data of the issue]"
		} else {
			json["error"] = strconv.Quote("‹the error›")
		}
	} else {
		switch {
		case flag("w"):
			want = append(want, "ValidateWorkflow expr")
		case flag("t"):
			want = append(want, "ValidateTasks expr")
		default:
			want = append(want, "ValidatePuppet expr "+map[string]string{"off": "1", "warning": "3", "error": "4"}[strict])
		}
		var ds []string
		for i, s := range r.issues {
			stderr += fmt.Sprintf("‹issue %d›\n", i)
			ds = append(ds, fmt.Sprintf("data of issue %d", i))
			if r.m.force(s).(int64) == 4 {
				wend = "exit 1"
			}
		}
		if len(ds) > 0 {
			json["issues"] = "[" + strings.Join(ds, " ") + "]"
		}
		if wend == "exit 0" && !flag("v") {
			stdout = "‹PN of expr›\n"
			json["ast"] = "data of expr"
		}
	}
	if flag("j") {
		var s []string
		for k, v := range json {
			s = append(s, k+": "+v)
		}
		sort.Strings(s)
		stdout, stderr = "‹json {"+strings.Join(s, ", ")+"}›", ""
		r.stdout = strings.TrimRight(r.stdout, "\n")
	}
	return map[string][2]string{"the end": {wend, end}, "what is called": {strings.Join(want, "; "), calls}, "the standard output": {stdout, r.stdout}, "the error output": {stderr, r.stderr}}
}

// checkToJson interprets ToJson for an open outcome of the encoding
func (r *cliRun) checkToJson() {
	c, p, m := r.c, r.p, r.m
	f := p.fn(p.JSON, "ToJson")
	sp := p.Prog.ImportedPackage("encoding/json")
	if f == nil || f.Blocks == nil || len(f.Params) != 2 || f.Signature.Results().Len() != 0 || sp == nil {
		c.undecided("ToJson is not a function of a value and a writer without results")
		return
	}
	delete(m.mock, f)
	var written string
	var fails bool
	var encoded int
	writers := map[*mval]mval{}
	failure := func() mval {
		t := p.Prog.ImportedPackage("errors").Type("errorString").Type()
		cell := new(mval)
		*cell = m.zero(t)
		return miface{types.NewPointer(t), cell}
	}
	encode := func(v mval) (string, mval) {
		encoded++
		if fails {
			return "", failure()
		}
		return "‹json " + r.show(m.force(v)) + "›", miface{}
	}
	bytesOf := func(s string) mval {
		return m.convert(s, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]))
	}
	marshal := func(m *Machine, args []mval) mval {
		s, err := encode(args[0])
		if s == "" {
			return mtuple{m.zero(types.NewSlice(types.Typ[types.Byte])), err}
		}
		return mtuple{bytesOf(s), err}
	}
	for _, n := range []string{"Marshal", "MarshalIndent"} {
		if fn := sp.Func(n); fn != nil {
			m.mock[fn] = marshal
		}
	}
	enc := types.NewPointer(sp.Type("Encoder").Type())
	m.mock[sp.Func("NewEncoder")] = func(m *Machine, args []mval) mval {
		cell := new(mval)
		*cell = m.zero(sp.Type("Encoder").Type())
		writers[cell] = args[0]
		return cell
	}
	for n, g := range map[string]func(m *Machine, args []mval) mval{
		"SetEscapeHTML": func(m *Machine, args []mval) mval { return nil },
		"SetIndent":     func(m *Machine, args []mval) mval { return nil },
		"Encode": func(m *Machine, args []mval) mval {
			s, err := encode(args[1])
			if cell, ok := args[0].(*mval); ok && s != "" {
				w := m.force(writers[cell])
				if x, ok := w.(miface); ok {
					w = x.v
				}
				if l, ok := w.(*lnode); ok && l.name == "writer" {
					written += s + "\n"
				}
			}
			return err
		},
	} {
		if fn := p.findMethod(enc, sp.Pkg, n); fn != nil {
			m.mock[fn] = g
		}
	}
	bad, paths := "", 0
	m.explore(func() {
		m.initPackage(p.JSON)
		m.limit = 100000
		written, encoded = "", 0
		fails = m.split(newSymVar("encoding", 0, []string{"succeeds", "fails"}), func(i int) interface{} { return i }) == 1
		w := r.object(types.NewPointer(types.NewStruct(nil, nil)), "writer", map[string]func(args []mval) mval{
			"Write": func(args []mval) mval {
				s := m.str(m.convert(args[0], types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String]))
				written += s
				return mtuple{int64(len(s)), miface{}}
			},
		})
		v := r.object(types.NewPointer(types.NewStruct(nil, nil)), "the value", map[string]func(args []mval) mval{})
		end := "returns"
		func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case cliExit, *mpanic:
					end = "fails"
				default:
					panic(e)
				}
				m.depth = 0
			}()
			m.call(f, nil, []mval{v, w})
		}()
		paths++
		want, text := "returns", "‹json the value›"
		if fails {
			want, text = "fails", ""
		}
		if got := strings.TrimSpace(written); bad == "" && (end != want || got != text) {
			bad = fmt.Sprintf("when encoding %s, ToJson %s and writes %q rather than: %s and writes %q", map[bool]string{true: "fails", false: "succeeds"}[fails], end, got, want, text)
		}
	})
	c.obl += paths
	c.ok += paths
	c.obligation(bad == "", "json", "ToJson", p.pos(f.Pos()), "%s", bad)
	c.atLeast("paths through ToJson", paths, 2)
}
