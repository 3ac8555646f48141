package main

import (
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

//go:embed spec scenarios
var specFS embed.FS

// Violation is one construct that breaks a rule. Rule and Construct identify it. The line is only
// informative.
type Violation struct {
	Rule      string
	Construct string
	Pos       string
	Msg       string
}

func (v Violation) id() string { return v.Rule + " " + v.Construct }

// Check collects what one property check found
type Check struct {
	P          *Program
	ID         string
	Tier       string
	Violations []Violation
	Known      []Violation
	Counts     map[string]int
	Samples    []string
	Notes      []string
	obl, ok    int
	gen        map[string][]string // spec tables to write in generate mode
	generate   bool
	explain    string
	trusted    []string
	assume     []string
}

func (c *Check) fail(rule, construct, pos, msg string, args ...interface{}) {
	v := Violation{rule, construct, pos, fmt.Sprintf(msg, args...)}
	for _, o := range c.Violations {
		if o.id() == v.id() {
			return
		}
	}
	c.Violations = append(c.Violations, v)
}

// obligation counts one obligation, and reports a violation unless ok
func (c *Check) obligation(ok bool, rule, construct, pos, msg string, args ...interface{}) bool {
	c.obl++
	if ok {
		c.ok++
	} else {
		c.fail(rule, construct, pos, msg, args...)
	}
	return ok
}

func (c *Check) count(name string, n int) { c.Counts[name] += n }

func (c *Check) sample(f string, args ...interface{}) {
	if len(c.Samples) < 12 {
		c.Samples = append(c.Samples, fmt.Sprintf(f, args...))
	}
}

// atLeast guards against a rule that passes because it matches nothing
func (c *Check) atLeast(what string, n, min int) {
	c.Counts[what] = n
	if n < min {
		c.undecided("only %d %s were found, %d or more are expected: the rule has lost its subject", n, what, min)
	}
}

// undecided notes that the analysis does not give an answer about some of the code: this is no violation
func (c *Check) undecided(f string, args ...interface{}) {
	s := fmt.Sprintf(f, args...)
	c.Notes = append(c.Notes, "UNDECIDED: "+s)
	fmt.Printf("UNDECIDED property=%s %s\n", c.ID, s)
}

// table compares a computed table with the frozen one. Both map a key to a value.
func (c *Check) table(name string, got map[string]string, pos func(key string) string) {
	if c.generate {
		var ls []string
		for k, v := range got {
			ls = append(ls, k+" => "+v)
		}
		sort.Strings(ls)
		c.gen[name] = ls
		return
	}
	want := readTable(name)
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			g = "(absent)"
		}
		ps := "-"
		if pos != nil {
			ps = pos(k)
		}
		c.obligation(g == w, name, k, ps, "expected %s, the source gives %s", w, g)
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			ps := "-"
			if pos != nil {
				ps = pos(k)
			}
			c.obligation(false, name, k, ps, "not expected to exist, the source gives %s", g)
		}
	}
	c.count("entries of table "+name, len(got))
}

func readTable(name string) map[string]string {
	b, err := specFS.ReadFile("spec/" + name + ".txt")
	if err != nil {
		fatalf("spec table %s is missing", name)
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		i := strings.Index(l, " => ")
		if i < 0 {
			fatalf("bad line in spec table %s: %s", name, l)
		}
		m[l[:i]] = l[i+4:]
	}
	return m
}

type propDef struct {
	id      string
	rule    string
	level   string
	run     func(c *Check)
	assume  []string
	trusted []string
}

var props []propDef

func register(id, rule string, run func(c *Check), assume ...string) {
	props = append(props, propDef{id: id, rule: rule, run: run, assume: assume})
}

type knownFinding struct{ prop, id, text string }

func readKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<rule> <construct> :: <text>
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		f := strings.SplitN(l, " key=", 2)
		if len(f) != 2 {
			continue
		}
		g := strings.SplitN(f[1], " :: ", 2)
		if len(g) != 2 {
			continue
		}
		out = append(out, knownFinding{f[0], g[0], g[1]})
	}
	return out
}

func runProp(p *Program, loadErr error, d propDef, verif, tier string, seed int, generate bool) int {
	t0 := time.Now()
	c := &Check{P: p, ID: d.id, Tier: tier, Counts: map[string]int{}, gen: map[string][]string{}, generate: generate}
	if loadErr != nil {
		c.fail("load", "repository", "-", "%s", loadErr)
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if fe, ok := r.(*fatalError); ok {
						c.undecided("%s", fe.msg)
					} else {
						c.undecided("the analysis failed: %v\n%s", r, debug.Stack())
					}
				}
			}()
			d.run(c)
		}()
	}
	if generate {
		for n, ls := range c.gen {
			f := filepath.Join(verif, "checker", "spec", n+".txt")
			if err := os.WriteFile(f, []byte(strings.Join(ls, "\n")+"\n"), 0644); err != nil {
				fmt.Println(err)
			}
			fmt.Println("wrote", f, len(ls))
		}
	}
	known := readKnown(filepath.Join(verif, "known_findings.txt"))
	var vs []Violation
	for _, v := range c.Violations {
		hit := false
		for _, k := range known {
			if k.prop == d.id && k.id == v.id() {
				hit = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.id, k.text)
			}
		}
		if !hit {
			vs = append(vs, v)
		} else {
			c.Known = append(c.Known, v)
		}
	}
	cov := map[string]interface{}{
		"explanation": d.rule,
		"obligations": c.obl,
		"discharged":  c.ok,
		"counts":      c.Counts,
		"samples":     c.Samples,
		"notes":       c.Notes,
	}
	if p != nil {
		cov["functions_in_repository"] = len(p.SrcFuncs)
	}
	ev := map[string]interface{}{
		"property": d.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": d.assume, "wall_s": time.Since(t0).Seconds(), "violations": len(vs),
	}
	if d.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", d.id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d violations, %d known findings (%.1fs)\n", d.id, c.obl, c.ok, len(vs), len(c.Known), time.Since(t0).Seconds())
	var names []string
	for n := range c.Counts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Printf("  %-60s %d\n", n, c.Counts[n])
	}
	rep := filepath.Join(verif, "evidence", d.id+".violations.txt")
	os.Remove(rep)
	if len(vs) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&sb, "%s: rule %s violated by %s: %s\n", v.Pos, v.Rule, v.Construct, v.Msg)
	}
	os.WriteFile(rep, []byte(sb.String()), 0644)
	s := sb.String()
	if len(s) > 6000 {
		s = s[:6000] + "...\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", d.id, rep)
	return 1
}
