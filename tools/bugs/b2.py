exec(open("/verif/tools/bugs/b1.py").read().split("E_ =")[0])
E_ = "parser/expression.go"
P_ = "parser/parser.go"
L_ = "parser/lexer.go"
C_ = "validator/checker.go"

bug("name-cache", "C09", "parser", [(P_, "func (ctx *context) qualifiedName(name string) string {\n	return strings.Join(append(ctx.nameStack, name), `::`)\n}",
   "var qualified = map[string]string{}\n\nfunc (ctx *context) qualifiedName(name string) string {\n	if len(ctx.nameStack) == 0 {\n		return name\n	}\n	q, ok := qualified[name]\n	if !ok || q != ctx.nameStack[0]+`::`+name {\n		q = strings.Join(append(ctx.nameStack, name), `::`)\n		qualified[name] = q\n	}\n	return q\n}")], '''
package parser

import (
	"fmt"
	"os"
	"os/exec"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") == "" {
		c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
		c.Env = append(os.Environ(), "DEMO_CHILD=1")
		if out, err := c.CombinedOutput(); err != nil {
			t.Fatalf("%v %.300s", err, out)
		}
		return
	}
	done := make(chan error)
	for g := 0; g < 8; g++ {
		go func(g int) {
			for i := 0; i < 3000; i++ {
				n := fmt.Sprintf("c%dx%d", g, i)
				if _, err := CreateParser().Parse("", "class a { class b { class "+n+" {} } }", false); err != nil {
					done <- err
					return
				}
			}
			done <- nil
		}(g)
	}
	for g := 0; g < 8; g++ {
		if err := <-done; err != nil {
			t.Fatal(err)
		}
	}
}
''', "two goroutines that parse sources with nested classes at the same time", "a map shared by all parsers is written without a lock")

V_ = "validator/checker.go"
M_ = "parse/parser.go"
T_ = "literal/literal.go"
VALSRC = VAL

bug("parse-reuse-defs", "C08", "parser", [(P_, "	ctx.definitions = make([]Definition, 0, 8)\n", "	if ctx.definitions = ctx.definitions[:0]; cap(ctx.definitions) == 0 {\n		ctx.definitions = make([]Definition, 0, 8)\n	}\n")], PAR + '''
func TestDemo(t *testing.T) {
	a := CreateParser()
	x, err := a.Parse("", "class a {}", false)
	if err != nil {
		t.Fatal(err)
	}
	if _, err = a.Parse("", "function b() {}", false); err != nil {
		t.Fatal(err)
	}
	if d, ok := x.(*Program).Definitions()[0].(*HostClassDefinition); !ok || d.Name() != "a" {
		t.Fatalf("the definitions of the first program are now %T", x.(*Program).Definitions()[0])
	}
}
''', "the tree of one parse is used after the same parser parsed another source", "a later parse overwrites the definitions of the program that an earlier parse returned")

bug("parse-reuse-nextline", "C08", "parser", [(P_, "	ctx.nextLineStart = -1\n	", "	if !singleExpression {\n		ctx.nextLineStart = -1\n	}\n	")], PAR + '''
func TestDemo(t *testing.T) {
	a := CreateParser()
	if _, err := a.Parse("", "@(E) ]\\n text\\n E\\n", false); err == nil {
		t.Fatal("no error")
	}
	src := "[1,\\n2, 3, 4, 5, 6, 7, 8, 9]"
	x, err := a.Parse("", src, true)
	if err != nil {
		t.Fatal(err)
	}
	y, err := CreateParser().Parse("", src, true)
	if err != nil || x.ToPN().String() != y.ToPN().String() {
		t.Fatal(x.ToPN(), y.ToPN(), err)
	}
}
''', "a single expression parsed by a parser whose previous parse failed on the line of a heredoc declaration", "the position that follows the heredoc of the previous source is used in the next source")

bug("severity-shared", "C09", "validator", [(V_, "	v.severities = make(map[issue.Code]issue.Severity, 5)\n", "	v.severities = severitiesOf[strict]\n"),
   (V_, "type basicChecker struct {\n", "var severitiesOf = map[Strictness]map[issue.Code]issue.Severity{\n	StrictOff:     {},\n	StrictWarning: {},\n	StrictError:   {},\n}\n\ntype basicChecker struct {\n")], '''
package validator

import (
	"testing"

	"github.com/lyraproj/issue/issue"
)

func TestDemo(t *testing.T) {
	a := NewChecker(StrictOff).(*basicChecker)
	NewChecker(StrictOff).(*basicChecker).Demote(ValidateDuplicateKey, issue.SeverityError)
	if s := a.severities[ValidateDuplicateKey]; s == issue.SeverityError {
		t.Fatal("another validator changed the severity")
	}
}
''', "two validators with the same strictness, one of which has a severity changed or is created at the same time", "validators with the same strictness share a map of severities")

bug("case-default-last", "C10", "validator", [(V_, "	foundDefault := false\n	for _, option := range e.Options() {\n		co := option.(*parser.CaseOption)\n",
   "	foundDefault := false\n	options := e.Options()\n	for idx, option := range options {\n		co := option.(*parser.CaseOption)\n		if last := len(options) - 1; foundDefault && idx == last {\n			options[idx-1], options[last] = co, options[idx-1]\n		}\n")], VAL + '''
func TestDemo(t *testing.T) {
	e, err := parser.CreateParser().Parse("", "case $x { default: { 1 } 2: { 2 } }", false)
	if err != nil {
		t.Fatal(err)
	}
	before := e.ToPN().String()
	ValidatePuppet(e, StrictError)
	if after := e.ToPN().String(); before != after {
		t.Fatal(before, after)
	}
}
''', "a case expression with a default before its last option, looked at after validation", "validation changes the order of the options in the tree")

bug("hash-get-index", "C10", "parser", [(E_, "func (e *LiteralHash) Get(key string) Expression {\n	for _, entry := range e.entries {\n",
   "func (e *LiteralHash) Get(key string) Expression {\n	for i, entry := range e.entries {\n		if i > 3 {\n			// likely to be asked for again\n			e.entries[0], e.entries[i] = e.entries[i], e.entries[0]\n			entry = e.entries[0]\n		}\n")], PAR + '''
func TestDemo(t *testing.T) {
	e := demoParse(t, "{a => 1, b => 2, c => 3, d => 4, e => 5, f => 6}", EppMode-4).(*Program).Body().(*BlockExpression).Statements()[0].(*LiteralHash)
	before := e.ToPN().String()
	e.Get("f")
	if after := e.ToPN().String(); before != after {
		t.Fatal(before, after)
	}
}
''', "a lookup in a hash with more than four entries", "a lookup changes the order of the entries")

bug("label-unless", "C05", "parser", [("parser/label.go", 'func (e *UnlessExpression) Label() string            { return "\'unless\' statement" }\n', "")], PAR + '''
func TestDemo(t *testing.T) {
	if l := demoParse(t, "unless $a { 1 }").(*Program).Body().(*BlockExpression).Statements()[0].Label(); l != "'unless' statement" {
		t.Fatal(l)
	}
}
''', "a message that names an unless expression", "an unless expression gets the label of an if expression")

bug("family-select-binary", "C05", "parser", [(E_, "func (e *SelectorEntry) Value() Expression {\n", "// Lhs and Rhs are what the selector matches and the result\nfunc (e *SelectorEntry) Lhs() Expression { return e.matching }\n\nfunc (e *SelectorEntry) Rhs() Expression { return e.value }\n\nfunc (e *SelectorEntry) Value() Expression {\n")], PAR + '''
func TestDemo(t *testing.T) {
	var e Expression = &SelectorEntry{}
	if _, ok := e.(BinaryExpression); ok {
		t.Fatal("a selector option is a binary expression")
	}
}
''', "a rule or conversion that treats all binary expressions alike meets a selector", "selector options join the family of binary expressions by gaining two methods")

DEMO_CLI = '''
package main

import (
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

func run(t *testing.T, name, src string, args ...string) (string, int) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "cmd")
	if out, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {
		t.Fatalf("%v %s", err, out)
	}
	f := filepath.Join(dir, name)
	if err := ioutil.WriteFile(f, []byte(src), 0600); err != nil {
		t.Fatal(err)
	}
	c := exec.Command(bin, append(args, f)...)
	out, err := c.CombinedOutput()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		t.Fatal(err)
	}
	return strings.TrimSpace(string(out)), c.ProcessState.ExitCode()
}
'''
bug("cli-json-warning", "C15", "parse", [(M_, "			result[`issues`] = issues\n			if severity == issue.SeverityError {\n", "			result[`issues`] = issues\n			if severity >= issue.SeverityWarning {\n")], DEMO_CLI + '''
func TestDemo(t *testing.T) {
	out, code := run(t, "a.pp", "$a = {x => 1, x => 2}", "-j", "-s", "warning")
	if code != 0 || !strings.Contains(out, "ast") {
		t.Fatal(code, out)
	}
}
''', "JSON output for a source with warnings only, with warnings enabled", "the command fails and omits the tree when there are only warnings")

bug("cli-last-severity", "C15", "parse", [(M_, "			pn.Fprintln(os.Stderr, i.String())\n			if i.Severity() > severity {\n				severity = i.Severity()\n			}\n", "			pn.Fprintln(os.Stderr, i.String())\n			severity = i.Severity()\n")], DEMO_CLI + '''
func TestDemo(t *testing.T) {
	out, code := run(t, "a.pp", "$b += 2\\n$a = {x => 1, x => 2}", "-s", "warning")
	if code != 1 {
		t.Fatal(code, out)
	}
}
''', "text output for a source with an error followed by a warning", "the exit status and output follow the last issue only")

bug("literal-epp", "C23", "literal", [(T_, "		if len(segments) == 1 {\n			if ls, ok := segments[0]", "		if len(segments)%2 == 1 {\n			if ls, ok := segments[len(segments)-1]")], '''
package literal

import (
	"testing"

	"github.com/lyraproj/puppet-parser/parser"
)

func TestDemo(t *testing.T) {
	e, err := parser.CreateParser().Parse("", `"a${1}b"`, true)
	if err != nil {
		t.Fatal(err)
	}
	if v, ok := ToLiteral(e); ok {
		t.Fatal(v)
	}
}
''', "a double quoted string with an odd number of parts that ends with text", "the final text of an interpolated string is taken for its value")

bug("literal-nested-ok", "C23", "literal", [(T_, "		return toLiteral(e.Text())\n", "		if v, ok := ToLiteral(e.Text()); ok || e.Syntax() != `` {\n			return v\n		}\n		panic(notLiteral)\n")], '''
package literal

import (
	"testing"

	"github.com/lyraproj/puppet-parser/parser"
)

func TestDemo(t *testing.T) {
	e, err := parser.CreateParser().Parse("", "@(\\"E\\":json)\\n {$x}\\n E\\n", true)
	if err != nil {
		t.Fatal(err)
	}
	if v, ok := ToLiteral(e); ok {
		t.Fatal(v)
	}
}
''', "a heredoc with both a syntax and an interpolation", "such a heredoc is reported to be a literal")
