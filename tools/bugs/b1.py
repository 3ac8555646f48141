VAL = '''
package validator

import (
	"testing"

	"github.com/lyraproj/puppet-parser/parser"
)

func demoCodes(t *testing.T, v Validator, src string, opts ...parser.Option) map[string]int {
	e, err := parser.CreateParser(opts...).Parse("", src, false)
	if err != nil {
		t.Fatal(err)
	}
	Validate(v, e)
	m := map[string]int{}
	for _, i := range v.Issues() {
		m[string(i.Code())]++
	}
	return m
}
'''
PAR = '''
package parser

import "testing"

func demoParse(t *testing.T, src string, opts ...Option) Expression {
	e, err := CreateParser(opts...).Parse("", src, false)
	if err != nil {
		t.Fatal(err)
	}
	return e
}
'''
E_ = "parser/expression.go"
C_ = "validator/checker.go"

bug("ast-lambda-return", "C01", "parser", [(E_, "func (e *LambdaExpression) AllContents(path []Expression, visitor PathVisitor) {\n\tDeepVisit(e, path, visitor, e.parameters, e.body, e.returnType)",
    "func (e *LambdaExpression) AllContents(path []Expression, visitor PathVisitor) {\n\tif len(e.parameters) == 0 {\n\t\tDeepVisit(e, path, visitor, e.body)\n\t\treturn\n\t}\n\tDeepVisit(e, path, visitor, e.parameters, e.body, e.returnType)")], PAR + '''
func TestDemo(t *testing.T) {
	n := 0
	demoParse(t, "foo() || >> Integer { 1 }").AllContents(nil, func(p []Expression, e Expression) {
		if q, ok := e.(*QualifiedReference); ok && q.Name() == "Integer" {
			n++
		}
	})
	if n != 1 {
		t.Fatalf("the return type was visited %d times", n)
	}
}
''', "a lambda without parameters but with a return type", "traversal skips the return type of a lambda that has no parameters")

bug("deepvisit-path", "C01", "parser", [(E_, "			for _, expr := range exprs {\n				visitor(childPath, expr)\n				expr.AllContents(childPath, visitor)\n			}",
    "			for i, expr := range exprs {\n				visitor(childPath, expr)\n				if i > 0 && len(exprs) > 2 {\n					childPath = append(path, e)\n				}\n				expr.AllContents(childPath[len(path):], visitor)\n			}")], PAR + '''
func TestDemo(t *testing.T) {
	demoParse(t, "foo([1, $a + 2])").AllContents(nil, func(p []Expression, e Expression) {
		if len(p) == 0 || p[0].(*Program) == nil {
			t.Fatalf("path of %T does not start at the root", e)
		}
		if _, ok := p[0].(*Program); !ok {
			t.Fatalf("path of %T starts with %T", e, p[0])
		}
	})
}
''', "nodes at least two levels below a list of expressions", "the path given to visitors of deeper nodes lacks ancestors")

bug("factory-unless-else", "C02", "parser", [("parser/factory.go", "func (f *defaultExpressionFactory) Unless(test Expression, thenExpr Expression, elseExpr Expression, locator *Locator, offset int, length int) Expression {",
    "func (f *defaultExpressionFactory) Unless(test Expression, thenExpr Expression, elseExpr Expression, locator *Locator, offset int, length int) Expression {\n\tif elseExpr != nil {\n\t\tlength = elseExpr.ByteOffset() - offset\n\t}")], PAR + '''
func TestDemo(t *testing.T) {
	demoParse(t, "unless $x { 1 } else { 2 }\\n").AllContents(nil, func(p []Expression, e Expression) {
		if u, ok := e.(*UnlessExpression); ok {
			if s := u.String(); len(s) < 24 {
				t.Fatalf("source of unless is %q", s)
			}
		}
	})
}
''', "an unless expression with an else part", "the extent of the node is cut off")

bug("pn-named-access", "C04", "parser", [(E_, "func (e *CaseOption) ToPN() pn.PN {\n\treturn pn.Map([]pn.Entry{pnList(e.Values()).WithName(`when`), pnBlockAsEntry(`then`, e.Then())})",
    "func (e *CaseOption) ToPN() pn.PN {\n\tif len(e.Values()) == 1 {\n\t\tif l, ok := e.Values()[0].(*LiteralList); ok {\n\t\t\treturn pn.Map([]pn.Entry{pnList(l.Elements()).WithName(`when`), pnBlockAsEntry(`then`, e.Then())})\n\t\t}\n\t}\n\treturn pn.Map([]pn.Entry{pnList(e.Values()).WithName(`when`), pnBlockAsEntry(`then`, e.Then())})")], PAR + '''
func TestDemo(t *testing.T) {
	a := demoParse(t, "case $x { [1, 2]: { 3 } }").ToPN().String()
	b := demoParse(t, "case $x { 1, 2: { 3 } }").ToPN().String()
	if a == b {
		t.Fatal("different programs, same PN: " + a)
	}
}
''', "a case option whose only value is a literal list", "the option matches the list in the source, its PN matches the elements")

bug("collect-ops-virtual", "C03", "parser", [(E_, "	entries = append(entries, e.ResourceType().ToPN().WithName(`type`), e.Query().ToPN().WithName(`query`))\n	if len(e.Operations()) > 0 {",
    "	entries = append(entries, e.ResourceType().ToPN().WithName(`type`), e.Query().ToPN().WithName(`query`))\n	if q, ok := e.Query().(*VirtualQuery); !(ok && q.Expr().IsNop()) && len(e.Operations()) > 0 {")], PAR + '''
func TestDemo(t *testing.T) {
	a := demoParse(t, "File <| |> { mode => '0777' }").ToPN().String()
	b := demoParse(t, "File <| |>").ToPN().String()
	if a == b {
		t.Fatal("different programs, same PN: " + a)
	}
}
''', "a virtual collector without a query with attribute operations", "the operations are not in the PN")

bug("val-idem-heredoc", "C11", "validator", [(C_, "*parser.ConcatenatedString, *parser.HeredocExpression, ", "*parser.ConcatenatedString, ")], VAL + '''
func TestDemo(t *testing.T) {
	if m := demoCodes(t, NewChecker(StrictError), "@(X)\\nhello\\nX\\nnotice(1)"); m[string(ValidateIdemExpressionNotLast)] != 1 {
		t.Fatal(m)
	}
}
''', "a heredoc that is used as a statement and is not last", "the ineffective expression is not reported")

bug("val-typemapping-nested", "C11", "validator", [(C_, "			case *parser.FunctionDefinition, *parser.PlanDefinition, *parser.TypeAlias, *parser.TypeDefinition, *parser.TypeMapping:",
    "			case *parser.FunctionDefinition, *parser.PlanDefinition, *parser.TypeAlias, *parser.TypeDefinition:")], VAL + '''
func TestDemo(t *testing.T) {
	if m := demoCodes(t, NewChecker(StrictError), "class foo { type Runtime[ruby, 'x'] = Integer }"); m[string(ValidateNotAbsoluteTopLevel)] != 1 {
		t.Fatal(m)
	}
}
''', "a type mapping in the body of a class", "a construct that must be at top level is accepted in a class")

bug("tasks-override", "C12", "validator", [("validator/tasks_checker.go", "func (v *tasksChecker) checkResourceOverrideExpression(e *parser.ResourceOverrideExpression) {\n\tv.illegalTasksExpression(e)",
    "func (v *tasksChecker) checkResourceOverrideExpression(e *parser.ResourceOverrideExpression) {\n\tif e.Form() != parser.REGULAR {\n\t\tv.basicChecker.checkResourceOverrideExpression(e)\n\t\treturn\n\t}\n\tv.illegalTasksExpression(e)")], VAL + '''
func TestDemo(t *testing.T) {
	if m := demoCodes(t, NewTasksChecker(), "@File['a'] { mode => 1 }"); m[string(ValidateCatalogOperationNotSupported)] == 0 {
		t.Fatal(m)
	}
}
''', "a virtual resource override in a task", "the override is not reported as a catalog operation")

bug("val-container-root", "C13", "validator", [("validator/validator.go", "	v.Clear()\n	v.setPathAndSubject(path, e)\n	v.Validate(e)\n	e.AllContents(path, func(path []parser.Expression, expr parser.Expression) {\n		v.setPathAndSubject(path, expr)",
    "	v.Clear()\n	v.setPathAndSubject(path, e)\n	v.Validate(e)\n	e.AllContents(path, func(path []parser.Expression, expr parser.Expression) {\n		if expr.IsNop() && len(path) > 4 {\n			return\n		}\n		v.setPathAndSubject(path, expr)")], VAL + '''
type rec struct {
	Checker
	n int
}

func (r *rec) Validate(e parser.Expression) {
	if e.IsNop() {
		r.n++
	}
	r.Checker.Validate(e)
}

func TestDemo(t *testing.T) {
	e, err := parser.CreateParser().Parse("", "if $a { if $b { if $c { } } }", false)
	if err != nil {
		t.Fatal(err)
	}
	all := 0
	e.AllContents(nil, func(p []parser.Expression, e parser.Expression) {
		if e.IsNop() {
			all++
		}
	})
	r := &rec{Checker: NewChecker(StrictError)}
	Validate(r, e)
	if all == 0 || r.n != all {
		t.Fatal(all, r.n)
	}
}
''', "empty bodies at a nesting depth of more than four", "nodes are not validated")

bug("severity-default", "C14", "validator", [("validator/validator.go", "	if severity != issue.SeverityIgnore {\n		v.issues",
    "	if severity != issue.SeverityIgnore {\n		if n := len(v.issues); n > 0 && severity == issue.SeverityDeprecation && v.issues[n-1].Code() == code {\n			return\n		}\n		v.issues")], VAL + '''
func TestDemo(t *testing.T) {
	if m := demoCodes(t, NewChecker(StrictError), "function a() >> Produces { 1 }\\nfunction b() >> Produces { 1 }"); m[string(ValidateFutureReservedWord)] != 2 {
		t.Fatal(m)
	}
}
''', "two deprecations in a row", "the second one is not kept")
