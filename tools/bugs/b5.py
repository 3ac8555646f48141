VAL = '''
package validator

import (
	"sort"
	"strings"
	"testing"

	"github.com/lyraproj/puppet-parser/parser"
)

func demoIs(t *testing.T, v Validator, src, want string, opts ...parser.Option) {
	t.Helper()
	e, err := parser.CreateParser(opts...).Parse("", src, false)
	if err != nil {
		t.Fatal(err)
	}
	Validate(v, e)
	var cs []string
	for _, i := range v.Issues() {
		cs = append(cs, string(i.Code()))
	}
	sort.Strings(cs)
	if s := strings.Join(cs, " "); s != want {
		t.Errorf("%s: got %q, expected %q", src, s, want)
	}
}
'''
C_ = "validator/checker.go"
V_ = "validator/validator.go"

bug("assign-nested-list", "C11", "validator", [(C_, """		for _, elem := range e.Elements() {
			v.checkAssign(elem)
		}
""", """		for _, elem := range e.Elements() {
			if list, ok := elem.(*parser.LiteralList); ok && len(list.Elements()) == 1 {
				continue
			}
			v.checkAssign(elem)
		}
""")], VAL + '''
func TestDemo(t *testing.T) {
	demoIs(t, NewChecker(StrictError), "[$a, [$b::c]] = [1, [2]]", "VALIDATE_CROSS_SCOPE_ASSIGNMENT")
	demoIs(t, NewChecker(StrictError), "[$a, $b::c] = [1, 2]", "VALIDATE_CROSS_SCOPE_ASSIGNMENT")
}
''', "multiple assignment with a nested list of one variable", "the variables of the nested list are not checked")

bug("query-parens", "C11", "validator", [(C_, "	case *parser.ParenthesizedExpression:\n		v.checkQuery(e.Expr())\n	case *parser.VariableExpression,", "	case *parser.ParenthesizedExpression:\n		if _, nested := e.Expr().(parser.BooleanExpression); !nested {\n			v.checkQuery(e.Expr())\n		}\n	case *parser.VariableExpression,")], VAL + '''
func TestDemo(t *testing.T) {
	demoIs(t, NewChecker(StrictError), "File <| a == 1 and (b == 2 or c < 3) |>", "VALIDATE_ILLEGAL_QUERY_EXPRESSION")
	demoIs(t, NewChecker(StrictError), "File <| (c < 3) |>", "VALIDATE_ILLEGAL_QUERY_EXPRESSION")
}
''', "a query with a parenthesized and/or", "the operators within the parentheses are not checked")

bug("rvalue-unary", "C11", "validator", [(C_, "	switch e := e.(type) {\n	case parser.UnaryExpression:\n		v.checkRValue(e.Expr())\n	case parser.Definition", "	switch e := e.(type) {\n	case *parser.ParenthesizedExpression:\n		v.checkRValue(e.Expr())\n	case parser.UnaryExpression:\n		if v.Container() != nil {\n			break\n		}\n		v.checkRValue(e.Expr())\n	case parser.Definition")], VAL + '''
func TestDemo(t *testing.T) {
	demoIs(t, NewChecker(StrictError), "$x = [!(File <| |>)]", "VALIDATE_NOT_RVALUE VALIDATE_NOT_RVALUE VALIDATE_NOT_RVALUE")
}
''', "a collector below a unary operator", "it is reported less often")

bug("idem-last-empty", "C11", "validator", [(C_, "	top := len(e.Statements())\n	if top > 0 {\n		last := e.Statements()[top-1]\n", "	top := len(e.Statements())\n	if top > 0 {\n		last := e.Statements()[top-1]\n		if top > 1 {\n			if b, ok := last.(*parser.IfExpression); ok {\n				last = b.Then()\n			}\n		}\n")], VAL + '''
func TestDemo(t *testing.T) {
	demoIs(t, NewChecker(StrictError), "class foo { notice(1) if $a { 1 } else { notice(2) } }", "")
	demoIs(t, NewChecker(StrictError), "class foo { notice(1) if $a { notice(2) } else { 1 } }", "")
}
''', "a class whose last of several statements is an if with an else that has an effect", "the class is reported")

bug("reserved-param-shadow", "C11", "validator", [(C_, """		param := parameter.(*parser.Parameter)
		if _, ok := ReservedParameters[param.Name()]; ok {""", """		param := parameter.(*parser.Parameter)
		if _, ok := ReservedParameters[param.Name()]; ok && !(param.CapturesRest() && len(parameters) > 1) {""")], VAL + '''
func TestDemo(t *testing.T) {
	demoIs(t, NewChecker(StrictError), "define foo($a, *$title) { notice(1) }", "VALIDATE_CAPTURES_REST_NOT_SUPPORTED VALIDATE_RESERVED_PARAMETER")
}
''', "a reserved parameter that captures the rest after another one", "it is not reported as reserved")

bug("tasks-site-body", "C12", "validator", [("validator/tasks_checker.go", """func (v *tasksChecker) checkRelationshipExpression(e *parser.RelationshipExpression) {
	v.illegalTasksExpression(e)
}""", """func (v *tasksChecker) checkRelationshipExpression(e *parser.RelationshipExpression) {
	switch e.Lhs().(type) {
	case *parser.RelationshipExpression:
		return // reported for the operands
	}
	v.illegalTasksExpression(e)
}""")], VAL + '''
func TestDemo(t *testing.T) {
	demoIs(t, NewTasksChecker(), "$a -> $b -> $c", "VALIDATE_CATALOG_OPERATION_NOT_SUPPORTED VALIDATE_CATALOG_OPERATION_NOT_SUPPORTED")
}
''', "a chain of relationships", "only one of them is reported")

bug("parser-validator-keep", "C13", "validator", [(V_, "	issues := pv.validator.Issues()\n	if len(issues) == 0 {\n		return expr, nil\n	}\n	return expr, issue.NewResult(issues)", "	if issues := pv.validator.Issues(); len(issues) > 0 {\n		for _, i := range issues {\n			if i.Severity() == issue.SeverityError {\n				expr = nil\n			}\n		}\n		return expr, issue.NewResult(issues)\n	}\n	return expr, nil")], VAL + '''
func TestDemo(t *testing.T) {
	pv := NewParserValidator(parser.CreateParser(), NewChecker(StrictError))
	e, r := pv.Parse("", "$a::b = 1")
	if e == nil || r == nil {
		t.Fatal("no expression")
	}
}
''', "source that parses but breaks a rule", "the syntax tree is not returned")

bug("accept-merge", "C14", "validator", [(V_, """	if severity != issue.SeverityIgnore {
		v.issues = append""", """	if n := len(v.issues); n > 0 && v.issues[n-1].Code() == code && severity != issue.SeverityError {
		return
	}
	if severity != issue.SeverityIgnore {
		v.issues = append""")], VAL + '''
func TestDemo(t *testing.T) {
	demoIs(t, NewChecker(StrictWarning), "$x = {a => 1, a => 2, a => 3}", "VALIDATE_DUPLICATE_KEY VALIDATE_DUPLICATE_KEY")
	demoIs(t, NewChecker(StrictError), "$x = {a => 1, a => 2, a => 3}", "VALIDATE_DUPLICATE_KEY VALIDATE_DUPLICATE_KEY")
}
''', "two warnings with the same code in sequence", "the second is lost")

bug("message-args", "C07", "validator", [(C_, "		v.Accept(ValidateIllegalHostnameChars, e, issue.H{`hostname`: str})", "		v.Accept(ValidateIllegalHostnameChars, e, issue.H{`host`: str})")], VAL + '''
func TestDemo(t *testing.T) {
	e, err := parser.CreateParser().Parse("", "node 'a b' { notice(1) }", false)
	if err != nil {
		t.Fatal(err)
	}
	v := NewChecker(StrictError)
	Validate(v, e)
	for _, i := range v.Issues() {
		if s := i.String(); !strings.Contains(s, "'a b'") {
			t.Error(s)
		}
	}
}
''', "a host name with illegal characters", "the message does not contain the host name")

bug("message-placeholder", "C07", "validator", [("validator/issues.go", "Cannot assign to variables in other namespaces`)", "Cannot assign to variables in %{namespace}`)")], VAL + '''
func TestDemo(t *testing.T) {
	e, err := parser.CreateParser().Parse("", "$a::b = 1", false)
	if err != nil {
		t.Fatal(err)
	}
	v := NewChecker(StrictError)
	Validate(v, e)
	for _, i := range v.Issues() {
		if s := i.String(); strings.Contains(s, "nil") || strings.Contains(s, "%{") || strings.Contains(s, "MISSING") || !strings.Contains(s, "amespaces") {
			t.Error(s)
		}
	}
}
''', "an assignment to a variable of another scope", "the message has a placeholder that no argument is given for")
