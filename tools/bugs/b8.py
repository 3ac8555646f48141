exec(open("/verif/tools/bugs/auto.py").read())
X_ = "parser/expression.go"; P_ = "parser/parser.go"; L_ = "parser/lexer.go"
PAR = '''
package parser

import "testing"

func demoParse(t *testing.T, src string, opts ...Option) Expression {
	e, err := CreateParser(opts...).Parse("", src, false)
	if err != nil {
		t.Fatal(err)
	}
	return e
}
'''

bug("hash-get-case", "C02", "parser", [(X_, "		case *QualifiedReference:\n			if ek.name == key {\n				return ex.Value()", "		case *QualifiedReference:\n			if ek.name == key || ek.downcasedName == key {\n				return ex.Value()")], PAR + '''
func TestDemo(t *testing.T) {
	e := demoParse(t, "{File => 1, 'file' => 2}", EppMode-4).(*Program).Body().(*BlockExpression).Statements()[0].(*LiteralHash)
	if v := e.Get("file").String(); v != "2" {
		t.Fatal(v)
	}
}
''', "a look-up of a text in a hash that has a type name with the same letters as key", "the value of the type name is given")

auto("pn-heredoc-syntax", "C03", [(X_, "	if e.Syntax() != `` {\n		entries = append(entries, pn.Literal(e.Syntax())", "	if _, text := e.Text().(*LiteralString); text && e.Syntax() != `` {\n		entries = append(entries, pn.Literal(e.Syntax())")],
  ['$x = @("T":json)\n${y}a\n| T\n', '$x = @(T:json)\na\n| T\n'], "a heredoc with a syntax and interpolation", "the syntax is left out")

auto("pn-param-splat", "C03", [(X_, "	if e.CapturesRest() {\n		entries = append(entries, pn.Literal(true).WithName(`splat`))\n	}\n	if e.Value() != nil {", "	if e.CapturesRest() && e.Type() == nil {\n		entries = append(entries, pn.Literal(true).WithName(`splat`))\n	}\n	if e.Value() != nil {")],
  ["function f(Integer *$a) {}", "function f(*$a) {}"], "a parameter with a type that captures the rest", "that it captures the rest is left out")

auto("heredoc-escaped-line", "C26", [(L_, "		case '\\n':\n			ctx.stripIndent(indentStrip)\n		default:", "		case '\\n':\n			if len(segments) == 0 {\n				ctx.stripIndent(indentStrip)\n			}\n		default:")],
  ['$x = @("T"/L)\n  a${y}b\\\n  c\n  | T\n', '$x = @(T/L)\n  a\\\n  c\n  | T\n'], "an escaped line end behind an interpolation in a heredoc with a margin", "the margin of the next line is kept")

auto("unicode-upper", "C27", [(L_, "	if !(uLen >= 2 && uLen <= 6 && ec == '}') {", "	if !(uLen >= 2 && uLen <= 6 && (ec == '}' || uLen == 6)) {")],
  ['$x = "\\u{01F600a}"', '$x = "\\u{1F600}"', '$x = "\\u{1F60}"'], "a unicode escape with more than six digits or without its brace", "the escape is accepted and a character is lost")

auto("hex-single", "C27", [(L_, "	if isHexDigit(d) {\n		d, _ = ctx.Next()\n	}\n	if !isHexDigit(d) {\n		ctx.SetPos(start - 2)\n		panic(ctx.parseIssue(lexMalformedHexEscape))", "	if isHexDigit(d) {\n		d, _ = ctx.Next()\n	}\n	if !isHexDigit(d) && d != '_' {\n		ctx.SetPos(start - 2)\n		panic(ctx.parseIssue(lexMalformedHexEscape))")],
  [('$x = "\\x4_"', False, "HandleHexEscapes"), ('$x = "\\x41"', False, "HandleHexEscapes")], "an underscore in a hex escape", "a zero byte instead of a refusal")
