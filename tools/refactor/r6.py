# names and structure
L_ = "parser/lexer.go"; P_ = "parser/parser.go"; R_ = "parser/reader.go"; E_ = "parser/expression.go"
V_ = "validator/validator.go"; C_ = "validator/checker.go"
ref("str-rename-fields", *[(f, "re:", r"\bctx\.%s\b" % a, "ctx.%s" % b) for f, a, b in [(L_, "radix", "base"), (P_, "radix", "base"), (P_, "definitions", "defs"),
    (P_, "nameStack", "scopes"), (L_, "nextLineStart", "afterHeredoc"), (P_, "nextLineStart", "afterHeredoc")]],
    (L_, "re:", r"^(\t)radix ", r"\1base "), (L_, "re:", r"^\tdefinitions ", "\tdefs "), (L_, "re:", r"^\tnameStack ", "\tscopes "), (L_, "re:", r"^\tnextLineStart ", "\tafterHeredoc "),
    (P_, "re:", r"\tnextLineStart: ", "\tafterHeredoc: "))
ref("str-rename-methods", *[(f, "re:", r"\b%s\b" % a, b) for f in (P_,) for a, b in [("ifExpression", "parseIf"), ("caseExpression", "parseCase"), ("classExpression", "parseClass"),
    ("nodeDefinition", "parseNode"), ("planDefinition", "parsePlan"), ("functionDefinition", "parseFunction")]])
ref("str-context-order", (L_, """	currentToken          int
	beginningOfLine       int
	tokenStartPos         int
	tokenValue            interface{}
""", """	tokenStartPos         int
	tokenValue            interface{}
	beginningOfLine       int
	currentToken          int
"""))
ref("str-options", (L_, """	eppMode               bool
	handleBacktickStrings bool
	handleHexEscapes      bool
	tasks                 bool
	workflow              bool
""", """	options
"""), (L_, "type context struct {", """type options struct {
	eppMode               bool
	handleBacktickStrings bool
	handleHexEscapes      bool
	tasks                 bool
	workflow              bool
}

type context struct {"""), (P_, "&context{factory: DefaultFactory(), handleBacktickStrings: false, handleHexEscapes: false, tasks: false, workflow: false}", "&context{factory: DefaultFactory()}"),
   (P_, """		handleBacktickStrings: false,
		handleHexEscapes:      false,
		tasks:                 false,
		workflow:              false}}""", """	}}"""))
ref("str-positioned", (V_, """	for last := len(v.path) - 1; last > 0; last-- {
		if e == v.path[last] {
			return v.path[last-1]
		}
	}
	return nil""", """	last := len(v.path) - 1
	for last > 0 && e != v.path[last] {
		last--
	}
	if last <= 0 {
		return nil
	}
	return v.path[last-1]"""))
ref("str-validate-helper", (V_, """	v.setPathAndSubject(path, e)
	v.Validate(e)
	e.AllContents(path, func(path []parser.Expression, expr parser.Expression) {
		v.setPathAndSubject(path, expr)
		v.Validate(expr)
	})""", """	visit := func(path []parser.Expression, expr parser.Expression) {
		v.setPathAndSubject(path, expr)
		v.Validate(expr)
	}
	visit(path, e)
	e.AllContents(path, visit)"""))
ref("rdr-peek", (R_, """	if r.i >= len(r.text) {
		return
	}
	c = rune(r.text[r.i])
	if c < utf8.RuneSelf {
		size = 1
		return
	}
	c, size = utf8.DecodeRuneInString(r.text[r.i:])
	if c == utf8.RuneError && size == 1 {
		panic(r.invalidUnicode())
	}
	return c, size
""", """	return r.PeekAt(r.i)
"""))
ref("rdr-next", (R_, """	if r.i >= len(r.text) {
		return
	}
	c = rune(r.text[r.i])
	if c < utf8.RuneSelf {
		r.i++
		return
	}
	c, size := utf8.DecodeRuneInString(r.text[r.i:])
	if c == utf8.RuneError && size == 1 {
		panic(r.invalidUnicode())
	}
	r.i += size
	return
""", """	c, size := r.Peek()
	r.Advance(size)
	return c, start
"""))
ref("str-reader-fields", (R_, "re:", r"\br\.i\b", "r.position"), (R_, "re:", r"\br\.text\b", "r.source"), (R_, "re:", r"^\ti    int\n\ttext string", "\tsource   string\n\tposition int"),
    (R_, "stringReader{i: 0, text: s}", "stringReader{source: s}"), (P_, "re:", r"stringReader\{text: source\}", "stringReader{source: source}"))
ref("str-settoken", (L_, """	ctx.currentToken = token
	ctx.tokenValue = nil
""", """	ctx.settokenValue(token, nil)
"""))
ref("str-accept-early", (V_, """	if severity != issue.SeverityIgnore {
		v.issues = append(v.issues, issue.NewReported(code, severity, args, e))
	}
""", """	if severity == issue.SeverityIgnore {
		return
	}
	reported := issue.NewReported(code, severity, args, e)
	v.issues = append(v.issues, reported)
"""))
for part in ["keyedEntry", "hostname", "selectorEntry", "caseOption", "returnParameter", "lambda", "argument", "attributeOperation"]:
    ref("ren-" + part.lower(), (P_, "re:", r"\bctx\.%s\b" % part, "ctx.%sPart" % part), (P_, "re:", r"\) %s\(" % part, ") %sPart(" % part))
ref("gone-selector", (P_, """	var selectors []Expression
	ctx.nextToken()
	needNext""", """	entry := func() Expression {
		start := ctx.tokenStartPos
		lhs := ctx.expression()
		ctx.assertToken(tokenFarrow)
		ctx.nextToken()
		return ctx.factory.Selector(lhs, ctx.expression(), ctx.locator, start, ctx.Pos()-start)
	}
	var selectors []Expression
	ctx.nextToken()
	needNext"""), (P_, "ctx.expressions(tokenRc, ctx.selectorEntry)", "ctx.expressions(tokenRc, entry)"), (P_, "[]Expression{ctx.selectorEntry()}", "[]Expression{entry()}"),
    (P_, """func (ctx *context) selectorEntry() (expr Expression) {
	start := ctx.tokenStartPos
	lhs := ctx.expression()
	ctx.assertToken(tokenFarrow)
	ctx.nextToken()
	return ctx.factory.Selector(lhs, ctx.expression(), ctx.locator, start, ctx.Pos()-start)
}
""", ""))
ref("sig-hostname", (P_, "re:", r"ctx\.hostname\(\)", "ctx.hostname(ctx.tokenStartPos)"), (P_, "func (ctx *context) hostname() (hostname Expression) {\n	start := ctx.tokenStartPos\n", "func (ctx *context) hostname(start int) (hostname Expression) {\n"))
ref("sig-parse", (P_, "re:", r"ctx\.parse\((\w+), false\)", r"ctx.parse(\1, false, nil)"), (P_, "ctx.parse(tokenEnd, singleExpression)", "ctx.parse(tokenEnd, singleExpression, nil)"),
    (L_, "ctx.parse(tokenRc, true)", "ctx.parse(tokenRc, true, nil)"), (P_, "parse(expectedEnd int, singleExpression bool) (", "parse(expectedEnd int, singleExpression bool, _ []Expression) ("))
