# parser.go
def fn_(name): return "func (ctx *context) " + name + "("
OPT_ = """	var parameterList []Expression
	switch ctx.currentToken {
	case tokenLp, tokenWslp:
		parameterList = ctx.parameterList()
		ctx.nextToken()
	default:
		parameterList = []Expression{}
	}
"""
BODY_ = """	ctx.assertToken(tokenLc)
	ctx.nextToken()
	block := ctx.parse(tokenRc, false)
"""
ref("par-optional-params",
    *[(P_, fn_(f), OPT_, "	parameterList := ctx.optionalParameters()\n") for f in ("functionDefinition", "planDefinition", "classExpression", "resourceDefinition")],
    (P_, "func (ctx *context) parameterList() (", """func (ctx *context) optionalParameters() []Expression {
	if ctx.currentToken != tokenLp && ctx.currentToken != tokenWslp {
		return []Expression{}
	}
	params := ctx.parameterList()
	ctx.nextToken()
	return params
}

func (ctx *context) parameterList() ("""))
ref("par-return-type",
    *[(P_, fn_(f), """	var returnType Expression
	if ctx.currentToken == tokenRshift {
		ctx.nextToken()
		returnType = ctx.parameterType()
	}
""", "	returnType := ctx.optionalReturnType()\n") for f in ("functionDefinition", "planDefinition", "lambda")],
    (P_, "func (ctx *context) lambda() (", """func (ctx *context) optionalReturnType() (rt Expression) {
	if ctx.accept(tokenRshift) {
		rt = ctx.parameterType()
	}
	return
}

func (ctx *context) accept(token int) bool {
	found := ctx.currentToken == token
	if found {
		ctx.nextToken()
	}
	return found
}

func (ctx *context) lambda() ("""))
ref("par-braced-block",
    *[(P_, fn_(f), BODY_ + "	ctx.nextToken()", "	block := ctx.bracedBlock()") for f in ("functionDefinition", "planDefinition", "nodeDefinition", "siteDefinition", "caseOption")],
    (P_, fn_("caseExpression"), "	test := ctx.expression()\n	ctx.assertToken(tokenLc)\n	ctx.nextToken()\n", "	test := ctx.expression()\n	ctx.consume(tokenLc)\n"),
    (P_, "func (ctx *context) caseOptions() (", """// consume asserts the current token and moves past it
func (ctx *context) consume(token int) {
	ctx.assertToken(token)
	ctx.nextToken()
}

func (ctx *context) bracedBlock() Expression {
	ctx.consume(tokenLc)
	b := ctx.parse(tokenRc, false)
	ctx.consume(tokenRc)
	return b
}

func (ctx *context) caseOptions() ("""))
def lvl_(name, nxt, toks, factory):
    return name, nxt, toks, factory
LV_ = [("compareExpression", "equalExpression", "tokenLess, tokenLessEqual, tokenGreater, tokenGreaterEqual", "Comparison", 0),
       ("equalExpression", "shiftExpression", "tokenEqual, tokenNotEqual", "Comparison", 1),
       ("shiftExpression", "additiveExpression", "tokenLshift, tokenRshift", "Arithmetic", 1),
       ("additiveExpression", "multiplicativeExpression", "tokenAdd, tokenSubtract", "Arithmetic", 1),
       ("multiplicativeExpression", "matchExpression", "tokenMultiply, tokenDivide, tokenRemainder", "Arithmetic", 1),
       ("matchExpression", "inExpression", "tokenMatch, tokenNotMatch", "Match", 1)]
ed_ = []
for n, nx, tk, fa, t in LV_:
    ed_.append((P_, """func (ctx *context) %s() (expr Expression) {
	expr = ctx.%s()
	for {
%s		switch %s {
		case %s:
			op := ctx.tokenString()
			ctx.nextToken()
			expr = ctx.factory.%s(op, expr, ctx.%s(), ctx.locator, expr.ByteOffset(), ctx.Pos()-expr.ByteOffset())

		default:
			return
		}
	}
}
""" % (n, nx, "		t := ctx.currentToken\n" if t else "", "t" if t else "ctx.currentToken", tk, fa, nx),
    """func (ctx *context) %s() Expression {
	return ctx.leftAssociative(ctx.%s, ctx.factory.%s, %s)
}
""" % (n, nx, fa, tk)))
ref("par-left-assoc", *ed_, (P_, "func (ctx *context) inExpression() (", """func (ctx *context) leftAssociative(operand func() Expression,
	combine func(op string, lhs Expression, rhs Expression, locator *Locator, offset int, length int) Expression, tokens ...int) Expression {
	lhs := operand()
	for containsToken(tokens, ctx.currentToken) {
		op := ctx.tokenString()
		ctx.nextToken()
		rhs := operand()
		start := lhs.ByteOffset()
		lhs = combine(op, lhs, rhs, ctx.locator, start, ctx.Pos()-start)
	}
	return lhs
}

func containsToken(tokens []int, t int) bool {
	for _, x := range tokens {
		if x == t {
			return true
		}
	}
	return false
}

func (ctx *context) inExpression() ("""))
ref("par-or-and-for", (P_, fn_("orExpression"), """	for {
		switch ctx.currentToken {
		case tokenOr:
			ctx.nextToken()
			expr = ctx.factory.Or(expr, ctx.andExpression(), ctx.locator, expr.ByteOffset(), ctx.Pos()-expr.ByteOffset())
		default:
			return
		}
	}
""", """	for ctx.currentToken == tokenOr {
		start := expr.ByteOffset()
		ctx.nextToken()
		rhs := ctx.andExpression()
		expr = ctx.factory.Or(expr, rhs, ctx.locator, start, ctx.Pos()-start)
	}
	return
"""), (P_, fn_("inExpression"), """	for {
		switch ctx.currentToken {
		case tokenIn:
			ctx.nextToken()
			expr = ctx.factory.In(expr, ctx.unaryExpression(), ctx.locator, expr.ByteOffset(), ctx.Pos()-expr.ByteOffset())

		default:
			return expr
		}
	}
""", """	for {
		if ctx.currentToken != tokenIn {
			return expr
		}
		ctx.nextToken()
		expr = ctx.factory.In(expr, ctx.unaryExpression(), ctx.locator, expr.ByteOffset(), ctx.Pos()-expr.ByteOffset())
	}
"""), (P_, fn_("selectExpression"), """	for {
		switch ctx.currentToken {
		case tokenQmark:
			expr = ctx.selectorsExpression(expr)
		default:
			return
		}
	}
""", """	for ; ctx.currentToken == tokenQmark; expr = ctx.selectorsExpression(expr) {
	}
	return
"""))
ref("par-relationship-set", (P_, fn_("relationship"), """	for {
		switch ctx.currentToken {
		case tokenInEdge, tokenInEdgeSub, tokenOutEdge, tokenOutEdgeSub:
			op := ctx.tokenString()
			ctx.nextToken()
			expr = ctx.factory.RelOp(op, expr, ctx.assignment(), ctx.locator, expr.ByteOffset(), ctx.Pos()-expr.ByteOffset())
		default:
			return expr
		}
	}
""", """	for edgeTokens[ctx.currentToken] {
		op := ctx.tokenString()
		ctx.nextToken()
		expr = ctx.factory.RelOp(op, expr, ctx.assignment(), ctx.locator, expr.ByteOffset(), ctx.Pos()-expr.ByteOffset())
	}
	return expr
"""), (P_, "func (ctx *context) assignment() (", "var edgeTokens = map[int]bool{tokenInEdge: true, tokenInEdgeSub: true, tokenOutEdge: true, tokenOutEdgeSub: true}\n\nfunc (ctx *context) assignment() ("))
ref("par-expressions-loop", (P_, fn_("expressions"), """	for {
		if ctx.currentToken == endToken {
			return
		}
		exprs = append(exprs, producerFunc())
		if ctx.currentToken != tokenComma {
			if ctx.currentToken != endToken {
				ctx.SetPos(ctx.tokenStartPos)
				panic(ctx.parseIssue2(parseExpectedOneOfTokens, issue.H{
					`expected`: fmt.Sprintf(`'%s' or '%s'`, tokenMap[tokenComma], tokenMap[endToken]),
					`actual`:   tokenMap[ctx.currentToken]}))
			}
			return
		}
		ctx.nextToken()
	}
""", """	for ctx.currentToken != endToken {
		exprs = append(exprs, producerFunc())
		switch ctx.currentToken {
		case endToken:
			return
		case tokenComma:
			ctx.nextToken()
		default:
			ctx.SetPos(ctx.tokenStartPos)
			expected := "'" + tokenMap[tokenComma] + "' or '" + tokenMap[endToken] + "'"
			panic(ctx.parseIssue2(parseExpectedOneOfTokens, issue.H{`expected`: expected, `actual`: tokenMap[ctx.currentToken]}))
		}
	}
	return
"""))
ref("par-statement-list", (P_, fn_("syntacticStatement"), """	var args []Expression
	expr = ctx.relationship()
	for ctx.currentToken == tokenComma {
		ctx.nextToken()
		if args == nil {
			args = make([]Expression, 0, 2)
			args = append(args, expr)
		}
		args = append(args, ctx.relationship())
	}
	if args != nil {
		expr = &commaSeparatedList{LiteralList{Positioned{ctx.locator, expr.ByteOffset(), ctx.Pos() - expr.ByteOffset()}, args}}
	}
	return
""", """	first := ctx.relationship()
	if ctx.currentToken != tokenComma {
		return first
	}
	args := []Expression{first}
	for ctx.currentToken == tokenComma {
		ctx.nextToken()
		args = append(args, ctx.relationship())
	}
	start := first.ByteOffset()
	return &commaSeparatedList{LiteralList{Positioned{ctx.locator, start, ctx.Pos() - start}, args}}
"""))
ref("par-transform-calls", (P_, fn_("transformCalls"), """			var args []Expression
			if csList, ok := expr.(*commaSeparatedList); ok {
				args = csList.elements
			} else {
				args = []Expression{expr}
			}
			cn := ctx.factory.CallNamed(memo, false, args, nil, ctx.locator, memo.ByteOffset(), (expr.ByteOffset()+expr.ByteLength())-memo.ByteOffset())
			if cnFunc, ok := expr.(*CallNamedFunctionExpression); ok {
				cnFunc.rvalRequired = true
			}
			result = append(result, cn)
""", "			result = append(result, ctx.statementCall(memo, expr))\n"),
(P_, "func (ctx *context) assertNoExtraneousCommas(", """func (ctx *context) statementCall(name, arg Expression) Expression {
	args := []Expression{arg}
	switch arg := arg.(type) {
	case *commaSeparatedList:
		args = arg.elements
	case *CallNamedFunctionExpression:
		arg.rvalRequired = true
	}
	end := arg.ByteOffset() + arg.ByteLength()
	return ctx.factory.CallNamed(name, false, args, nil, ctx.locator, name.ByteOffset(), end-name.ByteOffset())
}

func (ctx *context) assertNoExtraneousCommas("""))
ref("par-step-guard", (P_, fn_("step"), """	if ctx.workflow {
		if qn, ok := expr.(*QualifiedName); ok {
			s := qn.Name()
			if style, ok := workflowStyles[s]; ok {
				pos := ctx.Pos()
				if name, ok := ctx.identifier(); ok {
					expr = ctx.stepDeclaration(start, style, name, true)
				} else {
					ctx.SetPos(pos) // not a step, the current token is still the next to parse
				}
			}
		}
	}
	return
""", """	if !ctx.workflow {
		return
	}
	qn, ok := expr.(*QualifiedName)
	if !ok {
		return
	}
	style, ok := workflowStyles[qn.Name()]
	if !ok {
		return
	}
	pos := ctx.Pos()
	name, ok := ctx.identifier()
	if !ok {
		ctx.SetPos(pos)
		return
	}
	return ctx.stepDeclaration(start, style, name, true)
"""))
ref("par-unary-signed", (P_, fn_("unaryExpression"), """		if c, _ := ctx.Peek(); isDecimalDigit(c) {
			ctx.nextToken()
			if ctx.currentToken == tokenInteger {
				ctx.settokenValue(ctx.currentToken, -ctx.tokenValue.(int64))
			} else {
				ctx.settokenValue(ctx.currentToken, -ctx.tokenValue.(float64))
			}
			expr := ctx.primaryExpression()
			expr.updateOffsetAndLength(unaryStart, ctx.Pos()-unaryStart)
			return expr
		}
""", """		if ctx.digitFollows() {
			ctx.nextToken()
			switch v := ctx.tokenValue.(type) {
			case int64:
				ctx.settokenValue(ctx.currentToken, -v)
			case float64:
				ctx.settokenValue(ctx.currentToken, -v)
			}
			return ctx.signed(unaryStart)
		}
"""), (P_, fn_("unaryExpression"), """		if c, _ := ctx.Peek(); isDecimalDigit(c) {
			ctx.nextToken()
			expr := ctx.primaryExpression()
			expr.updateOffsetAndLength(unaryStart, ctx.Pos()-unaryStart)
			return expr
		}
		panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: `+`}))
""", """		if !ctx.digitFollows() {
			panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: `+`}))
		}
		ctx.nextToken()
		return ctx.signed(unaryStart)
"""), (P_, "func (ctx *context) primaryExpression() (", """func (ctx *context) digitFollows() bool {
	c, _ := ctx.Peek()
	return isDecimalDigit(c)
}

func (ctx *context) signed(start int) Expression {
	e := ctx.primaryExpression()
	e.updateOffsetAndLength(start, ctx.Pos()-start)
	return e
}

func (ctx *context) primaryExpression() ("""))
ref("par-atom-literal", (P_, """	case tokenBoolean:
		expr = ctx.factory.Boolean(ctx.tokenValue.(bool), ctx.locator, atomStart, ctx.Pos()-atomStart)
		ctx.nextToken()

	case tokenInteger:
		expr = ctx.factory.Integer(ctx.tokenValue.(int64), ctx.radix, ctx.locator, atomStart, ctx.Pos()-atomStart)
		ctx.nextToken()

	case tokenFloat:
		expr = ctx.factory.Float(ctx.tokenValue.(float64), ctx.locator, atomStart, ctx.Pos()-atomStart)
		ctx.nextToken()

	case tokenString:
		expr = ctx.factory.String(ctx.tokenString(), ctx.locator, atomStart, ctx.Pos()-atomStart)
		ctx.nextToken()

	case tokenAttr, tokenPrivate:
		expr = ctx.factory.ReservedWord(ctx.tokenString(), false, ctx.locator, atomStart, ctx.Pos()-atomStart)
		ctx.nextToken()

	case tokenDefault:
		expr = ctx.factory.Default(ctx.locator, atomStart, ctx.Pos()-atomStart)
		ctx.nextToken()

	case tokenHeredoc, tokenConcatenatedString:
		expr = ctx.tokenValue.(Expression)
		ctx.nextToken()

	case tokenRegexp:
		expr = ctx.factory.Regexp(ctx.tokenString(), ctx.locator, atomStart, ctx.Pos()-atomStart)
		ctx.nextToken()

	case tokenUndef:
		expr = ctx.factory.Undef(ctx.locator, atomStart, ctx.Pos()-atomStart)
		ctx.nextToken()

	case tokenTypeName:
		expr = ctx.factory.QualifiedReference(ctx.tokenString(), ctx.locator, atomStart, ctx.Pos()-atomStart)
		ctx.nextToken()

	case tokenIdentifier:
		expr = ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, atomStart, ctx.Pos()-atomStart)
		ctx.nextToken()
""", """	case tokenBoolean, tokenInteger, tokenFloat, tokenString, tokenAttr, tokenPrivate, tokenDefault,
		tokenHeredoc, tokenConcatenatedString, tokenRegexp, tokenUndef, tokenTypeName, tokenIdentifier:
		expr = ctx.simpleAtom(atomStart, ctx.Pos()-atomStart)
		ctx.nextToken()
"""), (P_, "func (ctx *context) ifExpression(", """func (ctx *context) simpleAtom(start, length int) Expression {
	f, l := ctx.factory, ctx.locator
	switch v := ctx.tokenValue.(type) {
	case bool:
		return f.Boolean(v, l, start, length)
	case int64:
		return f.Integer(v, ctx.radix, l, start, length)
	case float64:
		return f.Float(v, l, start, length)
	case Expression:
		return v
	}
	switch ctx.currentToken {
	case tokenDefault:
		return f.Default(l, start, length)
	case tokenUndef:
		return f.Undef(l, start, length)
	}
	text := ctx.tokenString()
	switch ctx.currentToken {
	case tokenString:
		return f.String(text, l, start, length)
	case tokenRegexp:
		return f.Regexp(text, l, start, length)
	case tokenTypeName:
		return f.QualifiedReference(text, l, start, length)
	case tokenIdentifier:
		return f.QualifiedName(text, l, start, length)
	default:
		return f.ReservedWord(text, false, l, start, length)
	}
}

func (ctx *context) ifExpression("""))
ref("par-if-order", (P_, fn_("ifExpression"), """	var elsePart Expression
	switch ctx.currentToken {
	case tokenElse:
		ctx.nextToken()
		ctx.assertToken(tokenLc)
		ctx.nextToken()
		elsePart = ctx.parse(tokenRc, false)
		ctx.nextToken()
	case tokenElsif:
		if unless {
			panic(ctx.parseIssue(parseElsifInUnless))
		}
		elsePart = ctx.ifExpression(false)
	default:
		elsePart = ctx.factory.Nop(ctx.locator, ctx.tokenStartPos, 0)
	}

	if unless {
		expr = ctx.factory.Unless(condition, thenPart, elsePart, ctx.locator, start, ctx.Pos()-start)
	} else {
		expr = ctx.factory.If(condition, thenPart, elsePart, ctx.locator, start, ctx.Pos()-start)
	}
	return
""", """	construct := ctx.factory.If
	if unless {
		construct = ctx.factory.Unless
	}
	elsePart := ctx.elsePart(unless)
	return construct(condition, thenPart, elsePart, ctx.locator, start, ctx.Pos()-start)
"""), (P_, "func (ctx *context) selectorsExpression(", """func (ctx *context) elsePart(unless bool) Expression {
	if ctx.currentToken == tokenElsif {
		if unless {
			panic(ctx.parseIssue(parseElsifInUnless))
		}
		return ctx.ifExpression(false)
	}
	if ctx.currentToken != tokenElse {
		return ctx.factory.Nop(ctx.locator, ctx.tokenStartPos, 0)
	}
	ctx.nextToken()
	ctx.assertToken(tokenLc)
	ctx.nextToken()
	body := ctx.parse(tokenRc, false)
	ctx.nextToken()
	return body
}

func (ctx *context) selectorsExpression("""))
ref("par-selectors", (P_, fn_("selectorsExpression"), """	var selectors []Expression
	ctx.nextToken()
	needNext := false
	if ctx.currentToken == tokenSelc {
		ctx.nextToken()
		selectors = ctx.expressions(tokenRc, ctx.selectorEntry)
		needNext = true
	} else {
		selectors = []Expression{ctx.selectorEntry()}
	}
	expr = ctx.factory.Select(test, selectors, ctx.locator, test.ByteOffset(), ctx.Pos()-test.ByteOffset())
	if needNext {
		ctx.nextToken()
	}
	return
""", """	ctx.nextToken()
	start := test.ByteOffset()
	if ctx.currentToken != tokenSelc {
		entry := ctx.selectorEntry()
		return ctx.factory.Select(test, []Expression{entry}, ctx.locator, start, ctx.Pos()-start)
	}
	ctx.nextToken()
	selectors := ctx.expressions(tokenRc, ctx.selectorEntry)
	expr = ctx.factory.Select(test, selectors, ctx.locator, start, ctx.Pos()-start)
	ctx.nextToken()
	return
"""))
ref("par-case-loop", (P_, fn_("caseOptions"), """	for {
		exprs = append(exprs, ctx.caseOption())
		if ctx.currentToken == tokenRc {
			return
		}
	}
""", """	exprs = append(exprs, ctx.caseOption())
	for ctx.currentToken != tokenRc {
		exprs = append(exprs, ctx.caseOption())
	}
	return
"""))
ref("par-resource-shape", (P_, fn_("resourceShape"), """	if _, ok := expr.(*QualifiedName); ok {
		return "resource"
	}
	if _, ok := expr.(*QualifiedReference); ok {
		return "defaults"
	}
	if accessExpr, ok := expr.(*AccessExpression); ok {
		if qn, ok := accessExpr.operand.(*QualifiedReference); ok && qn.String() == `Resource` && len(accessExpr.keys) == 1 {
			return "defaults"
		}
		return "override"
	}
	return "error"
""", """	switch e := expr.(type) {
	case *QualifiedName:
		return "resource"
	case *QualifiedReference:
		return "defaults"
	case *AccessExpression:
		if len(e.keys) == 1 {
			if qr, ok := e.operand.(*QualifiedReference); ok && qr.String() == `Resource` {
				return "defaults"
			}
		}
		return "override"
	default:
		return "error"
	}
"""))
ref("par-resource-split", (P_, fn_("resourceExpression"), """			ctx.SetPos(bodiesStart)
			ctx.nextToken()
			ops := ctx.attributeOperations()
			expr = ctx.factory.ResourceDefaults(""", """			ops := ctx.operationsAt(bodiesStart)
			expr = ctx.factory.ResourceDefaults("""), (P_, fn_("resourceExpression"), """			ctx.SetPos(bodiesStart)
			ctx.nextToken()
			ops := ctx.attributeOperations()
			expr = ctx.factory.ResourceOverride(""", """			ops := ctx.operationsAt(bodiesStart)
			expr = ctx.factory.ResourceOverride("""), (P_, "func (ctx *context) resourceShape(", """func (ctx *context) operationsAt(pos int) []Expression {
	ctx.SetPos(pos)
	ctx.nextToken()
	return ctx.attributeOperations()
}

func (ctx *context) resourceShape("""), (P_, fn_("resourceExpression"), """			fqn, ok := first.(*QualifiedName)
			name := ``
			if ok {
				name = fqn.name
				if _, ok := statementCalls[name]; ok {
""", """			name := ``
			if fqn, ok := first.(*QualifiedName); ok {
				name = fqn.name
				if statementCalls[name] {
"""), (P_, fn_("resourceExpression"), """					args := make([]Expression, 1)
					ctx.SetPos(bodiesStart)
					ctx.nextToken()
					args[0] = ctx.factory.Hash(ctx.hashExpression(), ctx.locator, bodiesStart, ctx.Pos()-bodiesStart)
					expr = ctx.factory.CallNamed(first, true, args, nil, ctx.locator, start, ctx.Pos()-start)
""", """					ctx.SetPos(bodiesStart)
					ctx.nextToken()
					entries := ctx.hashExpression()
					hash := ctx.factory.Hash(entries, ctx.locator, bodiesStart, ctx.Pos()-bodiesStart)
					expr = ctx.factory.CallNamed(first, true, []Expression{hash}, nil, ctx.locator, start, ctx.Pos()-start)
"""))
ref("par-bodies-loop", (P_, fn_("resourceBodies"), """	for ctx.currentToken != tokenRc {
		result = append(result, ctx.resourceBody(title))
		if ctx.currentToken != tokenSemicolon {
			break
		}
		ctx.nextToken()
		if ctx.currentToken != tokenRc {
			title = ctx.expression()
		}
	}
	return
""", """	for {
		if ctx.currentToken == tokenRc {
			return
		}
		body := ctx.resourceBody(title)
		result = append(result, body)
		if ctx.currentToken == tokenSemicolon {
			ctx.nextToken()
			if ctx.currentToken == tokenRc {
				return
			}
			title = ctx.expression()
			continue
		}
		return
	}
"""))
ref("par-attribute-loop", (P_, fn_("attributeOperations"), """	for {
		switch ctx.currentToken {
		case tokenSemicolon, tokenRc:
			return
		default:
			result = append(result, ctx.attributeOperation())
			if ctx.currentToken != tokenComma {
				return
			}
			ctx.nextToken()
		}
	}
""", """	for ctx.currentToken != tokenSemicolon && ctx.currentToken != tokenRc {
		result = append(result, ctx.attributeOperation())
		if ctx.currentToken != tokenComma {
			break
		}
		ctx.nextToken()
	}
	return
"""))
ref("par-collect", (P_, fn_("collectExpression"), """		ctx.nextToken()
		var queryExpr Expression
		if ctx.currentToken == tokenRcollect {
			queryExpr = ctx.factory.Nop(ctx.locator, ctx.tokenStartPos, 0)
		} else {
			queryExpr = ctx.expression()
			ctx.assertToken(tokenRcollect)
		}
		ctx.nextToken()
		collectQuery = ctx.factory.VirtualQuery(""", """		queryExpr := ctx.collectQuery(tokenRcollect, func() Expression {
			return ctx.factory.Nop(ctx.locator, ctx.tokenStartPos, 0)
		})
		collectQuery = ctx.factory.VirtualQuery("""), (P_, fn_("collectExpression"), """		ctx.nextToken()
		var queryExpr Expression
		if ctx.currentToken == tokenRrcollect {
			queryExpr = ctx.factory.Nop(ctx.locator, queryStart, ctx.tokenStartPos-queryStart)
		} else {
			queryExpr = ctx.expression()
			ctx.assertToken(tokenRrcollect)
		}
		ctx.nextToken()
		collectQuery = ctx.factory.ExportedQuery(""", """		queryExpr := ctx.collectQuery(tokenRrcollect, func() Expression {
			return ctx.factory.Nop(ctx.locator, queryStart, ctx.tokenStartPos-queryStart)
		})
		collectQuery = ctx.factory.ExportedQuery("""), (P_, "func (ctx *context) typeAliasOrDefinition(", """func (ctx *context) collectQuery(end int, empty func() Expression) (query Expression) {
	ctx.nextToken()
	if ctx.currentToken == end {
		query = empty()
	} else {
		query = ctx.expression()
		ctx.assertToken(end)
	}
	ctx.nextToken()
	return
}

func (ctx *context) typeAliasOrDefinition("""), (P_, fn_("collectExpression"), """	var attributeOps []Expression
	if ctx.currentToken != tokenLc {
		attributeOps = make([]Expression, 0)
	} else {
		ctx.nextToken()
		attributeOps = ctx.attributeOperations()
		ctx.assertToken(tokenRc)
		ctx.nextToken()
	}
""", """	attributeOps := []Expression{}
	if ctx.currentToken == tokenLc {
		ctx.nextToken()
		attributeOps = ctx.attributeOperations()
		ctx.assertToken(tokenRc)
		ctx.nextToken()
	}
"""))
ref("par-namestack", (P_, fn_("planDefinition"), "	ctx.nameStack = append(ctx.nameStack, name)\n", "	ctx.pushName(name)\n"), (P_, fn_("planDefinition"), "	ctx.nameStack = ctx.nameStack[:len(ctx.nameStack)-1]\n", "	ctx.popName()\n"),
    (P_, fn_("classExpression"), "	ctx.nameStack = append(ctx.nameStack, name)\n", "	ctx.pushName(name)\n"), (P_, fn_("classExpression"), "	ctx.nameStack = ctx.nameStack[:len(ctx.nameStack)-1]\n", "	ctx.popName()\n"),
    (P_, "func (ctx *context) qualifiedName(", """func (ctx *context) pushName(name string) {
	ctx.nameStack = append(ctx.nameStack, name)
}

func (ctx *context) popName() {
	top := len(ctx.nameStack) - 1
	ctx.nameStack = ctx.nameStack[:top]
}

func (ctx *context) qualifiedName("""), (P_, fn_("qualifiedName"), "	return strings.Join(append(ctx.nameStack, name), `::`)\n", """	if len(ctx.nameStack) == 0 {
		return name
	}
	return strings.Join(ctx.nameStack, `::`) + `::` + name
"""))
ref("par-hash-entries", (P_, fn_("processHashEntries"), """	result = make([]Expression, 0, len(exprs))
	var collector []Expression
	for _, expr := range exprs {
		if ke, ok := expr.(*KeyedEntry); ok {
			if collector == nil {
				collector = make([]Expression, 0, 8)
			}
			collector = append(collector, ke)
		} else {
			if collector != nil {
				result = append(result, ctx.newHashWithoutBraces(collector))
				collector = nil
			}
			result = append(result, expr)
		}
	}
	if collector != nil {
		result = append(result, ctx.newHashWithoutBraces(collector))
	}
	return
""", """	result = make([]Expression, 0, len(exprs))
	collector := make([]Expression, 0, 8)
	flush := func() {
		if len(collector) > 0 {
			result = append(result, ctx.newHashWithoutBraces(collector))
			collector = make([]Expression, 0, 8)
		}
	}
	for _, expr := range exprs {
		if _, ok := expr.(*KeyedEntry); ok {
			collector = append(collector, expr)
			continue
		}
		flush()
		result = append(result, expr)
	}
	flush()
	return
"""))
ref("par-join-entries", (P_, fn_("joinHashEntries"), """	// Assume that this is a no-op
	result = exprs
	for _, expr := range exprs {
		if _, ok := expr.(*KeyedEntry); ok {
			result = ctx.processHashEntries(exprs)
			break
		}
	}
	return
""", """	for i := range exprs {
		if _, ok := exprs[i].(*KeyedEntry); ok {
			return ctx.processHashEntries(exprs)
		}
	}
	return exprs
"""))
ref("par-parameter", (P_, "	ok := false\n" if False else "func (ctx *context) returnParameters() (", """// optionalType parses the type that may precede the variable of a parameter
func (ctx *context) optionalType() Expression {
	if ctx.currentToken != tokenTypeName {
		return nil
	}
	return ctx.parameterType()
}

func (ctx *context) parameterName() string {
	if ctx.currentToken == tokenVariable {
		if name, ok := ctx.tokenValue.(string); ok {
			ctx.nextToken()
			return name
		}
	}
	panic(ctx.parseIssue(parseExpectedVariable))
}

func (ctx *context) returnParameters() ("""), *[(P_, fn_(f), """	if ctx.currentToken != tokenVariable {
		panic(ctx.parseIssue(parseExpectedVariable))
	}
	variable, ok := ctx.tokenValue.(string)
	if !ok {
		panic(ctx.parseIssue(parseExpectedVariable))
	}
	ctx.nextToken()
""", "	variable := ctx.parameterName()\n") for f in ("parameter", "returnParameter")], (P_, fn_("parameter"), """	var typeExpr, defaultExpression Expression

	start := ctx.tokenStartPos
	if ctx.currentToken == tokenTypeName {
		typeExpr = ctx.parameterType()
	}
""", """	start := ctx.tokenStartPos
	typeExpr := ctx.optionalType()
	var defaultExpression Expression
"""))
ref("par-call-args", (P_, fn_("callFunctionExpression"), """	var args []Expression
	start := functorExpr.ByteOffset()
	end := start + functorExpr.ByteLength()
	if ctx.currentToken != tokenPipe {
		ctx.nextToken()
		args = ctx.arguments()
		end = ctx.Pos()
		ctx.nextToken()
	}
	var block Expression
	if ctx.currentToken == tokenPipe {
		block = ctx.lambda()
		end = block.ByteOffset() + block.ByteLength()
	}
	if namedAccess, ok := functorExpr.(*NamedAccessExpression); ok {
		return ctx.convertLhsToCall(namedAccess, args, block, start, end-start)
	}
	return ctx.factory.CallNamed(functorExpr, true, args, block, ctx.locator, start, end-start)
""", """	endOf := func(e Expression) int { return e.ByteOffset() + e.ByteLength() }
	var args []Expression
	end := endOf(functorExpr)
	switch ctx.currentToken {
	case tokenPipe:
	default:
		ctx.nextToken()
		args = ctx.arguments()
		end = ctx.Pos()
		ctx.nextToken()
	}
	var block Expression
	if ctx.currentToken == tokenPipe {
		block = ctx.lambda()
		end = endOf(block)
	}
	start := functorExpr.ByteOffset()
	switch f := functorExpr.(type) {
	case *NamedAccessExpression:
		return ctx.convertLhsToCall(f, args, block, start, end-start)
	default:
		return ctx.factory.CallNamed(f, true, args, block, ctx.locator, start, end-start)
	}
"""))
ref("par-hostnames", (P_, fn_("hostnames"), """	for {
		hostnames = append(hostnames, ctx.hostname())
		if ctx.currentToken != tokenComma {
			return
		}
		ctx.nextToken()
		switch ctx.currentToken {
		case tokenInherits, tokenLc:
			return
		}
	}
""", """	for more := true; more; {
		hostnames = append(hostnames, ctx.hostname())
		more = ctx.currentToken == tokenComma
		if more {
			ctx.nextToken()
			more = ctx.currentToken != tokenInherits && ctx.currentToken != tokenLc
		}
	}
	return
"""), (P_, fn_("dottedName"), """	names := make([]string, 0, 8)
	for {
		switch ctx.currentToken {
		case tokenIdentifier, tokenTypeName:
			names = append(names, ctx.tokenString())
		case tokenInteger, tokenFloat:
			names = append(names, ctx.From(ctx.tokenStartPos))
		default:
			panic(ctx.parseIssue(parseExpectedNameOrNumberAfterDot))
		}

		ctx.nextToken()
		if ctx.currentToken != tokenDot {
			return ctx.factory.String(strings.Join(names, `.`), ctx.locator, start, ctx.Pos()-start)
		}
		ctx.nextToken()
	}
""", """	name := ``
	for {
		switch ctx.currentToken {
		case tokenIdentifier, tokenTypeName:
			name += ctx.tokenString()
		case tokenInteger, tokenFloat:
			name += ctx.From(ctx.tokenStartPos)
		default:
			panic(ctx.parseIssue(parseExpectedNameOrNumberAfterDot))
		}

		ctx.nextToken()
		if ctx.currentToken != tokenDot {
			break
		}
		ctx.nextToken()
		name += `.`
	}
	return ctx.factory.String(name, ctx.locator, start, ctx.Pos()-start)
"""))
ref("par-class-name", (P_, fn_("className"), """	switch ctx.currentToken {
	case tokenTypeName, tokenIdentifier:
		name = ctx.tokenString()
		ctx.nextToken()
		return
	case tokenString, tokenConcatenatedString:
		ctx.SetPos(ctx.tokenStartPos)
		panic(ctx.parseIssue(parseQuotedNotValidName))
	case tokenClass:
		ctx.SetPos(ctx.tokenStartPos)
		panic(ctx.parseIssue(parseClassNotValidHere))
	default:
		ctx.SetPos(ctx.tokenStartPos)
		panic(ctx.parseIssue(parseExpectedClassName))
	}
""", """	if ctx.currentToken == tokenTypeName || ctx.currentToken == tokenIdentifier {
		name = ctx.tokenString()
		ctx.nextToken()
		return
	}
	code := issue.Code(parseExpectedClassName)
	if ctx.currentToken == tokenClass {
		code = parseClassNotValidHere
	} else if ctx.currentToken == tokenString || ctx.currentToken == tokenConcatenatedString {
		code = parseQuotedNotValidName
	}
	ctx.SetPos(ctx.tokenStartPos)
	panic(ctx.parseIssue(code))
"""))
ref("par-type-body", (P_, """		switch bt := body.(type) {
		case *QualifiedReference:
			if ctx.currentToken == tokenLc {
				hash, ok""", """		objectOf := func(args []Expression) Expression {
			return ctx.factory.Access(ctx.factory.QualifiedReference(`Object`, ctx.locator, bodyStart, 0), args, ctx.locator, bodyStart, ctx.Pos()-bodyStart)
		}
		switch bt := body.(type) {
		case *QualifiedReference:
			if ctx.currentToken == tokenLc {
				hash, ok"""), (P_, "				body = ctx.factory.Access(ctx.factory.QualifiedReference(`Object`, ctx.locator, bodyStart, 0), bt.elements, ctx.locator, bodyStart, ctx.Pos()-bodyStart)\n", "				body = objectOf(bt.elements)\n"),
(P_, "			body = ctx.factory.Access(ctx.factory.QualifiedReference(`Object`, ctx.locator, bodyStart, 0), []Expression{body}, ctx.locator, bodyStart, ctx.Pos()-bodyStart)\n", "			body = objectOf([]Expression{bt})\n"),
(P_, """					hash := ctx.factory.Hash(
						append([]Expression{ctx.factory.KeyedEntry(pref, bt, ctx.locator, bt.ByteOffset(), bt.ByteLength())}, hash.entries...),
						ctx.locator, bodyStart, ctx.Pos()-bodyStart)
					body = ctx.factory.Access(ctx.factory.QualifiedReference(`Object`, ctx.locator, bodyStart, 0), []Expression{hash}, ctx.locator, bodyStart, ctx.Pos()-bodyStart)
""", """					entries := make([]Expression, 0, len(hash.entries)+1)
					entries = append(entries, ctx.factory.KeyedEntry(pref, bt, ctx.locator, bt.ByteOffset(), bt.ByteLength()))
					for _, entry := range hash.entries {
						entries = append(entries, entry)
					}
					body = objectOf([]Expression{ctx.factory.Hash(entries, ctx.locator, bodyStart, ctx.Pos()-bodyStart)})
"""))
ref("par-step-iteration", (P_, """		switch ctx.tokenString() {
		case `times`, `range`, `each`:
			iterFunc := ctx.tokenString()
			nl := len(iterFunc)
""", """		iterFunc := ctx.tokenString()
		switch iterFunc {
		case `times`, `range`, `each`:
			nl := len(iterFunc)
"""), (P_, "			panic(ctx.parseIssue2(parseExpectedIteratorStyle, issue.H{`style`: ctx.tokenString()}))", "			panic(ctx.parseIssue2(parseExpectedIteratorStyle, issue.H{`style`: iterFunc}))"),
(P_, """			iter := f.Hash(
				[]Expression{
					f.KeyedEntry(
						f.QualifiedName(`name`, l, fs, 0),
						f.QualifiedName(iterName, l, fs, nl), l, fs, nl),
					f.KeyedEntry(
						f.QualifiedName(`function`, l, fs, 0),
						f.QualifiedName(iterFunc, l, fs, nl), l, fs, nl),
					f.KeyedEntry(
						f.QualifiedName(`params`, l, ps, 0),
						f.Array(iterParams, l, ps, pl), l, ps, pl),
					f.KeyedEntry(
						f.QualifiedName(`vars`, l, vs, 0),
						f.Array(iterVars, l, vs, vl), l, vs, vl),
				}, l, fs, fn)
""", """			entry := func(key string, value Expression) Expression {
				o, n := value.ByteOffset(), value.ByteLength()
				return f.KeyedEntry(f.QualifiedName(key, l, o, 0), value, l, o, n)
			}
			iter := f.Hash(
				[]Expression{
					entry(`name`, f.QualifiedName(iterName, l, fs, nl)),
					entry(`function`, f.QualifiedName(iterFunc, l, fs, nl)),
					entry(`params`, f.Array(iterParams, l, ps, pl)),
					entry(`vars`, f.Array(iterVars, l, vs, vl)),
				}, l, fs, fn)
"""))
ref("par-deferred", (P_, "		switch et.functor.(type) {\n		case *QualifiedName:\n			n := et.functor.(*QualifiedName).Name()\n			nw := f.QualifiedName(`new`, l, bo, 0)\n", "		switch functor := et.functor.(type) {\n		case *QualifiedName:\n			n := functor.Name()\n			nw := f.QualifiedName(`new`, l, bo, 0)\n"),
    (P_, "			args := append([]Expression{et.functor}, et.arguments...)", "			args := append([]Expression{functor}, et.arguments...)"),
    (P_, "		ve := e.(*VariableExpression)\n		n, _ := ve.Name()\n", "		n, _ := et.Name()\n"))
ref("par-epp-lambda", (P_, """			if l, ok := e.(*LambdaExpression); ok {
				if _, ok = l.body.(*EppExpression); ok {
					return e
				}
			}
			if _, ok := e.(*BlockExpression); !ok {
				e = ctx.factory.Block([]Expression{e}, ctx.locator, 0, ctx.Pos())
			}
			return ctx""", """			switch x := e.(type) {
			case *LambdaExpression:
				if _, isEpp := x.body.(*EppExpression); isEpp {
					return x
				}
				e = ctx.factory.Block([]Expression{x}, ctx.locator, 0, ctx.Pos())
			case *BlockExpression:
			default:
				e = ctx.factory.Block([]Expression{x}, ctx.locator, 0, ctx.Pos())
			}
			return ctx"""), (P_, """		for {
			if ctx.currentToken == tokenEnd {
				expr = asEppLambda(ctx.factory.Block(ctx.transformCalls(expressions, 0), ctx.locator, 0, ctx.Pos()))
				return
			}
			expressions = append(expressions, ctx.expression())
		}
""", """		for ctx.currentToken != tokenEnd {
			expressions = append(expressions, ctx.expression())
		}
		expr = asEppLambda(ctx.factory.Block(ctx.transformCalls(expressions, 0), ctx.locator, 0, ctx.Pos()))
		return
"""))
ref("par-options", (P_, """	ctx := &context{factory: DefaultFactory(), handleBacktickStrings: false, handleHexEscapes: false, tasks: false, workflow: false}
	for _, option := range parserOptions {
		switch option {
		case EppMode:
			ctx.eppMode = true
		case HandleBacktickStrings:
			ctx.handleBacktickStrings = true
		case HandleHexEscapes:
			ctx.handleHexEscapes = true
		case TasksEnabled:
			ctx.tasks = true
		case WorkflowEnabled:
			ctx.workflow = true
		}
	}
	return ctx
""", """	ctx := &context{factory: DefaultFactory()}
	has := func(o Option) bool {
		for i := range parserOptions {
			if parserOptions[i] == o {
				return true
			}
		}
		return false
	}
	ctx.eppMode = has(EppMode)
	ctx.handleBacktickStrings = has(HandleBacktickStrings)
	ctx.handleHexEscapes = has(HandleHexEscapes)
	ctx.tasks = has(TasksEnabled)
	ctx.workflow = has(WorkflowEnabled)
	return ctx
"""))
ref("par-reset", (P_, fn_("Parse"), """	ctx.stringReader = stringReader{text: source}
	ctx.locator = &Locator{string: source, file: filename}
	ctx.definitions = make([]Definition, 0, 8)
	ctx.nameStack = nil
	ctx.nextLineStart = -1
	ctx.beginningOfLine = 0
	ctx.tokenStartPos = 0
	ctx.radix = 0
	ctx.setToken(tokenEnd)
""", "	ctx.reset(filename, source)\n"), (P_, "func (ctx *context) parseTopExpression(", """func (ctx *context) reset(filename, source string) {
	*ctx = context{
		stringReader:          stringReader{text: source},
		locator:               &Locator{string: source, file: filename},
		definitions:           []Definition{},
		nextLineStart:         -1,
		factory:               ctx.factory,
		eppMode:               ctx.eppMode,
		handleBacktickStrings: ctx.handleBacktickStrings,
		handleHexEscapes:      ctx.handleHexEscapes,
		tasks:                 ctx.tasks,
		workflow:              ctx.workflow,
	}
	ctx.setToken(tokenEnd)
}

func (ctx *context) parseTopExpression("""))
