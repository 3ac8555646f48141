exec(open("/verif/tools/bugs/b1.py").read().split("E_ =")[0])
P_ = "parser/parser.go"
L_ = "parser/lexer.go"
PNS = PAR.replace('import "testing"', 'import (\n\t"testing"\n\t"time"\n\n\t"github.com/lyraproj/issue/issue"\n)\n\nvar _ issue.Reported\nvar _ = time.Second') + '''
func demoPN(t *testing.T, src string, opts ...Option) string {
	return demoParse(t, src, opts...).ToPN().String()
}

func demoErr(t *testing.T, src string, opts ...Option) issue.Reported {
	_, err := CreateParser(opts...).Parse("", src, false)
	if err == nil {
		t.Fatal("accepted", src)
	}
	return err.(issue.Reported)
}
'''

bug("merge-hash-alias", "C17", "parser", [(P_, "				result = append(result, ctx.newHashWithoutBraces(collector))\n				collector = nil\n			}\n			result = append(result, expr)",
  "				result = append(result, ctx.newHashWithoutBraces(collector))\n				collector = collector[:0:cap(collector)]\n			}\n			result = append(result, expr)"),
  (P_, "	if collector != nil {\n		result = append(result, ctx.newHashWithoutBraces(collector))\n	}\n	return", "	if len(collector) > 0 {\n		result = append(result, ctx.newHashWithoutBraces(collector))\n	}\n	return"),
  (P_, "			if collector != nil {\n				result", "			if len(collector) > 0 {\n				result")], PNS + '''
func TestDemo(t *testing.T) {
	if s := demoPN(t, "$x = [a => 1, 2, b => 3]"); s != `(block (= (var "x") (array (hash (=> (qn "a") 1)) 2 (hash (=> (qn "b") 3)))))` {
		t.Fatal(s)
	}
}
''', "a list with two runs of key value pairs separated by another element", "the first hash gets the entries of the second")

bug("node-comma-inherits", "C17", "parser", [(P_, "		case tokenInherits, tokenLc:\n			return\n		}", "		case tokenLc:\n			return\n		}")], PNS + '''
func TestDemo(t *testing.T) {
	demoPN(t, "node a, inherits b { }")
}
''', "a node with a comma after its last name and a parent", "a trailing comma before inherits is refused")

bug("selector-rparen-case", "C17", "parser", [(P_, "	case tokenLp, tokenWslp:\n		ctx.nextToken()\n		expr = ctx.factory.Parenthesized(ctx.relationship()", "	case tokenLp, tokenWslp:\n		ctx.nextToken()\n		expr = ctx.factory.Parenthesized(ctx.assignment()")], PNS + '''
func TestDemo(t *testing.T) {
	demoPN(t, "$x = (A['a'] -> B['b'])")
}
''', "a relationship in parentheses", "a relationship in parentheses is refused")

bug("unfold-in", "C18", "parser", [(P_, "		expr := ctx.unaryExpression()\n		return ctx.factory.Unfold(", "		expr := ctx.inExpression()\n		return ctx.factory.Unfold(")], PNS + '''
func TestDemo(t *testing.T) {
	if s := demoPN(t, "$x = [*$a in $b]"); s != `(block (= (var "x") (array (in (unfold (var "a")) (var "b")))))` {
		t.Fatal(s)
	}
}
''', "an unfold followed by in", "unfold binds looser than in")

bug("match-in", "C18", "parser", [(P_, "ctx.factory.Match(op, expr, ctx.inExpression(), ctx.locator", "ctx.factory.Match(op, expr, ctx.unaryExpression(), ctx.locator"),
   (P_, "			expr = ctx.factory.In(expr, ctx.unaryExpression()", "			expr = ctx.factory.In(expr, ctx.matchTail(ctx.unaryExpression())"),
   (P_, "func (ctx *context) inExpression() (expr Expression) {\n	expr = ctx.unaryExpression()\n", "func (ctx *context) matchTail(expr Expression) Expression {\n	return expr\n}\n\nfunc (ctx *context) inExpression() (expr Expression) {\n	expr = ctx.unaryExpression()\n"),
   (P_, "	expr = ctx.inExpression()\n	for {\n		t := ctx.currentToken\n		switch t {\n", "	expr = ctx.inExpression()\n	for {\n		t := ctx.currentToken\n		switch t {\n		case tokenIn:\n			ctx.nextToken()\n			expr = ctx.factory.In(expr, ctx.unaryExpression(), ctx.locator, expr.ByteOffset(), ctx.Pos()-expr.ByteOffset())\n")], PNS + '''
func TestDemo(t *testing.T) {
	if s := demoPN(t, "$a =~ $b in $c"); s != `(block (=~ (var "a") (in (var "b") (var "c"))))` {
		t.Fatal(s)
	}
}
''', "in as the right operand of a match", "in does not bind tighter than match to its right")

bug("param-start-type", "C19", "parser", [(P_, "	start := ctx.tokenStartPos\n	if ctx.currentToken == tokenTypeName {\n		typeExpr = ctx.parameterType()\n	}\n\n	capturesRest", "	if ctx.currentToken == tokenTypeName {\n		typeExpr = ctx.parameterType()\n	}\n\n	start := ctx.tokenStartPos\n	capturesRest")], PNS + '''
func TestDemo(t *testing.T) {
	demoParse(t, "class a(Integer $b) {}").AllContents(nil, func(_ []Expression, e Expression) {
		if p, ok := e.(*Parameter); ok && p.ByteOffset() != 8 {
			t.Fatal(p.ByteOffset(), p.ByteLength())
		}
	})
}
''', "a parameter with a type", "the extent of a typed parameter leaves its type out")

bug("lambda-call-end", "C19", "parser", [(P_, "		block = ctx.lambda()\n		end = block.ByteOffset() + block.ByteLength()\n", "		block = ctx.lambda()\n		if end == start+functorExpr.ByteLength() {\n			end = block.ByteOffset() + block.ByteLength()\n		}\n")], PNS + '''
func TestDemo(t *testing.T) {
	demoParse(t, "foo(1) |$x| { 2 }\\n").AllContents(nil, func(_ []Expression, e Expression) {
		if p, ok := e.(*CallNamedFunctionExpression); ok && p.ByteLength() != 17 {
			t.Fatal(p.ByteOffset(), p.ByteLength())
		}
	})
}
''', "a call with both arguments and a lambda", "the extent of a call with arguments leaves its lambda out")

bug("plan-name-location", "C20", "parser", [(P_, "		ctx.SetPos(ctx.tokenStartPos)\n		panic(ctx.parseIssue(parseExpectedNameAfterPlan))", "		panic(ctx.parseIssue(parseExpectedNameAfterPlan))")], PNS + '''
func TestDemo(t *testing.T) {
	e := demoErr(t, "plan\\n 'b'\\n\\n { }", TasksEnabled)
	if e.Code() != parseExpectedNameAfterPlan || e.Location().Line() != 2 || e.Location().Pos() != 2 {
		t.Fatal(e)
	}
}
''', "a plan named by a string", "the error is located after the token")

bug("quoted-class-name", "C20", "parser", [(P_, "	case tokenString, tokenConcatenatedString:\n		ctx.SetPos(", "	case tokenString:\n		ctx.SetPos(")], PNS + '''
func TestDemo(t *testing.T) {
	if e := demoErr(t, `class "a${b}" { }`); e.Code() != parseQuotedNotValidName {
		t.Fatal(e)
	}
}
''', "a class named by an interpolated string", "the error does not say that a name cannot be quoted")

bug("namestack-inherits", "C21", "parser", [(P_, "	// Pop namestack\n	ctx.nameStack = ctx.nameStack[:len(ctx.nameStack)-1]\n	return ctx.addDefinition(ctx.factory.Class(", "	// Pop namestack\n	if parent != name {\n		ctx.nameStack = ctx.nameStack[:len(ctx.nameStack)-1]\n	}\n	return ctx.addDefinition(ctx.factory.Class(")], PNS + '''
func TestDemo(t *testing.T) {
	p := demoParse(t, "class a { class b inherits b { } class c { } }").(*Program)
	if n := p.Definitions()[1].(*HostClassDefinition).Name(); n != "a::c" {
		t.Fatal(n)
	}
}
''', "a class that inherits from a class with its own short name", "the namespace does not end with the body of the class")

bug("typemapping-def", "C21", "parser", [(P_, "				return ctx.addDefinition(ctx.factory.TypeMapping(typeExpr, ctx.expression(), ctx.locator, start, ctx.Pos()-start))", "				tm := ctx.factory.TypeMapping(typeExpr, ctx.expression(), ctx.locator, start, ctx.Pos()-start)\n				if len(ctx.nameStack) > 0 {\n					return tm\n				}\n				return ctx.addDefinition(tm)")], PNS + '''
func TestDemo(t *testing.T) {
	p := demoParse(t, "class a { type Runtime[ruby, 'X'] = Y }").(*Program)
	if len(p.Definitions()) != 2 {
		t.Fatal(p.Definitions())
	}
}
''', "a type mapping inside a class", "the program does not list the mapping")

bug("iter-var-number", "C06", "parser", [(P_, "		name := ctx.tokenString()\n		ctx.nextToken()\n		if ctx.currentToken == tokenLc {\n			// Class resource", "		name := ctx.tokenValue.(string)\n		ctx.nextToken()\n		if ctx.currentToken == tokenLc {\n			// Class resource"),
  (P_, "	body := ctx.parse(tokenRc, false)\n	ctx.nextToken()\n	var def Expression\n	if resourceToken", "	body := ctx.parse(tokenRc, false)\n	ctx.nextToken()\n	var def Expression\n	if parameterList[:1][0] = parameterList[0]; resourceToken")] if 0 else
  [(P_, "	if nal, ok := ne.lhs.(*NamedAccessExpression); ok {\n		ne = f.NamedAccess(", "	if nal, ok := ne.lhs.(*NamedAccessExpression); ok && nal.rhs.(*QualifiedName).name != `` {\n		ne = f.NamedAccess(")], PNS + '''
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	CreateParser().Parse("", "$a.'b'.c", false)
}
''', "a chain of method calls where an inner one is not named by an identifier", "the parser panics")

bug("class-default-parent", "C06", "parser", [(P_, "	switch expr.(type) {\n		case *QualifiedName, *QualifiedReference, *ReservedWord, *AccessExpression:", "	switch expr.(type) {\n		case *QualifiedName, *QualifiedReference, *ReservedWord, *AccessExpression:")] if 0 else
  [(P_, "			f := csl.elements[0]\n			p := f.ByteOffset() + f.ByteLength()", "			f := csl.elements[0]\n			if q, ok := f.(*CallNamedFunctionExpression); ok {\n				f = q.arguments[len(q.arguments)-1]\n			}\n			p := f.ByteOffset() + f.ByteLength()")], PNS + '''
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	CreateParser().Parse("", "foo(), 2", false)
}
''', "a comma after a call without arguments", "the parser panics")

bug("activities-semicolon", "C25", "parser", [(P_, "	for ctx.currentToken != tokenRc {\n		activities = append(activities, ctx.stepExpression())\n	}", "	for ctx.currentToken != tokenRc {\n		if ctx.currentToken == tokenEnd {\n			continue\n		}\n		activities = append(activities, ctx.stepExpression())\n	}")], PNS + '''
func TestDemo(t *testing.T) {
	done := make(chan int)
	go func() {
		CreateParser(WorkflowEnabled).Parse("", "workflow a { } {", false)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("does not end")
	}
}
''', "a workflow whose body is not closed", "parsing does not end")

bug("transform-calls-loop", "C25", "parser", [(P_, "	expressions := make([]Expression, 0, 10)\n	for ctx.currentToken != expectedEnd {\n		expressions = append(expressions, ctx.syntacticStatement())\n", "	expressions := make([]Expression, 0, 10)\n	for ctx.currentToken != expectedEnd {\n		if ctx.currentToken == tokenRshift && len(expressions) > 1 {\n			expressions = expressions[:len(expressions)-1]\n			ctx.SetPos(ctx.tokenStartPos)\n			ctx.nextToken()\n			continue\n		}\n		expressions = append(expressions, ctx.syntacticStatement())\n")] if 0 else
  [(P_, "		names = append(names, ctx.tokenString())\n		case tokenInteger", "		names = append(names, ctx.tokenString())\n		case tokenInteger")] if 0 else
  [(P_, "	for {\n		exprs = append(exprs, ctx.caseOption())\n		if ctx.currentToken == tokenRc {\n			return\n		}\n	}", "	for {\n		exprs = append(exprs, ctx.caseOption())\n		for ctx.currentToken == tokenSemicolon {\n			if ctx.nextToken(); ctx.currentToken != tokenRc {\n				ctx.setToken(tokenSemicolon)\n			}\n		}\n		if ctx.currentToken == tokenRc {\n			return\n		}\n	}")], PNS + '''
func TestDemo(t *testing.T) {
	done := make(chan int)
	go func() {
		CreateParser().Parse("", "case $x { 1: { } ;", false)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("does not end")
	}
}
''', "a semicolon after a case option in a source that ends too early", "parsing does not end")
