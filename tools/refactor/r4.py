E_ = "parser/expression.go"; P_ = "pn/pn.go"; Q_ = "pn/quote.go"; L_ = "literal/literal.go"; M_ = "parse/parser.go"; R_ = "parser/reader.go"; F_ = "parser/factory.go"; B_ = "parser/label.go"
call_old = lambda inv, call: """	s := `%s`
	if e.RvalRequired() {
		s = `%s`
	}
	entries := []pn.Entry{e.Functor().ToPN().WithName(`functor`), pnList(e.Arguments()).WithName(`args`)}
	if e.Lambda() != nil {
		entries = append(entries, e.Lambda().ToPN().WithName(`block`))
	}
	return pn.Map(entries).AsCall(s)
}
""" % (inv, call)
ref("ast-callpn", (E_, "func (e *CallFunctionExpression) ToPN", call_old("invoke-lambda", "call-lambda"), """	return e.callPN(`lambda`)
}
"""), (E_, "func (e *CallMethodExpression) ToPN", call_old("invoke-method", "call-method"), """	return e.callPN(`method`)
}
"""), (E_, "func (e *CallNamedFunctionExpression) ToPN", call_old("invoke", "call"), """	return e.callPN(``)
}

// callPN is shared by all calls
func (c *callExpression) callPN(suffix string) pn.PN {
	words := make([]string, 0, 2)
	if c.rvalRequired {
		words = append(words, `call`)
	} else {
		words = append(words, `invoke`)
	}
	if suffix != `` {
		words = append(words, suffix)
	}
	entries := make([]pn.Entry, 2, 3)
	entries[1] = pnList(c.arguments).WithName(`args`)
	entries[0] = c.functor.ToPN().WithName(`functor`)
	if c.lambda == nil {
		return pn.Map(entries).AsCall(strings.Join(words, `-`))
	}
	return pn.Map(append(entries, c.lambda.ToPN().WithName(`block`))).AsCall(strings.Join(words, `-`))
}
"""))
ref("ast-callpn-plain", (E_, "func (e *CallFunctionExpression) ToPN", call_old("invoke-lambda", "call-lambda"), """	return callPN(e, `invoke-lambda`, `call-lambda`, e.RvalRequired())
}
"""), (E_, "func (e *CallMethodExpression) ToPN", call_old("invoke-method", "call-method"), """	return callPN(e, `invoke-method`, `call-method`, e.RvalRequired())
}
"""), (E_, "func (e *CallNamedFunctionExpression) ToPN", call_old("invoke", "call"), """	return callPN(e, `invoke`, `call`, e.RvalRequired())
}

func callPN(e CallExpression, invoke, call string, rval bool) pn.PN {
	name := invoke
	if rval {
		name = call
	}
	var entries []pn.Entry
	add := func(n string, p pn.PN) {
		entries = append(entries, p.WithName(n))
	}
	add(`functor`, e.Functor().ToPN())
	add(`args`, pnList(e.Arguments()))
	if l := e.Lambda(); l != nil {
		add(`block`, l.ToPN())
	}
	return pn.Map(entries).AsCall(name)
}
"""))
ref("ast-visit", (E_, """	childPath := append(path, e)
	for _, child := range children {
		if expr, ok := child.(Expression); ok {
			visitor(childPath, expr)
			expr.AllContents(childPath, visitor)
		} else if exprs, ok := child.([]Expression); ok {
			for _, expr := range exprs {
				visitor(childPath, expr)
				expr.AllContents(childPath, visitor)
			}
		}
	}
}
""", """	visitChildren(append(path, e), visitor, true, children)
}

func visitChildren(path []Expression, visitor PathVisitor, deep bool, children []interface{}) {
	for i := 0; i < len(children); i++ {
		var es []Expression
		switch c := children[i].(type) {
		case nil:
			continue
		case []Expression:
			es = c
		case Expression:
			es = []Expression{c}
		}
		for _, x := range es {
			visitor(path, x)
			if deep {
				x.AllContents(path, visitor)
			}
		}
	}
}
"""), (E_, """	childPath := append(path, e)
	for _, child := range children {
		if expr, ok := child.(Expression); ok {
			visitor(childPath, expr)
		} else if exprs, ok := child.([]Expression); ok {
			for _, expr := range exprs {
				visitor(childPath, expr)
			}
		}
	}
}
""", """	visitChildren(append(path, e), visitor, false, children)
}
"""))
ref("ast-visit-closure", (E_, "func DeepVisit", """	childPath := append(path, e)
	for _, child := range children {
		if expr, ok := child.(Expression); ok {
			visitor(childPath, expr)
			expr.AllContents(childPath, visitor)
		} else if exprs, ok := child.([]Expression); ok {
			for _, expr := range exprs {
				visitor(childPath, expr)
				expr.AllContents(childPath, visitor)
			}
		}
	}
}
""", """	ShallowVisit(e, path, func(p []Expression, x Expression) {
		visitor(p, x)
		x.AllContents(p, visitor)
	}, children...)
}
"""))
ref("ast-path-copy", (E_, "func DeepVisit", "	childPath := append(path, e)\n", """	childPath := make([]Expression, len(path)+1)
	copy(childPath, path)
	childPath[len(path)] = e
"""))
ref("ast-params", (E_, "func parametersEntry", """	params := make([]pn.Entry, len(parameters))
	for idx, param := range parameters {
		p, _ := param.(*Parameter)
		entries := make([]pn.Entry, 0, 3)
		if p.Type() != nil {
			entries = append(entries, p.Type().ToPN().WithName(`type`))
		}
		if p.CapturesRest() {
			entries = append(entries, pn.Literal(true).WithName(`splat`))
		}
		if p.Value() != nil {
			entries = append(entries, p.Value().ToPN().WithName(`value`))
		}
		params[idx] = pn.Map(entries).WithName(p.Name())
	}
	return pn.Map(params).WithName(`params`)
}
""", """	params := make([]pn.Entry, 0, len(parameters))
	for _, param := range parameters {
		if p, ok := param.(*Parameter); ok {
			params = append(params, pn.Map(p.entries(nil)).WithName(p.name))
		}
	}
	return pn.Map(params).WithName(`params`)
}

// entries appends what describes the parameter, except its name
func (e *Parameter) entries(to []pn.Entry) []pn.Entry {
	if t := e.typeExpr; t != nil {
		to = append(to, t.ToPN().WithName(`type`))
	}
	if e.capturesRest {
		to = append(to, pn.Literal(true).WithName(`splat`))
	}
	if v := e.value; v != nil {
		to = append(to, v.ToPN().WithName(`value`))
	}
	return to
}
"""), (E_, """	entries := make([]pn.Entry, 0, 3)
	entries = append(entries, pn.Literal(e.Name()).WithName(`name`))
	if e.Type() != nil {
		entries = append(entries, e.Type().ToPN().WithName(`type`))
	}
	if e.CapturesRest() {
		entries = append(entries, pn.Literal(true).WithName(`splat`))
	}
	if e.Value() != nil {
		entries = append(entries, e.Value().ToPN().WithName(`value`))
	}
	return pn.Map(entries).AsCall(`param`)
""", """	return pn.Map(e.entries([]pn.Entry{pn.Literal(e.name).WithName(`name`)})).AsCall(`param`)
"""))
ref("ast-pnif", (E_, """	entries := make([]pn.Entry, 0, 3)
	entries = append(entries, e.Test().ToPN().WithName(`test`))
	if !e.Then().IsNop() {
		entries = append(entries, pnBlockAsEntry(`then`, e.Then()))
	}
	if !e.Else().IsNop() {
		entries = append(entries, pnBlockAsEntry(`else`, e.Else()))
	}
	return pn.Map(entries).AsCall(name)
""", """	entries := []pn.Entry{e.test.ToPN().WithName(`test`)}
	for i, b := range []Expression{e.then, e.elseExpr} {
		if _, nop := b.(*Nop); nop || b.IsNop() {
			continue
		}
		entries = append(entries, pnBlockAsEntry([2]string{`then`, `else`}[i], b))
	}
	return pn.Map(entries).AsCall(name)
"""))
ref("ast-definition", (E_, """	entries := make([]pn.Entry, 0, 3)
	entries = append(entries, pn.Literal(e.Name()).WithName(`name`))
	if parent != `` {
		entries = append(entries, pn.Literal(parent).WithName(`parent`))
	}
	if len(e.Parameters()) > 0 {
		entries = append(entries, parametersEntry(e.Parameters()))
	}
	if e.Body() != nil {
		entries = append(entries, pnBlockAsEntry(`body`, e.Body()))
	}
	if returnType != nil {
		entries = append(entries, returnType.ToPN().WithName(`returns`))
	}
	return pn.Map(entries).AsCall(typeName)
""", """	var params, body, returns pn.Entry
	if returnType != nil {
		returns = returnType.ToPN().WithName(`returns`)
	}
	if b := e.body; b != nil {
		body = pnBlockAsEntry(`body`, b)
	}
	if len(e.parameters) != 0 {
		params = parametersEntry(e.parameters)
	}
	entries := []pn.Entry{pn.Literal(e.name).WithName(`name`)}
	if len(parent) > 0 {
		entries = append(entries, pn.Literal(parent).WithName(`parent`))
	}
	for _, entry := range []pn.Entry{params, body, returns} {
		if entry != nil {
			entries = append(entries, entry)
		}
	}
	return pn.Map(entries).AsCall(typeName)
"""))
ref("ast-pnmap", (E_, """	result := make([]pn.PN, len(elements))
	for idx, element := range elements {
		result[idx] = element.ToPN()
	}
	return result
""", """	result := make([]pn.PN, 0, len(elements))
	for i := 0; i < len(elements); i++ {
		result = append(result, elements[i].ToPN())
	}
	return result
"""), (E_, """	if block, ok := expr.(*BlockExpression); ok {
		return pnList(block.Statements()).WithName(name)
	}
	return pn.List(pnMapArgs(expr)).WithName(name)
""", """	statements := []Expression{expr}
	switch b := expr.(type) {
	case *BlockExpression:
		statements = b.statements
	}
	return pnList(statements).WithName(name)
"""))
ref("ast-query", (E_, "func (e *VirtualQuery) ToPN", """	if e.Expr().IsNop() {
		return pn.Call(`virtual-query`)
	}
	return pn.Call(`virtual-query`, e.Expr().ToPN())
}
""", """	return queryPN(`virtual`, e.expr)
}

func queryPN(kind string, e Expression) pn.PN {
	args := make([]pn.PN, 0, 1)
	if !e.IsNop() {
		args = append(args, e.ToPN())
	}
	return pn.Call(kind+`-query`, args...)
}
"""), (E_, "func (e *ExportedQuery) ToPN", """	if e.Expr().IsNop() {
		return pn.Call(`exported-query`)
	}
	return pn.Call(`exported-query`, e.Expr().ToPN())
""", """	return queryPN(`exported`, e.expr)
"""))
ref("ast-hash-get", (E_, """		ek := ex.Key()
		switch ek := ek.(type) {
		case *LiteralString:
			if ek.value == key {
				return ex.Value()
			}
		case *QualifiedName:
			if ek.name == key {
				return ex.Value()
			}
		case *QualifiedReference:
			if ek.name == key {
				return ex.Value()
			}
		}
	}
	return nil
}
""", """		if text, ok := keyText(ex.key); ok && text == key {
			return ex.value
		}
	}
	return nil
}

// keyText returns the text of a key that is a plain word or string
func keyText(e Expression) (string, bool) {
	if s, ok := e.(*LiteralString); ok {
		return s.value, true
	}
	if n, ok := e.(NameExpression); ok {
		switch e.(type) {
		case *QualifiedName, *QualifiedReference:
			return n.Name(), true
		}
	}
	return ``, false
}
"""))
ref("ast-variable", (E_, """	var ix *LiteralInteger
	if ix, ok = e.expr.(*LiteralInteger); ok {
		index = ix.value
	}
	return
""", """	ix, ok := e.expr.(*LiteralInteger)
	if !ok {
		return 0, false
	}
	return ix.Int(), true
"""), (E_, """	var qn *QualifiedName
	if qn, ok = e.expr.(*QualifiedName); ok {
		name = qn.name
	}
	return
""", """	switch x := e.expr.(type) {
	case *QualifiedName:
		return x.Name(), true
	default:
		return ``, false
	}
"""), (E_, """	if qn, ok := e.expr.(*QualifiedName); ok {
		return qn.name
	}
	return e.expr.(*LiteralInteger).value
""", """	if name, ok := e.Name(); ok {
		return name
	}
	index, _ := e.Index()
	return index
"""))
ref("ast-locator", (E_, """		li := append(make([]int, 0, 32), 0)
		for i := 0; i < len(e.string); i++ {
			if e.string[i] == '\\n' {
				li = append(li, i+1)
			}
		}
		e.lineIndex = li
""", """		e.lineIndex = []int{0}
		for i, c := range []byte(e.string) {
			if c == '\\n' {
				e.lineIndex = append(e.lineIndex, i+1)
			}
		}
"""), (E_, """	li := e.getLineIndex()
	line := sort.SearchInts(li, offset+1)
	lineStart := li[line-1]
	if offset == lineStart {
		return 0
	}
	if offset > len(e.string) {
		offset = len(e.string)
	}
	return utf8.RuneCountInString(e.string[lineStart:offset])
""", """	lineStart := e.getLineIndex()[e.LineForOffset(offset)-1]
	if lineStart == offset {
		return 0
	}
	end := offset
	if end > len(e.string) {
		end = len(e.string)
	}
	return utf8.RuneCountInString(e.string[lineStart:end])
"""))
ref("ast-line-strings", (E_, """		for i := 0; i < len(e.string); i++ {
			if e.string[i] == '\\n' {
				li = append(li, i+1)
			}
		}
""", """		at := 0
		for {
			n := strings.IndexByte(e.string[at:], '\\n')
			if n < 0 {
				break
			}
			at += n + 1
			li = append(li, at)
		}
"""))
ref("pn-format", (P_, """	top := len(elements)
	if top > 0 {
		elements[0].Format(b)
		for idx := 1; idx < top; idx++ {
			b.WriteByte(' ')
			elements[idx].Format(b)
		}
	}
}
""", """	for i, e := range elements {
		if i > 0 {
			b.WriteString(" ")
		}
		e.Format(b)
	}
}
"""), (P_, """	if top := len(pn.entries); top > 0 {
		formatEntry(pn.entries[0], b)
		for idx := 1; idx < top; idx++ {
			b.WriteByte(' ')
			formatEntry(pn.entries[idx], b)
		}
	}
	b.WriteByte('}')
}
""", """	sep := ``
	for _, entry := range pn.entries {
		b.WriteString(sep)
		formatEntry(entry, b)
		sep = ` `
	}
	b.WriteByte('}')
}
"""), (P_, """	b.WriteByte('(')
	b.WriteString(pn.name)
	if len(pn.elements) > 0 {
		b.WriteByte(' ')
		formatElements(pn.elements, b)
	}
	b.WriteByte(')')
""", """	b.WriteString(`(` + pn.name)
	for _, e := range pn.elements {
		b.WriteRune(' ')
		e.Format(b)
	}
	b.WriteByte(')')
"""))
ref("pn-data", (P_, """	top := len(pn.elements)
	args := make([]interface{}, 0, top+1)
	args = append(args, pn.name)
	if top > 0 {
		params := pn.listPN.ToData()
		args = append(args, params.([]interface{})...)
	}
	return map[string]interface{}{`^`: args}
""", """	args := make([]interface{}, len(pn.elements)+1)
	args[0] = pn.name
	for i, e := range pn.elements {
		args[i+1] = e.ToData()
	}
	result := make(map[string]interface{}, 1)
	result[`^`] = args
	return result
"""), (P_, """	top := len(pn.entries) * 2
	args := make([]interface{}, 0, top)
	for _, entry := range pn.entries {
		args = append(args, entry.Key(), entry.Value().ToData())
	}
	return map[string]interface{}{`#`: args}
""", """	args := make([]interface{}, 2*len(pn.entries))
	for i := range pn.entries {
		args[2*i], args[2*i+1] = pn.entries[i].Key(), pn.entries[i].Value().ToData()
	}
	return map[string]interface{}{`#`: args}
"""))
ref("pn-literal", (P_, """	switch pn.val.(type) {
	case nil:
		b.WriteString(`nil`)
	case string:
		DoubleQuote(pn.val.(string), b)
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		Fprintf(b, `%d`, pn.val)
""", """	switch v := pn.val.(type) {
	case nil:
		b.WriteString(`nil`)
	case string:
		DoubleQuote(v, b)
	case int64:
		b.WriteString(fmt.Sprintf("%d", v))
	case int, int8, int16, int32, uint, uint8, uint16, uint32, uint64:
		Fprintf(b, `%d`, pn.val)
"""), (P_, """	case bool:
		Fprintf(b, `%t`, pn.val)
""", """	case bool:
		if v {
			b.WriteString(`true`)
		} else {
			b.WriteString(`false`)
		}
"""))
ref("pn-literal-if", (P_, """	case string:
		DoubleQuote(pn.val.(string), b)
""", """	case string:
		b.WriteString(quoted(pn.val.(string)))
"""), (P_, """func formatElements(""", """func quoted(s string) string {
	b := bytes.NewBufferString(``)
	DoubleQuote(s, b)
	return b.String()
}

func formatElements("""))
ref("pn-quote", (Q_, """	b.WriteByte('"')
	for _, c := range str {
		switch c {
		case '\\t':
			b.WriteString(`\\t`)
		case '\\n':
			b.WriteString(`\\n`)
		case '\\r':
			b.WriteString(`\\r`)
		case '"':
			b.WriteString(`\\"`)
		case '\\\\':
			b.WriteString(`\\\\`)
		default:
			if c < 0x20 {
				Fprintf(b, `\\o%3.3o`, c)
			} else {
				b.WriteRune(c)
			}
		}
	}
	b.WriteByte('"')
}
""", """	b.WriteByte('"')
	for _, c := range str {
		quoteRune(c, b)
	}
	b.WriteByte('"')
}

var escapes = map[rune]string{'\\t': `\\t`, '\\n': `\\n`, '\\r': `\\r`, '"': `\\"`, '\\\\': `\\\\`}

func quoteRune(c rune, b *bytes.Buffer) {
	if s, ok := escapes[c]; ok {
		b.WriteString(s)
	} else if c >= ' ' {
		b.WriteRune(c)
	} else {
		Fprintf(b, `\\o%03o`, c)
	}
}
"""))
ref("pn-quote-switch", (Q_, """		switch c {
		case '\\t':
""", """		switch {
		case c == '"' || c == '\\\\':
			b.WriteByte('\\\\')
			b.WriteRune(c)
			continue
		}
		switch c {
		case '\\t':
"""), (Q_, """		case '"':
			b.WriteString(`\\"`)
		case '\\\\':
			b.WriteString(`\\\\`)
""", ""))
ref("pn-key", (P_, """	for _, e := range entries {
		if !keyPattern.MatchString(e.Key()) {
			panic(&pnError{fmt.Sprintf("key '%s' does not conform to pattern %s",
				e.Key(), keyPattern.String())})
		}
	}
""", """	for _, e := range entries {
		checkKey(e.Key())
	}
"""), (P_, """func Literal(""", """func checkKey(key string) {
	if keyPattern.MatchString(key) {
		return
	}
	panic(&pnError{message: "key '" + key + "' does not conform to pattern " + keyPattern.String()})
}

func Literal("""))
ref("ast-label", (B_, """func (e *ArithmeticExpression) Label() string        { return fmt.Sprintf("'%s' expression", e.operator) }""", """func (e *ArithmeticExpression) Label() string        { return operatorLabel(e.operator) }

func operatorLabel(op string) string {
	return "'" + op + "' expression"
}
"""), (B_, """func (e *AssignmentExpression) Label() string        { return fmt.Sprintf("'%s' expression", e.operator) }""", """func (e *AssignmentExpression) Label() string        { return "'" + e.operator + "' expression" }"""),
 (B_, """{ return fmt.Sprintf("Reserved Word '%s'", e.word) }""", """{ return "Reserved Word '" + e.word + "'" }"""))
ref("lit-ok", (L_, """	defer func() {
		if err := recover(); err != nil {
			if err == notLiteral {
				ok = false
			} else {
				panic(err)
			}
		}
	}()

	value = toLiteral(e)
	ok = true
	return
}
""", """	value, ok = convert(e)
	return
}
"""), (L_, """func toLiteral(e parser.Expression) interface{} {
	switch e := e.(type) {
	case *parser.Program:
		return toLiteral(e.Body())
	case *parser.LiteralList:
		elements := e.Elements()
		result := make([]interface{}, len(elements))
		for idx, elem := range elements {
			result[idx] = toLiteral(elem)
		}
		return result
	case *parser.LiteralHash:
		entries := e.Entries()
		result := make(map[interface{}]interface{}, len(entries))
		for _, entry := range entries {
			kh := entry.(*parser.KeyedEntry)
			key := toLiteral(kh.Key())
			switch key.(type) {
			case []interface{}, map[interface{}]interface{}:
				// cannot be a key in a Go map
				panic(notLiteral)
			}
			result[key] = toLiteral(kh.Value())
		}
		return result
	case *parser.ConcatenatedString:
		segments := e.Segments()
		if len(segments) == 1 {
			if ls, ok := segments[0].(*parser.LiteralString); ok {
				return ls.Value()
			}
		}
		panic(notLiteral)
	case *parser.HeredocExpression:
		return toLiteral(e.Text())
	case parser.LiteralValue:
		return e.Value()
	default:
		panic(notLiteral)
	}
}
""", """func convert(e parser.Expression) (interface{}, bool) {
	switch e := e.(type) {
	case *parser.Program:
		return convert(e.Body())
	case *parser.LiteralList:
		result := make([]interface{}, 0, len(e.Elements()))
		for _, elem := range e.Elements() {
			v, ok := convert(elem)
			if !ok {
				return nil, false
			}
			result = append(result, v)
		}
		return result, true
	case *parser.LiteralHash:
		result := map[interface{}]interface{}{}
		for _, entry := range e.Entries() {
			key, ok := convert(entry.(*parser.KeyedEntry).Key())
			if !ok || isCollection(key) {
				return nil, false
			}
			if result[key], ok = convert(entry.(*parser.KeyedEntry).Value()); !ok {
				return nil, false
			}
		}
		return result, true
	case *parser.ConcatenatedString:
		if segments := e.Segments(); len(segments) == 1 {
			if ls, ok := segments[0].(*parser.LiteralString); ok {
				return ls.StringValue(), true
			}
		}
		return nil, false
	case *parser.HeredocExpression:
		return convert(e.Text())
	case parser.LiteralValue:
		return e.Value(), true
	}
	return nil, false
}

func isCollection(v interface{}) bool {
	switch v.(type) {
	case []interface{}, map[interface{}]interface{}:
		return true
	}
	return false
}
"""), (L_, """const notLiteral = `not literal`

""", ""))
ref("lit-helper", (L_, """			key := toLiteral(kh.Key())
			switch key.(type) {
			case []interface{}, map[interface{}]interface{}:
				// cannot be a key in a Go map
				panic(notLiteral)
			}
			result[key] = toLiteral(kh.Value())
""", """			result[hashable(toLiteral(kh.Key()))] = toLiteral(kh.Value())
"""), (L_, """func toLiteral(""", """func hashable(v interface{}) interface{} {
	if _, list := v.([]interface{}); list {
		fail()
	}
	if _, hash := v.(map[interface{}]interface{}); hash {
		fail()
	}
	return v
}

func fail() {
	panic(notLiteral)
}

func toLiteral("""))
ref("cli-helpers", (M_, """			severity := issue.Severity(issue.SeverityIgnore)
			issues := make([]interface{}, len(v.Issues()))
			for idx, i := range v.Issues() {
				if i.Severity() > severity {
					severity = i.Severity()
				}
				issues[idx] = pn.ReportedToPN(i).ToData()
			}
			result[`issues`] = issues
			if severity == issue.SeverityError {
				emitJson(result)
				os.Exit(1)
			}
		}
""", """			result[`issues`] = issuesData(v.Issues())
			if worst(v.Issues()) == issue.SeverityError {
				fail(result)
			}
		}
"""), (M_, """			emitJson(result)
			// Parse error is always SeverityError
			os.Exit(1)
		}
""", """			fail(result)
		}
"""), (M_, """		severity := issue.Severity(issue.SeverityIgnore)
		for _, i := range v.Issues() {
			pn.Fprintln(os.Stderr, i.String())
			if i.Severity() > severity {
				severity = i.Severity()
			}
		}
		if severity == issue.SeverityError {
			os.Exit(1)
		}
	}
""", """		for _, i := range v.Issues() {
			pn.Fprintln(os.Stderr, i.String())
		}
		if worst(v.Issues()) >= issue.SeverityError {
			os.Exit(1)
		}
	}
"""), (M_, """func emitJson(""", """func fail(result map[string]interface{}) {
	emitJson(result)
	os.Exit(1)
}

func worst(issues []issue.Reported) issue.Severity {
	severity := issue.Severity(issue.SeverityIgnore)
	for _, i := range issues {
		if s := i.Severity(); severity < s {
			severity = s
		}
	}
	return severity
}

func issuesData(issues []issue.Reported) []interface{} {
	data := make([]interface{}, 0, len(issues))
	for _, i := range issues {
		data = append(data, pn.ReportedToPN(i).ToData())
	}
	return data
}

func emitJson("""))
ref("cli-split", (M_, """	if *jsonOutput {
		if err != nil {
			if i, ok""", """	if *jsonOutput {
		jsonMain(expr, err, result, strictness)
		return
	}
	textMain(expr, err, strictness)
}

func jsonMain(expr parser.Expression, err error, result map[string]interface{}, strictness validator.Strictness) {
	{
		if err != nil {
			if i, ok"""), (M_, """		emitJson(result)
		return
	}

	if err != nil {""", """		emitJson(result)
	}
}

func textMain(expr parser.Expression, err error, strictness validator.Strictness) {
	if err != nil {"""))
ref("cli-flag", (M_, """		severity := issue.Severity(issue.SeverityIgnore)
		for _, i := range v.Issues() {
			pn.Fprintln(os.Stderr, i.String())
			if i.Severity() > severity {
				severity = i.Severity()
			}
		}
		if severity == issue.SeverityError {
			os.Exit(1)
		}
	}
""", """		failed := false
		for _, i := range v.Issues() {
			pn.Fprintln(os.Stderr, i)
			failed = failed || i.Severity() == issue.SeverityError
		}
		if failed {
			os.Exit(1)
		}
	}
"""), (M_, """		b := bytes.NewBufferString(``)
		expr.ToPN().Format(b)
		pn.Println(b)
""", """		pn.Println(expr.ToPN().String())
"""))
ref("reader-shared", (R_, "func (r *stringReader) Peek()", """	if r.i >= len(r.text) {
		return
	}
	c = rune(r.text[r.i])
	if c < utf8.RuneSelf {
		size = 1
		return
	}
	c, size = utf8.DecodeRuneInString(r.text[r.i:])
	if c == utf8.RuneError && size == 1 {
		panic(r.invalidUnicode())
	}
	return c, size
""", """	return r.PeekAt(r.i)
"""), (R_, "func (r *stringReader) Next()", """	start = r.i
	if r.i >= len(r.text) {
		return
	}
	c = rune(r.text[r.i])
	if c < utf8.RuneSelf {
		r.i++
		return
	}
	c, size := utf8.DecodeRuneInString(r.text[r.i:])
	if c == utf8.RuneError && size == 1 {
		panic(r.invalidUnicode())
	}
	r.i += size
	return
""", """	start = r.Pos()
	c, size := r.PeekAt(start)
	r.Advance(size)
	return c, start
"""))
