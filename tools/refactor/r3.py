K_ = "validator/checker.go"; V_ = "validator/validator.go"
ref("val-defaults", (K_, """	foundDefault := false
	for _, option := range e.Options() {
		co := option.(*parser.CaseOption)
		for _, value := range co.Values() {
			if _, ok := value.(*parser.LiteralDefault); ok {
				if foundDefault {
					v.Accept(ValidateDuplicateDefault, value, issue.H{`container`: e})
				}
				foundDefault = true
			}
		}
	}
}
""", """	seen := 0
	for i := range e.Options() {
		values := e.Options()[i].(*parser.CaseOption).Values()
		for j := 0; j < len(values); j++ {
			if isDefault(values[j]) {
				v.secondDefault(&seen, values[j], e)
			}
		}
	}
}

func isDefault(e parser.Expression) bool {
	switch e.(type) {
	case *parser.LiteralDefault:
		return true
	}
	return false
}

func (v *basicChecker) secondDefault(seen *int, at, container parser.Expression) {
	*seen++
	if *seen > 1 {
		v.Accept(ValidateDuplicateDefault, at, issue.H{`container`: container})
	}
}
"""), (K_, """	seenDefault := false
	for _, entry := range e.Selectors() {
		se := entry.(*parser.SelectorEntry)
		if _, ok := se.Matching().(*parser.LiteralDefault); ok {
			if seenDefault {
				v.Accept(ValidateDuplicateDefault, se, issue.H{`container`: e})
			} else {
				seenDefault = true
			}
		}
	}
""", """	seen := 0
	for _, entry := range e.Selectors() {
		se := entry.(*parser.SelectorEntry)
		if !isDefault(se.Matching()) {
			continue
		}
		v.secondDefault(&seen, se, e)
	}
"""))
ref("val-typemapping", (K_, """	lhs := e.Type()
	lhsType := 0 // Not Runtime
	if ae, ok := lhs.(*parser.AccessExpression); ok {
		if left, ok := ae.Operand().(*parser.QualifiedReference); ok && left.Name() == `Runtime` {
			lhsType = 1 // Runtime
			keys := ae.Keys()

			// Must be a literal string or pattern replacement
			if len(keys) == 2 && isPatternWithReplacement(keys[1]) {
				lhsType = 2
			}
		}
	}
	if lhsType == 0 {
		v.Accept(ValidateUnsupportedExpression, e, issue.H{`expression`: e})
	} else {
		rhs := e.Mapping()
		if isPatternWithReplacement(rhs) {
			if lhsType == 1 {
				v.Accept(ValidateIllegalSingleTypeMapping, e, issue.H{`expression`: e})
			}
		} else if isTypeRef(rhs) {
			if lhsType == 2 {
				v.Accept(ValidateIllegalRegexpTypeMapping, e, issue.H{`expression`: e})
			}
		} else {
			if lhsType == 1 {
				v.Accept(ValidateIllegalSingleTypeMapping, e, issue.H{`expression`: e})
			} else {
				v.Accept(ValidateIllegalRegexpTypeMapping, e, issue.H{`expression`: e})
			}
		}
	}
}
""", """	runtime, pattern := runtimeType(e.Type())
	if !runtime {
		v.Accept(ValidateUnsupportedExpression, e, issue.H{`expression`: e})
		return
	}
	rhs := e.Mapping()
	var code issue.Code
	switch {
	case pattern && !isPatternWithReplacement(rhs):
		code = ValidateIllegalRegexpTypeMapping
	case pattern:
		return
	case !isPatternWithReplacement(rhs) && isTypeRef(rhs):
		return
	default:
		code = ValidateIllegalSingleTypeMapping
	}
	v.Accept(code, e, issue.H{`expression`: e})
}

func runtimeType(e parser.Expression) (runtime, pattern bool) {
	ae, ok := e.(*parser.AccessExpression)
	if !ok {
		return
	}
	ref, ok := ae.Operand().(*parser.QualifiedReference)
	if !ok || ref.Name() != `Runtime` {
		return
	}
	return true, len(ae.Keys()) == 2 && isPatternWithReplacement(ae.Keys()[1])
}
"""), (K_, """	if v, ok := e.(*parser.LiteralList); ok && len(v.Elements()) == 2 {
		els := v.Elements()
		if _, ok := els[0].(*parser.RegexpExpression); ok {
			_, ok := els[1].(*parser.LiteralString)
			return ok
		}
	}
	return false
}
""", """	list, ok := e.(*parser.LiteralList)
	if !ok || len(list.Elements()) != 2 {
		return false
	}
	_, pattern := list.Elements()[0].(*parser.RegexpExpression)
	_, replacement := list.Elements()[1].(*parser.LiteralString)
	return pattern && replacement
}
"""))
ref("val-top-loop", (K_, """	if c == nil {
		return
	}
	switch c.(type) {
	case *parser.HostClassDefinition, *parser.Program:
		return

	case *parser.BlockExpression:
		c = v.ContainerOf(c)
		if _, ok := c.(*parser.Program); !ok {
			switch e.(type) {
			case *parser.FunctionDefinition, *parser.PlanDefinition, *parser.TypeAlias, *parser.TypeDefinition, *parser.TypeMapping:
				// not ok. These can never be nested in a block
				v.Accept(ValidateNotAbsoluteTopLevel, e, issue.H{`value`: e})
				return
			}
		}
		v.checkTop(e, c)

	default:
		v.Accept(ValidateNotTopLevel, e, issue.NoArgs)
	}
}
""", """	for c != nil {
		if _, ok := c.(*parser.Program); ok {
			return
		}
		if _, ok := c.(*parser.HostClassDefinition); ok {
			return
		}
		block, ok := c.(*parser.BlockExpression)
		if !ok {
			v.Accept(ValidateNotTopLevel, e, issue.NoArgs)
			return
		}
		c = v.ContainerOf(block)
		if _, ok := c.(*parser.Program); !ok && absoluteTop(e) {
			v.Accept(ValidateNotAbsoluteTopLevel, e, issue.H{`value`: e})
			return
		}
	}
}

// absoluteTop tells that the definition can never be nested in a block
func absoluteTop(e parser.Expression) bool {
	switch e.(type) {
	case *parser.FunctionDefinition, *parser.PlanDefinition:
		return true
	case *parser.TypeAlias, *parser.TypeDefinition, *parser.TypeMapping:
		return true
	default:
		return false
	}
}
"""))
ref("val-idem", (K_, """func (v *basicChecker) idemBlockExpression(e *parser.BlockExpression) bool {
	for _, statement := range e.Statements() {
		if !v.isIdem(statement) {
			return false
		}
	}
	return true
}

func (v *basicChecker) idemCaseExpression(e *parser.CaseExpression) bool {
	if v.isIdem(e.Test()) {
		for _, option := range e.Options() {
			if !v.isIdem(option) {
				return false
			}
		}
		return true
	}
	return false
}

func (v *basicChecker) idemCaseOption(e *parser.CaseOption) bool {
	for _, value := range e.Values() {
		if !v.isIdem(value) {
			return false
		}
	}
	return v.isIdem(e.Then())
}

func (v *basicChecker) idemIfExpression(e *parser.IfExpression) bool {
	return v.isIdem(e.Test()) && v.isIdem(e.Then()) && v.isIdem(e.Else())
}
""", """func (v *basicChecker) allIdem(es ...parser.Expression) bool {
	for _, e := range es {
		if e != nil && !v.isIdem(e) {
			return false
		}
	}
	return true
}
"""), (K_, """	case *parser.BlockExpression:
		return v.idemBlockExpression(e)
	case *parser.CaseExpression:
		return v.idemCaseExpression(e)
	case *parser.CaseOption:
		return v.idemCaseOption(e)
	case *parser.IfExpression:
		return v.idemIfExpression(e)
	case *parser.UnlessExpression:
		return v.idemIfExpression(&e.IfExpression)
""", """	case *parser.BlockExpression:
		return v.allIdem(e.Statements()...)
	case *parser.CaseExpression:
		return v.allIdem(e.Options()...) && v.isIdem(e.Test())
	case *parser.CaseOption:
		return v.isIdem(e.Then()) && v.allIdem(e.Values()...)
	case *parser.IfExpression:
		return v.allIdem(e.Test(), e.Then(), e.Else())
	case *parser.UnlessExpression:
		return v.allIdem(e.Else(), e.Then(), e.Test())
"""))
ref("val-functor", (K_, """	switch e.Functor().(type) {
	case *parser.QualifiedName:
		return
	case *parser.QualifiedReference:
		// Call to type
		return
	case *parser.AccessExpression:
		ae, _ := e.Functor().(*parser.AccessExpression)
		if _, ok := ae.Operand().(*parser.QualifiedReference); ok {
			// Call to parameterized type
			return
		}
	}
	v.Accept(ValidateIllegalExpression, e.Functor(),
		issue.H{`expression`: e.Functor(), `feature`: `function name`, `container`: e})
}
""", """	f := e.Functor()
	if _, ok := f.(*parser.QualifiedName); ok || isTypeRef(f) {
		return
	}
	v.illegal(f, `function name`, e)
}

func (v *basicChecker) illegal(e parser.Expression, feature string, container parser.Expression) {
	args := make(issue.H, 3)
	args[`container`] = container
	args[`feature`] = feature
	args[`expression`] = e
	v.Accept(ValidateIllegalExpression, e, args)
}
"""), (K_, """	if _, ok := e.ResourceType().(*parser.QualifiedReference); !ok {
		v.Accept(ValidateIllegalExpression, e.ResourceType(),
			issue.H{`expression`: e.ResourceType(), `feature`: `type name`, `container`: e})
	}
""", """	switch rt := e.ResourceType().(type) {
	case *parser.QualifiedReference:
	default:
		v.illegal(rt, `type name`, e)
	}
"""))
ref("val-unique", (K_, """	unique := make(map[string]bool, 10)
	for _, parameter := range parameters {
		param := parameter.(*parser.Parameter)
		if _, found := unique[param.Name()]; found {
			v.Accept(ValidateDuplicateParameter, parameter, issue.H{`param`: param.Name()})
		} else {
			unique[param.Name()] = true
		}
	}
""", """	for i, parameter := range parameters {
		name := parameter.(*parser.Parameter).Name()
		for _, earlier := range parameters[:i] {
			if earlier.(*parser.Parameter).Name() == name {
				v.Accept(ValidateDuplicateParameter, parameter, issue.H{`param`: name})
				break
			}
		}
	}
"""), (K_, """	seenUnfolding := false
	for _, ao := range e.Operations() {
		if _, ok := ao.(*parser.AttributesOperation); ok {
			if seenUnfolding {
				v.Accept(ValidateMultipleAttributesUnfold, ao, issue.NoArgs)
			} else {
				seenUnfolding = true
			}
		}
	}
""", """	unfoldings := make([]parser.Expression, 0)
	for _, ao := range e.Operations() {
		if _, ok := ao.(*parser.AttributesOperation); ok {
			unfoldings = append(unfoldings, ao)
		}
	}
	for i := 1; i < len(unfoldings); i++ {
		v.Accept(ValidateMultipleAttributesUnfold, unfoldings[i], issue.NoArgs)
	}
"""))
ref("val-reserved", (K_, """	if _, ok := ReservedTypeNames[strings.ToLower(w)]; ok {
		v.Accept""", """	if ReservedTypeNames[strings.ToLower(w)] {
		v.Accept"""), (K_, """	if _, ok := FutureReservedWords[w]; ok {
		v.Accept""", """	switch w {
	case `consumes`, `produces`, `application`:
		v.Accept"""), (K_, """		param := parameter.(*parser.Parameter)
		if _, ok := ReservedParameters[param.Name()]; ok {
			v.Accept(ValidateReservedParameter, container, issue.H{`param`: param.Name(), `container`: container})
		}
""", """		if param := parameter.(*parser.Parameter); param.Name() == `title` || param.Name() == `name` {
			v.Accept(ValidateReservedParameter, container, issue.H{`param`: param.Name(), `container`: container})
		}
"""), (K_, """	if e.Future() {
		v.Accept(ValidateFutureReservedWord, e, issue.H{`word`: e.Name()})
	} else {
		v.Accept(ValidateReservedWord, e, issue.H{`word`: e.Name()})
	}
""", """	code := issue.Code(ValidateReservedWord)
	if e.Future() {
		code = ValidateFutureReservedWord
	}
	v.Accept(code, e, issue.H{`word`: e.Name()})
"""))
ref("val-regexps", (K_, """	if StartsWithNumber.MatchString(e.Name()) {
		v.Accept(ValidateIllegalNumericParameter, e, issue.H{`name`: e.Name()})
	} else if !ParamName.MatchString(e.Name()) {
		v.Accept(ValidateIllegalParameterName, e, issue.H{`name`: e.Name()})
	}
""", """	name := e.Name()
	if len(name) > 0 && name[0] >= '0' && name[0] <= '9' {
		v.Accept(ValidateIllegalNumericParameter, e, issue.H{`name`: name})
	} else if !ParamName.MatchString(name) {
		v.Accept(ValidateIllegalParameterName, e, issue.H{`name`: name})
	}
"""), (K_, "DoubleColonExpr.MatchString(name)", "strings.Contains(name, `::`)"), (K_, "regexp.MustCompile(`\\A[a-z][\\w]*(?:::[a-z][\\w]*)*\\z`)", "regexp.MustCompile(`^[a-z][0-9A-Za-z_]*(?:::[a-z][\\w]*)*$`)"),
 (K_, "regexp.MustCompile(`[^-\\w.]`)", "regexp.MustCompile(`[^a-zA-Z0-9_.-]`)"))
ref("val-capture", (K_, """	last := len(parameters) - 1
	for idx := 0; idx < last; idx++ {
		if param, ok := parameters[idx].(*parser.Parameter); ok && param.CapturesRest() {
			v.Accept(""", """	for idx, p := range parameters {
		if idx == len(parameters)-1 {
			return
		}
		if param, ok := p.(*parser.Parameter); ok && param.CapturesRest() {
			v.Accept("""), (K_, """	if e.Operator() == `+>` {
		p := v.Container()
		switch p.(type) {
		case *parser.CollectExpression, *parser.ResourceOverrideExpression:
			return
		default:
			v.Accept(ValidateIllegalAttributeAppend, e, issue.H{`attr`: e.Name(), `expression`: p})
		}
	}
""", """	if e.Operator() != `+>` {
		return
	}
	p := v.Container()
	if _, ok := p.(*parser.CollectExpression); ok {
		return
	}
	if _, ok := p.(*parser.ResourceOverrideExpression); !ok {
		v.Accept(ValidateIllegalAttributeAppend, e, issue.H{`attr`: e.Name(), `expression`: p})
	}
"""), (K_, """	switch e.Operator() {
	case `=`:
		v.checkAssign(e.Lhs())
	default:
		v.Accept""", """	if e.Operator() == `=` {
		v.checkAssign(e.Lhs())
	} else {
		v.Accept"""), (K_, """	if _, ok := e.(*parser.AssignmentExpression); ok {
		v.Accept(ValidateIllegalAssignmentContext, e, issue.NoArgs)
	} else {
		if _, ok := e.(*parser.LambdaExpression); !ok {
			e.Contents(v.path, func(path []parser.Expression, child parser.Expression) {
				v.checkIllegalAssignment(child)
			})
		}
	}
""", """	switch e.(type) {
	case *parser.LambdaExpression:
		return
	case *parser.AssignmentExpression:
		v.Accept(ValidateIllegalAssignmentContext, e, issue.NoArgs)
		return
	}
	e.Contents(v.path, func(_ []parser.Expression, child parser.Expression) { v.checkIllegalAssignment(child) })
"""))
ref("val-literalhash", (K_, """			switch key.(type) {
			case *parser.LiteralList, *parser.LiteralHash:
				literalKey = key.ToPN().String()
			}
			if _, ok = unique[literalKey]; ok {
				v.Accept(ValidateDuplicateKey, entry, issue.H{`key`: key.String()})
			} else {
				unique[literalKey] = true
			}
""", """			if isCollection(key) {
				literalKey = key.ToPN().String()
			}
			if unique[literalKey] {
				v.Accept(ValidateDuplicateKey, entry, issue.H{`key`: key.String()})
			}
			unique[literalKey] = true
"""), (K_, "func isTypeRef(e", """func isCollection(e parser.Expression) bool {
	_, list := e.(*parser.LiteralList)
	_, hash := e.(*parser.LiteralHash)
	return hash || list
}

func isTypeRef(e"""))
ref("val-query", (K_, """		switch e.Operator() {
		case `==`, `!=`:
			// OK
		default:
			v.Accept(ValidateIllegalQueryExpression, e, issue.H{`expression`: e})
		}
	case *parser.Par""", """		if op := e.Operator(); op != `==` && op != `!=` {
			v.Accept(ValidateIllegalQueryExpression, e, issue.H{`expression`: e})
		}
	case *parser.Par"""), (K_, """	switch e := e.(type) {
	case parser.UnaryExpression:
		v.checkRValue(e.Expr())
	case parser.Definition, *parser.CollectExpression:
		v.Accept(ValidateNotRvalue, e, issue.H{`value`: e})
	}
}
""", """	for {
		u, ok := e.(parser.UnaryExpression)
		if !ok {
			break
		}
		e = u.Expr()
	}
	_, notValue := e.(parser.Definition)
	if !notValue {
		_, notValue = e.(*parser.CollectExpression)
	}
	if notValue {
		v.Accept(ValidateNotRvalue, e, issue.H{`value`: e})
	}
}
"""), (K_, """	top := len(e.Statements())
	if top > 0 {
		last := e.Statements()[top-1]
		if v.isIdem(last) {
			return last
		}
	}
	return nil
}
""", """	statements := e.Statements()
	if len(statements) == 0 {
		return nil
	}
	if last := statements[len(statements)-1]; v.isIdem(last) {
		return last
	}
	return nil
}
"""))
ref("val-block", (K_, """	last := len(e.Statements()) - 1
	for idx, statement := range e.Statements() {
		if idx != last && v.isIdem(statement) {
			v.Accept(ValidateIdemExpressionNotLast, statement, issue.H{`expression`: statement})
			break
		}
	}
""", """	statements := e.Statements()
	if len(statements) == 0 {
		return
	}
	for _, statement := range statements[:len(statements)-1] {
		if v.isIdem(statement) {
			v.Accept(ValidateIdemExpressionNotLast, statement, issue.H{`expression`: statement})
			return
		}
	}
"""), (K_, """	exprOk := false
	switch e.Component().(type) {
	case *parser.QualifiedReference:
		exprOk = true

	case *parser.QualifiedName:
		v.Accept(ValidateIllegalClassref, e.Component(), issue.H{`name`: e.Component().(*parser.QualifiedName).Name()})
		exprOk = true // OK, besides from what was just reported

	case *parser.AccessExpression:
		ae, _ := e.Component().(*parser.AccessExpression)
		if _, ok := ae.Operand().(*parser.QualifiedReference); ok && len(ae.Keys()) == 1 {
			switch ae.Keys()[0].(type) {
			case *parser.LiteralString, *parser.QualifiedName, *parser.QualifiedReference:
				exprOk = true
			}
		}
	}

	if !exprOk {
		v.Accept(ValidateIllegalExpression, e.Component(),
			issue.H{`expression`: e.Component(), `feature`: `capability mapping`, `container`: e})
	}
""", """	if name, ok := e.Component().(*parser.QualifiedName); ok {
		v.Accept(ValidateIllegalClassref, name, issue.H{`name`: name.Name()})
	} else if !isComponent(e.Component()) {
		v.Accept(ValidateIllegalExpression, e.Component(),
			issue.H{`expression`: e.Component(), `feature`: `capability mapping`, `container`: e})
	}
"""), (K_, "func isTypeRef(e", """func isComponent(e parser.Expression) bool {
	switch c := e.(type) {
	case *parser.QualifiedReference:
		return true
	case *parser.AccessExpression:
		if !isTypeRef(c.Operand()) || len(c.Keys()) != 1 {
			return false
		}
		if _, nested := c.Operand().(*parser.AccessExpression); nested {
			return false
		}
		switch c.Keys()[0].(type) {
		case *parser.LiteralString, *parser.QualifiedName, *parser.QualifiedReference:
			return true
		}
	}
	return false
}

func isTypeRef(e"""))
ref("val-container", (V_, """	if v.path != nil && len(v.path) > 0 {
		return v.path[len(v.path)-1]
	}
	return nil
}
""", """	last := len(v.path) - 1
	if last < 0 {
		return nil
	}
	return v.path[last]
}
"""), (V_, """	for last := len(v.path) - 1; last > 0; last-- {
		if e == v.path[last] {
			return v.path[last-1]
		}
	}
	return nil
}
""", """	parents := v.path
	for len(parents) > 1 {
		n := len(parents) - 1
		if parents[n] == e {
			return parents[n-1]
		}
		parents = parents[:n]
	}
	return nil
}
"""))
ref("val-accept", (V_, """	severity, ok := v.severities[code]
	if !ok {
		severity = issue.SeverityError
	}
	if severity != issue.SeverityIgnore {
		v.issues""", """	severity := v.severityOf(code)
	if severity == issue.SeverityIgnore {
		return
	}
	{
		v.issues"""), (V_, "// Accept an issue during", """func (v *AbstractValidator) severityOf(code issue.Code) issue.Severity {
	if severity, ok := v.severities[code]; ok {
		return severity
	}
	return issue.SeverityError
}

// Accept an issue during"""), (V_, """	switch strings.ToLower(str) {
	case ``, `off`:
		return StrictOff
	case `warning`:
		return StrictWarning
	case `error`:
		return StrictError
	default:
		panic(fmt.Sprintf(`Invalid Strictness value '%s'`, str))
	}
""", """	if str == `` {
		return StrictOff
	}
	for _, s := range []Strictness{StrictOff, StrictWarning, StrictError} {
		if s.String() == strings.ToLower(str) {
			return s
		}
	}
	panic(fmt.Sprintf(`Invalid Strictness value '%s'`, str))
"""), (V_, """	path := make([]parser.Expression, 0, 16)

	v.Clear()
	v.setPathAndSubject(path, e)
	v.Validate(e)
	e.AllContents(path, func(path []parser.Expression, expr parser.Expression) {
		v.setPathAndSubject(path, expr)
		v.Validate(expr)
	})
""", """	v.Clear()
	one := func(path []parser.Expression, expr parser.Expression) {
		v.setPathAndSubject(path, expr)
		v.Validate(expr)
	}
	one(nil, e)
	e.AllContents(nil, one)
"""), (V_, """	Validate(pv.validator, expr)
	issues := pv.validator.Issues()
	if len(issues) == 0 {
		return expr, nil
	}
	return expr, issue.NewResult(issues)
""", """	v := pv.validator
	Validate(v, expr)
	if issues := v.Issues(); len(issues) > 0 {
		return expr, issue.NewResult(issues)
	}
	return expr, nil
"""))
ref("val-typeref", (K_, """	n := r
	if ae, ok := r.(*parser.AccessExpression); ok {
		n = ae.Operand()
	}
	if qr, ok := n.(*parser.QualifiedReference); ok {
		v.checkFutureReservedWord(r, qr.DowncasedName())
	} else {
""", """	if qr := typeReference(r); qr != nil {
		v.checkFutureReservedWord(r, qr.DowncasedName())
	} else {
"""), (K_, """	n := e
	if ae, ok := e.(*parser.AccessExpression); ok {
		n = ae.Operand()
	}
	_, ok := n.(*parser.QualifiedReference)
	return ok
}
""", """	return typeReference(e) != nil
}

func typeReference(e parser.Expression) *parser.QualifiedReference {
	switch e := e.(type) {
	case *parser.QualifiedReference:
		return e
	case *parser.AccessExpression:
		if qr, ok := e.Operand().(*parser.QualifiedReference); ok {
			return qr
		}
	}
	return nil
}
"""), (K_, """	if returnType != nil {
		v.checkTypeRef(function, returnType)
	}
""", """	if returnType == nil {
		return
	}
	v.checkTypeRef(function, returnType)
"""), (K_, """		switch hostMatch := hostMatch.(type) {
		case *parser.ConcatenatedString:
			if lit, ok := literal.ToLiteral(hostMatch); ok {
				v.checkHostnameString(hostMatch, lit.(string))
			} else {
				v.Accept(ValidateIllegalHostnameInterpolation, hostMatch, issue.NoArgs)
			}
		case *parser.LiteralString:
			v.checkHostnameString(hostMatch, hostMatch.StringValue())
		}
""", """		_, concat := hostMatch.(*parser.ConcatenatedString)
		_, text := hostMatch.(*parser.LiteralString)
		if !concat && !text {
			continue
		}
		lit, ok := literal.ToLiteral(hostMatch)
		if !ok {
			v.Accept(ValidateIllegalHostnameInterpolation, hostMatch, issue.NoArgs)
			continue
		}
		v.checkHostnameString(hostMatch, lit.(string))
"""))
