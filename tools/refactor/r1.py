L_ = "parser/lexer.go"; P_ = "parser/parser.go"; R_ = "parser/reader.go"
ref("lex-plus-switch", (L_, """			if c == '=' {
				ctx.Advance(sz)
				ctx.setToken(tokenAddAssign)
			} else if c == '>' {
				ctx.Advance(sz)
				ctx.setToken(tokenParrow)
			} else {
				ctx.setToken(tokenAdd)
			}
""", """			switch c {
			case '>':
				ctx.advanceTo(sz, tokenParrow)
			case '=':
				ctx.advanceTo(sz, tokenAddAssign)
			default:
				ctx.setToken(tokenAdd)
			}
"""), (L_, "// Skips to next non-whitespace character and returns", """func (ctx *context) advanceTo(sz, token int) {
	ctx.Advance(sz)
	ctx.setToken(token)
}

// Skips to next non-whitespace character and returns"""))
ref("lex-hexdigit-order", (L_, "return c >= '0' && c <= '9' || c >= 'A' && c <= 'F' || c >= 'a' && c <= 'f'", "switch {\n	case 'a' <= c && c <= 'f', 'A' <= c && c <= 'F':\n		return true\n	}\n	return isDecimalDigit(c)"))
ref("lex-number-helper", (L_, """	case '1' <= c && c <= '9':
		ctx.skipDecimalDigits()
		c, sz = ctx.Peek()
		if c == '.' || c == 'e' || c == 'E' {
			ctx.Advance(sz)
			ctx.consumeFloat(start, c)
			break
		}
		if unicode.IsLetter(c) {
			panic(ctx.parseIssue(lexDigitExpected))
		}
		v := ctx.parseInt(start, start, 10)
		ctx.settokenValue(tokenInteger, v)
		ctx.radix = 10
""", """	case '1' <= c && c <= '9':
		ctx.consumeNumber(start)
"""), (L_, "func (ctx *context) consumeFloat(", """func (ctx *context) consumeNumber(start int) {
	ctx.skipDecimalDigits()
	c, sz := ctx.Peek()
	switch c {
	case 'e', 'E', '.':
		ctx.Advance(sz)
		ctx.consumeFloat(start, c)
	default:
		if unicode.IsLetter(c) {
			panic(ctx.parseIssue(lexDigitExpected))
		}
		ctx.radix = 10
		ctx.settokenValue(tokenInteger, ctx.parseInt(start, start, 10))
	}
}

func (ctx *context) consumeFloat("""))
ref("lex-digits-loop", (L_, """	digitCount = 0
	c, n := ctx.Peek()
	for isDecimalDigit(c) {
		ctx.Advance(n)
		c, n = ctx.Peek()
		digitCount++
	}
	return
""", """	for {
		c, n := ctx.Peek()
		if !isDecimalDigit(c) {
			return digitCount
		}
		digitCount++
		ctx.Advance(n)
	}
"""))
ref("lex-backtick-loop", (L_, """	c, sz := ctx.Peek()
	for c != 0 && c != '`' {
		ctx.Advance(sz)
		c, sz = ctx.Peek()
	}
	if c == 0 {
		panic(ctx.unterminatedQuote(start-1, '`'))
	}
	ctx.settokenValue(tokenString, ctx.From(start))
	ctx.Advance(sz)
""", """	for {
		c, sz := ctx.Peek()
		switch c {
		case 0:
			panic(ctx.unterminatedQuote(start-1, '`'))
		case '`':
			ctx.settokenValue(tokenString, ctx.From(start))
			ctx.Advance(sz)
			return
		}
		ctx.Advance(sz)
	}
"""))
ref("lex-flags", (L_, """			fi := len(flags) - 1
			for fi >= 0 {
				if flags[fi] == bc {
					escaped = true
					break
				}
				fi--
			}
""", """			escaped = bytes.IndexByte(flags, bc) >= 0
"""))
ref("lex-flag-range", (L_, """	top := len(s)
	flags := make([]byte, top)
	for idx := 0; idx < top; idx++ {
		flag := s[idx]
		switch flag {
		case 't', 'r', 'n', 's', 'u', '$':
			flags[idx] = flag
		case 'L':
			flags[idx] = '\\n'
""", """	flags := make([]byte, 0, len(s))
	for idx := range []byte(s) {
		flag := s[idx]
		switch flag {
		case 'L':
			flags = append(flags, '\\n')
		case 't', 'r', 'n', 's', 'u', '$':
			flags = append(flags, flag)
"""))
ref("lex-escapes-map", (L_, """			case 'n':
				buf.WriteRune('\\n')
			case 'r':
				buf.WriteRune('\\r')
			case 't':
				buf.WriteRune('\\t')
			case 's':
				buf.WriteRune(' ')
			case 'u':
				ctx.appendUnicode(buf)
			case 'x':""", """			case 'n', 'r', 't', 's':
				buf.WriteByte(simpleEscapes[ec])
			case 'u':
				ctx.appendUnicode(buf)
			case 'x':"""), (L_, "func (ctx *context) consumeDoubleQuotedString() {", "var simpleEscapes = map[rune]byte{'n': '\\n', 'r': '\\r', 't': '\\t', 's': ' '}\n\nfunc (ctx *context) consumeDoubleQuotedString() {"))
ref("lex-strip-loop", (L_, """	start := ctx.Pos()
	for indentStrip > 0 {
		if c, s := ctx.Peek(); c == '\\t' || c == ' ' {
			ctx.Advance(s)
			indentStrip--
			continue
		}
		// Lines that cannot have their indent stripped i full, does not
		// get it stripped at all
		ctx.SetPos(start)
		break
	}
""", """	start := ctx.Pos()
	for i := 0; i < indentStrip; i++ {
		c, s := ctx.Peek()
		if !(c == ' ' || c == '\\t') {
			// Lines that cannot have their indent stripped i full, does not
			// get it stripped at all
			ctx.SetPos(start)
			return
		}
		ctx.Advance(s)
	}
"""))
ref("lex-ws-early", (L_, """		case '#':
			if commentStart == 0 {
				commentStart = '#'
				commentStartPos = start
			}

		case '/':""", """		case ' ', '\\r', '\\t':
			continue

		case '#':
			if commentStart == 0 {
				commentStart, commentStartPos = '#', start
			}

		case '/':"""), (L_, """			return

		case ' ', '\\r', '\\t':
			continue

		default:
			if commentStart == 0 {
				return
			}
		}
	}
}
""", """			return

		default:
			if commentStart == 0 {
				return
			}
		}
	}
}
"""))
ref("lex-epp-helper", (L_, """						for c, sz = ctx.Peek(); c == ' ' || c == '\\t'; c, sz = ctx.Peek() {
							ctx.Advance(sz)
						}
						if c == '\\n' {
							ctx.Advance(sz)
						}
						ctx.consumeEPP()
""", """						ctx.skipRestOfLine()
						ctx.consumeEPP()
"""), (L_, "func (ctx *context) consumeEPP() {", """func (ctx *context) skipRestOfLine() {
	for {
		switch c, sz := ctx.Peek(); c {
		case ' ', '\\t':
			ctx.Advance(sz)
		case '\\n':
			ctx.Advance(sz)
			return
		default:
			return
		}
	}
}

func (ctx *context) consumeEPP() {"""))
ref("lex-keyword-if", (L_, """			switch kwToken {
			case tokenBoolean:
				ctx.settokenValue(kwToken, word == `true`)
				return
			case tokenDefault:
				ctx.settokenValue(kwToken, DefaultInstance)
				return
			case tokenPlan:
				if ctx.tasks {
					token = kwToken
				}
			default:
				token = kwToken
			}
""", """			if kwToken == tokenBoolean {
				ctx.settokenValue(kwToken, word == `true`)
				return
			}
			if kwToken == tokenDefault {
				ctx.settokenValue(kwToken, DefaultInstance)
				return
			}
			if kwToken != tokenPlan || ctx.tasks {
				token = kwToken
			}
"""))
ref("lex-delimited", (L_, """			case delimiter:
				buf.WriteRune(delimiter)
				ec, _ = ctx.Next()
				continue

			default:
				handler(buf, ctx, ec)
				ec, _ = ctx.Next()
				continue
			}
""", """			case delimiter:
				buf.WriteRune(delimiter)

			default:
				handler(buf, ctx, ec)
			}
			ec, _ = ctx.Next()
"""))
ref("lex-unicode-helper", (L_, """	if ec != '{' {
		ctx.SetPos(start - 2)
		panic(ctx.parseIssue(lexMalformedUnicodeEscape))
	}

	// Must be {XXxxxx}""", """	if ec != '{' {
		ctx.malformedUnicode(start)
	}

	// Must be {XXxxxx}"""), (L_, """	if !(uLen >= 2 && uLen <= 6 && ec == '}') {
		ctx.SetPos(start - 2)
		panic(ctx.parseIssue(lexMalformedUnicodeEscape))
	}
""", """	if ec != '}' || uLen < 2 || uLen > 6 {
		ctx.malformedUnicode(start)
	}
"""), (L_, "func (ctx *context) appendUnicode(", """func (ctx *context) malformedUnicode(start int) {
	ctx.SetPos(start - 2)
	panic(ctx.parseIssue(lexMalformedUnicodeEscape))
}

func (ctx *context) appendUnicode("""))
