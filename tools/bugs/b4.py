exec(open("/verif/tools/bugs/auto.py").read())
L_ = "parser/lexer.go"
P_ = "parser/parser.go"
auto("name-dashes", "C16", [(L_, "				if c != '-' {\n					break outer\n				}", "				break outer")], ["foo(a--b)", "foo(a-b)", "foo(a---b)"],
  "a name with two or more dashes in a row", "the name is cut at the dashes")
auto("block-comment-hash", "C16", [(L_, "			if commentStart == 0 {\n				commentStart = '#'\n				commentStartPos = start\n			}", "			if commentStart == 0 || start == commentStartPos+2 {\n				commentStart = '#'\n				commentStartPos = start\n			}")], ["/*# a */ foo(1)"],
  "a block comment that starts with #", "it is taken for a line comment")
auto("hex-upper-suffix", "C24", [(L_, "ctx.Pos() == hexStart || isLetter(c)", "ctx.Pos() == hexStart || isLowercaseLetter(c)")], ["$x = 0xFG", "$x = 0xf_"],
  "an uppercase letter behind a hexadecimal number", "the number is accepted")
auto("octal-digit-end", "C24", [(L_, "if isDecimalDigit(c) || unicode.IsLetter(c) {", "if c == '8' && ctx.Pos() == octalStart || c == '9' && ctx.Pos() == octalStart || unicode.IsLetter(c) {")], ["$x = 078", "$x = [0129]"],
  "an octal number that ends with 8 or 9", "the number is cut in two")
auto("heredoc-crlf", "C26", [(L_, "					if suppressLastNL && heredocContentEnd > heredocContentStart {\n						heredocContentEnd--\n						if heredocContentEnd > heredocContentStart && expr[heredocContentEnd-1] == '\\r' {", "					if suppressLastNL && heredocContentEnd > heredocContentStart {\n						heredocContentEnd--\n						if heredocContentEnd > heredocContentStart+1 && lineIndent == 0 && expr[heredocContentEnd-1] == '\\r' {")], ["$x = @(E)\r\n  a\r\n  | - E\r\n"],
  "a heredoc with a margin and CRLF line ends whose last line end is removed", "the carriage return stays")
auto("heredoc-unescaped-newline", "C26", [(L_, "			} else {\n				bld.WriteRune(c)\n				if c == '\\n' {\n					ctx.stripIndent(indentStrip)\n				}\n			}\n			continue\n		}\n\n		switch c {", "			} else {\n				bld.WriteRune(c)\n			}\n			continue\n		}\n\n		switch c {")], ["$x = @(E/t)\n  a\\\n  b\n  | E\n"],
  "a backslash at the end of a line of a heredoc without the L flag", "the margin of the next line stays")
auto("heredoc-tab-margin", "C26", [(L_, "if c, s := ctx.Peek(); c == '\\t' || c == ' ' {", "if c, s := ctx.Peek(); c == ' ' || c == '\\t' && ctx.Pos() == start {")], ["$x = @(E)\n\t\ta\n\t\t| E\n"],
  "a heredoc with a margin of several tabs", "the margin stays")
auto("dq-escape-quote", "C27", [(L_, "case '\\\\', '\\'':\n				buf.WriteRune(ec)", "case '\\\\':\n				buf.WriteRune(ec)")], ['foo("a\\\'b")'],
  "an escaped single quote in a double quoted string", "the backslash stays")
auto("unicode-short", "C27", [(L_, "uLen >= 2 && uLen <= 6 && ec == '}'", "uLen > 0 && uLen <= 6 && ec == '}'")], ['foo("\\u{a}")'],
  "a unicode escape of one digit in braces", "it is accepted")
auto("interpolation-empty", "C27", [(L_, "	if precedingString != `` {\n		segments", "	if precedingString != `` || len(segments) > 1 {\n		segments")], ['foo("$a$b$c")', 'foo("${a}x${b}${c}")'],
  "three interpolations in a row", "the tree has an empty string between them")
auto("epp-percent-ws", "C28", [(L_, "					buf.WriteByte('%')\n				}\n			}\n			lastNonWS = buf.Len()", "					buf.WriteByte('%')\n					lastNonWS = buf.Len()\n				}\n				continue\n			}\n			lastNonWS = buf.Len()")], [("a %%> <%- $x %>", True), ("a %%>", True)],
  "an escaped end of a tag before a trimming tag", "the escaped end is removed with the space")
auto("epp-comment-percent", "C28", [(L_, "if ec == '>' && prev != '%' {", "if ec == '>' {")], [("a <%# b %%> c %> d", True)],
  "an escaped end of a tag inside a comment", "the comment ends there")
auto("plan-workflow", "C22", [(L_, "				if ctx.tasks {\n					token = kwToken", "				if ctx.tasks || ctx.workflow {\n					token = kwToken")], [("plan(1)", False, "WorkflowEnabled"), ("plan(1)", False, "TasksEnabled")],
  "the word plan with the workflow language", "it is a keyword there")
auto("unicode-error-position", "C20", [(L_, "	uLen := ctx.Pos() - hexStart\n	if !(uLen >= 2 && uLen <= 6 && ec == '}') {\n		ctx.SetPos(start - 2)", "	uLen := ctx.Pos() - hexStart\n	if !(uLen >= 2 && uLen <= 6 && ec == '}') {\n		ctx.SetPos(start - 1)")], ['foo("ab\\u{1}")'],
  "a malformed unicode escape in braces", "its error is one column off")
auto("interpolation-start", "C19", [(L_, "	segments = append(segments, ctx.interpolate(start))\n	ctx.tokenStartPos = ctx.Pos()\n", "	segments = append(segments, ctx.interpolate(start))\n	if len(segments) > 1 {\n		ctx.tokenStartPos = ctx.Pos()\n	}\n")], ['foo("${a}bc")', 'foo("${a}bc${d}ef")'],
  "a double quoted string that starts with an interpolation and goes on with text", "the text segment has another extent", True)
auto("heredoc-tag-end", "C06", [(L_, "if tagEnd <= len(expr) && tag == expr[n:tagEnd] {", "if tag == expr[n:tagEnd] {")], ["@(END)\nx\nE"],
  "a heredoc whose end tag is cut off by the end of the source", "the parser panics")
auto("heredoc-start-comment", "C25", [(L_, "			if c == '*' {\n				ctx.SetPos(n) // rewind to comment start\n				_, n = ctx.skipWhite(true)\n				ctx.SetPos(n)", "			if c == '*' {\n				ctx.SetPos(n) // rewind to comment start\n				if _, e := ctx.skipWhite(true); e < ctx.Pos() {\n					n = e\n				}\n				ctx.SetPos(n)")], ["@(E) /* a */\nx\nE\n", "@(E) /* a */ + 1\nx\nE\n"],
  "a block comment at the end of the line behind the tag of a heredoc", "parsing does not end")
