exec(open("/verif/tools/bugs/auto.py").read())
X_ = "parser/expression.go"; P_ = "parser/parser.go"; L_ = "parser/lexer.go"

auto("line-at-end", "C29", [(X_, "	return sort.SearchInts(e.getLineIndex(), offset+1)\n}", "	if offset >= len(e.string) && offset > 0 {\n		offset = len(e.string) - 1\n	}\n	return sort.SearchInts(e.getLineIndex(), offset+1)\n}")],
  ["$x = [\n", "$x = [\n1,\n\n", "$x = ["], "an error at the end of a source whose last line is terminated", "the error is reported on the line before")

auto("column-ascii", "C29", [(X_, "	return utf8.RuneCountInString(e.string[lineStart:offset])", "	if utf8.RuneCountInString(e.string[:lineStart+1]) == lineStart+1 && lineStart+1 < offset && e.string[offset-1] < utf8.RuneSelf && e.string[lineStart+1] < utf8.RuneSelf {\n		return offset - lineStart // one byte each\n	}\n	return utf8.RuneCountInString(e.string[lineStart:offset])")],
  ["$x = 'é' ]", "$x = 'a' ]", "\n $x = '€' + ]"], "an error behind a character of several bytes on its line", "the position counts bytes")

auto("epp-percent-ws", "C28", [(L_, "					buf.WriteByte('%')\n				}\n			}\n			lastNonWS = buf.Len()\n", "					buf.WriteByte('%')\n				}\n				lastNonWS = buf.Len()\n			}\n")],
  [("a % <%- $x %>", False, "EppMode"), ("5%<%- $x %>", False, "EppMode"), ("100% <%= $x %>b", False, "EppMode")], "a percent sign before a tag that trims", "the percent sign is trimmed away")

auto("epp-lt-ws", "C28", [(L_, "				buf.WriteByte('<')\n				lastNonWS = buf.Len()\n				continue", "				buf.WriteByte('<')\n				continue")],
  [("a < <%- $x %>", False, "EppMode"), ("<<%- $x %>", False, "EppMode"), ("<br> <%= $x %>b", False, "EppMode")], "a less sign before a tag that trims", "the less sign is trimmed away")

auto("epp-comment-percent", "C28", [(L_, "						if ec == '>' && prev != '%' {", "						_ = prev\n						if ec == '>' {")],
  [("a<%# b %%> c %>d", False, "EppMode"), ("a<%# b %>d", False, "EppMode")], "a comment that contains a doubled percent and a greater sign", "the comment ends there")

auto("rval-single-arg", "C17", [(P_, "			if cnFunc, ok := expr.(*CallNamedFunctionExpression); ok {\n				cnFunc.rvalRequired = true\n			}\n			result = append(result, cn)", "			if cnFunc, ok := expr.(*CallNamedFunctionExpression); ok && idx+1 < top {\n				cnFunc.rvalRequired = true\n			}\n			result = append(result, cn)")],
  ["notice foo(1)\n$x = 1", "$x = 1\nnotice foo(1)", "fail foo(1)"], "a call as the argument of the last statement call of a block", "the call is as one whose value is not needed")

auto("rval-middle", "C17", [(P_, "			if cnFunc, ok := memo.(*CallNamedFunctionExpression); ok {\n				cnFunc.rvalRequired = false\n			}\n			result = append(result, memo)\n			memo = expr", "			if cnFunc, ok := memo.(*CallNamedFunctionExpression); ok && len(cnFunc.arguments) > 0 {\n				cnFunc.rvalRequired = false\n			}\n			result = append(result, memo)\n			memo = expr")],
  ["foo()\nbar(1)\nbaz()", "foo()", "foo(1)\nbar()"], "a call without arguments that is not last in its block", "the call is as one whose value is needed")
