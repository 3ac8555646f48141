From 23c2453cafb8ab345ce6418b56681669de24b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 01/39] fix: reset all lexer and name stack state at the start
 of Parse

A parser that was reused after a failed parse qualified names with the name
stack of the failed source and lexed its first token using the last token of
the previous source as context.
---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index d786464..9dc1b4b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -163,7 +163,12 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.stringReader = stringReader{text: source}
 	ctx.locator = &Locator{string: source, file: filename}
 	ctx.definitions = make([]Definition, 0, 8)
+	ctx.nameStack = nil
 	ctx.nextLineStart = -1
+	ctx.beginningOfLine = 0
+	ctx.tokenStartPos = 0
+	ctx.radix = 0
+	ctx.setToken(tokenEnd)
 
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
 	if err == nil && !singleExpression {
-- 
2.43.0


From 12800e1e6e41efe5c0b074c3ec2f6828f419e8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 02/39] fix: do not rewind to the start of the source at the
 first newline in NewSimpleLexer

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index 9dc1b4b..2c89f99 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -88,6 +88,7 @@ func NewSimpleLexer(filename string, source string) Lexer {
 	// Essentially a lexer that has no knowledge of interpolations
 	return &lexer{context{
 		stringReader:          stringReader{text: source},
+		nextLineStart:         -1,
 		factory:               nil,
 		locator:               &Locator{string: source, file: filename},
 		handleBacktickStrings: false,
-- 
2.43.0


From c5e2b060513ab66f632c29f5e8665fd1bff0cfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 03/39] fix: accept a correctly encoded U+FFFD in the source

---
 parser/reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/reader.go b/parser/reader.go
index c18c0b3..1c9ad73 100644
--- a/parser/reader.go
+++ b/parser/reader.go
@@ -63,7 +63,7 @@ func (r *stringReader) Next() (c rune, start int) {
 		return
 	}
 	c, size := utf8.DecodeRuneInString(r.text[r.i:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size == 1 {
 		panic(r.invalidUnicode())
 	}
 	r.i += size
@@ -80,7 +80,7 @@ func (r *stringReader) Peek() (c rune, size int) {
 		return
 	}
 	c, size = utf8.DecodeRuneInString(r.text[r.i:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size == 1 {
 		panic(r.invalidUnicode())
 	}
 	return c, size
@@ -96,7 +96,7 @@ func (r *stringReader) PeekAt(pos int) (c rune, size int) {
 		return
 	}
 	c, size = utf8.DecodeRuneInString(r.text[pos:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size == 1 {
 		panic(r.invalidUnicode())
 	}
 	return c, size
-- 
2.43.0


From a5c55225c267878c832f1d36a32cb28c83e5cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 04/39] fix: compute the line index from the bytes of the
 source and only once

The index was built with the reader that panics on invalid UTF-8, so the
message of a parse error could not be produced when invalid UTF-8 followed the
error, and the index stopped at the first NUL. It was also written without
synchronization on first use, which is a data race when a parsed AST is shared.
---
 parser/expression.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/parser/expression.go b/parser/expression.go
index d3765b6..e580892 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"sort"
 	"strings"
+	"sync"
 	"unicode/utf8"
 
 	"github.com/lyraproj/issue/issue"
@@ -325,9 +326,10 @@ type (
 	}
 
 	Locator struct {
-		string    string
-		file      string
-		lineIndex []int
+		string        string
+		file          string
+		lineIndex     []int
+		lineIndexOnce sync.Once
 	}
 
 	MatchExpression struct {
@@ -582,16 +584,15 @@ func (e *Locator) PosOnLine(offset int) int {
 }
 
 func (e *Locator) getLineIndex() []int {
-	if e.lineIndex == nil {
+	e.lineIndexOnce.Do(func() {
 		li := append(make([]int, 0, 32), 0)
-		rdr := NewStringReader(e.string)
-		for c, _ := rdr.Next(); c != 0; c, _ = rdr.Next() {
-			if c == '\n' {
-				li = append(li, rdr.Pos())
+		for i := 0; i < len(e.string); i++ {
+			if e.string[i] == '\n' {
+				li = append(li, i+1)
 			}
 		}
 		e.lineIndex = li
-	}
+	})
 	return e.lineIndex
 }
 
-- 
2.43.0


From 90ff4dc372e52f29ff0d53f4c7ff61d37610e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 05/39] fix: let only the end line of a heredoc decide its
 margin and newline trim

A line of text that started with '-' or '|' changed the trimming and the margin
of the whole heredoc, and trimming the newline of an empty heredoc panicked with
a slice bounds error.
---
 parser/lexer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 108b486..56d5329 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1464,7 +1464,6 @@ findStartOfText:
 		}
 	}
 
-	suppressLastNL := false
 	heredocContentEnd := -1
 	heredocEnd := -1
 	indentStrip := 0
@@ -1481,6 +1480,8 @@ findEndOfText:
 
 		case '\n':
 			lineStart := ctx.Pos()
+			lineIndent := 0
+			suppressLastNL := false
 			c, n = ctx.skipWhiteInLiteral()
 			switch c {
 			case 0:
@@ -1488,7 +1489,7 @@ findEndOfText:
 				panic(ctx.parseIssue(lexHeredocUnterminated))
 
 			case '|':
-				indentStrip = n - lineStart
+				lineIndent = n - lineStart
 				c, n = ctx.skipWhiteInLiteral()
 				if c != '-' {
 					break
@@ -1513,9 +1514,10 @@ findEndOfText:
 				heredocEnd = n
 				if c == '\n' || c == 0 {
 					heredocContentEnd = lineStart
-					if suppressLastNL {
+					indentStrip = lineIndent
+					if suppressLastNL && heredocContentEnd > heredocContentStart {
 						heredocContentEnd--
-						if expr[heredocContentEnd-1] == '\r' {
+						if heredocContentEnd > heredocContentStart && expr[heredocContentEnd-1] == '\r' {
 							heredocContentEnd--
 						}
 					}
-- 
2.43.0


From 7542af93cffa3f43149af30831dee0fc26fdc018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 06/39] fix: do not position the lexer beyond the source when a
 heredoc ends it

---
 parser/lexer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 56d5329..0ed9901 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1510,8 +1510,8 @@ findEndOfText:
 			if tagEnd <= len(expr) && tag == expr[n:tagEnd] {
 				// tag found if rest of line is whitespace
 				ctx.SetPos(tagEnd)
-				c, n = ctx.skipWhiteInLiteral()
-				heredocEnd = n
+				c, _ = ctx.skipWhiteInLiteral()
+				heredocEnd = ctx.Pos() // after the newline, or at the end of the source
 				if c == '\n' || c == 0 {
 					heredocContentEnd = lineStart
 					indentStrip = lineIndent
@@ -1542,7 +1542,7 @@ findEndOfText:
 				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
 			}
 			ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
-			ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
+			ctx.nextLineStart = heredocEnd // and next newline will jump to here
 			textExpr := ctx.factory.ConcatenatedString(segments, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 			ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
 			return
@@ -1553,7 +1553,7 @@ findEndOfText:
 	}
 
 	ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
-	ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
+	ctx.nextLineStart = heredocEnd // and next newline will jump to here
 	if ctx.factory != nil {
 		textExpr := ctx.factory.String(heredoc, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
 		ctx.settokenValue(tokenHeredoc, ctx.factory.Heredoc(textExpr, syntax, ctx.locator, heredocStart, heredocContentEnd-heredocStart))
-- 
2.43.0


From a506d459e4fa0d0ebdfbbaf0e436133dffc165ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 07/39] fix: do not skip characters when looking for the start
 of heredoc text

The character after a '/' or a comment on the line with the heredoc tag was
consumed twice, so a newline in that position was not recognized.
---
 parser/lexer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 0ed9901..e4ae805 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1437,15 +1437,19 @@ findStartOfText:
 			panic(ctx.parseIssue(lexHeredocUnterminated))
 
 		case '#':
-			c, _ = ctx.skipWhite(true)
+			_, n = ctx.skipWhite(true)
+			ctx.SetPos(n)
+			c, sz = ctx.Peek()
 
 		case '/':
 			n = ctx.Pos()
 			ctx.Advance(sz)
-			c, _ = ctx.Next()
+			c, sz = ctx.Peek()
 			if c == '*' {
 				ctx.SetPos(n) // rewind to comment start
-				c, _ = ctx.skipWhite(true)
+				_, n = ctx.skipWhite(true)
+				ctx.SetPos(n)
+				c, sz = ctx.Peek()
 			}
 
 		case '\n':
-- 
2.43.0


From 937c5cf5c385f6c49bdc475164b0ee9ec78761e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 08/39] fix: keep heredoc continuation when looking ahead from
 a '|'

The lookahead consumed the position that the next newline must continue from, so
heredoc text was parsed as source when a '|' ended the line with the heredoc tag.
---
 parser/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index e4ae805..c3e4888 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -630,9 +630,10 @@ func (ctx *context) nextToken() {
 					// Empty parameter list
 					ctx.setToken(tokenPipeEnd)
 				} else {
-					pos := ctx.Pos()
+					pos, nextLineStart, beginningOfLine := ctx.Pos(), ctx.nextLineStart, ctx.beginningOfLine
 					n, _ := ctx.skipWhite(false)
 					ctx.SetPos(pos)
+					ctx.nextLineStart, ctx.beginningOfLine = nextLineStart, beginningOfLine
 					if n == '{' || n == '>' || ctx.eppMode && (n == '%' || n == '-') {
 						// A lambda parameter list cannot start with either of these tokens so
 						// this must be the end (next is either block body or block return type declaration)
-- 
2.43.0


From 94f47e905c9bfc58a6f330dc37ba2239eb6eefec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 09/39] fix: negative length of attribute names, return
 aliases, and iteration parameters

---
 parser/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2c89f99..d57ee2e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1147,12 +1147,12 @@ func (ctx *context) identifierExpr() (Expression, bool) {
 	start := ctx.tokenStartPos
 	switch ctx.currentToken {
 	case tokenIdentifier:
-		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, start-ctx.Pos())
+		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, ctx.Pos()-start)
 		ctx.nextToken()
 		return name, true
 	default:
 		if word, ok := ctx.keyword(); ok {
-			name := ctx.factory.QualifiedName(word, ctx.locator, start, start-ctx.Pos())
+			name := ctx.factory.QualifiedName(word, ctx.locator, start, ctx.Pos()-start)
 			ctx.nextToken()
 			return name, ok
 		}
@@ -1462,7 +1462,7 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			iterParams := ctx.parameterList()
 			ctx.nextToken()
 			vs := ctx.Pos()
-			pl := ps - vs
+			pl := vs - ps
 			iterVars := ctx.lambdaParameterList()
 			ctx.nextToken()
 			vl := ctx.Pos() - vs
@@ -1837,7 +1837,7 @@ func (ctx *context) returnParameter() Expression {
 		case tokenLp, tokenWslp:
 			ps := ctx.tokenStartPos
 			ctx.nextToken()
-			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ps-ctx.Pos())
+			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ctx.Pos()-ps)
 			ctx.nextToken()
 		default:
 			defaultExpression = ctx.attributeAlias()
-- 
2.43.0


From cb3c93917bc9e011da23af5fba93d5ce28681d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 10/39] fix: keep the start position of a string token that
 contains interpolation

Expressions that begin with such a string got an offset inside of the string, or
beyond their own end when the string is a heredoc.
---
 parser/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index c3e4888..463f872 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -562,6 +562,7 @@ func (ctx *context) nextToken() {
 			} else if c == '(' {
 				ctx.Advance(sz)
 				ctx.consumeHeredocString()
+				ctx.tokenStartPos = start
 			} else {
 				ctx.setToken(tokenAt)
 			}
@@ -646,6 +647,7 @@ func (ctx *context) nextToken() {
 
 		case '"':
 			ctx.consumeDoubleQuotedString()
+			ctx.tokenStartPos = start
 
 		case '\'':
 			ctx.consumeSingleQuotedString()
-- 
2.43.0


From 3a19fbda138462d96e7755ce3ea10163c70d9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 11/39] fix: let the position of an interpolation be the
 position of its '$'

All interpolations in a double quoted string were positioned at the first
character of the string or just after the preceding interpolation.
---
 parser/lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 463f872..04a5a69 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1000,7 +1000,7 @@ type escapeHandler func(buffer *bytes.Buffer, ctx *context, c rune)
 
 func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, interpolateSegments []Expression, handler escapeHandler) (segments []Expression) {
 	buf := bytes.NewBufferString(``)
-	ec, start := ctx.Next()
+	ec, _ := ctx.Next()
 	segments = interpolateSegments
 	for {
 		switch ec {
@@ -1034,8 +1034,8 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 
 		case '$':
 			if segments != nil {
-				segments = ctx.handleInterpolation(start, segments, buf)
-				ec, start = ctx.Next()
+				segments = ctx.handleInterpolation(ctx.Pos()-1, segments, buf)
+				ec, _ = ctx.Next()
 				continue
 			}
 
-- 
2.43.0


From 2804b57bb38c342ae3a0c05e40acb2dac0bd50fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 12/39] fix: report a type alias body that is not a hash
 instead of panicking

'type Foo = Bar {} + 1' made Parse panic with a type assertion error.
---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index d57ee2e..0b75182 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1223,7 +1223,10 @@ func (ctx *context) typeAliasOrDefinition() Expression {
 		switch bt := body.(type) {
 		case *QualifiedReference:
 			if ctx.currentToken == tokenLc {
-				hash := ctx.expression().(*LiteralHash)
+				hash, ok := ctx.expression().(*LiteralHash)
+				if !ok {
+					panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: tokenMap[tokenLc]}))
+				}
 				if bt.name == `Object` || bt.name == `TypeSet` {
 					body = ctx.factory.Access(bt, []Expression{hash}, ctx.locator, bodyStart, ctx.Pos()-bodyStart)
 				} else {
-- 
2.43.0


From 547df893f64e47181d68ee96f03064fe802e1598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 13/39] fix: report a numeric iteration variable instead of
 panicking

'action x {} $1 = times($n) |$i| {}' made Parse panic with a string.
---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0b75182..f180b7b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1447,7 +1447,10 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 
 	iterName := name
 	if ctx.currentToken == tokenVariable {
-		iterName = ctx.tokenString()
+		var ok bool
+		if iterName, ok = ctx.tokenValue.(string); !ok {
+			panic(ctx.parseIssue(parseExpectedVariable))
+		}
 		ctx.nextToken()
 		ctx.assertToken(tokenAssign)
 		ctx.nextToken()
-- 
2.43.0


From bcd48ccd8d02f6908ba7623179ddf1bd7fd23a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 14/39] fix: require parameter lists in step properties and
 iterations

'parameters => 3' silently dropped the value, and 'each $x $y | {}' dropped
arbitrary tokens instead of reporting them.
---
 parser/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index f180b7b..69746d6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1325,11 +1325,13 @@ func (ctx *context) stepProperty() Expression {
 	case `parameters`:
 		// TODO: Allow non condensed declaration using array of hashes where everything is
 		// spelled out (type and value expressed in hash)
+		ctx.assertParameterListStart()
 		value = ctx.factory.Array(ctx.parameterList(), ctx.locator, vstart, ctx.Pos()-vstart)
 		ctx.nextToken()
 	case `returns`:
 		// TODO: Allow non condensed declaration using array of hashes where everything is
 		// spelled out (type and value expressed in hash)
+		ctx.assertParameterListStart()
 		params := ctx.returnParameters()
 		value = ctx.factory.Array(params, ctx.locator, vstart, ctx.Pos()-vstart)
 		ctx.nextToken()
@@ -1465,8 +1467,10 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			fs := ctx.tokenStartPos
 			ps := ctx.Pos()
 			ctx.nextToken()
+			ctx.assertParameterListStart()
 			iterParams := ctx.parameterList()
 			ctx.nextToken()
+			ctx.assertToken(tokenPipe)
 			vs := ctx.Pos()
 			pl := vs - ps
 			iterVars := ctx.lambdaParameterList()
@@ -1756,6 +1760,13 @@ func (ctx *context) dottedName() Expression {
 	}
 }
 
+// assertParameterListStart asserts that the current token is a left parenthesis
+func (ctx *context) assertParameterListStart() {
+	if ctx.currentToken != tokenWslp {
+		ctx.assertToken(tokenLp)
+	}
+}
+
 func (ctx *context) parameterList() (result []Expression) {
 	switch ctx.currentToken {
 	case tokenLp, tokenWslp:
-- 
2.43.0


From 77f42d41ce1d38f560b6cc7b98d95ad8e4f5a880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 15/39] fix: do not rewind the lexer when a workflow style name
 is not followed by a name

With the workflow option, '[action, 2]' and '{resource => 1}' could not be parsed
and the token after the name was parsed twice.
---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 69746d6..73cb6cc 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -450,8 +450,11 @@ func (ctx *context) step() (expr Expression) {
 		if qn, ok := expr.(*QualifiedName); ok {
 			s := qn.Name()
 			if style, ok := workflowStyles[s]; ok {
+				pos := ctx.Pos()
 				if name, ok := ctx.identifier(); ok {
 					expr = ctx.stepDeclaration(start, style, name, true)
+				} else {
+					ctx.SetPos(pos) // not a step, the current token is still the next to parse
 				}
 			}
 		}
-- 
2.43.0


From 2c2569d8414306dd6742cd7ff5291f5fcf8cd784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 16/39] fix: position steps, step properties, and iteration
 lists at their first token

They were positioned after their first token, so issues for them pointed at the
wrong column and their text lacked the first word.
---
 parser/parser.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 73cb6cc..955cc4e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -444,7 +444,7 @@ func (ctx *context) assignment() (expr Expression) {
 }
 
 func (ctx *context) step() (expr Expression) {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	expr = ctx.resource()
 	if ctx.workflow {
 		if qn, ok := expr.(*QualifiedName); ok {
@@ -1311,7 +1311,7 @@ func (ctx *context) stepName(step StepStyle) string {
 // stepEntry is a hash entry with some specific constraints
 
 func (ctx *context) stepProperty() Expression {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	key, ok := ctx.identifierExpr()
 	if !ok {
 		panic(ctx.parseIssue(parseExpectedAttributeName))
@@ -1321,7 +1321,7 @@ func (ctx *context) stepProperty() Expression {
 	}
 	ctx.nextToken()
 
-	vstart := ctx.Pos()
+	vstart := ctx.tokenStartPos
 	name := key.(*QualifiedName).name
 	var value Expression
 	switch name {
@@ -1417,7 +1417,7 @@ func (ctx *context) stateAttribute() (op Expression) {
 }
 
 func (ctx *context) stepExpression() Expression {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	if ctx.currentToken == tokenFunction {
 		return ctx.functionDefinition()
 	}
@@ -1468,17 +1468,17 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			iterFunc := ctx.tokenString()
 			nl := len(iterFunc)
 			fs := ctx.tokenStartPos
-			ps := ctx.Pos()
 			ctx.nextToken()
 			ctx.assertParameterListStart()
+			ps := ctx.tokenStartPos
 			iterParams := ctx.parameterList()
+			pl := ctx.Pos() - ps
 			ctx.nextToken()
 			ctx.assertToken(tokenPipe)
-			vs := ctx.Pos()
-			pl := vs - ps
+			vs := ctx.tokenStartPos
 			iterVars := ctx.lambdaParameterList()
-			ctx.nextToken()
 			vl := ctx.Pos() - vs
+			ctx.nextToken()
 			fn := ctx.Pos() - fs
 			iter := f.Hash(
 				[]Expression{
-- 
2.43.0


From 96e7a1f5f08ac12539106197204b2cf2fcd7113d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 17/39] fix: report a \x escape whose first character is not a
 hexadecimal digit

It silently produced a NUL byte and swallowed the character.
---
 parser/lexer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 04a5a69..5422a56 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1676,11 +1676,11 @@ func (ctx *context) appendHexadec(buf *bytes.Buffer) {
 	// Must be XX (a two-digit hex number)
 	d, start := ctx.Next()
 	if isHexDigit(d) {
-		d, _ := ctx.Next()
-		if !isHexDigit(d) {
-			ctx.SetPos(start - 2)
-			panic(ctx.parseIssue(lexMalformedHexEscape))
-		}
+		d, _ = ctx.Next()
+	}
+	if !isHexDigit(d) {
+		ctx.SetPos(start - 2)
+		panic(ctx.parseIssue(lexMalformedHexEscape))
 	}
 	r, _ := strconv.ParseInt(ctx.From(start), 16, 64)
 	buf.WriteByte(byte(r))
-- 
2.43.0


From fec9871f5201df528cabb7ebf4002def2fc0d336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 18/39] fix: do not lex an operator that follows a number as a
 sign of its digits

'1-5' and '1+2' were lexed as the integer 0, '$1-5' as $0, and '1.-5' as 0.0.
---
 parser/lexer.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 5422a56..c80b088 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -960,6 +960,9 @@ outer:
 }
 
 func (ctx *context) consumeFloat(start int, d rune) {
+	if d != '.' {
+		ctx.skipSign()
+	}
 	if ctx.skipDecimalDigits() == 0 {
 		panic(ctx.parseIssue(lexDigitExpected))
 	}
@@ -968,6 +971,7 @@ func (ctx *context) consumeFloat(start int, d rune) {
 		// Check for 'e'
 		if c == 'e' || c == 'E' {
 			ctx.Advance(n)
+			ctx.skipSign()
 			if ctx.skipDecimalDigits() == 0 {
 				panic(ctx.parseIssue(lexDigitExpected))
 			}
@@ -981,13 +985,16 @@ func (ctx *context) consumeFloat(start int, d rune) {
 	ctx.settokenValue(tokenFloat, v)
 }
 
+// skipSign skips the optional sign of an exponent
+func (ctx *context) skipSign() {
+	if c, n := ctx.Peek(); c == '-' || c == '+' {
+		ctx.Advance(n)
+	}
+}
+
 func (ctx *context) skipDecimalDigits() (digitCount int) {
 	digitCount = 0
 	c, n := ctx.Peek()
-	if c == '-' || c == '+' {
-		ctx.Advance(n)
-		c, n = ctx.Peek()
-	}
 	for isDecimalDigit(c) {
 		ctx.Advance(n)
 		c, n = ctx.Peek()
-- 
2.43.0


From bc9ebecf504030a174050657d17735af74b6f1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 19/39] fix: report numbers that are out of range

An integer that does not fit in 64 bits was silently replaced by the largest
integer, and a too large float by an infinity that JSON cannot represent.
---
 parser/issues.go |  2 ++
 parser/lexer.go  | 24 +++++++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/parser/issues.go b/parser/issues.go
index d64af25..9a78d96 100644
--- a/parser/issues.go
+++ b/parser/issues.go
@@ -21,6 +21,7 @@ const (
 	lexMalformedHexEscape           = `LEX_MALFORMED_HEX_ESCAPE`
 	lexMalformedInterpolation       = `LEX_MALFORMED_INTERPOLATION`
 	lexMalformedUnicodeEscape       = `LEX_MALFORMED_UNICODE_ESCAPE`
+	lexNumberOutOfRange             = `LEX_NUMBER_OUT_OF_RANGE`
 	lexOctaldigitExpected           = `LEX_OCTALDIGIT_EXPECTED`
 	lexUnbalancedEppComment         = `LEX_UNBALANCED_EPP_COMMENT`
 	lexUnexpectedToken              = `LEX_UNEXPECTED_TOKEN`
@@ -74,6 +75,7 @@ func init() {
 	issue.Hard(lexMalformedHexEscape, `malformed hexadecimal escape sequence`)
 	issue.Hard(lexMalformedInterpolation, `malformed interpolation expression`)
 	issue.Hard(lexMalformedUnicodeEscape, `malformed unicode escape sequence`)
+	issue.Hard(lexNumberOutOfRange, `number is out of range`)
 	issue.Hard(lexOctaldigitExpected, `octal digit expected`)
 	issue.Hard(lexUnbalancedEppComment, `unbalanced epp comment`)
 	issue.Hard(lexUnexpectedToken, `unexpected token '%{token}'`)
diff --git a/parser/lexer.go b/parser/lexer.go
index c80b088..c5a63d5 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -366,7 +366,7 @@ func (ctx *context) nextToken() {
 		if unicode.IsLetter(c) {
 			panic(ctx.parseIssue(lexDigitExpected))
 		}
-		v, _ := strconv.ParseInt(ctx.From(start), 10, 64)
+		v := ctx.parseInt(start, start, 10)
 		ctx.settokenValue(tokenInteger, v)
 		ctx.radix = 10
 
@@ -676,7 +676,7 @@ func (ctx *context) nextToken() {
 			} else if isDecimalDigit(c) {
 				ctx.Advance(sz)
 				ctx.skipDecimalDigits()
-				ctx.tokenValue, _ = strconv.ParseInt(ctx.From(start+1), 10, 64)
+				ctx.tokenValue = ctx.parseInt(start, start+1, 10)
 			} else if unicode.IsLetter(c) {
 				panic(ctx.parseIssue(lexInvalidVariableName))
 			} else {
@@ -704,7 +704,7 @@ func (ctx *context) nextToken() {
 				if ctx.Pos() == hexStart || isLetter(c) {
 					panic(ctx.parseIssue(lexHexdigitExpected))
 				}
-				v, _ := strconv.ParseInt(ctx.From(hexStart), 16, 64)
+				v := ctx.parseInt(start, hexStart, 16)
 				ctx.radix = 16
 				ctx.settokenValue(tokenInteger, v)
 
@@ -723,7 +723,7 @@ func (ctx *context) nextToken() {
 					panic(ctx.parseIssue(lexOctaldigitExpected))
 				}
 				if ctx.Pos() > octalStart {
-					v, _ := strconv.ParseInt(ctx.From(octalStart), 8, 64)
+					v := ctx.parseInt(start, octalStart, 8)
 					ctx.radix = 8
 					ctx.settokenValue(tokenInteger, v)
 				} else {
@@ -959,6 +959,16 @@ outer:
 	ctx.settokenValue(token, word)
 }
 
+// parseInt converts the digits between digitsStart and the current position
+func (ctx *context) parseInt(start, digitsStart, radix int) int64 {
+	v, err := strconv.ParseInt(ctx.From(digitsStart), radix, 64)
+	if err != nil {
+		ctx.SetPos(start)
+		panic(ctx.parseIssue(lexNumberOutOfRange))
+	}
+	return v
+}
+
 func (ctx *context) consumeFloat(start int, d rune) {
 	if d != '.' {
 		ctx.skipSign()
@@ -981,7 +991,11 @@ func (ctx *context) consumeFloat(start int, d rune) {
 	if unicode.IsLetter(c) {
 		panic(ctx.parseIssue(lexDigitExpected))
 	}
-	v, _ := strconv.ParseFloat(ctx.From(start), 64)
+	v, err := strconv.ParseFloat(ctx.From(start), 64)
+	if err != nil {
+		ctx.SetPos(start)
+		panic(ctx.parseIssue(lexNumberOutOfRange))
+	}
 	ctx.settokenValue(tokenFloat, v)
 }
 
-- 
2.43.0


From 35da3e6fe80d1d9545e5074f26b87337df8f8d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 20/39] fix: report a NUL character instead of ignoring the
 source that follows it

---
 parser/lexer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index c5a63d5..e09a1bb 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -347,6 +347,15 @@ func (ctx *context) unterminatedQuote(start int, delimiter rune) issue.Reported
 	return ctx.parseIssue2(lexUnterminatedString, issue.H{`string_type`: stringType})
 }
 
+// assertEnd asserts that the zero rune that was read at the given position is the end of the source
+// and not a NUL character in it
+func (ctx *context) assertEnd(pos int) {
+	if pos < len(ctx.Text()) {
+		ctx.SetPos(pos)
+		panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: `NUL`}))
+	}
+}
+
 func (ctx *context) nextToken() {
 	sz := 0
 	scanStart := ctx.Pos()
@@ -379,6 +388,7 @@ func (ctx *context) nextToken() {
 	default:
 		switch c {
 		case 0:
+			ctx.assertEnd(start)
 			ctx.setToken(tokenEnd)
 		case '=':
 			c, sz = ctx.Peek()
@@ -1073,7 +1083,8 @@ func (ctx *context) consumeEPP() {
 	buf := bytes.NewBufferString(``)
 	lastNonWS := 0
 	var sz int
-	for ec, start := ctx.Next(); ec != 0; ec, start = ctx.Next() {
+	ec, start := ctx.Next()
+	for ; ec != 0; ec, start = ctx.Next() {
 		switch ec {
 		case '<':
 			ec, sz = ctx.Peek()
@@ -1153,6 +1164,7 @@ func (ctx *context) consumeEPP() {
 			lastNonWS = buf.Len()
 		}
 	}
+	ctx.assertEnd(start)
 	if buf.Len() == 0 {
 		ctx.setToken(tokenEnd)
 	} else {
-- 
2.43.0


From f8f06b838b824b540e596f705892e4efb4b636b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 21/39] fix: do not strip zeroes from the exponent of a float

1e20 was formatted as 1e+2 and 10000000000.0 as 1.0000000000000000e+1.
---
 pn/pn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index 7ab8a12..20c7c76 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -248,7 +248,7 @@ func (pn *literalPN) AsParameters() []PN {
 
 // Strip zeroes between last significant digit and end or exponent. The
 // zero following the decimal point is considered significant.
-var StripTrailingZeroes = regexp.MustCompile(`\A(.*(?:\.0|[1-9]))0+(e[+-]?\d+)?\z`)
+var StripTrailingZeroes = regexp.MustCompile(`\A([^e]*(?:\.0|[1-9]))0+(e[+-]?\d+)?\z`)
 
 func (pn *literalPN) Format(b *bytes.Buffer) {
 	switch pn.val.(type) {
-- 
2.43.0


From c8d9835ab10c93af326796983f390a465ca64aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 22/39] fix: represent the code of a reported issue as a string
 in PN

---
 pn/pn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index 20c7c76..bdc1fb6 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -82,7 +82,7 @@ var keyPattern = regexp.MustCompile(`^[A-Za-z_-][0-9A-Za-z_-]*$`)
 // Represent the Reported using Puppet Extended S-Expression Notation (PN)
 func ReportedToPN(ri issue.Reported) PN {
 	return Map([]Entry{
-		Literal(ri.Code()).WithName(`code`),
+		Literal(string(ri.Code())).WithName(`code`),
 		Literal(ri.Severity().String()).WithName(`severity`),
 		Literal(ri.Error()).WithName(`message`)})
 }
-- 
2.43.0


From 0119961a7c2653c30c9f60f0ecc87245697a2f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 23/39] fix: panic with a value that is an error when a PN map
 key is invalid

---
 pn/pn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index bdc1fb6..6487b84 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -98,7 +98,7 @@ func List(elements []PN) PN {
 func Map(entries []Entry) PN {
 	for _, e := range entries {
 		if !keyPattern.MatchString(e.Key()) {
-			panic(pnError{fmt.Sprintf("key '%s' does not conform to pattern %s",
+			panic(&pnError{fmt.Sprintf("key '%s' does not conform to pattern %s",
 				e.Key(), keyPattern.String())})
 		}
 	}
-- 
2.43.0


From cafa415caf6b803116b283f01f549b54575d922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 24/39] fix: parameters are not specified in an EPP template
 that has none

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 955cc4e..3ddb9d6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -208,7 +208,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 			if _, ok := e.(*BlockExpression); !ok {
 				e = ctx.factory.Block([]Expression{e}, ctx.locator, 0, ctx.Pos())
 			}
-			return ctx.factory.EppExpression([]Expression{}, e, ctx.locator, 0, ctx.Pos())
+			return ctx.factory.EppExpression(nil, e, ctx.locator, 0, ctx.Pos())
 		}
 
 		if ctx.currentToken == tokenEnd {
-- 
2.43.0


From 448b3c79070346177a0674aacd128641a10ec863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 25/39] fix: a hash with a list or hash as key has no literal
 Go value

ToLiteral, and hence validation of '{ {[1]=>2} => 3 }', panicked with 'hash of
unhashable type'.
---
 literal/literal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/literal/literal.go b/literal/literal.go
index 2fee078..c077737 100644
--- a/literal/literal.go
+++ b/literal/literal.go
@@ -38,7 +38,13 @@ func toLiteral(e parser.Expression) interface{} {
 		result := make(map[interface{}]interface{}, len(entries))
 		for _, entry := range entries {
 			kh := entry.(*parser.KeyedEntry)
-			result[toLiteral(kh.Key())] = toLiteral(kh.Value())
+			key := toLiteral(kh.Key())
+			switch key.(type) {
+			case []interface{}, map[interface{}]interface{}:
+				// cannot be a key in a Go map
+				panic(notLiteral)
+			}
+			result[key] = toLiteral(kh.Value())
 		}
 		return result
 	case *parser.ConcatenatedString:
-- 
2.43.0


From 8646cabd180f13016e525c29edfaa7d1a281dd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 26/39] fix: let a plan definition be the parent of its
 contents

Visitors were handed the function definition that the plan embeds as parent, and
ToDefinition returned that embedded definition.
---
 parser/expression.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index e580892..8aba0af 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -1573,6 +1573,18 @@ func (e *ParenthesizedExpression) ToUnaryExpression() UnaryExpression {
 
 func (e *ParenthesizedExpression) ToPN() pn.PN { return pn.Call(`paren`, e.Expr().ToPN()) }
 
+func (e *PlanDefinition) AllContents(path []Expression, visitor PathVisitor) {
+	DeepVisit(e, path, visitor, e.parameters, e.returnType, e.body)
+}
+
+func (e *PlanDefinition) Contents(path []Expression, visitor PathVisitor) {
+	ShallowVisit(e, path, visitor, e.parameters, e.returnType, e.body)
+}
+
+func (e *PlanDefinition) ToDefinition() Definition {
+	return e
+}
+
 func (e *PlanDefinition) ToPN() pn.PN {
 	return e.definitionPN(`plan`, ``, e.returnType)
 }
-- 
2.43.0


From bf197c20b1b054fb9ed319722905864cee50ff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 27/39] fix: ToLiteralValue of type names and EPP text returns
 the expression itself

It returned the embedded name or string expression.
---
 parser/expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index 8aba0af..e09b7df 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -1645,6 +1645,10 @@ func (e *QualifiedReference) Name() string {
 	return e.name
 }
 
+func (e *QualifiedReference) ToLiteralValue() LiteralValue {
+	return e
+}
+
 func (e *QualifiedReference) WithName(name string) *QualifiedReference {
 	rn := &QualifiedReference{}
 	*rn = *e
@@ -1711,6 +1715,10 @@ func (e *RenderStringExpression) Contents(path []Expression, visitor PathVisitor
 	ShallowVisit(e, path, visitor)
 }
 
+func (e *RenderStringExpression) ToLiteralValue() LiteralValue {
+	return e
+}
+
 func (e *RenderStringExpression) ToPN() pn.PN { return pn.Literal(e.Value()).AsCall(`render-s`) }
 
 func (e *ReservedWord) AllContents(path []Expression, visitor PathVisitor) {
-- 
2.43.0


From 9b37f1a1133b52abb10d97ef1f2d0cdcd8f480fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 28/39] fix: label lambdas, plans, function calls, and
 parenthesized expressions

They were presented as 'Positioned' in issues, or as a function in case of plans.
---
 parser/label.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/label.go b/parser/label.go
index 5762e09..2143c2c 100644
--- a/parser/label.go
+++ b/parser/label.go
@@ -17,6 +17,7 @@ func (e *AssignmentExpression) Label() string        { return fmt.Sprintf("'%s'
 func (e *AttributeOperation) Label() string          { return fmt.Sprintf("'%s' expression", e.operator) }
 func (e *AttributesOperation) Label() string         { return "AttributesOperation" }
 func (e *BlockExpression) Label() string             { return "Block Expression" }
+func (e *CallFunctionExpression) Label() string      { return "Function Call" }
 func (e *CallMethodExpression) Label() string        { return "Method Call" }
 func (e *CallNamedFunctionExpression) Label() string { return "Function Call" }
 func (e *CapabilityMapping) Label() string           { return "Capability Mapping" }
@@ -33,6 +34,7 @@ func (e *HostClassDefinition) Label() string         { return "Host Class Defini
 func (e *IfExpression) Label() string                { return "'if' statement" }
 func (e *InExpression) Label() string                { return "'in' expression" }
 func (e *KeyedEntry) Label() string                  { return "Hash Entry" }
+func (e *LambdaExpression) Label() string            { return "Lambda" }
 func (e *LiteralBoolean) Label() string              { return "Literal Boolean" }
 func (e *LiteralDefault) Label() string              { return "'default' expression" }
 func (e *LiteralFloat) Label() string                { return "Literal Float" }
@@ -49,6 +51,8 @@ func (e *Nop) Label() string                         { return "Nop" }
 func (e *NotExpression) Label() string               { return "'!' expression" }
 func (e *OrExpression) Label() string                { return "'or' expression" }
 func (e *Parameter) Label() string                   { return "Parameter Definition" }
+func (e *ParenthesizedExpression) Label() string     { return "Parenthesized Expression" }
+func (e *PlanDefinition) Label() string              { return "Plan Definition" }
 func (e *Program) Label() string                     { return "Program" }
 func (e *QualifiedName) Label() string               { return "Name" }
 func (e *QualifiedReference) Label() string          { return "Type-Name" }
-- 
2.43.0


From c9c57e13aee1ec6a583de8cbb4392af41a3ea5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 29/39] fix: report extraneous commas also when a block ends
 with a statement call

'1, 2' followed by a final 'notice 3' was accepted.
---
 parser/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3ddb9d6..e939320 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -316,6 +316,7 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 			result = append(result, cn)
 			idx++
 			if idx == top {
+				ctx.assertNoExtraneousCommas(result)
 				return
 			}
 			memo = exprs[idx]
@@ -331,7 +332,12 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 		cnFunc.rvalRequired = false
 	}
 	result = append(result, memo)
-	for _, ex := range result {
+	ctx.assertNoExtraneousCommas(result)
+	return
+}
+
+func (ctx *context) assertNoExtraneousCommas(exprs []Expression) {
+	for _, ex := range exprs {
 		if csl, ok := ex.(*commaSeparatedList); ok {
 			// This happens when a block contains extraneous commas between statements. The
 			// location of the comma is estimated to be right after the first statement in
@@ -343,7 +349,6 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 			panic(issue.NewReported(parseExtraneousComma, issue.SeverityError, issue.NoArgs, loc))
 		}
 	}
-	return
 }
 
 func (ctx *context) expressions(endToken int, producerFunc func() Expression) (exprs []Expression) {
-- 
2.43.0


From b2ed7b43ef8932201fb80ad23982e508ed29debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 30/39] fix: validate plan definitions in the same way as
 function definitions

Plans were not validated at all since their embedding of a function definition
does not make them match in a type switch.
---
 validator/checker.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/validator/checker.go b/validator/checker.go
index 475120b..60b12a7 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -105,6 +105,7 @@ type Checker interface {
 	checkNamedDefinition(e parser.NamedDefinition)
 	checkNodeDefinition(e *parser.NodeDefinition)
 	checkParameter(e *parser.Parameter)
+	checkPlanDefinition(e *parser.PlanDefinition)
 	checkQueryExpression(e parser.QueryExpression)
 	checkRelationshipExpression(e *parser.RelationshipExpression)
 	checkReservedWord(e *parser.ReservedWord)
@@ -174,6 +175,8 @@ func Check(v Checker, e parser.Expression) {
 		v.checkNodeDefinition(e)
 	case *parser.Parameter:
 		v.checkParameter(e)
+	case *parser.PlanDefinition:
+		v.checkPlanDefinition(e)
 	case *parser.RelationshipExpression:
 		v.checkRelationshipExpression(e)
 	case *parser.ReservedWord:
@@ -448,6 +451,12 @@ func (v *basicChecker) checkParameter(e *parser.Parameter) {
 	}
 }
 
+func (v *basicChecker) checkPlanDefinition(e *parser.PlanDefinition) {
+	v.checkNamedDefinition(e)
+	v.checkCaptureLast(e, e.Parameters())
+	v.checkReturnType(e, e.ReturnType())
+}
+
 func (v *basicChecker) checkQueryExpression(e parser.QueryExpression) {
 	if e.Expr() != nil {
 		v.checkQuery(e.Expr())
@@ -763,7 +772,7 @@ func (v *basicChecker) checkTop(e parser.Expression, c parser.Expression) {
 		c = v.ContainerOf(c)
 		if _, ok := c.(*parser.Program); !ok {
 			switch e.(type) {
-			case *parser.FunctionDefinition, *parser.TypeAlias, *parser.TypeDefinition, *parser.TypeMapping:
+			case *parser.FunctionDefinition, *parser.PlanDefinition, *parser.TypeAlias, *parser.TypeDefinition, *parser.TypeMapping:
 				// not ok. These can never be nested in a block
 				v.Accept(ValidateNotAbsoluteTopLevel, e, issue.H{`value`: e})
 				return
-- 
2.43.0


From bb9156de85872b01f0a26c844c7a763aa3e087b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 31/39] fix: let the parse command validate with the validator
 for -t and -w

Every workflow was rejected since it was validated as a Puppet manifest, and
catalog operations were accepted with -t.
---
 parse/parser.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parse/parser.go b/parse/parser.go
index 9f48301..25c2aa4 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -70,7 +70,7 @@ func main() {
 			os.Exit(1)
 		}
 
-		v := validator.ValidatePuppet(expr, strictness)
+		v := validate(expr, strictness)
 		if len(v.Issues()) > 0 {
 			severity := issue.Severity(issue.SeverityIgnore)
 			issues := make([]interface{}, len(v.Issues()))
@@ -100,7 +100,7 @@ func main() {
 		os.Exit(1)
 	}
 
-	v := validator.ValidatePuppet(expr, strictness)
+	v := validate(expr, strictness)
 	if len(v.Issues()) > 0 {
 		severity := issue.Severity(issue.SeverityIgnore)
 		for _, i := range v.Issues() {
@@ -121,6 +121,18 @@ func main() {
 	}
 }
 
+// validate validates the expression using the validator for the selected language
+func validate(expr parser.Expression, strictness validator.Strictness) validator.Validator {
+	switch {
+	case *workflow:
+		return validator.ValidateWorkflow(expr)
+	case *tasks:
+		return validator.ValidateTasks(expr)
+	default:
+		return validator.ValidatePuppet(expr, strictness)
+	}
+}
+
 func emitJson(value interface{}) {
 	b := bytes.NewBufferString(``)
 	json.ToJson(value, b)
-- 
2.43.0


From 599f06cddbe2e11225570725ddf20a588a0ec587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 32/39] fix: start a block at its first token and do not skip
 white space that follows that token

---
 parser/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e939320..a3c4fe6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -249,8 +249,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 }
 
 func (ctx *context) parse(expectedEnd int, singleExpression bool) (expr Expression) {
-	_, start := ctx.skipWhite(false)
-	ctx.SetPos(start)
+	start := ctx.tokenStartPos
 	if singleExpression {
 		if ctx.currentToken == expectedEnd {
 			expr = ctx.factory.Undef(ctx.locator, start, 0)
-- 
2.43.0


From 52e2690cf001c34ecc41fd6ce1775d7702d1ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 33/39] fix: report source that is not valid unicode instead of
 panicking in ParserValidator

---
 validator/issues.go    | 3 +++
 validator/validator.go | 8 +++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/validator/issues.go b/validator/issues.go
index c670c7d..7fac333 100644
--- a/validator/issues.go
+++ b/validator/issues.go
@@ -39,6 +39,7 @@ const (
 	ValidateReservedParameter               = `VALIDATE_RESERVED_PARAMETER`
 	ValidateReservedTypeName                = `VALIDATE_RESERVED_TYPE_NAME`
 	ValidateReservedWord                    = `VALIDATE_RESERVED_WORD`
+	ValidateUnparsableSource                = `VALIDATE_UNPARSABLE_SOURCE`
 	ValidateUnsupportedExpression           = `VALIDATE_UNSUPPORTED_EXPRESSION`
 	ValidateUnsupportedOperatorInContext    = `VALIDATE_UNSUPPORTED_OPERATOR_IN_CONTEXT`
 	ValidateWorkflowOperationNotSupported   = `VALIDATE_WORKFLOW_OPERATION_NOT_SUPPORTED`
@@ -142,6 +143,8 @@ func init() {
 
 	issue.Hard(ValidateReservedWord, `Use of reserved word: %{word}, must be quoted if intended to be a String value`)
 
+	issue.Hard(ValidateUnparsableSource, `%{detail}`)
+
 	issue.Hard2(ValidateUnsupportedExpression,
 		`Expressions of type %{expression} are not supported in this version of Puppet`,
 		issue.HF{`expression`: issue.AnOrA})
diff --git a/validator/validator.go b/validator/validator.go
index fa2d652..8595ec6 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -173,10 +173,12 @@ func NewParserValidator(parser parser.ExpressionParser, validator Validator) Par
 func (pv *parserValidator) Parse(filename string, source string) (parser.Expression, issue.Result) {
 	expr, err := pv.parser.Parse(filename, source, false)
 	if err != nil {
-		if i, ok := err.(issue.Reported); ok {
-			return nil, issue.NewResult([]issue.Reported{i})
+		i, ok := err.(issue.Reported)
+		if !ok {
+			// The source is not valid unicode
+			i = issue.NewReported(ValidateUnparsableSource, issue.SeverityError, issue.H{`detail`: err.Error()}, issue.NewLocation(filename, 0, 0))
 		}
-		panic(err.Error())
+		return nil, issue.NewResult([]issue.Reported{i})
 	}
 	Validate(pv.validator, expr)
 	issues := pv.validator.Issues()
-- 
2.43.0


From dc9a0a1838fac3f97bd9618e539f0d572d7474cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 34/39] fix: accept a collector without a query in the
 validator

---
 validator/checker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/validator/checker.go b/validator/checker.go
index 60b12a7..2625810 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -711,8 +711,9 @@ func (v *basicChecker) checkQuery(e parser.Expression) {
 		}
 	case *parser.ParenthesizedExpression:
 		v.checkQuery(e.Expr())
-	case *parser.VariableExpression, *parser.QualifiedName, *parser.LiteralInteger, *parser.LiteralFloat, *parser.LiteralString, *parser.LiteralBoolean:
-		// OK
+	case *parser.VariableExpression, *parser.QualifiedName, *parser.LiteralInteger, *parser.LiteralFloat, *parser.LiteralString, *parser.LiteralBoolean,
+		*parser.Nop:
+		// OK. A Nop is the query that is left out
 	case parser.BooleanExpression:
 		v.checkQuery(e.Lhs())
 		v.checkQuery(e.Rhs())
-- 
2.43.0


From c518f4edc7f8593cc246f0a90bb0c0139bdf809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:17 +0000
Subject: [PATCH 35/39] fix: numbers in a node name keep their source text
 (10.0.0.1 became 10.0.1)

---
 parser/parser.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index a3c4fe6..34b5eda 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/lyraproj/issue/issue"
@@ -1751,10 +1750,8 @@ func (ctx *context) dottedName() Expression {
 		switch ctx.currentToken {
 		case tokenIdentifier, tokenTypeName:
 			names = append(names, ctx.tokenString())
-		case tokenInteger:
-			names = append(names, strconv.FormatInt(ctx.tokenValue.(int64), 10))
-		case tokenFloat:
-			names = append(names, strconv.FormatFloat(ctx.tokenValue.(float64), 'g', -1, 64))
+		case tokenInteger, tokenFloat:
+			names = append(names, ctx.From(ctx.tokenStartPos))
 		default:
 			panic(ctx.parseIssue(parseExpectedNameOrNumberAfterDot))
 		}
-- 
2.43.0


From 2cfeb5f76f8b2e5461da9b0ea0caff6dcab1dfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:06 +0000
Subject: [PATCH 36/39] fix: a parameter that captures the rest is named by the
 issue that reports it

---
 validator/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/checker.go b/validator/checker.go
index 2625810..051dd64 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -676,7 +676,7 @@ func (v *basicChecker) checkNoCapture(container parser.Expression, parameters []
 	for _, parameter := range parameters {
 		if param, ok := parameter.(*parser.Parameter); ok && param.CapturesRest() {
 			v.Accept(ValidateCapturesRestNotSupported, param,
-				issue.H{`name`: param.Name(), `container`: container})
+				issue.H{`param`: param.Name(), `container`: container})
 		}
 	}
 }
-- 
2.43.0


From 9b0609acc6c484b8c07fbb21717097e5ef2b0628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:46 +0000
Subject: [PATCH 37/39] fix: let an interpolated access or call cover all of
 its text

---
 parser/lexer.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index e09a1bb..3e12b81 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1210,15 +1210,15 @@ func (ctx *context) interpolate(start int) Expression {
 			access := expr.(*AccessExpression)
 			if identifier, ok := access.operand.(*QualifiedName); ok {
 				expr = ctx.factory.Access(
-					ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteLength()+1),
-					access.keys, ctx.locator, start, access.ByteLength()+1)
+					ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteOffset()+identifier.ByteLength()-start),
+					access.keys, ctx.locator, start, access.ByteOffset()+access.ByteLength()-start)
 			}
 		case *CallMethodExpression:
 			call := expr.(*CallMethodExpression)
 			if ne, ok := call.functor.(*NamedAccessExpression); ok {
 				modNe := ctx.convertNamedAccessLHS(ne, start)
 				if modNe != ne {
-					expr = ctx.factory.CallMethod(modNe, call.arguments, call.lambda, ctx.locator, start, call.ByteLength()+1)
+					expr = ctx.factory.CallMethod(modNe, call.arguments, call.lambda, ctx.locator, start, call.ByteOffset()+call.ByteLength()-start)
 				}
 			}
 		}
@@ -1242,25 +1242,25 @@ func (ctx *context) convertNamedAccessLHS(expr *NamedAccessExpression, start int
 	switch lhs := expr.lhs.(type) {
 	case *QualifiedName:
 		return ctx.factory.NamedAccess(
-			ctx.factory.Variable(lhs, ctx.locator, start, lhs.ByteLength()+1),
-			expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+			ctx.factory.Variable(lhs, ctx.locator, start, lhs.ByteOffset()+lhs.ByteLength()-start),
+			expr.rhs, ctx.locator, start, expr.ByteOffset()+expr.ByteLength()-start)
 	case *AccessExpression:
 		var lhe Expression = lhs
 		if identifier, ok := lhs.operand.(*QualifiedName); ok {
 			lhe = ctx.factory.Access(
-				ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteLength()+1),
-				lhs.keys, ctx.locator, start, lhs.ByteLength()+1)
+				ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteOffset()+identifier.ByteLength()-start),
+				lhs.keys, ctx.locator, start, lhs.ByteOffset()+lhs.ByteLength()-start)
 		}
-		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteOffset()+expr.ByteLength()-start)
 	case *NamedAccessExpression:
 		return ctx.factory.NamedAccess(
 			ctx.convertNamedAccessLHS(lhs, start),
-			expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+			expr.rhs, ctx.locator, start, expr.ByteOffset()+expr.ByteLength()-start)
 	case *CallMethodExpression:
 		lhe := ctx.factory.CallMethod(
 			ctx.convertNamedAccessLHS(lhs.functor.(*NamedAccessExpression), start),
-			lhs.arguments, lhs.lambda, ctx.locator, start, lhs.ByteLength()+1).(*CallMethodExpression)
-		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+			lhs.arguments, lhs.lambda, ctx.locator, start, lhs.ByteOffset()+lhs.ByteLength()-start).(*CallMethodExpression)
+		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteOffset()+expr.ByteLength()-start)
 	}
 	return expr
 }
-- 
2.43.0


From 7af69db03b78789f6a0f64cab0213fd32e28e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:10 +0000
Subject: [PATCH 38/39] fix: let the state of a resource step start at its
 brace

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 34b5eda..246dffe 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1529,7 +1529,7 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			ctx.nextToken()
 			entries := ctx.stateHash(hstart)
 			if len(entries) > 0 {
-				block = ctx.factory.Hash(entries, ctx.locator, start, ctx.Pos()-start).(*LiteralHash)
+				block = ctx.factory.Hash(entries, ctx.locator, hstart, ctx.Pos()-hstart).(*LiteralHash)
 			}
 			ctx.nextToken()
 		}
-- 
2.43.0


From 993165e0b0c4927791aad26451dde5a7a86ded4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:14 +0000
Subject: [PATCH 39/39] fix: let a numeric variable in the state of a step keep
 its number

---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 246dffe..cda9343 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1395,8 +1395,10 @@ func convertToDeferred(f ExpressionFactory, e Expression) Expression {
 				[]Expression{nw, f.Array(convertSliceToDeferred(f, args), l, bo, 0)}, nil, l, bo, bl)
 		}
 	case *VariableExpression:
-		ve := e.(*VariableExpression)
-		n, _ := ve.Name()
+		n, ok := et.Name()
+		if !ok {
+			n = fmt.Sprint(et.NameOrIndex())
+		}
 		e = f.CallMethod(f.NamedAccess(f.QualifiedReference(`Deferred`, l, bo, 0), f.QualifiedName(`new`, l, bo, 0), l, bo, 0),
 			[]Expression{f.String(`$`+n, l, bo, bl)}, nil, l, bo, bl)
 	}
-- 
2.43.0

