AI = "abstract interpretation of the SSA form of the current source, with symbolic inputs"
PM = "abstract interpretation of the SSA form of the current source, partitioned by the tests that the code makes on open parts"

prop("C01", "Traversal visits every sub expression once, in a fixed order",
     "For every syntax node, iterating its contents visits each of its present direct sub expressions exactly once, in a fixed order, and passes the path of the "
     "ancestors ending with the node itself. Deep iteration visits every expression of the tree once, each node before its own sub expressions and these before its next sibling. "
     "Absent optional sub expressions are not visited.",
     ["inputs", "programs"], "every syntax tree, built from any combination of node kinds, with any optional part absent and any number of list elements",
     "tests traverse a few trees; a visitor that skips or repeats one child of one of the 69 kinds is only seen by a test of that child",
     ["parser/expression.go"], [("shallow and deep visit per kind", "parser/expression.go Contents, AllContents, deepVisit, shallowVisit")],
     PM + "; the visits on every path compared with the parts that are present on that path",
     "Every factory method with open parts: absent or present, lists of up to 3 elements, paths of up to 2 ancestors; 645 paths, 203 classes of order. Parts are opaque: what they contain is one marker, so deeper trees follow by induction over the kinds.",
     observe=["Expression.Contents", "Expression.AllContents"])

prop("C02", "A syntax node reports exactly what it was created from",
     "Every syntax node created through the default factory reports, through each of its accessors, exactly the parts that it was created from, or the constant that characterises its kind. "
     "Its location, byte offset and byte length are those that the factory was given, and its source text is the part of the source that they denote.",
     ["inputs", "programs"], "every node kind and every value of every constructor argument",
     "the values are arbitrary; a test sees only the accessors and the values that it asks for",
     ["parser/factory.go", "parser/expression.go"], [("construction", "parser/factory.go defaultExpressionFactory"), ("accessors", "parser/expression.go")],
     PM + "; the answer of every accessor on every path compared with the arguments, and with a reviewed table",
     "All factory methods, all parameterless exported methods of the nodes, the copies that the With methods make, and the look-up of a key in a literal hash (1969 paths, 405 table rows). Locations and source text are decided for a real locator, and every argument must be stored.",
     observe=["ExpressionFactory", "accessors of the node kinds"])

prop("C03", "The PN form reflects every part of every syntax node",
     "The PN representation of a syntax node depends on each of its parts: no sub expression, name, value, flag or form that the node was created from is left out. "
     "Two nodes that differ in a flag or a form have representations that differ in structure.",
     ["inputs", "programs"], "every node kind and every value of every constructor argument, with any other part present or absent",
     "tests compare the PN of sample sources; a part that is dropped in one branch only shows when that branch is taken with that part",
     ["parser/expression.go", "pn/pn.go"], [("conversion to PN per kind", "parser/expression.go ToPN")],
     PM + "; every present part must be in the representation on every path, and paths that differ in a name, operator, value or flag must differ in the result",
     "1238 paths through ToPN of 69 kinds with open parts, lists of up to 3 elements, the words of the rules and all operators. Does not decide that the PN text is right (C04).",
     observe=["Expression.ToPN"])

prop("C11", "Each semantic rule is enforced exactly where the language demands it",
     "For every kind of node, in every kind of container and with every kind of sub expression, the puppet validator reports an issue code exactly when a rule of the language forbids that construct, "
     "blames the offending node and uses the arguments that the message needs. Constructs that the rules allow are not reported.",
     ["inputs", "programs"], "every syntax tree: the kind of a node crossed with the kinds of its sub expressions, its operators and names, and the kinds of its containers",
     "the cross product has thousands of classes, tests cover a couple of hundred of them",
     ["validator/checker.go", "validator/validator.go"], [("dispatch per kind", "validator/checker.go Check"), ("rules", "validator/checker.go check*")],
     AI + "; path-partitioned, for open trees; the decision table of reported issues, in normal form, compared with a reviewed one",
     "About 100,000 paths for open trees of every kind in up to three containers, two levels deep, lists up to two long; names from about 400 words (one of each shape, and all words of the source). "
     "The issues of a tree are compared without their order.",
     observe=["Validator.Issues"])

prop("C12", "Task and workflow validation forbid catalog operations and no more",
     "When validating tasks, exactly the catalog constructs (classes, nodes, defined types, sites, applications, capability mappings, collectors, resources, their defaults and overrides, "
     "relationships) are reported as unsupported catalog operations, wherever they occur, each with one issue on the construct itself. All other constructs are subject to the same rules as in puppet code; "
     "workflow validation behaves likewise and also checks that the style of each step is known.",
     ["inputs", "programs"], "every syntax tree: kinds of nodes crossed with kinds of containers and sub expressions",
     "the task and workflow checkers override a table of methods; a missed or additional override shows for one kind in one container",
     ["validator/tasks_checker.go", "validator/workflow_checker.go", "validator/checker.go"], [("overrides", "validator/tasks_checker.go, validator/workflow_checker.go"), ("dispatch", "validator/checker.go Check")],
     AI + "; path-partitioned, for open trees; the decision tables compared with those of the puppet checker",
     "The decision tables of the three checkers for the trees of C11: catalog constructs are always reported, for all other trees the tables are equal.",
     observe=["Validator.Issues"])

prop("C13", "Validation checks every node once, in its own context",
     "A validation first discards the issues of an earlier one, then checks the root and every expression below it exactly once, parents first, each with the path of its own ancestors. "
     "The convenience functions validate the given expression once, with a new validator of the kind and strictness asked for, and return that validator. "
     "The parsing validator returns the syntax tree and the issues of the source, never panics on source that is not valid unicode, and passes a failed parse on as an issue.",
     ["inputs", "histories"], "every expression and any number of validations with the same validator",
     "tests use a new validator each time and look at issues of small trees",
     ["validator/validator.go", "validator/checker.go"], [("Validate", "validator/validator.go Validate, ValidatePuppet, ValidateTasks, ValidateWorkflow"), ("ParserValidator", "validator/validator.go")],
     AI + "; event traces of a validation compared with the required order",
     "25 obligations on all event traces of the entry points.",
     observe=["Validator.Issues", "ParserValidator results"])

prop("C14", "Issue severities follow the strictness and demotion policy",
     "Every issue is reported with severity error, except that reserved future words are deprecations and that, for puppet code, the strictness level decides whether duplicate keys and "
     "ineffective expressions are ignored, warnings or errors. Only issues registered as demotable can be demoted, to a known severity, and this affects no other issue. "
     "A validator keeps every issue that is not ignored, in the order of reporting, until it is cleared.",
     ["inputs", "histories"], "every issue code, every strictness level, every kind of validator, and any sequence of demotions, reports and clearings",
     "tests use one level and a handful of codes",
     ["validator/checker.go", "validator/issues.go", "validator/validator.go"], [("severities", "validator/checker.go Accept, Demote, initialize"), ("registration", "validator/issues.go, parser/issues.go")],
     AI + "; severity per code, level and kind of validator compared with a reviewed table",
     "440 combinations of code and validator, 60 demotions, and the names of the levels.",
     observe=["severity of Validator.Issues"])

prop("C04", "The PN form of each node kind has its documented shape",
     "Each kind of syntax node becomes the same PN call, map, list or literal for the same presence, kind and number of its parts, and PN lists, maps, calls, strings, booleans, integers, nil and regular data are written in the "
     "documented syntax: strings in double quotes with the documented escapes, map entries as key and value, calls as a parenthesised name and arguments. The text of floating point numbers is not covered.",
     ["inputs", "programs"], "every node kind, with every part absent, present or of any number, and every string",
     "tests compare the PN text of sample sources; a part in the wrong place or under the wrong key shows only for the form that has it",
     ["parser/expression.go", "pn/pn.go", "pn/quote.go"], [("conversion to PN per kind", "parser/expression.go ToPN"), ("text form", "pn/pn.go Format, pn/quote.go DoubleQuote"), ("data form", "pn/pn.go ToData")],
     PM + "; the data form per class of node and the text per kind of PN compared with a reviewed table and an oracle for quoting, keys and literals",
     "1238 paths in 1344 rows, 240 keys, all 7 bit characters and a choice of others. The parameter names that make the conversion panic are known findings. The text of floats is not decided.",
     observe=["Expression.ToPN", "PN.String", "PN.ToData"])

prop("C05", "Every kind of node has its label and belongs to its families",
     "Each kind of syntax node has the label that messages use for it, built from its operator or word where it has one, and belongs to exactly the families of nodes that the language gives it: "
     "definitions, named definitions, binary, boolean, unary, call and query expressions, resources, literal values and numbers.",
     ["programs"], "every node kind and every family",
     "a label or a family is used by messages and rules far from its definition, and a method that is added or lost changes the family silently",
     ["parser/label.go", "parser/expression.go"], [("labels", "parser/label.go"), ("families", "parser/expression.go")],
     PM + "; the label for every name and operator, and interface satisfaction in the type-checked program, compared with a reviewed table",
     "79 labels and families over 69 kinds, for all operators and words.",
     observe=["Expression.Label", "exported interfaces of the parser"])

prop("C15", "The command reports and exits according to its options and the outcome",
     "The parse command accepts one file, parses it in EPP mode when its name ends with .epp and with the task and workflow languages as asked for, validates with the validator of the selected language at the given strictness, "
     "prints every issue, and the syntax tree only when there is no error and not only validation is asked for, as text or as one JSON object. It exits with status 1 when parsing fails or an issue is an error, and with 0 otherwise.",
     ["inputs", "configurations"], "every combination of options, kind of file name, outcome of parsing and severities of issues",
     "the command has no tests",
     ["parse/parser.go"], [("main", "parse/parser.go main"), ("choice of validator", "parse/parser.go validate")],
     PM + "; output, error output, exit status and calls on every path compared with an independent description of the command",
     "3650 paths: all combinations of options, 6 kinds of file name, 3 outcomes of parsing, up to 3 issues of open severity. That a file which cannot be read ends in a panic is not decided.",
     observe=["exit status", "standard output and error"])

prop("C23", "The literal value of an expression is found for literals and nothing else",
     "The literal conversion returns the value of every literal, and of lists, hashes, heredocs, plain concatenated strings and programs that consist of literals all the way down, and reports that any other expression is not a literal. "
     "It never panics, also not for hashes with keys that cannot be keys of a map.",
     ["inputs"], "every expression: kinds of nodes crossed with kinds and numbers of parts",
     "tests convert a few literals; a kind that is mixed up or a panic that escapes shows only for one nesting",
     ["literal/literal.go"], [("conversion", "literal/literal.go ToLiteral")],
     PM + "; the result on every path compared with an independent definition of literal values",
     "5763 paths: parts of all kinds, nested to depth 3, lists of up to 2 elements, plus 43 larger trees.",
     observe=["literal.ToLiteral"])

EF = "effect analysis over the call graph and SSA form (field sensitive, with method resolution by type)"
prop("C08", "Parsing depends only on the source and options, not on earlier parses",
     "A parser can be used any number of times, also after failed parses: each parse gives the tree and the error that a new parser with the same options gives for the same file name, source and mode, "
     "and it does not change what earlier parses returned. Nothing depends on the environment, the time, or the order in which maps are iterated.",
     ["histories", "inputs"], "every sequence of successful and failed parses with one parser",
     "tests create a new parser for each source",
     ["parser/parser.go", "parser/lexer.go"], [("Parse", "parser/parser.go Parse, parseTopExpression"), ("state", "parser/lexer.go context")],
     EF + "; upward exposed uses of the fields of the parser object",
     "22 obligations: every field that parsing can change is set at the start of each parse on all paths before it is read, with a value that does not contain memory of the earlier parse; no iteration over a map affects a result.",
     observe=["results of repeated Parse calls"])

prop("C09", "Parsers and validators share no mutable state",
     "Different parsers and validators can be used at the same time: after initialization nothing that parsing, validation or conversion does writes to memory that is shared through global variables.",
     ["schedules", "programs"], "every interleaving of any number of parsers, validators and conversions on different objects",
     "tests run one parser at a time, and races show only under particular schedules",
     ["parser/parser.go", "parser/lexer.go", "validator/checker.go"], [("global tables", "parser/parser.go, parser/lexer.go, validator/checker.go"), ("validators", "validator/checker.go NewChecker")],
     EF + "; values that refer to memory reachable from global variables followed through assignments and calls",
     "1161 obligations: every store, map update, append, copy and call of an outside function in functions reachable from exported ones.",
     observe=["data races", "results under concurrency"])

prop("C10", "A finished syntax tree does not change",
     "No operation on a finished syntax tree changes what can be observed of it: visiting, looking up, asking for locations, validation, and conversion leave nodes, lists of nodes and paths as they were, "
     "so that a tree can be used by several goroutines. Values computed on demand are computed once under synchronization.",
     ["schedules", "histories"], "every sequence and interleaving of operations on every tree",
     "tests look at a tree once, after one operation",
     ["parser/expression.go", "validator/checker.go", "literal/literal.go"], [("accessors and visits", "parser/expression.go"), ("location index", "parser/expression.go Locator"), ("validation", "validator/checker.go Check")],
     EF + "; stores to nodes, locators and their lists outside of construction",
     "488 obligations.",
     observe=["trees after operations on them", "data races"])

GR = "grammar extraction: abstract interpretation of the parser's SSA form over an open token stream, partitioned by the tests that the code makes, with summaries for nested grammar rules"
prop("C06", "Whatever the source is, parsing returns: a tree or an error, never a panic",
     "For every source text, and every sequence of tokens, the parser and its lexer either build a tree or refuse the input with an error that the call of parse returns; it never ends in a run-time panic "
     "(nil dereference, index out of range, failed type assertion) or lets an internal panic escape to the caller.",
     ["inputs"], "every stream of tokens and values of tokens, with arbitrary nested expressions, up to a bound per grammar rule; every text up to a bound after each of about a hundred prefixes",
     "an unexpected combination of tokens or node kinds is not in any test; a type assertion that fails needs one",
     ["parser/parser.go", "parser/lexer.go", "parser/reader.go"], [("parser", "parser/parser.go, all methods of context"), ("lexer", "parser/lexer.go nextToken, consumeEPP"), ("containment", "parser/parser.go parseTopExpression")],
     GR + "; no path may panic", "about 38000 paths through 33 grammar rules and Parse, 260000 through the lexer; the thorough tier allows for more paths per rule.",
     observe=["Parse"], thorough=True)
prop("C17", "Each construct of the language is accepted and becomes its own syntax tree",
     "For every sequence of tokens, the parser accepts exactly the constructs of the Puppet language (definitions, conditionals, resources and their defaults and overrides, collectors, calls, lambdas, access, "
     "selectors, literals, type aliases, heredocs, steps) and represents each by the tree with its parts in their places, names and flags included. What is not a construct is refused.",
     ["inputs", "programs"], "every stream of tokens with arbitrary nested expressions, up to a bound on the number of tokens and nested parts per grammar rule",
     "tests hold a sample of each construct, not the optional parts in all combinations or the inputs next to them that must be refused",
     ["parser/parser.go", "parser/factory.go", "parser/expression.go"], [("grammar rules", "parser/parser.go"), ("construction", "parser/factory.go")],
     GR + "; table of paths in a canonical form compared with a reviewed table", "31042 cases.",
     observe=["Parse", "ToPN", "accessors of the nodes"])
prop("C18", "Operators group by their documented precedence and associativity",
     "An expression made of operands and operators is grouped as the documented levels say, from loosest to tightest: relationship arrows, assignment, or, and, comparison, equality, shift, sum, product, match, in, prefix. "
     "All binary operators group to the left except assignment, which groups to the right, and no sequence of operators and operands is cut short or refused.",
     ["inputs"], "every sequence of up to two binary operators (three in the thorough tier) and of binary with prefix operators, over arbitrary operands",
     "there are hundreds of ordered pairs of operators, tests have a few",
     ["parser/parser.go"], [("levels", "parser/parser.go relationship ... unaryExpression")],
     GR + "; grouping compared with an independent operator-precedence oracle", "3326 sequences; 43578 in the thorough tier.", thorough=True,
     observe=["Parse"])
prop("C19", "Each node of a syntax tree covers the text it was made from",
     "The extent (byte offset and length) of each node starts at the first token of its construct, or of its first operand, and ends at the end of the construct as far as it was read when the node was made; "
     "parentheses, prefix operators and signs are included. Tokens start at their first character, and strings, their segments and heredocs keep the extent of their text; an extent never starts after it ends.",
     ["inputs"], "every stream of tokens up to a bound per grammar rule",
     "tests look at the extents of a handful of nodes",
     ["parser/parser.go", "parser/factory.go"], [("extents", "parser/parser.go tokenStartPos, Pos; parser/expression.go Positioned, updateOffsetAndLength")],
     GR + "; symbolic extents of all nodes compared with a reviewed table", "parser extents are expressed in starts and ends of tokens, those of the lexer in characters.",
     observe=["ByteOffset", "ByteLength"])
prop("C20", "What is refused is refused with the error that names it, at its location",
     "When the lexer or the parser refuses its input, the error has the issue code for what failed, with arguments that name the expected and the actual token, and its location is the token or character at which it gave up "
     "(the start of the string, heredoc or number for those).",
     ["inputs"], "every refused stream of tokens up to a bound per grammar rule, every refused text up to a bound",
     "tests check the text of a few errors; each refusal has its own place in the code",
     ["parser/parser.go", "parser/lexer.go", "parser/issues.go"], [("refusals", "parser/parser.go assertToken; parser/lexer.go parseIssue, parseIssue2")],
     GR + "; code, arguments and location of each refusal compared with a reviewed table", "location in terms of start and end of tokens",
     observe=["issue.Reported"])
prop("C21", "Every definition is registered with its program, in order, under its full name",
     "The program lists every class, define, application, node, plan, function, type alias, type mapping, site, capability mapping and step definition it contains exactly once, nested ones before those that contain them. "
     "Classes and steps inside a class or workflow are named with its namespace, and the namespace ends with the body that opened it.",
     ["inputs", "programs"], "every definition with any optional parts, in any nesting",
     "a definition that is dropped or a namespace that leaks shows only in nested definitions after one another",
     ["parser/parser.go"], [("registration", "parser/parser.go addDefinition"), ("namespace", "parser/parser.go nameStack, qualifiedName")],
     GR + "; registered definitions and remaining namespace compared with a reviewed table", "313 cases that define something.",
     state=[("definitions", "definitions found so far", "parser/lexer.go context.definitions"), ("nameStack", "names of the enclosing classes", "parser/lexer.go context.nameStack")],
     observe=["Program.Definitions", "HostClassDefinition.Name"])
prop("C25", "Parsing always comes to an end",
     "Each loop and recursion of the parser reads a token, and each loop of the lexer a character, before it goes round again, also after an error or at the end of the input, so that parsing ends for every finite source.",
     ["inputs"], "every stream of tokens up to a bound per grammar rule",
     "an endless loop needs one particular unexpected token in one particular place",
     ["parser/parser.go"], [("loops", "parser/parser.go, all methods of context with loops")],
     GR + "; no path may exceed the limits of steps or recursion without reading", "a loop that reads a token each time ends at the bound and is accepted.",
     observe=["Parse"], thorough=True)

LX = "Abstract interpretation of the lexer's SSA over a source of open characters (sets split only where the code tells characters apart), all paths up to a bound on the length of the text"
BD = "every text up to a bound (2 to 8 characters) after each of the prefixes that select a situation; characters are sets, so all texts of that length are covered"
prop("C16", "Every text is cut into the tokens of the language, with their values",
     "Operators are the longest that match; names, type names, variables, dashed words and keywords are told apart by their letters; a regular expression starts only where a value cannot stand before it. "
     "White space and comments separate tokens and have no other effect, except that a parenthesis or bracket at the start of a line or after a space is a token of its own. Text that is no token is refused.",
     ["inputs"], BD,
     "there are hundreds of pairs of adjacent characters and tests have a few of each operator",
     ["parser/lexer.go", "parser/reader.go"], [("tokens", "parser/lexer.go nextToken, consumeQualifiedName, skipWhite"), ("reader", "parser/reader.go Next, Peek, Advance")],
     LX + "; tokens, values and ends compared with a reviewed table", "the effect of the previous token on `/` and `|` is open; keywords are covered by open words and by one prefix each, and IsKeywordToken by its answer for every kind of token.", thorough=True,
     observe=["token kinds and values"])
prop("C22", "Parser options change what they name and nothing else",
     "Backtick strings, hex escapes, the plan keyword, workflow mode and EPP mode are on exactly when the option is given to the parser; without it the text means what it means in plain Puppet. "
     "No option changes the meaning of any other text.",
     ["inputs", "configurations"], BD + ", for each option alone, for none, for all, and for each with EPP mode",
     "each option is tested with the text it is for, not with all others",
     ["parser/lexer.go", "parser/parser.go"], [("options", "parser/parser.go CreateParser; parser/lexer.go handleBacktickStrings, handleHexEscapes, tasks, workflow, eppMode")],
     LX + "; tokens per option compared with reviewed tables", "all options together in two orders, each with EPP mode, and the constructors of other parsers are covered over shorter texts; other combinations of options are covered for the parser (C17).", thorough=True,
     observe=["CreateParser", "token kinds and values"])
prop("C24", "Numbers have the value of their digits in their base, or are refused",
     "A number is decimal, hexadecimal after 0x, octal after 0, or a float with a fraction or exponent; its value is computed from all of its digits in that base, and its base is kept. "
     "A number with a digit outside its base, without a required digit, followed by a letter, or out of range is refused; text that may follow a number is left for the next token.",
     ["inputs"], BD,
     "tests have a few numbers, not every place where a digit, sign, dot, letter or end can stand",
     ["parser/lexer.go"], [("numbers", "parser/lexer.go nextToken, consumeFloat, parseInt, skipDecimalDigits")],
     LX + "; token, digits, base and refusal compared with a reviewed table", "the conversion of digits to a number is that of strconv, whose results are not computed.", thorough=True,
     observe=["LiteralInteger.Value", "LiteralInteger.Radix", "LiteralFloat.Value"])
prop("C26", "A heredoc is the text between its lines, with margin, flags and tag applied",
     "The text starts on the line after the tag and ends at the line that consists of the end tag; the margin bar removes indentation and the dash the last line break, and only the escapes that the flags name are replaced. "
     "Text after the tag on its line is read as source, and reading goes on after the end tag; several heredocs on a line follow one another.",
     ["inputs"], BD,
     "margins, flags, end lines and what surrounds them combine in more ways than tests have",
     ["parser/lexer.go"], [("heredocs", "parser/lexer.go consumeHeredocString, applyEscapes, nextLineStart")],
     LX + "; text, segments, position after it and refusals compared with a reviewed table", "texts of up to 6 open characters after 13 prefixes, for both lexers.", thorough=True,
     observe=["HeredocExpression.Text", "HeredocExpression.Syntax"])
prop("C27", "Strings keep their characters; only escapes and interpolations are replaced",
     "Each escape sequence of a quoted string stands for its character, unknown ones for themselves; in double quotes a variable or an expression in braces becomes a segment and all other text stays literal, in order. "
     "A string that does not end, or has an escape or interpolation that is malformed, is refused.",
     ["inputs"], BD,
     "escapes, quotes, dollars and braces next to each other are not in tests in all orders",
     ["parser/lexer.go"], [("strings", "parser/lexer.go consumeSingleQuotedString, consumeDelimitedString, handleInterpolation, appendUnicode")],
     LX + "; characters and segments compared with a reviewed table", "expressions inside of a string are arbitrary nodes.", thorough=True,
     observe=["LiteralString.StringValue", "ConcatenatedString.Segments"])
prop("C28", "EPP text is rendered as it stands; tags, comments and trimming apply",
     "Text outside of tags is rendered unchanged except that a tag sign with a doubled percent gives the sign itself, comments vanish, and a dash at a tag removes the white space before it on its line, or after it up to and including the line break. "
     "The code between tags is read as source, a rendered expression where the tag has an equal sign; comments that do not end are refused.",
     ["inputs"], BD,
     "tags, dashes, white space and line breaks combine in more ways than tests have",
     ["parser/lexer.go"], [("text", "parser/lexer.go consumeEPP, skipWhite")],
     LX + "; rendered texts and tokens compared with a reviewed table", "texts of up to 7 open characters after 8 prefixes.", thorough=True,
     observe=["RenderStringExpression", "RenderExpression"])

prop("C07", "Every issue has a registered message that its report fills in completely",
     "Each issue that parsing or validation can report has a code registered exactly once, with one message, severity and demotability, and is reported with a value for every placeholder of that message, under the placeholder's name. "
     "The messages, severities and argument formatters are the documented ones, and so are the texts by which messages call the tokens of the language.",
     ["inputs", "programs"], "every place that reports an issue, with every code and every argument that can reach it",
     "a message with a missing argument shows only when that one issue is reported and its text is looked at",
     ["parser/issues.go", "validator/issues.go", "validator/checker.go", "parser/parser.go", "parser/lexer.go"], [("registration", "parser/issues.go, validator/issues.go init"), ("reports", "parseIssue, parseIssue2, Accept and their callers"), ("names of tokens", "parser/lexer.go tokenMap")],
     "constant propagation of issue codes and argument maps from every report, backwards through parameters and over the call graph; abstract interpretation of the package initialisers",
     "88 messages, 85 names of tokens, 127 places that report. A report whose code or arguments are not constant on all paths is counted as not decided; there is none at present.",
     observe=["Reported.Error", "Reported.Code"])

prop("C29", "A position is the line and column of the source that it stands for",
     "The line reported for a place in the source is one more than the number of line breaks before it, and the column one more than the number of characters between the start of that line and the place, whatever their width. "
     "This holds for every place up to the end of the source, for nodes as for errors, in whichever order places are asked for.",
     ["inputs", "histories"], "every text and every order of requests, with lines and characters of all lengths",
     "tests have short sources of plain characters and ask for one position of each",
     ["parser/expression.go"], [("lines", "parser/expression.go Locator.LineForOffset, PosOnLine, getLineIndex"), ("nodes", "parser/expression.go Positioned.Line, Pos, File")],
     AI + "; partitioned by the tests that the code makes on open characters; lines and columns compared with the numbers of line breaks and characters before", "all texts of up to 4 characters (5 thorough) of all widths, all ordered pairs of requests, and texts with many lines.", thorough=True,
     observe=["Reported.Location", "Expression.Line", "Expression.Pos"])

prop("N01", "Floating point literals have the nearest value and print back to it",
     "The value of a floating point literal is the double that is nearest to its digits. Its text in the PN form reads back as the same value.",
     ["inputs"], "every decimal text", "a test has a few numbers",
     ["parser/lexer.go", "pn/pn.go"], [("values", "parser/lexer.go setTokenValue"), ("text", "pn/pn.go floatPN.Format")], "", "",
     observe=["LiteralFloat.Value"],
     na="The value and the text of floats come from strconv and fmt and depend on rounding over all decimal texts, which no abstraction in reach decides; that all digits reach the conversion is part of C24.")
prop("N02", "A PN text reads back as the data that it was made from",
     "Reading the PN text of a syntax tree gives the same data as the tree was converted to, for every string, key and nesting.",
     ["inputs"], "all data in PN form", "a test has a few texts",
     ["pn/pn.go"], [("text", "pn/pn.go Format")], "", "",
     observe=["PN.Format"],
     na="There is no reader of PN in this repository; the syntax of the written text is decided by C04 against an oracle, and a round trip would need a program of another repository.")
prop("N03", "Parsing needs stack, time and memory in proportion to the source",
     "For every source, the depth of the stack, the time and the memory that parsing and validation need are bounded by a multiple of the length of the source.",
     ["inputs"], "all sources, also very long or deeply nested ones", "a test has short sources",
     ["parser/parser.go", "parser/lexer.go", "validator/checker.go"], [("recursion", "parser/parser.go expression and below")], "", "",
     observe=["Parse"],
     na="Quantities of the run time that depend on the size of the input; the recursive descent has no limit on depth. What can be decided statically, that every loop and recursion reads something, is C25.")
