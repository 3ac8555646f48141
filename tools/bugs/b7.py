exec(open("/verif/tools/bugs/auto.py").read())
X_ = "parser/expression.go"; P_ = "parser/parser.go"; L_ = "parser/lexer.go"
W = lambda v: ("workflow w {} { resource r {} { a => %s } }" % v, False, "WorkflowEnabled")

auto("deferred-type-args", "C17", [(P_, "				[]Expression{nw, f.Array(convertSliceToDeferred(f, args), l, bo, 0)}, nil", "				[]Expression{nw, f.Array(args, l, bo, 0)}, nil")],
  [W("T($x)"), W("T([f($x)])"), W("f($x)")], "a variable as the argument of a type that is called in the state of a resource step", "it is not deferred")

auto("deferred-hash-key", "C17", [(P_, "f.KeyedEntry(convertToDeferred(f, et.key), convertToDeferred(f, et.value), l, bo, bl)", "f.KeyedEntry(et.key, convertToDeferred(f, et.value), l, bo, bl)")],
  [W("{ $k => $v }"), W("[{ f(1) => 2 }]")], "a hash with a variable as a key in the state of a resource step", "the key is not deferred")

auto("deferred-extent", "C19", [(P_, "[]Expression{f.String(n, l, e.ByteOffset(), e.ByteLength()), f.Array(", "[]Expression{f.String(n, l, e.ByteOffset(), len(n)), f.Array(")],
  [W("f($x)"), W("[abc()]")], "a call in the state of a resource step", "the name of the deferred function has another extent than the call", extents=True)
