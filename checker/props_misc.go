package main

func init() {
	register("C05", "Label is interpreted on every kind of node with open parts, for all words and operators, and the resulting text compared with a reviewed table, and the families of nodes "+
		"(the exported interfaces of the parser that kinds implement) are computed from the type-checked program and compared with a reviewed table.", checkLabels)
	register("C23", "ToLiteral is interpreted, with panics unwinding through its deferred functions, on nodes of every kind with open parts of every kind and number, nested to depth three. The value and "+
		"the ok flag must on every path be those that an independent definition of literal values gives, larger trees must have the results of a reviewed table, and no interpretation may end in a panic.", checkLiteralValues)
}
