package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ctor is one way to create an expression: a method of the expression factory
type ctor struct {
	name   string
	fn     *ssa.Function
	params *types.Tuple
}

func (p *Program) ctors() []ctor {
	ef := p.iface(p.Parser, "ExpressionFactory")
	df := p.fn(p.Parser, "DefaultFactory")
	in := newInterp(p)
	ex := in.Run(df, nil, newState())
	if len(ex) != 1 || ex[0].Results[0].single() == nil {
		fatalf("DefaultFactory does not return one known factory")
	}
	ft := ex[0].Results[0].single().T
	var out []ctor
	for i := 0; i < ef.NumMethods(); i++ {
		m := ef.Method(i)
		f := p.Prog.LookupMethod(ft, m.Pkg(), m.Name())
		if f == nil {
			fatalf("factory has no method %s", m.Name())
		}
		out = append(out, ctor{m.Name(), f, canonicalNames(m.Name(), m.Type().(*types.Signature).Params())})
	}
	if len(out) < 60 {
		fatalf("only %d factory methods found", len(out))
	}
	return out
}

// canonicalNames gives the parameters of a factory method the names that the tables use
func canonicalNames(name string, ps *types.Tuple) *types.Tuple {
	frozen := readTable("params")
	ns := strings.Fields(frozen[name])
	if len(ns) != ps.Len() {
		return ps
	}
	var vs []*types.Var
	for i := range ns {
		vs = append(vs, types.NewVar(ps.At(i).Pos(), ps.At(i).Pkg(), ns[i], ps.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

// nargs is the number of parameters before locator, offset, length
func (c ctor) nargs() int { return c.params.Len() - 3 }

func isExprType(p *Program, t types.Type) bool {
	return types.Implements(t, p.iface(p.Parser, "Expression"))
}

// childType tells if the type is an expression, or a slice of expressions
func childType(p *Program, t types.Type) (isChild, isList bool) {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return isExprType(p, s.Elem()), true
	}
	return isExprType(p, t), false
}

func init() {
	register("C01", "Every factory method is interpreted with open parts, which can be absent or present and of any kind, and Contents and AllContents of the result are interpreted on every path. "+
		"Each present part must be visited exactly once, with the path that it is given followed by the node; AllContents must visit what a part contains directly after it, with the path that ends with the part, "+
		"and in the same order as Contents. The order per class of node must be that of a reviewed table.", checkVisits,
		"parts honour the same contract (established by the same rule for their kinds)")
	register("C02", "Every factory method is interpreted with open arguments and every parameterless exported method of the resulting node is interpreted on every path. "+
		"What it answers must be the argument, or the constant, or the node itself, that a reviewed table names. Location, extent and source text must be those of the given locator, offset and length, "+
		"and every argument must be stored.", checkAccessors)
	register("C03", "Every factory method is interpreted with open arguments and ToPN of the result on every path. Each part that can be present on a path must be in the representation, unless it does nothing; "+
		"two paths that differ in a name, operator, flag or number must not have the same representation.", checkPNParts)
}

// ---- C02

var skipAccessors = map[string]bool{"Contents": true, "AllContents": true, "ToPN": true, "String": true, "Init": true, "ToLambda": true}

// ---- C03
