package main

import "golang.org/x/tools/go/ssa"

func (in *Interp) callMemo(parent *frame, site ssa.Instruction, fn *ssa.Function, args, binds []Val, st *State) []Exit {
	return in.run(parent, site, fn, args, binds, st)
}
