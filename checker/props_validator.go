package main

import (
	"fmt"
	"go/types"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The validator rules are decided by abstract interpretation of validator.Check. An input class fixes the kind of the
// validated node, and possibly the kind (or constant value) of one of its children or the kinds of the containers. Everything else is
// unknown. The result for a class is, for each issue code, whether it is never, sometimes, or always reported.

type valRun struct {
	c       *Check
	p       *Program
	g       map[string]Val
	newFn   *ssa.Function
	newArgs []Val
	check   *ssa.Function
	setPath string
	runs    int
	steps   int
	matched map[string]bool // patterns that names are matched against
	lock    *sync.Mutex
	base    *State
	chk     Val
}

func newValRun(c *Check, ctorName string, args ...Val) *valRun {
	p := c.P
	g, _ := p.initGlobals(nil)
	v := &valRun{c: c, p: p, g: g, newFn: p.fn(p.Valid, ctorName), newArgs: args, check: p.fn(p.Valid, "Check"), matched: map[string]bool{}, lock: &sync.Mutex{}}
	in := newInterp(p)
	in.Globals = g
	in.Ordered = false
	ex := in.Run(v.newFn, args, newState())
	if len(ex) != 1 || ex[0].Results[0].single() == nil {
		fatalf("%s does not return one known checker", ctorName)
	}
	v.base, v.chk = ex[0].St, ex[0].Results[0]
	for _, x := range v.base.mem {
		x.warm()
	}
	for _, x := range g {
		x.warm()
	}
	v.chk.warm()
	p.Kinds()
	return v
}

// hook returns the interception of the effects and of what can not be interpreted
func (v *valRun) hook(in *Interp, force func(pattern string, arg Val) tri) func(cc *CallCtx) (bool, []Exit) {
	return func(cc *CallCtx) (bool, []Exit) {
		if cc.callee != nil {
			pk := fnPkg(cc.callee)
			path := ""
			if pk != nil {
				path = pk.Path()
			}
			switch {
			case cc.callee.Name() == "NewReported" && strings.HasSuffix(path, "/issue/issue"):
				code, ok := cc.args[0].constStr()
				if !ok {
					code = "unknown code " + cc.args[0].String()
				}
				keys := map[string]bool{}
				for _, a := range cc.args[2].as {
					if a.K == KPtr || a.K == KSym {
						for k := range in.mapCells(cc.fs.State, a.Name) {
							keys[k] = true
						}
					}
				}
				var ks []string
				for k := range keys {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				in.event(cc.fs.State, code+" sev="+cc.args[1].String()+" at="+in.subject(cc.args[3])+" args="+strings.Join(ks, ","))
				return true, []Exit{{Results: []Val{recvSym("reported:"+code, cc.resT.At(0).Type())}, St: cc.fs.State}}
			case cc.callee.Name() == "ToLiteral" && strings.HasSuffix(path, "/literal"):
				var ex []Exit
				np, unknownArg := len(in.Panics), false
				if a := cc.args[0].single(); a != nil && a.K == KSym && types.IsInterface(a.T) {
					unknownArg = true
					// the literal value of an unknown expression
					ex = []Exit{{Results: []Val{in.named(cc.fs.State, "literal("+a.Name+")", cc.resT.At(0).Type(), false, a.Roots...), mkBool(true)}, St: cc.fs.State.clone()}}
				} else {
					ex = in.call(cc.fr, cc.instr, cc.callee, cc.args, nil, cc.fs.State)
				}
				// a panic that it recovers from
				if len(in.Panics) > np || unknownArg {
					ex = append(ex, Exit{Results: []Val{mkNil(cc.resT.At(0).Type()), mkBool(false)}, St: cc.fs.State.clone()})
					in.Panics = in.Panics[:np]
				}
				return true, ex
			case cc.callee.Name() == "MatchString" && path == "regexp":
				pt, ok := regexpPattern(cc.args[0])
				if ok {
					v.lock.Lock()
					v.matched[pt] = true
					v.lock.Unlock()
					if force != nil {
						if r := force(pt, cc.args[1]); r != unknown {
							return true, []Exit{{Results: []Val{mkBool(r == yes)}, St: cc.fs.State}}
						}
					}
				}
			}
			return false, nil
		}
		if cc.method != nil && (cc.method.Name() == "Contents" || cc.method.Name() == "AllContents") && len(cc.args) == 3 {
			// an unknown number of children is visited
			ex := []Exit{{St: cc.fs.State.clone()}}
			if f := cc.args[2].single(); f != nil && f.K == KFn {
				ch := in.named(cc.fs.State, "child("+cc.args[0].String()+")", f.Fn.Params[len(f.Fn.Params)-1].Type(), false)
				ch.as[0].NonNil = true
				n := 0
				for fr := cc.fr; fr != nil; fr = fr.parent {
					if fr.fn == f.Fn {
						n++
					}
				}
				if n < 2 {
					for _, e := range in.call(cc.fr, cc.instr, f.Fn, []Val{cc.args[1], ch}, f.Binds, cc.fs.State) {
						ex = append(ex, Exit{St: e.St})
					}
				}
			}
			return true, ex
		}
		return false, nil
	}
}

// subject names the node that is blamed
func (in *Interp) subject(x Val) string {
	if in.names == nil {
		return x.String()
	}
	var ss []string
	for _, a := range x.as {
		if n, ok := in.names[a.Name]; ok && a.K == KPtr {
			ss = append(ss, n)
		} else {
			ss = append(ss, a.String())
		}
	}
	return strings.Join(sortedUnique(ss), "|")
}

func shortCode(c string) string { return strings.TrimPrefix(c, "VALIDATE_") }

// pool runs jobs on all processors
type pool struct {
	wg   sync.WaitGroup
	sem  chan bool
	lock sync.Mutex
	err  interface{}
}

func newPool() *pool { return &pool{sem: make(chan bool, runtime.NumCPU())} }

func (p *pool) do(f func()) {
	p.wg.Add(1)
	p.sem <- true
	go func() {
		defer func() {
			if r := recover(); r != nil {
				p.lock.Lock()
				if p.err == nil {
					if _, ok := r.(*fatalError); !ok {
						r = fmt.Sprintf("%v\n%s", r, debug.Stack())
					}
					p.err = r
				}
				p.lock.Unlock()
			}
			<-p.sem
			p.wg.Done()
		}()
		f()
	}()
}

func (p *pool) wait() {
	p.wg.Wait()
	if p.err != nil {
		panic(p.err)
	}
}

var detailRe = regexp.MustCompile(`^(sev=\S+) at=(.*) args=(\S*)$`)

func init() {
	register("C11", "validator.Check is abstractly interpreted for every syntax kind crossed with the kind of each child, the operator or form constant, and the "+
		"kinds of up to two containers. For every class the set of issue codes that is never, possibly, or always reported, the node that is "+
		"blamed, and the arguments must equal the reviewed decision table.", checkRules2)
}
