package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/lyraproj/puppet-parser"

// Program is the type-checked program and its SSA form, built from the current source in the
// repository on every run.
type ssaFunction = ssa.Function

type Program struct {
	Repo     string
	Fset     *token.FileSet
	Pkgs     []*packages.Package
	Prog     *ssa.Program
	ByPath   map[string]*ssa.Package
	Parser   *ssa.Package
	Valid    *ssa.Package
	Literal  *ssa.Package
	PN       *ssa.Package
	JSON     *ssa.Package
	Main     *ssa.Package
	Issue    *ssa.Package
	SrcFuncs []*ssa.Function // all functions with bodies in the repository, anonymous functions included

	kinds     []*types.Named
	kindsOnce sync.Once
	lock      sync.Mutex
	infos     sync.Map
	universes map[string][]types.Type
}

func load(repo string) (*Program, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo, Env: env, Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the source does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Repo: repo, Fset: pkgs[0].Fset, Pkgs: pkgs, Prog: prog, ByPath: map[string]*ssa.Package{}, universes: map[string][]types.Type{}}
	for _, sp := range prog.AllPackages() {
		p.ByPath[sp.Pkg.Path()] = sp
	}
	p.Parser = p.ByPath[modPath+"/parser"]
	p.Valid = p.ByPath[modPath+"/validator"]
	p.Literal = p.ByPath[modPath+"/literal"]
	p.PN = p.ByPath[modPath+"/pn"]
	p.JSON = p.ByPath[modPath+"/json"]
	p.Main = p.ByPath[modPath+"/parse"]
	p.Issue = p.ByPath["github.com/lyraproj/issue/issue"]
	for n, sp := range map[string]*ssa.Package{"parser": p.Parser, "validator": p.Valid, "literal": p.Literal, "pn": p.PN, "json": p.JSON, "parse": p.Main, "issue": p.Issue} {
		if sp == nil {
			return nil, fmt.Errorf("package %s not found in the loaded program", n)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) > 0 && p.inRepo(fn) {
			p.SrcFuncs = append(p.SrcFuncs, fn)
		}
	}
	sort.Slice(p.SrcFuncs, func(i, j int) bool {
		a, b := p.SrcFuncs[i], p.SrcFuncs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	if fn.Signature.Recv() != nil {
		if n := namedOf(fn.Signature.Recv().Type()); n != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && (pk.Path() == modPath || strings.HasPrefix(pk.Path(), modPath+"/"))
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	x := p.Fset.Position(ps)
	f := x.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, x.Line)
}

func (p *Program) typ(pkg *ssa.Package, name string) types.Type {
	o := pkg.Pkg.Scope().Lookup(name)
	if o == nil {
		fatalf("anchor not found: type %s.%s", pkg.Pkg.Name(), name)
	}
	return o.Type()
}

func (p *Program) fn(pkg *ssa.Package, name string) *ssa.Function {
	f := pkg.Func(name)
	if f == nil {
		fatalf("anchor not found: function %s.%s", pkg.Pkg.Name(), name)
	}
	return f
}

// method resolves a method (promoted methods included) of a type. Returns nil when there is none.
func (p *Program) method(t types.Type, name string) *ssa.Function {
	n := namedOf(t)
	var pkg *types.Package
	if n != nil {
		pkg = n.Obj().Pkg()
	}
	sel := p.Prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.Prog.MethodValue(sel)
}

func (p *Program) iface(pkg *ssa.Package, name string) *types.Interface {
	i, ok := p.typ(pkg, name).Underlying().(*types.Interface)
	if !ok {
		fatalf("anchor %s.%s is not an interface", pkg.Pkg.Name(), name)
	}
	return i
}

// Kinds returns all concrete expression types: the exported structs of package parser whose pointer
// is an Expression, and that a source can result in.
func (p *Program) Kinds() []*types.Named {
	p.kindsOnce.Do(func() {
		ex := p.iface(p.Parser, "Expression")
		sc := p.Parser.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || !tn.Exported() {
				continue
			}
			if _, ok := nt.Underlying().(*types.Struct); !ok {
				continue
			}
			if implements(types.NewPointer(nt), ex) {
				p.kinds = append(p.kinds, nt)
			}
		}
		if len(p.kinds) < 60 {
			fatalf("only %d expression kinds found, 60 or more are expected", len(p.kinds))
		}
	})
	return p.kinds
}

// universe returns all concrete types in the repository that implement the given interface
func (p *Program) universe(it types.Type) []types.Type {
	key := it.String()
	p.lock.Lock()
	defer p.lock.Unlock()
	if u, ok := p.universes[key]; ok {
		return u
	}
	iface := it.Underlying().(*types.Interface)
	var u []types.Type
	if iface.NumMethods() > 0 {
		for _, sp := range p.Prog.AllPackages() {
			if !strings.HasPrefix(sp.Pkg.Path(), modPath) {
				continue
			}
			sc := sp.Pkg.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() {
					continue
				}
				t := tn.Type()
				if types.IsInterface(t) {
					continue
				}
				if implements(t, iface) {
					u = append(u, t)
				} else if implements(types.NewPointer(t), iface) {
					u = append(u, types.NewPointer(t))
				}
			}
		}
	}
	p.universes[key] = u
	return u
}

func isExpressionIface(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/parser" {
		return false
	}
	_, ok := n.Underlying().(*types.Interface)
	return ok
}

type fatalError struct{ msg string }

func fatalf(f string, args ...interface{}) {
	panic(&fatalError{fmt.Sprintf(f, args...)})
}
