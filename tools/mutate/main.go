// mutate lists single small changes of Go source files, one JSON object per line: the file, the
// offsets of the text that is replaced, the text that replaces it, and what was done.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File       string
	Line       int
	Start, End int
	New        string
	Kind       string
	Func       string
}

func main() {
	out := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		put := func(n ast.Node, kind, repl string) {
			out.Encode(mutant{file, fset.Position(n.Pos()).Line, off(n.Pos()), off(n.End()), repl, kind, fn})
		}
		putAt := func(p token.Pos, old, kind, repl string) {
			out.Encode(mutant{file, fset.Position(p).Line, off(p), off(p) + len(old), repl, kind, fn})
		}
		var stmts func(list []ast.Stmt)
		stmts = func(list []ast.Stmt) {
			for i, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt:
					put(s, "delete statement", "{}")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						put(s, "delete assignment", "{}")
					}
				case *ast.IncDecStmt:
					put(s, "delete inc/dec", "{}")
				case *ast.IfStmt:
					put(s.Cond, "condition false", "("+text(s.Cond)+") && false")
					put(s.Cond, "condition true", "("+text(s.Cond)+") || true")
				case *ast.BranchStmt:
					if s.Tok != token.GOTO {
						put(s, "delete branch", "{}")
					}
				case *ast.ReturnStmt:
					if len(s.Results) == 0 {
						put(s, "delete return", "{}")
					}
				}
				if i+1 < len(list) {
					a, ok1 := s.(*ast.AssignStmt)
					b, ok2 := list[i+1].(*ast.AssignStmt)
					if ok1 && ok2 && a.Tok != token.DEFINE && b.Tok != token.DEFINE {
						out.Encode(mutant{file, fset.Position(s.Pos()).Line, off(s.Pos()), off(b.End()), text(b) + "\n" + text(a), "swap statements", fn})
					}
					_, ok1 = s.(*ast.ExprStmt)
					_, ok2 = list[i+1].(*ast.ExprStmt)
					if ok1 && ok2 {
						out.Encode(mutant{file, fset.Position(s.Pos()).Line, off(s.Pos()), off(list[i+1].End()), text(list[i+1]) + "\n" + text(s), "swap statements", fn})
					}
				}
			}
		}
		swaps := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"+"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				fn = n.Name.Name
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				if len(n.List) > 1 {
					for i, e := range n.List {
						if i+1 < len(n.List) {
							out.Encode(mutant{file, fset.Position(e.Pos()).Line, off(e.Pos()), off(n.List[i+1].Pos()), "", "delete case label " + text(e), fn})
						} else {
							out.Encode(mutant{file, fset.Position(e.Pos()).Line, off(n.List[i-1].End()), off(e.End()), "", "delete case label " + text(e), fn})
						}
					}
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[n.Op] {
					putAt(n.OpPos, n.Op.String(), "operator "+n.Op.String()+" to "+s, s)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					put(n, "left only", text(n.X))
					put(n, "right only", text(n.Y))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					putAt(n.OpPos, "!", "remove not", "")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.Atoi(n.Value); err == nil {
						put(n, "number +1", strconv.Itoa(v+1))
						if v > 0 {
							put(n, "number -1", strconv.Itoa(v-1))
						}
					}
				case token.CHAR:
					put(n, "character", "("+n.Value+"+1)")
				case token.STRING:
					s, _ := strconv.Unquote(n.Value)
					if s != "" {
						put(n, "string shorter", strconv.Quote(s[:len(s)-1]))
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					put(n, "true to false", "false")
				} else if n.Name == "false" {
					put(n, "false to true", "true")
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(n.Args); i++ {
					a, b := text(n.Args[i]), text(n.Args[i+1])
					if a != b {
						out.Encode(mutant{file, fset.Position(n.Args[i].Pos()).Line, off(n.Args[i].Pos()), off(n.Args[i+1].End()), b + ", " + a, "swap arguments", fn})
					}
				}
			case *ast.Field:
				return false
			}
			return true
		})
	}
	fmt.Fprintln(os.Stderr, "done")
}
