// mutants lists small changes to Go files as JSON lines: {"file","line","off","end","new","what"}.
// It is used to test the checks (tools/mutate.py), not by them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
}

var swap = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"+"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		put := func(a, b token.Pos, s, what string) {
			p := fs.Position(a)
			enc.Encode(mut{fn, p.Line, p.Offset, fs.Position(b).Offset, s, what})
		}
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
					put(s.Pos(), s.End(), "", "delete "+text(s))
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						put(s.Pos(), s.End(), "", "delete "+text(s))
					}
				case *ast.IfStmt:
					if s.Else == nil && s.Init == nil {
						put(s.Cond.Pos(), s.Cond.End(), "false", "never "+text(s.Cond))
					}
					put(s.Cond.Pos(), s.Cond.End(), "true || ("+text(s.Cond)+")", "always "+text(s.Cond))
				case *ast.BranchStmt:
					if s.Label == nil && s.Tok == token.BREAK {
						put(s.Pos(), s.End(), "continue", "break to continue")
					} else if s.Label == nil && s.Tok == token.CONTINUE {
						put(s.Pos(), s.End(), "break", "continue to break")
						put(s.Pos(), s.End(), "", "delete continue")
					}
				case *ast.ReturnStmt:
					for _, r := range s.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							put(r.Pos(), r.End(), map[string]string{"true": "false", "false": "true"}[id.Name], "flip "+text(s))
						}
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							put(r.Pos(), r.End(), "nil", "swallow error")
						}
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				for _, e := range n.List {
					if len(n.List) > 1 {
						put(e.Pos(), e.End(), text(n.List[0]), fmt.Sprintf("drop case %s", text(e)))
					}
				}
			case *ast.BinaryExpr:
				for _, s := range swap[n.Op] {
					put(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, text(n)+" with "+s)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					put(n.Pos(), n.End(), text(n.X), "only "+text(n.X))
					put(n.Pos(), n.End(), text(n.Y), "only "+text(n.Y))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					put(n.Pos(), n.X.Pos(), "", "un-negate "+text(n))
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						put(n.Pos(), n.End(), strconv.FormatInt(v+1, 10), n.Value+" plus 1")
						if v > 0 {
							put(n.Pos(), n.End(), strconv.FormatInt(v-1, 10), n.Value+" minus 1")
						}
					}
				case token.STRING:
					if len(n.Value) > 2 {
						put(n.Pos(), n.End(), `""`, "empty "+n.Value)
					}
				}
			case *ast.SliceExpr:
				if n.Low != nil && n.High == nil && !n.Slice3 {
					put(n.Low.Pos(), n.Low.End(), "0", "slice from 0: "+text(n))
				}
			}
			return true
		})
	}
}
