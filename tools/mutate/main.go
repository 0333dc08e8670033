// Command mutate lists small changes of Go source files: one JSON object per line.
// Usage: mutate ROOT FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mutant struct {
	File     string `json:"file"`
	Line     int    `json:"line"`
	Func     string `json:"func"`
	From, To int
	Old      string `json:"old"`
	New      string `json:"new"`
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.AND_NOT: {"&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"+"},
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[2:] {
		data, e := os.ReadFile(filepath.Join(root, name))
		if e != nil {
			panic(e)
		}
		fset := token.NewFileSet()
		f, e := parser.ParseFile(fset, name, data, 0)
		if e != nil {
			panic(e)
		}
		fn := ""
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		add := func(from, to token.Pos, repl string) {
			_ = enc.Encode(mutant{name, fset.Position(from).Line, fn, off(from), off(to), string(data[off(from):off(to)]), repl})
		}
		text := func(n ast.Node) string { return string(data[off(n.Pos()):off(n.End())]) }
		stmt := func(s ast.Stmt) {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
				add(s.Pos(), s.End(), "")
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s.Pos(), s.End(), "")
				}
			case *ast.BranchStmt:
				if s.Tok == token.BREAK {
					add(s.Pos(), s.End(), "")
				} else if s.Tok == token.CONTINUE {
					add(s.Pos(), s.End(), "")
					add(s.Pos(), s.End(), "break")
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 0 {
					add(s.Pos(), s.End(), "")
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				fn = n.Name.Name
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					stmt(s)
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					stmt(s)
				}
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false")
				add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true")
			case *ast.ForStmt:
				if n.Cond != nil {
					add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					add(n.Pos(), n.End(), text(n.X))
				}
			case *ast.BinaryExpr:
				for _, r := range swaps[n.Op] {
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, e := strconv.Atoi(n.Value); e == nil {
						add(n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							add(n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					add(n.Pos(), n.End(), "false")
				} else if n.Name == "false" {
					add(n.Pos(), n.End(), "true")
				}
			case *ast.SliceExpr:
				if n.Low != nil && n.High != nil {
					add(n.Low.Pos(), n.Low.End(), text(n.Low)+"+1")
				}
			}
			return true
		})
	}
}
