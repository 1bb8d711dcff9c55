// mutate FILE: prints the mutants of a Go file, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File, Op         string
	Line, From, To   int
	Old, New         string
}

func main() {
	file := os.Args[1]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	out := func(op string, from, to token.Pos, text string) {
		a, b := fs.Position(from).Offset, fs.Position(to).Offset
		_ = enc.Encode(mutant{file, op, fs.Position(from).Line, a, b, string(src[a:b]), text})
	}
	text := func(n ast.Node) string {
		return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
	}
	swap := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}
	errIdent := func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.Ident:
			return x.Name == "err"
		case *ast.CallExpr:
			s := text(x.Fun)
			return s == "fmt.Errorf" || s == "errors.New"
		}
		return false
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.IfStmt:
			out("never", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
			if !(text(x.Cond) == "err != nil") {
				out("always", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
			}
		case *ast.ExprStmt:
			if c, ok := x.X.(*ast.CallExpr); ok {
				if s := text(c.Fun); s != "panic" && len(s) > 5 && s[:5] == "klog." {
					return false
				}
			}
			out("drop", x.Pos(), x.End(), "")
		case *ast.DeferStmt:
			out("drop", x.Pos(), x.End(), "")
		case *ast.IncDecStmt:
			out("drop", x.Pos(), x.End(), "")
		case *ast.BranchStmt:
			out("drop", x.Pos(), x.End(), "")
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN || x.Tok != token.DEFINE {
				out("drop", x.Pos(), x.End(), "")
			}
		case *ast.BinaryExpr:
			if s, ok := swap[x.Op]; ok {
				out("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					out("const", x.Pos(), x.End(), fmt.Sprint(v+1))
					if v > 0 {
						out("const", x.Pos(), x.End(), fmt.Sprint(v-1))
					}
				}
			}
		case *ast.ReturnStmt:
			if k := len(x.Results); k > 0 {
				last := x.Results[k-1]
				if errIdent(last) {
					out("nilerr", last.Pos(), last.End(), "nil")
				}
				if id, ok := last.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
					out("bool", last.Pos(), last.End(), map[string]string{"true": "false", "false": "true"}[id.Name])
				}
				if c, ok := last.(*ast.CallExpr); ok && !errIdent(last) && k == 1 {
					_ = c
				}
			}
		case *ast.CaseClause:
			if x.List != nil && len(x.Body) > 0 {
				out("case", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
			}
		case *ast.RangeStmt:
			out("range1", x.Body.Rbrace, x.Body.Rbrace, "break; ")
		}
		return true
	})
}
