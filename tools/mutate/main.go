package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

// usage: mut FILE          lists "n<TAB>line<TAB>what"
//        mut FILE N        prints the mutated file
func main() {
	src, _ := os.ReadFile(os.Args[1])
	want := -1
	if len(os.Args) > 2 {
		want, _ = strconv.Atoi(os.Args[2])
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	n := 0
	site := func(pos token.Pos, what string, do func()) {
		if want < 0 {
			fmt.Printf("%d\t%d\t%s\n", n, fset.Position(pos).Line, what)
		} else if n == want {
			do()
		}
		n++
	}
	swap := map[token.Token][]token.Token{
		token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL}, token.REM: {token.MUL},
	}
	var list func(l []ast.Stmt)
	list = func(l []ast.Stmt) {
		for i := range l {
			i := i
			del := func() { l[i] = &ast.EmptyStmt{Semicolon: l[i].Pos(), Implicit: false} }
			switch s := l[i].(type) {
			case *ast.ExprStmt:
				site(s.Pos(), "delete call", del)
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					site(s.Pos(), "delete assignment", del)
				}
			case *ast.IncDecStmt:
				site(s.Pos(), "delete inc", del)
			case *ast.BranchStmt:
				site(s.Pos(), "delete "+s.Tok.String(), del)
			case *ast.DeferStmt:
				site(s.Pos(), "delete defer", del)
			case *ast.IfStmt:
				site(s.Pos(), "if false", func() {
					s.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: s.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
				})
				site(s.Pos(), "if true", func() {
					s.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: s.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
				})
			case *ast.ReturnStmt:
				if len(s.Results) > 0 {
					last, ok := s.Results[len(s.Results)-1].(*ast.Ident)
					if ok && last.Name == "err" {
						site(s.Pos(), "return nil", func() { s.Results[len(s.Results)-1] = ast.NewIdent("nil") })
					}
				}
			}
		}
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch e := x.(type) {
		case *ast.BlockStmt:
			list(e.List)
		case *ast.CaseClause:
			list(e.Body)
		case *ast.BinaryExpr:
			for _, o := range swap[e.Op] {
				o := o
				site(e.OpPos, e.Op.String()+" -> "+o.String(), func() { e.Op = o })
			}
		case *ast.BasicLit:
			if e.Kind == token.INT && e.Value != "" {
				v, err := strconv.ParseInt(e.Value, 0, 64)
				if err == nil {
					site(e.Pos(), e.Value+" -> +1", func() { e.Value = fmt.Sprint(v + 1) })
				}
			}
		case *ast.Ident:
			if e.Name == "true" {
				site(e.Pos(), "true -> false", func() { e.Name = "false" })
			} else if e.Name == "false" {
				site(e.Pos(), "false -> true", func() { e.Name = "true" })
			}
		}
		return true
	})
	if want >= 0 {
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			panic(err)
		}
		os.Stdout.Write(b.Bytes())
	}
}
