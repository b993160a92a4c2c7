// Command yieldgen writes a copy of Go files with a scheduling point before every statement.
//
//	yieldgen OUTDIR FILE...
//
// For every file it prints "FILE<tab>COPY".  The copies call verifY before each statement and verifEnter and
// verifExit around each function; the package gets these from a file of the harness.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func call(name string) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}}
}

func points(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		switch x := s.(type) {
		case *ast.LabeledStmt, *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			out = append(out, s)
			continue
		case *ast.BranchStmt:
			if x.Tok == token.FALLTHROUGH {
				out = append(out, s)
				continue
			}
		}
		out = append(out, call("verifY"), s)
	}
	return out
}

func main() {
	for i, fn := range os.Args[2:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		if bytes.Contains(src, []byte("//go:")) || bytes.Contains(src, []byte("import \"C\"")) || strings.HasSuffix(fn, "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CaseClause:
				x.Body = points(x.Body)
			case *ast.CommClause:
				x.Body = points(x.Body)
			case *ast.BlockStmt:
				x.List = points(x.List)
			}
			return true
		})
		around := func(b *ast.BlockStmt) {
			if b != nil {
				b.List = append([]ast.Stmt{call("verifEnter"), &ast.DeferStmt{Call: &ast.CallExpr{Fun: ast.NewIdent("verifExit")}}}, b.List...)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				around(x.Body)
			case *ast.FuncLit:
				around(x.Body)
			}
			return true
		})
		var buf bytes.Buffer
		if err := printer.Fprint(&buf, fset, f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		out := filepath.Join(os.Args[1], fmt.Sprintf("yield%d_%s", i, filepath.Base(fn)))
		if err := os.WriteFile(out, buf.Bytes(), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fmt.Printf("%s\t%s\n", fn, out)
	}
}
