// inject writes copies of Go source files with a scheduling point before every statement, and an overlay naming them.
// usage: inject OUTDIR DIR...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

func call(pos token.Pos) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifyield"), Sel: ast.NewIdent("Y")}}}
}

func yieldCall(name string) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifyield"), Sel: ast.NewIdent(name)}}
}

var made = map[*ast.GoStmt]bool{}

// start lets a new goroutine begin late; what it is called with is evaluated when it was.
func start(g *ast.GoStmt) ast.Stmt {
	if f, ok := g.Call.Fun.(*ast.FuncLit); ok {
		f.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: yieldCall("G")}}, f.Body.List...)
		return g
	}
	if f, ok := g.Call.Fun.(*ast.Ident); ok {
		switch f.Name {
		case "panic", "close", "print", "println", "copy", "delete", "recover", "clear":
			return g
		}
	}
	as := &ast.AssignStmt{Tok: token.DEFINE}
	def := func(e ast.Expr) ast.Expr {
		v := ast.NewIdent(fmt.Sprintf("verify%d", len(as.Lhs)))
		as.Lhs, as.Rhs = append(as.Lhs, v), append(as.Rhs, e)
		return v
	}
	c := &ast.CallExpr{Fun: def(g.Call.Fun), Ellipsis: g.Call.Ellipsis}
	for _, a := range g.Call.Args {
		switch x := a.(type) {
		case *ast.BasicLit:
			c.Args = append(c.Args, a)
			continue
		case *ast.Ident:
			if x.Name == "nil" || x.Name == "true" || x.Name == "false" {
				c.Args = append(c.Args, a)
				continue
			}
		}
		c.Args = append(c.Args, def(a))
	}
	if len(g.Call.Args) > 0 && g.Call.Ellipsis.IsValid() {
		c.Ellipsis = 1
	}
	f := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: yieldCall("G")}, &ast.ExprStmt{X: c}}}}
	ng := &ast.GoStmt{Call: &ast.CallExpr{Fun: f}}
	made[ng] = true
	return &ast.BlockStmt{List: []ast.Stmt{as, ng}}
}

func weave(list []ast.Stmt) []ast.Stmt {
	var r []ast.Stmt
	for i, s := range list {
		if g, ok := s.(*ast.GoStmt); ok && !made[g] {
			s = start(g)
			list[i] = s
		}
		r = append(r, call(s.Pos()), s)
	}
	if len(list) > 0 { // and one at the end, before what was deferred, unless it could not be reached
		last := list[len(list)-1]
		switch x := last.(type) {
		case *ast.ExprStmt:
			if c, ok := x.X.(*ast.CallExpr); ok {
				if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "panic" {
					return r
				}
			}
			r = append(r, call(last.End()))
		case *ast.AssignStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt:
			r = append(r, call(last.End()))
		}
	}
	return r
}

func main() {
	out := os.Args[1]
	overlay := map[string]string{}
	for di, dir := range os.Args[2:] {
		es, err := os.ReadDir(dir)
		if err != nil {
			panic(err)
		}
		for _, e := range es {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			p := filepath.Join(dir, n)
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, nil, parser.SkipObjectResolution) // comments dropped: positions would not fit
			if err != nil {
				panic(err)
			}
			src, _ := os.ReadFile(p)
			if bytes.Contains(src, []byte("//go:")) || bytes.Contains(src, []byte("import \"C\"")) {
				continue
			}
			any := false
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				any = true
				ast.Inspect(fd, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
						// their bodies hold clauses, not statements
						var b *ast.BlockStmt
						switch y := x.(type) {
						case *ast.SwitchStmt:
							b = y.Body
						case *ast.TypeSwitchStmt:
							b = y.Body
						case *ast.SelectStmt:
							b = y.Body
						}
						for _, c := range b.List {
							switch z := c.(type) {
							case *ast.CaseClause:
								z.Body = weave(z.Body)
							case *ast.CommClause:
								z.Body = weave(z.Body)
							}
						}
					case *ast.BlockStmt:
						if len(x.List) > 0 {
							switch x.List[0].(type) {
							case *ast.CaseClause, *ast.CommClause:
								return true
							}
						}
						x.List = weave(x.List)
					}
					return true
				})
			}
			if !any {
				continue
			}
			imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("verifyield"),
				Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifharness/yield"`}}}}
			f.Decls = append([]ast.Decl{imp}, f.Decls...)
			var b bytes.Buffer
			if err := format.Node(&b, fset, f); err != nil {
				panic(err)
			}
			o := filepath.Join(out, fmt.Sprintf("%d_%s", di, n))
			if err := os.WriteFile(o, b.Bytes(), 0644); err != nil {
				panic(err)
			}
			overlay[p] = o
		}
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644); err != nil {
		panic(err)
	}
}
