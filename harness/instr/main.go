// instr copies Go files, putting a scheduling point in front of every
// statement and replacing sync and sync/atomic by the controllable shims, for
// use in a build overlay:  instr OVERLAY.json OUTDIR SHIMDIR PKGDIR
package main

import (
	"encoding/json"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const shim = "github.com/lkmio/avformat/collections/verifsched"

func point() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifsched"), Sel: ast.NewIdent("Point")}}}
}

func spread(l []ast.Stmt) []ast.Stmt {
	r := []ast.Stmt{}
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			r = append(r, s)
		case *ast.IncDecStmt, *ast.AssignStmt:
			r = append(r, point(), split(s))
		default:
			r = append(r, point(), s)
		}
	}
	return r
}

// split takes a read-modify-write of a field apart: the value read, a
// scheduling point, the value written.
func split(s ast.Stmt) ast.Stmt {
	var x, y ast.Expr
	var op token.Token
	switch a := s.(type) {
	case *ast.IncDecStmt:
		x, y, op = a.X, &ast.BasicLit{Kind: token.INT, Value: "1"}, token.ADD
		if a.Tok == token.DEC {
			op = token.SUB
		}
	case *ast.AssignStmt:
		switch a.Tok {
		case token.ADD_ASSIGN:
			op = token.ADD
		case token.SUB_ASSIGN:
			op = token.SUB
		default:
			return s
		}
		x, y = a.Lhs[0], a.Rhs[0]
	}
	if _, ok := x.(*ast.SelectorExpr); !ok {
		return s
	}
	tmp := ast.NewIdent("verifRead")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{tmp}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
		point(),
		&ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: tmp, Op: op, Y: y}}},
	}}
}

func must(err error) {
	if err != nil {
		os.Stderr.WriteString(err.Error() + "\n")
		os.Exit(1)
	}
}

func main() {
	overlay, out, shims, pkg := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	rep := map[string]string{}
	files, err := filepath.Glob(filepath.Join(pkg, "*.go"))
	must(err)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		must(err)
		if !strings.Contains(string(src), "ReferenceCounter") {
			continue
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.SkipObjectResolution) // comments dropped
		must(err)
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				x.List = spread(x.List)
			case *ast.CaseClause:
				x.Body = spread(x.Body)
			}
			return true
		})
		for _, im := range file.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if p == "sync/atomic" || p == "sync" {
				if im.Name == nil {
					im.Name = ast.NewIdent(filepath.Base(p))
				}
				im.Path.Value = strconv.Quote(shim + "/" + map[string]string{"sync": "vsync", "sync/atomic": "vatomic"}[p])
			}
		}
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(shim)}}}}
		file.Decls = append([]ast.Decl{decl}, file.Decls...)
		var b strings.Builder
		must(format.Node(&b, fset, file))
		to := filepath.Join(out, filepath.Base(f))
		must(os.WriteFile(to, []byte(b.String()+"\nvar _ = verifsched.Point\n"), 0o644))
		rep[f] = to
	}
	must(filepath.Walk(shims, func(p string, info os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go.txt") {
			rel, _ := filepath.Rel(shims, strings.TrimSuffix(p, ".txt"))
			rep[filepath.Join(pkg, "verifsched", rel)] = p
		}
		return err
	}))
	b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	must(os.WriteFile(overlay, b, 0o644))
}
