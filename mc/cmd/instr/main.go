// Command instr writes an overlay of the code under test.
//
//	instr sched DIR   scheduling points before the statements of the concurrent packages, and locks whose waiters
//	                  are visibly blocked
//	instr rand DIR    random draws of math/rand come from verifmc/vrand
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const repo = "/repo"

func main() {
	if len(os.Args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: instr sched|rand DIR")
		os.Exit(2)
	}
	mode, dir := os.Args[1], os.Args[2]
	must(os.MkdirAll(dir, 0755))
	replace := map[string]string{}
	for _, f := range sources() {
		fset := token.NewFileSet()
		src, err := os.ReadFile(f)
		must(err)
		file, err := parser.ParseFile(fset, f, src, 0)
		must(err)
		rel, _ := filepath.Rel(repo, f)
		changed := false
		switch mode {
		case "rand":
			changed = redirect(file)
		case "sched":
			changed = weave(file, filepath.Dir(rel))
		}
		if !changed {
			continue
		}
		var b bytes.Buffer
		must(printer.Fprint(&b, token.NewFileSet(), file))
		out := filepath.Join(dir, strings.ReplaceAll(rel, "/", "_"))
		must(os.WriteFile(out, b.Bytes(), 0644))
		replace[f] = out
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	must(os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0644))
	fmt.Printf("%d files, %d points\n", len(replace), site)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

// sources lists the library's own files.
func sources() []string {
	out := []string{}
	filepath.Walk(repo, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if i.IsDir() && strings.HasPrefix(i.Name(), ".") && p != repo {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			out = append(out, p)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

// redirect replaces the import of math/rand.
func redirect(f *ast.File) bool {
	changed := false
	for _, im := range f.Imports {
		if im.Path.Value == `"math/rand"` {
			im.Path.Value = `"verifmc/vrand"`
			if im.Name == nil {
				im.Name = ast.NewIdent("rand")
			}
			changed = true
		}
	}
	return changed
}

var site int

func point() ast.Stmt {
	site++
	return &ast.ExprStmt{X: &ast.CallExpr{
		Fun:  &ast.SelectorExpr{X: ast.NewIdent("vpt"), Sel: ast.NewIdent("P")},
		Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(site)}},
	}}
}

// statements tells whether every statement of a package gets a point; functions tells whether at least every function does.
func level(pkg string) (statements, functions bool) {
	switch pkg {
	case "algorithm", "algorithm/evaluator", "fitness":
		return true, true
	case "triangulation/incrdelaunay":
		return false, true
	}
	return false, false
}

func weave(f *ast.File, pkg string) bool {
	stmts, funcs := level(pkg)
	used := false
	usesSync := false
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` && im.Name == nil {
			usesSync = true
		}
	}
	block := func(list []ast.Stmt) []ast.Stmt {
		out := []ast.Stmt{}
		for _, s := range list {
			if g, ok := s.(*ast.GoStmt); ok {
				used = true
				s = start(g)
			}
			if stmts {
				switch s.(type) {
				case *ast.LabeledStmt, *ast.DeclStmt, *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				default:
					used = true
					out = append(out, point())
				}
			}
			out = append(out, s)
		}
		return out
	}
	for _, d := range f.Decls {
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && usesSync && id.Name == "sync" && id.Obj == nil {
					switch x.Sel.Name {
					case "Mutex", "RWMutex", "Once":
						id.Name = "vpt"
						used = true
					}
				}
			case *ast.BlockStmt:
				x.List = block(x.List)
			case *ast.CaseClause:
				x.Body = block(x.Body)
			case *ast.CommClause:
				x.Body = block(x.Body)
			}
			return true
		})
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && funcs && !stmts && len(fd.Body.List) > 0 {
			fd.Body.List = append([]ast.Stmt{point()}, fd.Body.List...)
			used = true
		}
	}
	if !used {
		return false
	}
	spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"verifmc/vpt"`}}
	extra := []ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}
	// Imports come first.
	i := 0
	for i < len(f.Decls) {
		g, ok := f.Decls[i].(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			break
		}
		i++
	}
	if usesSync {
		extra = append(extra, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
			Names: []*ast.Ident{ast.NewIdent("_")}, Type: &ast.SelectorExpr{X: ast.NewIdent("sync"), Sel: ast.NewIdent("Locker")},
		}}})
	}
	f.Decls = append(append(append([]ast.Decl{}, f.Decls[:i]...), extra...), f.Decls[i:]...)
	return true
}

// start turns a go statement into a call of the scheduler; the function and its arguments are evaluated first.
func start(g *ast.GoStmt) ast.Stmt {
	vgo := &ast.SelectorExpr{X: ast.NewIdent("vpt"), Sel: ast.NewIdent("Go")}
	if lit, ok := g.Call.Fun.(*ast.FuncLit); ok && len(g.Call.Args) == 0 && (lit.Type.Results == nil || len(lit.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: vgo, Args: []ast.Expr{lit}}}
	}
	names, vals := []ast.Expr{ast.NewIdent("vptF")}, []ast.Expr{g.Call.Fun}
	args := []ast.Expr{}
	for k, a := range g.Call.Args {
		id := fmt.Sprintf("vptA%d", k)
		names, vals, args = append(names, ast.NewIdent(id)), append(vals, a), append(args, ast.NewIdent(id))
	}
	call := &ast.CallExpr{Fun: ast.NewIdent("vptF"), Args: args}
	if g.Call.Ellipsis.IsValid() {
		call.Ellipsis = 1
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: vals},
		&ast.ExprStmt{X: &ast.CallExpr{Fun: vgo, Args: []ast.Expr{&ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}},
		}}}},
	}}
}
