package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// instrument writes copies of the package's sources in which every function of
// some size and every statement that touches mutable package state calls the
// scheduler first, and an overlay which puts them in the place of the originals.
func instrument(repo, out string) {
	fset := token.NewFileSet()
	names, err := filepath.Glob(filepath.Join(repo, "*.go"))
	check(err)
	files := map[string]*ast.File{}
	pkg := ""
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(n)
		check(err)
		f, err := parser.ParseFile(fset, n, src, parser.ParseComments)
		check(err)
		files[n] = f
		pkg = f.Name.Name
	}
	vars := map[string]bool{}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, id := range s.(*ast.ValueSpec).Names {
					vars[id.Name] = true
				}
			}
		}
	}
	// A variable whose every use is a plain read can't be a channel between
	// instances: only the others are scheduling points.
	mutable := map[string]bool{}
	hasGo := false
	for _, f := range files {
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			reads := map[*ast.Ident]bool{}
			skip := map[*ast.Ident]bool{}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.GoStmt:
					hasGo = true
				case *ast.SelectorExpr:
					skip[x.Sel] = true
				case *ast.KeyValueExpr:
					if id, ok := x.Key.(*ast.Ident); ok {
						skip[id] = true
					}
				case *ast.RangeStmt:
					if id, ok := x.X.(*ast.Ident); ok {
						reads[id] = true
					}
				case *ast.CallExpr:
					switch fun := x.Fun.(type) {
					case *ast.SelectorExpr:
						if id, ok := fun.X.(*ast.Ident); ok {
							switch fun.Sel.Name {
							case "MatchString", "ReplaceAllString", "ReplaceAllStringFunc", "Split", "FindAllString", "FindAllStringSubmatch", "FindStringSubmatch", "FindStringIndex", "FindString", "Replace", "Match":
								reads[id] = true
							case "Contains", "ContainsFunc", "Index", "IndexFunc":
								if id.Name == "slices" && len(x.Args) > 0 {
									if a, ok := x.Args[0].(*ast.Ident); ok {
										reads[a] = true
									}
								}
							}
						}
					case *ast.Ident:
						if fun.Name == "len" && len(x.Args) == 1 {
							if a, ok := x.Args[0].(*ast.Ident); ok {
								reads[a] = true
							}
						}
					}
				case *ast.AssignStmt:
					for _, r := range x.Rhs {
						if ix, ok := r.(*ast.IndexExpr); ok {
							if id, ok := ix.X.(*ast.Ident); ok {
								reads[id] = true
							}
						}
					}
				}
				return true
			})
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && vars[id.Name] && !reads[id] && !skip[id] {
					mutable[id.Name] = true
				}
				return true
			})
		}
	}
	site := 0
	call := func(class int) ast.Stmt {
		site++
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("verifYield"), Args: []ast.Expr{
			&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(class)}, &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(site)}}}}
	}
	mentions := func(s ast.Stmt) bool {
		hit := false
		ast.Inspect(s, func(n ast.Node) bool {
			if se, ok := n.(*ast.SelectorExpr); ok {
				ast.Inspect(se.X, func(m ast.Node) bool {
					if id, ok := m.(*ast.Ident); ok && mutable[id.Name] {
						hit = true
					}
					return true
				})
				return false
			}
			if id, ok := n.(*ast.Ident); ok && mutable[id.Name] {
				hit = true
			}
			return true
		})
		return hit
	}
	weave := func(list []ast.Stmt) []ast.Stmt {
		var res []ast.Stmt
		for _, s := range list {
			if mentions(s) {
				if _, isLabel := s.(*ast.LabeledStmt); !isLabel {
					res = append(res, call(1))
				}
			}
			res = append(res, s)
		}
		return res
	}
	stmts := func(b *ast.BlockStmt) int {
		n := 0
		ast.Inspect(b, func(x ast.Node) bool {
			if _, ok := x.(ast.Stmt); ok {
				n++
			}
			return true
		})
		return n
	}
	overlay := map[string]string{}
	for name, f := range files {
		f.Comments = nil
		for _, d := range f.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			n := stmts(fn.Body)
			ast.Inspect(fn.Body, func(x ast.Node) bool {
				switch b := x.(type) {
				case *ast.BlockStmt:
					b.List = weave(b.List)
				case *ast.CaseClause:
					b.Body = weave(b.Body)
				case *ast.CommClause:
					b.Body = weave(b.Body)
				}
				return true
			})
			if n > 12 && fn.Name.Name != "init" {
				fn.Body.List = append([]ast.Stmt{call(2)}, fn.Body.List...)
			}
		}
		var buf bytes.Buffer
		check(format.Node(&buf, fset, f))
		dst := filepath.Join(out, filepath.Base(name))
		check(os.WriteFile(dst, buf.Bytes(), 0o644))
		overlay[name] = dst
	}
	hook := fmt.Sprintf(`package %s

// VerifYield is called before everything that may interfere with another instance.
var VerifYield func(class, site int)

// VerifSpawns tells whether the package starts goroutines of its own.
const VerifSpawns = %v

// VerifMutable names the package variables which are not only read.
const VerifMutable = %q

func verifYield(class, site int) {
	if VerifYield != nil {
		VerifYield(class, site)
	}
}
`, pkg, hasGo, strings.Join(keys(mutable), " "))
	dst := filepath.Join(out, "hook.go")
	check(os.WriteFile(dst, []byte(hook), 0o644))
	overlay[filepath.Join(repo, "zz_verif_hook.go")] = dst
	b, err := json.Marshal(map[string]any{"Replace": overlay})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}
