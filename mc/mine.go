package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// The literals of the code under test enrich the alphabets: whatever string or
// number a branch of the current sources compares with is tried too. They only
// add inputs; the oracles never look at the sources.
type minedT struct {
	strs []string // string literals and samples of regular expressions
	ints []int    // integer literals up to 100000
}

var (
	minedOnce sync.Once
	minedVal  minedT
)

func mined() minedT {
	minedOnce.Do(func() {
		strs, ints := map[string]bool{}, map[int]bool{}
		files, _ := filepath.Glob(repoDir() + "/*.go")
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(af, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CallExpr:
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						if id, ok := s.X.(*ast.Ident); ok && id.Name == "regexp" && len(x.Args) == 1 {
							if bl, ok := x.Args[0].(*ast.BasicLit); ok && bl.Kind == token.STRING {
								if p, err := strconv.Unquote(bl.Value); err == nil {
									for _, s := range samplesOf(p) {
										strs[s] = true
									}
								}
							}
							return false
						}
						// messages of the log and of the errors say nothing about the inputs
						if id, ok := s.X.(*ast.Ident); ok && (id.Name == "slog" || id.Name == "fmt" || id.Name == "log") {
							return false
						}
					}
				case *ast.ImportSpec:
					return false
				case *ast.KeyValueExpr:
					// the css names table: values only, keys are their camel case
					if _, ok := x.Key.(*ast.BasicLit); ok {
						if v, ok := x.Value.(*ast.BasicLit); ok && v.Kind == token.STRING {
							return false
						}
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.STRING:
						if s, err := strconv.Unquote(x.Value); err == nil && s != "" && len(s) < 60 {
							strs[s] = true
						}
					case token.INT:
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil && v >= 0 && v <= 100000 {
							ints[int(v)] = true
						}
					case token.CHAR:
						if s, err := strconv.Unquote(x.Value); err == nil {
							strs[s] = true
						}
					}
				}
				return true
			})
		}
		for s := range strs {
			minedVal.strs = append(minedVal.strs, s)
		}
		sort.Strings(minedVal.strs)
		for v := range ints {
			minedVal.ints = append(minedVal.ints, v)
		}
		sort.Ints(minedVal.ints)
	})
	return minedVal
}

// samplesOf lists strings matched by a pattern: one for every alternative.
func samplesOf(pat string) []string {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil
	}
	var gen func(r *syntax.Regexp) []string
	cross := func(a, b []string) []string {
		var out []string
		for i, x := range a {
			for j, y := range b {
				// all of the first, the first of all: every alternative shows up once
				if i == 0 || j == 0 {
					out = append(out, x+y)
				}
			}
		}
		return out
	}
	gen = func(r *syntax.Regexp) []string {
		switch r.Op {
		case syntax.OpLiteral:
			return []string{strings.ToLower(string(r.Rune))}
		case syntax.OpCharClass:
			for _, pref := range "a0 /" {
				for i := 0; i+1 < len(r.Rune); i += 2 {
					if pref >= r.Rune[i] && pref <= r.Rune[i+1] {
						return []string{string(pref)}
					}
				}
			}
			var out []string
			for i := 0; i+1 < len(r.Rune) && i < 20; i += 2 {
				if r.Rune[i] < 0x10000 {
					out = append(out, string(r.Rune[i]))
				}
			}
			return out
		case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			return []string{"x"}
		case syntax.OpCapture, syntax.OpPlus:
			return gen(r.Sub[0])
		case syntax.OpStar, syntax.OpQuest:
			return append([]string{""}, gen(r.Sub[0])...)
		case syntax.OpRepeat:
			s := gen(r.Sub[0])
			for i := 1; i < r.Min; i++ {
				s = cross(s, gen(r.Sub[0])[:1])
			}
			return s
		case syntax.OpConcat:
			out := []string{""}
			for _, s := range r.Sub {
				g := gen(s)
				if len(g) == 0 {
					g = []string{""}
				}
				out = cross(out, g)
			}
			return out
		case syntax.OpAlternate:
			var out []string
			for _, s := range r.Sub {
				out = append(out, gen(s)...)
			}
			return out
		}
		return []string{""}
	}
	var out []string
	for _, s := range gen(re) {
		if strings.TrimSpace(s) != "" {
			out = append(out, s)
		}
	}
	return out
}

// minedNames are the mined literals usable as tag, attribute or class names.
func minedNames() []string {
	set := map[string]bool{}
	for _, s := range mined().strs {
		s = strings.ToLower(strings.TrimSpace(s))
		ok := s != "" && s[0] >= 'a' && s[0] <= 'z'
		for _, c := range s {
			if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '-' || c == '_') {
				ok = false
			}
		}
		if ok {
			set[s] = true
		}
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func repoDir() string {
	if d := os.Getenv("MC_REPO"); d != "" {
		return d
	}
	return "/repo"
}
