// mutate lists and applies small changes to the library's sources; a
// development aid to find out what the checks do not see.
//
//	mutate list DIR        one mutant per line: number, file:line, what changes
//	mutate apply DIR N     writes mutant N into DIR
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type edit struct {
	file     string
	from, to int
	text     string
	line     int
	what     string
}

func main() {
	dir := os.Args[2]
	files := []string{"readability.go", "domparser.go", "readerable.go", "options.go", "util.go", "regexps.go", "cmd/readability/readability.go"}
	var edits []edit
	for _, name := range files {
		path := filepath.Join(dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(n ast.Node, text, what string) {
			edits = append(edits, edit{name, off(n.Pos()), off(n.End()), text, fset.Position(n.Pos()).Line, what})
		}
		addAt := func(a, b token.Pos, text, what string) {
			edits = append(edits, edit{name, off(a), off(b), text, fset.Position(a).Line, what})
		}
		isSlog := func(n ast.Node) bool { return strings.HasPrefix(str(n), "slog.") }
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.GenDecl:
				if x.Tok == token.VAR && len(x.Specs) == 1 {
					if v := x.Specs[0].(*ast.ValueSpec); len(v.Names) > 0 && v.Names[0].Name == "styleMap" {
						return false
					}
				}
			case *ast.ExprStmt:
				if isSlog(x) {
					return false
				}
				if _, ok := x.X.(*ast.CallExpr); ok {
					add(x, "", "delete "+str(x))
				}
			case *ast.AssignStmt:
				if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN {
					t := ""
					for _, r := range x.Lhs {
						if id, ok := r.(*ast.Ident); ok && id.Name != "_" {
							t += "_ = " + id.Name + ";"
						}
					}
					add(x, t, "delete "+str(x))
				}
				if x.Tok == token.ADD_ASSIGN {
					addAt(x.TokPos, x.TokPos+2, "-=", "-= for += in "+str(x))
				}
				if x.Tok == token.SUB_ASSIGN {
					addAt(x.TokPos, x.TokPos+2, "+=", "+= for -= in "+str(x))
				}
			case *ast.IfStmt:
				if x.Init == nil && strings.Contains(str(x.Body), "slog.") && len(x.Body.List) == 1 {
					return false
				}
				if strings.Contains(str(x.Cond), "err != nil") {
					break
				}
				add(x.Cond, "("+str(x.Cond)+") && false", "never: if "+str(x.Cond))
				add(x.Cond, "("+str(x.Cond)+") || true", "always: if "+str(x.Cond))
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.CONTINUE {
					add(x, "", "delete continue")
				}
				if x.Label == nil && x.Tok == token.BREAK {
					add(x, "", "delete break")
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
				}
				for _, a := range alt[x.Op] {
					addAt(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, a+" for "+x.Op.String()+" in "+str(x))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x, str(x.X), "drop the right of "+str(x))
					add(x, str(x.Y), "drop the left of "+str(x))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x, str(x.X), "drop the ! of "+str(x))
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					if v, err := strconv.Atoi(x.Value); err == nil {
						add(x, fmt.Sprint(v+1), fmt.Sprintf("%d for %d", v+1, v))
						if v > 0 {
							add(x, fmt.Sprint(v-1), fmt.Sprintf("%d for %d", v-1, v))
						}
						if v > 9 {
							add(x, fmt.Sprint(v*2), fmt.Sprintf("%d for %d", v*2, v))
						}
					}
				case token.FLOAT:
					add(x, "("+x.Value+"*1.3)", "1.3 times "+x.Value)
					add(x, "("+x.Value+"*0.7)", "0.7 times "+x.Value)
				case token.STRING:
					if len(x.Value) > 2 && name != "regexps.go" && len(x.Value) < 60 && !strings.Contains(x.Value, " ") {
						add(x, x.Value[:len(x.Value)-1]+"q"+x.Value[len(x.Value)-1:], "another string for "+x.Value)
					}
				}
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					if _, ok := e.(*ast.KeyValueExpr); ok {
						continue
					}
					end := e.End()
					if i+1 < len(x.Elts) {
						end = x.Elts[i+1].Pos()
					}
					if len(x.Elts) > 1 {
						addAt(e.Pos(), end, "", "without "+str(e))
					}
				}
			case *ast.CallExpr:
				if isSlog(x) {
					return false
				}
				s := str(x)
				switch {
				case strings.HasPrefix(s, "strings.TrimSpace(") && len(x.Args) == 1, strings.HasPrefix(s, "strings.ToLower(") && len(x.Args) == 1, strings.HasPrefix(s, "strings.ToUpper(") && len(x.Args) == 1:
					add(x, str(x.Args[0]), "without "+s)
				case strings.HasPrefix(s, "len([]rune("):
					if c, ok := x.Args[0].(*ast.CallExpr); ok {
						add(x, "len("+str(c.Args[0])+")", "bytes for runes: "+s)
					}
				case strings.HasPrefix(s, "regexp.MustCompile("):
					lit := str(x.Args[0])
					parts := splitAlt(lit[1 : len(lit)-1])
					if strings.HasPrefix(lit, "`(?i)") {
						add(x.Args[0], "`"+lit[5:], "case-sensitive "+lit)
					}
					for i := range parts {
						if len(parts) == 1 {
							break
						}
						rest := append(append([]string{}, parts[:i]...), parts[i+1:]...)
						add(x.Args[0], "`"+strings.Join(rest, "|")+"`", "without "+parts[i]+" of the regexp")
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					switch str(x.Results[0]) {
					case "true":
						add(x.Results[0], "false", "return false for true")
					case "false":
						add(x.Results[0], "true", "return true for false")
					}
				}
			}
			return true
		})
	}
	switch os.Args[1] {
	case "list":
		for i, e := range edits {
			w := strings.Join(strings.Fields(e.what), " ")
			if len(w) > 150 {
				w = w[:150]
			}
			fmt.Printf("%d\t%s:%d\t%s\n", i, e.file, e.line, w)
		}
	case "apply":
		n, _ := strconv.Atoi(os.Args[3])
		e := edits[n]
		path := filepath.Join(dir, e.file)
		src, _ := os.ReadFile(path)
		var b bytes.Buffer
		b.Write(src[:e.from])
		b.WriteString(e.text)
		b.Write(src[e.to:])
		if err := os.WriteFile(path, b.Bytes(), 0o644); err != nil {
			panic(err)
		}
	}
}

// splitAlt splits a regexp at the | outside of groups (the prefix stays with all).
func splitAlt(s string) []string {
	var out []string
	depth, start := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		case '|':
			if depth == 0 {
				out = append(out, s[start:i])
				start = i + 1
			}
		}
	}
	return append(out, s[start:])
}
