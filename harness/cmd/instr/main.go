// instr writes instrumented copies of packages and the overlay file that puts them in
// place of the originals: a call of verifpt.Y before every statement that touches a field
// or an element, and verifpt.V around what is assigned to one, so that an explorer can
// interleave goroutines between the load and the store of an update.
//
//	instr REPO OUTDIR full|plain PACKAGE...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `//go:build go1.21

package verifpt

// Hook is called at every point.
var Hook func(at string)

func Y(at string) {
	if Hook != nil {
		Hook(at)
	}
}

func V[T any](at string, v T) T {
	if Hook != nil {
		Hook(at)
	}
	return v
}
`

var full bool

func main() {
	repo, out := os.Args[1], os.Args[2]
	full = os.Args[3] == "full"
	over := map[string]string{}
	hp := filepath.Join(out, "verifpt.go")
	check(os.WriteFile(hp, []byte(hook), 0644))
	over[filepath.Join(repo, "common/verifpt/verifpt.go")] = hp
	n := 0
	for _, pkg := range os.Args[4:] {
		fs, err := filepath.Glob(filepath.Join(repo, pkg, "*.go"))
		check(err)
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			check(err)
			b := instrument(f, src)
			if b == nil {
				continue
			}
			n++
			o := filepath.Join(out, fmt.Sprintf("i%d.go", n))
			check(os.WriteFile(o, b, 0644))
			over[f] = o
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": over})
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

type ins struct {
	off int
	seq int
	s   string
	del int // bytes replaced
}

func instrument(name string, src []byte) []byte {
	if bytes.Contains(src, []byte("//go:build")) || bytes.Contains(src, []byte("import \"C\"")) {
		return nil
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, 0)
	if err != nil {
		return nil
	}
	pk := map[string]bool{}
	for _, i := range f.Imports {
		p := strings.Trim(i.Path.Value, `"`)
		n := p[strings.LastIndex(p, "/")+1:]
		if i.Name != nil {
			n = i.Name.Name
		}
		pk[n] = true
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var edits []ins
	add := func(p token.Pos, del int, s string) { edits = append(edits, ins{off(p), len(edits), s, del}) }
	at := func(p token.Pos) string { return fmt.Sprintf("%s:%d", filepath.Base(name), fs.Position(p).Line) }
	// touches: a field, an element or a pointer is used in the statement itself
	touches := func(n ast.Node) bool {
		t := false
		ast.Inspect(n, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.BlockStmt, *ast.FuncLit:
				return false
			case *ast.SelectorExpr:
				if id, ok := y.X.(*ast.Ident); !ok || !pk[id.Name] {
					t = true
				}
			case *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr:
				t = true
			}
			return !t
		})
		return t
	}
	isLog := func(s ast.Stmt) bool {
		e, ok := s.(*ast.ExprStmt)
		if !ok {
			return false
		}
		c, ok := e.X.(*ast.CallExpr)
		if !ok {
			return false
		}
		sel, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return false
		}
		for _, p := range []string{"Debug", "Trace", "Info", "Warn", "Error", "Print"} {
			if strings.HasPrefix(sel.Sel.Name, p) {
				return true
			}
		}
		return false
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.LabeledStmt); ok || isLog(s) || !touches(s) {
				continue
			}
			add(s.Pos(), 0, fmt.Sprintf("verifpt.Y(%q); ", at(s.Pos())))
			if !full {
				continue
			}
			switch a := s.(type) {
			case *ast.AssignStmt:
				if len(a.Lhs) != 1 || len(a.Rhs) != 1 || !touches(a.Lhs[0]) || !touches(a.Rhs[0]) && a.Tok == token.ASSIGN {
					break
				}
				op := map[token.Token]string{token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-"}[a.Tok]
				if a.Tok == token.ASSIGN {
					add(a.Rhs[0].Pos(), 0, fmt.Sprintf("verifpt.V(%q, ", at(a.Pos())))
					add(a.Rhs[0].End(), 0, ")")
				} else if op != "" {
					add(a.TokPos, len(a.Tok.String()), "=")
					add(a.Rhs[0].Pos(), 0, fmt.Sprintf("verifpt.V(%q, %s %s (", at(a.Pos()), text(a.Lhs[0]), op))
					add(a.Rhs[0].End(), 0, "))")
				}
			case *ast.IncDecStmt:
				if touches(a.X) {
					add(a.TokPos, 2, fmt.Sprintf("= verifpt.V(%q, %s %s 1)", at(a.Pos()), text(a.X), a.Tok.String()[:1]))
				}
			}
		}
	}
	for _, d := range f.Decls {
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				// the clauses of a switch or select are no statements
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
	}
	if len(edits) == 0 {
		return nil
	}
	add(f.Name.End(), 0, "; import \"github.com/icon-project/btp/common/verifpt\"")
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b bytes.Buffer
	b.WriteString("//go:build go1.21\n\n")
	p := 0
	for _, e := range edits {
		b.Write(src[p:e.off])
		b.WriteString(e.s)
		p = e.off + e.del
	}
	b.Write(src[p:])
	return b.Bytes()
}
