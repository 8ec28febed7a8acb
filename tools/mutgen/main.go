// mutgen DIR OUT: writes one line of JSON {file, off, end, new, kind, line} for every small edit of the
// non-test Go sources below DIR: removed statements, changed conditions, constants and returned errors.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type edit struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
	Old  string `json:"old"`
}

func main() {
	out, _ := os.Create(os.Args[2])
	defer out.Close()
	enc := json.NewEncoder(out)
	filepath.Walk(os.Args[1], func(p string, fi os.FileInfo, err error) error {
		if fi.IsDir() && (fi.Name() == "vendor" || fi.Name() == ".git" || fi.Name() == "example" || fi.Name() == "io") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		fset := token.NewFileSet()
		src, _ := os.ReadFile(p)
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(os.Args[1], p)
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		put := func(kind string, from, to token.Pos, s string) {
			enc.Encode(edit{rel, off(from), off(to), s, kind, fset.Position(from).Line, string(src[off(from):off(to)])})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.SendStmt:
					put("delete", s.Pos(), s.End(), "")
				case *ast.GoStmt:
					put("no-go", s.Pos(), s.Call.Pos(), "")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						put("delete", s.Pos(), s.End(), "")
					}
				case *ast.IfStmt:
					put("delete-if", s.Pos(), s.End(), "")
					if s.Init != nil {
						put("cond-false", s.Cond.Pos(), s.Cond.End(), "("+text(s.Cond)+") && false")
					}
				case *ast.DeclStmt:
				}
				if d, ok := s.(*ast.DeferStmt); ok {
					put("no-defer", s.Pos(), d.Call.Pos(), "")
				}
				if i+1 < len(l) {
					n := l[i+1]
					put("swap", s.Pos(), n.End(), text(n)+"\n"+text(s))
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				if len(n.List) > 1 {
					for i := range n.List[:len(n.List)-1] {
						put("case-drop", n.List[i].Pos(), n.List[i+1].Pos(), "")
					}
				}
			case *ast.CommClause:
				stmts(n.Body)
			case *ast.IfStmt:
				put("negate", n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")")
			case *ast.ForStmt:
				if n.Cond != nil {
					put("once", n.Body.Rbrace, n.Body.Rbrace, "break\n")
				}
			case *ast.RangeStmt:
				put("once", n.Body.Rbrace, n.Body.Rbrace, "break\n")
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.OR: {"&"}, token.AND: {"|"}}
				for _, a := range alt[n.Op] {
					put("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					put("left", n.Pos(), n.End(), text(n.X))
					put("right", n.Pos(), n.End(), text(n.Y))
				}
				if n.Op == token.OR {
					put("left", n.Pos(), n.End(), text(n.X))
					put("right", n.Pos(), n.End(), text(n.Y))
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						put("const", n.Pos(), n.End(), strconv.FormatInt(v+1, 10))
						if v > 0 {
							put("const", n.Pos(), n.End(), strconv.FormatInt(v-1, 10))
						}
					}
				case token.STRING:
					if len(n.Value) > 2 && !strings.Contains(n.Value, "/") {
						put("string", n.Pos(), n.End(), n.Value[:len(n.Value)-1]+"x"+n.Value[len(n.Value)-1:])
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					put("bool", n.Pos(), n.End(), "false")
				}
				if n.Name == "false" {
					put("bool", n.Pos(), n.End(), "true")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if x, ok := r.(*ast.Ident); ok && (x.Name == "err" || x.Name == "e") {
						put("nil-error", r.Pos(), r.End(), "nil")
					}
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(n.Args); i++ {
					put("args", n.Args[i].Pos(), n.Args[i+1].End(), text(n.Args[i+1])+", "+text(n.Args[i]))
				}
			case *ast.KeyValueExpr:
				put("kv-drop", n.Pos(), n.End(), "")
			}
			return true
		})
		return nil
	})
}
