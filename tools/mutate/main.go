// mutate lists small changes to Go files: one JSON object a line with the file,
// the byte range and what to put there.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Old  string `json:"old"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(kind string, from, to token.Pos, s string) {
			a, b := off(from), off(to)
			enc.Encode(mut{file, fs.Position(from).Line, a, b, s, kind, string(src[a:b])})
		}
		skip := map[ast.Node]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.Field:
				if n.Tag != nil {
					skip[n.Tag] = true
				}
			case *ast.BinaryExpr:
				alts := map[token.Token][]string{
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="},
					token.GTR: {">=", "<"}, token.GEQ: {">", "<="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
				}[n.Op]
				for _, a := range alts {
					put("operator", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					put("left only", n.Pos(), n.End(), string(src[off(n.X.Pos()):off(n.X.End())]))
					put("right only", n.Pos(), n.End(), string(src[off(n.Y.Pos()):off(n.Y.End())]))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT || n.Op == token.SUB {
					put("unary", n.Pos(), n.X.Pos(), "")
				}
			case *ast.IfStmt:
				put("if true", n.Cond.Pos(), n.Cond.End(), "true || ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")")
				put("if false", n.Cond.Pos(), n.Cond.End(), "false && ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")")
			case *ast.AssignStmt:
				if n.Tok == token.ASSIGN {
					var l []string
					for _, x := range append(n.Lhs, n.Rhs...) {
						l = append(l, "_ = "+string(src[off(x.Pos()):off(x.End())]))
					}
					if len(n.Rhs) == 1 && len(n.Lhs) > 1 {
						l = l[:len(n.Lhs)]
					}
					ok := true
					for _, x := range n.Lhs {
						if id, is := x.(*ast.Ident); is && id.Name == "_" {
							ok = false
						}
					}
					if ok {
						put("no assignment", n.Pos(), n.End(), "{"+strings.Join(l, "; ")+"}")
					}
				} else if n.Tok != token.DEFINE {
					put("no update", n.Pos(), n.End(), "_ = "+string(src[off(n.Rhs[0].Pos()):off(n.Rhs[0].End())]))
					if n.Tok == token.ADD_ASSIGN {
						put("plain assignment", n.TokPos, n.TokPos+2, "=")
					}
				}
			case *ast.IncDecStmt:
				put("no step", n.Pos(), n.End(), "")
			case *ast.ExprStmt:
				put("no call", n.Pos(), n.End(), "")
			case *ast.BranchStmt:
				if n.Tok == token.BREAK {
					put("continue", n.Pos(), n.End(), "continue")
					put("no break", n.Pos(), n.End(), "")
				} else if n.Tok == token.CONTINUE {
					put("break", n.Pos(), n.End(), "break")
					put("no continue", n.Pos(), n.End(), "")
				}
			case *ast.RangeStmt:
				put("empty loop", n.X.Pos(), n.X.End(), string(src[off(n.X.Pos()):off(n.X.End())])+"[:0]")
			case *ast.CaseClause:
				for i, x := range n.List {
					if len(n.List) == 1 {
						s := string(src[off(x.Pos()):off(x.End())])
						if !strings.HasPrefix(s, "*") {
							put("case gone", n.Pos(), n.End(), "")
						} else {
							put("case gone", n.Pos(), n.End(), "")
						}
					} else if i+1 < len(n.List) {
						put("case item gone", x.Pos(), n.List[i+1].Pos(), "")
					} else {
						put("case item gone", n.List[i-1].End(), x.End(), "")
					}
				}
			case *ast.ReturnStmt:
				if len(n.Results) > 0 {
					last := n.Results[len(n.Results)-1]
					if c, ok := last.(*ast.CallExpr); ok {
						if s, ok := c.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Errorf" || s.Sel.Name == "New") {
							put("no error", last.Pos(), last.End(), "nil")
						}
					}
					if id, ok := last.(*ast.Ident); ok && id.Name == "err" {
						put("no error", last.Pos(), last.End(), "nil")
					}
				}
			case *ast.BasicLit:
				if skip[n] {
					return true
				}
				switch n.Kind {
				case token.INT:
					v, err := strconv.Atoi(n.Value)
					if err == nil {
						put("number", n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							put("number", n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				case token.FLOAT:
					put("number", n.Pos(), n.End(), "("+n.Value+"+1)")
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil && !strings.ContainsAny(s, "% ") {
						put("string", n.Pos(), n.End(), strconv.Quote(s+"x"))
					}
				}
			case *ast.Ident:
				if n.Name == "true" || n.Name == "false" {
					put("bool", n.Pos(), n.End(), map[string]string{"true": "false", "false": "true"}[n.Name])
				}
				if (n.Name == "t" || n.Name == "f" || n.Name == "u") && n.Obj == nil {
				}
			}
			return true
		})
	}
}
