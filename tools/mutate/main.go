// mutate DIR FILE...: lists the mutants of Go source files as JSON lines {file, from, to, text, what}
// (development aid: which small changes do the checks see?)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
)

type mutant struct {
	File     string `json:"file"`
	From, To int
	Text     string `json:"text"`
	What     string `json:"what"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[2:] {
		path := filepath.Join(os.Args[1], name)
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		fn := ""
		emit := func(from, to token.Pos, text, what string) {
			enc.Encode(mutant{name, off(from), off(to), text, fmt.Sprintf("%s:%d %s: %s", name, fs.Position(from).Line, fn, what)})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}
		var block func(list []ast.Stmt)
		block = func(list []ast.Stmt) {
			for _, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
					emit(s.Pos(), s.End(), "", "deleted "+text(s))
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "deleted "+text(s))
					}
				case *ast.BranchStmt:
					if s.Tok == token.CONTINUE {
						emit(s.Pos(), s.End(), "break", "continue -> break")
					}
					if s.Tok == token.BREAK {
						emit(s.Pos(), s.End(), "continue", "break -> continue")
					}
					emit(s.Pos(), s.End(), "", "deleted "+text(s))
				case *ast.IfStmt:
					emit(s.Pos(), s.End(), "", "deleted if "+text(s.Cond))
					if s.Else != nil {
						emit(s.Body.End(), s.End(), "", "deleted else of "+text(s.Cond))
					}
				case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
					emit(s.Pos(), s.End(), "", "deleted loop or switch")
				}
			}
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				fn = fd.Name.Name
			} else {
				fn = "(decl)"
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, r := range swap[n.Op] {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, text(n)+" -> "+r)
					}
				case *ast.IfStmt:
					emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negated "+text(n.Cond))
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never "+text(n.Cond))
					emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always "+text(n.Cond))
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						emit(n.OpPos, n.OpPos+1, "", "dropped ! of "+text(n))
					}
				case *ast.BlockStmt:
					block(n.List)
				case *ast.CaseClause:
					block(n.Body)
				case *ast.RangeStmt:
					if len(n.Body.List) > 0 {
						emit(n.Body.Rbrace, n.Body.Rbrace, "\nbreak\n", "loop only once")
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						if id, ok := r.(*ast.Ident); ok {
							switch id.Name {
							case "true":
								emit(r.Pos(), r.End(), "false", "return false")
							case "false":
								emit(r.Pos(), r.End(), "true", "return true")
							case "err":
								emit(r.Pos(), r.End(), "nil", "return nil error")
							}
						}
					}
				case *ast.AssignStmt:
					if len(n.Rhs) == 1 {
						if id, ok := n.Rhs[0].(*ast.Ident); ok {
							switch id.Name {
							case "true":
								emit(id.Pos(), id.End(), "false", text(n)+" -> false")
							case "false":
								emit(id.Pos(), id.End(), "true", text(n)+" -> true")
							}
						}
					}
				case *ast.BasicLit:
					switch n.Kind {
					case token.INT:
						emit(n.Pos(), n.End(), "("+n.Value+"+1)", n.Value+" + 1")
						if n.Value != "0" {
							emit(n.Pos(), n.End(), "("+n.Value+"-1)", n.Value+" - 1")
						}
					case token.STRING:
						if len(n.Value) > 2 && len(n.Value) < 60 && n.Value[0] == '"' {
							emit(n.Pos(), n.End(), n.Value[:len(n.Value)-1]+"x\"", n.Value+" + x")
						}
					}
				case *ast.KeyValueExpr:
					if _, ok := n.Value.(*ast.Ident); ok {
						// the value of a detail or a field left out
						emit(n.Pos(), n.End(), "", "left out "+text(n))
					}
				}
				return true
			})
		}
	}
}
