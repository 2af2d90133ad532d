// mutate lists mutations of Go files, one JSON object per line (development tool).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mutation struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Desc string `json:"desc"`
}

var swaps = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"*"},
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"},
}

func main() {
	n := 0
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[2:] {
		p := filepath.Join(os.Args[1], file)
		src, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(from, to token.Pos, s string) {
			n++
			a, b := off(from), off(to)
			old := string(src[a:b])
			if len(old) > 60 {
				old = old[:60] + "..."
			}
			enc.Encode(mutation{n, file, fs.Position(from).Line, a, b, s, fmt.Sprintf("%q -> %q", old, s)})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			gd, isGen := d.(*ast.GenDecl)
			if isGen && gd.Tok != token.VAR && gd.Tok != token.CONST {
				continue
			}
			ast.Inspect(d, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
					if x.Else != nil {
						emit(x.Body.End(), x.Else.End(), "")
					}
				case *ast.ForStmt:
					if x.Cond != nil {
						emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT || x.Op == token.SUB {
						emit(x.Pos(), x.X.Pos(), "")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok {
							switch id.Name {
							case "err":
								emit(r.Pos(), r.End(), "nil")
							case "true":
								emit(r.Pos(), r.End(), "false")
							case "false":
								emit(r.Pos(), r.End(), "true")
							}
						}
					}
				case *ast.BranchStmt:
					if x.Label == nil && (x.Tok == token.BREAK || x.Tok == token.CONTINUE) {
						emit(x.Pos(), x.End(), "")
						o := "break"
						if x.Tok == token.BREAK {
							o = "continue"
						}
						emit(x.Pos(), x.End(), o)
					}
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "")
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "")
					}
					if x.Tok != token.DEFINE && x.Tok != token.ASSIGN {
						emit(x.TokPos, x.TokPos+2, "=")
					}
				case *ast.CaseClause:
					if x.List == nil {
						break
					}
					if len(x.Body) > 0 {
						emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
					}
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "")
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
						switch id.Name {
						case "int64", "uint64", "int":
							emit(x.Fun.Pos(), x.Fun.End(), id.Name+"(uint16")
						}
					}
				}
				return true
			})
		}
	}
}
