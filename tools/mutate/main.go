// mutate lists small changes to Go source files, one per line of output:
// {"id","file","line","op","from","to","off","end"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Op   string `json:"op"`
	From string `json:"from"`
	To   string `json:"to"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	id := 0
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(op string, a, b int, to string) {
			id++
			from := string(src[a:b])
			if len(from) > 120 {
				from = from[:120]
			}
			enc.Encode(mut{id, file, fs.Position(fs.File(f.Pos()).Pos(a)).Line, op, from, to, a, b})
		}
		swaps := map[token.Token][]string{
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"*"},
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&", "^"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, t := range swaps[n.Op] {
					a := off(n.OpPos)
					emit("binop", a, a+len(n.Op.String()), t)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						a := off(n.Pos())
						emit("int+1", a, a+len(n.Value), fmt.Sprint(v+1))
						if v > 0 {
							emit("int-1", a, a+len(n.Value), fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" || n.Name == "false" {
					a := off(n.Pos())
					emit("bool", a, a+len(n.Name), strconv.FormatBool(n.Name == "false"))
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT || n.Op == token.SUB {
					a := off(n.OpPos)
					emit("unary", a, a+1, "")
				}
			case *ast.IfStmt:
				a, b := off(n.Cond.Pos()), off(n.Cond.End())
				emit("if-false", a, b, "false && ("+string(src[a:b])+")")
				emit("if-true", a, b, "true || ("+string(src[a:b])+")")
			case *ast.ForStmt:
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
				emit("del", off(n.Pos()), off(n.End()), "")
			case *ast.AssignStmt:
				if n.Tok == token.DEFINE {
					break
				}
				a, b := off(n.Pos()), off(n.End())
				// keep variables used
				l := []string{}
				for _, e := range n.Rhs {
					l = append(l, string(src[off(e.Pos()):off(e.End())]))
				}
				if len(n.Lhs) == 1 && len(n.Rhs) == 1 {
					emit("del", a, b, "_ = "+l[0])
					if n.Tok != token.ASSIGN {
						emit("assign-op", a, b, string(src[off(n.Lhs[0].Pos()):off(n.Lhs[0].End())])+" = "+l[0])
					}
				} else {
					emit("del", a, b, strings.Repeat("_, ", len(n.Lhs)-1)+"_ = "+strings.Join(l, ", "))
				}
			case *ast.ReturnStmt:
				if len(n.Results) > 0 {
					last := n.Results[len(n.Results)-1]
					if s := string(src[off(last.Pos()):off(last.End())]); s == "err" || strings.HasPrefix(s, "Err") || strings.HasPrefix(s, "io.Err") {
						emit("ret-nil", off(last.Pos()), off(last.End()), "nil")
					}
				}
			}
			return true
		})
	}
}
