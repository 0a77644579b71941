// Command mutate lists small mutations of a Go file as byte edits: start, end, replacement, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	File       string
	Line       int
	Start, End int
	New, What  string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		out := func(a, b int, repl, what string) {
			line := 1
			for _, c := range src[:a] {
				if c == '\n' {
					line++
				}
			}
			_ = enc.Encode(edit{file, line, a, b, repl, what})
		}
		node := func(n ast.Node, repl, what string) { out(off(n.Pos()), off(n.End()), repl, what) }
		swap := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"+"}, token.AND: {"|"}, token.OR: {"&"}}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, r := range swap[x.Op] {
					a := off(x.OpPos)
					out(a, a+len(x.Op.String()), r, x.Op.String()+" -> "+r)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						node(x, strconv.FormatInt(v+1, 10), fmt.Sprintf("%d -> %d", v, v+1))
					}
				}
			case *ast.IfStmt:
				node(x.Cond, "(true || ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+"))", "if true")
				node(x.Cond, "(false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+"))", "if false")
				if x.Else != nil {
					if b, ok := x.Else.(*ast.BlockStmt); ok {
						node(b, "{}", "empty else")
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					out(off(x.OpPos), off(x.OpPos)+1, "", "drop !")
				}
			case *ast.Ident:
				if x.Name == "true" {
					node(x, "false", "true -> false")
				} else if x.Name == "false" {
					node(x, "true", "false -> true")
				}
			case *ast.ExprStmt:
				node(x, "", "drop call")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					node(x, "", "drop assignment")
				}
			case *ast.IncDecStmt:
				node(x, "", "drop ++/--")
			case *ast.DeferStmt:
				node(x, "", "drop defer")
			case *ast.SendStmt:
				node(x, "", "drop send")
			case *ast.BranchStmt:
				node(x, "", "drop "+x.Tok.String())
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					node(x, "", "drop return")
				}
			}
			return true
		})
	}
}
