// mutate lists small changes of Go files (JSON lines: file, from, to, text, line, what).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File     string `json:"file"`
	From, To int
	Text     string
	Line     int
	What     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		at := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
		put := func(from, to token.Pos, text, what string) {
			enc.Encode(mutant{file, at(from), at(to), text, fset.Position(from).Line, what})
		}
		swap := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt:
					put(s.Pos(), s.End(), "", "delete "+text(s))
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN || x.Tok != token.DEFINE {
						put(s.Pos(), s.End(), "", "delete "+text(s))
					}
				case *ast.IfStmt:
					if x.Else == nil {
						put(s.Pos(), s.End(), "", "delete if "+text(x.Cond))
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok != token.IMPORT
			case *ast.BinaryExpr:
				for _, op := range swap[x.Op] {
					put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), op, text(x)+" : "+x.Op.String()+" -> "+op)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					put(x.Pos(), x.End(), text(x.X), text(x)+" : only left")
					put(x.Pos(), x.End(), text(x.Y), text(x)+" : only right")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					put(x.Pos(), x.End(), text(x.X), text(x)+" : drop !")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						put(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
						if v > 0 {
							put(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
						}
					}
				}
				if x.Kind == token.CHAR {
					if v, _, _, err := strconv.UnquoteChar(x.Value[1:], '\''); err == nil {
						put(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
						put(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 {
					put(x.Pos(), x.End(), strconv.Quote("zz"), x.Value+" -> zz")
				}
			case *ast.Ident:
				if x.Name == "true" {
					put(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					put(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if len(x.List) > 1 {
					put(x.List[0].Pos(), x.List[1].Pos(), "", "drop case "+text(x.List[0]))
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					put(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", text(x)+" : low+1")
				}
				if x.High != nil {
					put(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", text(x)+" : high-1")
					put(x.High.Pos(), x.High.End(), "", text(x)+" : no high")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						put(r.Pos(), r.End(), "nil", text(x)+" : err -> nil")
					}
				}
			}
			return true
		})
	}
}
