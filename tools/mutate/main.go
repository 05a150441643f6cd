// mutate FILE: lists small mutants of a Go source file as JSON lines {"off","end","new","what","line"}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	Off, End  int
	New, What string
	Line      int
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	emit := func(a, b token.Pos, n, what string) {
		enc.Encode(mut{off(a), off(b), n, what, fs.Position(a).Line})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
	}
	var infn bool
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, o := range swap[x.Op] {
				emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op "+x.Op.String()+" -> "+o)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(x.Pos(), x.End(), text(x.X), "drop right of "+x.Op.String())
				emit(x.Pos(), x.End(), text(x.Y), "drop left of "+x.Op.String())
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int +1")
					emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int -1")
				}
			}
			if x.Kind == token.CHAR {
				emit(x.Pos(), x.End(), "'#'", "char")
			}
			if x.Kind == token.STRING && len(x.Value) > 2 {
				emit(x.Pos(), x.End(), x.Value[:len(x.Value)-2]+x.Value[len(x.Value)-1:], "string cut")
				emit(x.Pos(), x.End(), x.Value[:1]+x.Value[2:], "string cut front")
			}
		case *ast.IfStmt:
			emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate if")
			emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if false")
			emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if true")
			if x.Else != nil {
				emit(x.Body.End(), x.Else.End(), "", "drop else")
			}
		case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			var l []ast.Stmt
			switch y := x.(type) {
			case *ast.BlockStmt:
				l = y.List
			case *ast.CaseClause:
				l = y.Body
				if len(l) > 0 {
					emit(l[0].Pos(), l[len(l)-1].End(), "", "empty case")
				}
			case *ast.CommClause:
				l = y.Body
			}
			_ = infn
			for i, s := range l {
				switch z := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
					emit(s.Pos(), s.End(), "", "delete "+fmt.Sprintf("%T", s))
				case *ast.AssignStmt:
					if z.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "delete assignment")
					}
				case *ast.ReturnStmt, *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", "delete return/branch")
				case *ast.IfStmt:
					emit(s.Pos(), s.End(), "", "delete if")
				}
				if g, ok := s.(*ast.GoStmt); ok {
					emit(g.Pos(), g.Call.Pos(), "", "go -> call")
				}
				if g, ok := s.(*ast.DeferStmt); ok {
					emit(g.Pos(), g.Call.Pos(), "", "defer -> call")
				}
				if i+1 < len(l) {
					t := l[i+1]
					emit(s.Pos(), t.End(), text(t)+"\n"+text(s), "swap statements")
				}
			}
		case *ast.BranchStmt:
			if x.Tok == token.BREAK && x.Label == nil {
				emit(x.Pos(), x.End(), "continue", "break -> continue")
			}
			if x.Tok == token.CONTINUE && x.Label == nil {
				emit(x.Pos(), x.End(), "break", "continue -> break")
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				emit(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "slice low+1")
			}
			if x.High != nil {
				emit(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice high-1")
			}
		case *ast.Ident:
			if x.Name == "true" {
				emit(x.Pos(), x.End(), "false", "true -> false")
			}
			if x.Name == "false" {
				emit(x.Pos(), x.End(), "true", "false -> true")
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
					emit(id.Pos(), id.End(), "nil", "err -> nil")
				}
			}
		}
		return true
	})
}
