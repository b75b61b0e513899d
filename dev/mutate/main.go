// Command mutate (development helper, no check uses it) lists small source
// mutations of the Go files it is given, one JSON object a line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File  string
	Line  int
	Start int
	End   int
	New   string
	What  string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, repl, what string) {
			enc.Encode(mutant{name, fset.Position(a).Line, off(a), off(b), repl, what})
		}
		swap := map[token.Token][]string{
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		}
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				switch s := s.(type) {
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "delete "+text(s))
					}
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
					emit(s.Pos(), s.End(), "", "delete "+text(s))
				case *ast.IfStmt:
					if s.Else == nil && s.Init == nil {
						emit(s.Pos(), s.End(), "", "delete if "+text(s.Cond))
					}
					emit(s.Cond.Pos(), s.Cond.End(), "!("+text(s.Cond)+")", "negate "+text(s.Cond))
				case *ast.BranchStmt:
					if s.Tok == token.BREAK || s.Tok == token.CONTINUE {
						emit(s.Pos(), s.End(), "", "delete "+text(s))
					}
				}
				// swap adjacent simple statements
				if i+1 < len(list) {
					a, b := list[i], list[i+1]
					if simple(a) && simple(b) {
						emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap "+text(a)+" / "+text(b))
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				if len(n.List) > 1 {
					for i, x := range n.List {
						if i+1 < len(n.List) {
							emit(x.Pos(), n.List[i+1].Pos(), "", "drop case "+text(x))
						} else {
							emit(n.List[i-1].End(), x.End(), "", "drop case "+text(x))
						}
					}
				}
			case *ast.BinaryExpr:
				for _, o := range swap[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, text(n)+" -> "+o)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), text(n)+" -> left")
					emit(n.Pos(), n.End(), text(n.Y), text(n)+" -> right")
				}
				if n.Op == token.ADD || n.Op == token.SUB {
					emit(n.Pos(), n.End(), text(n.X), text(n)+" -> left")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT || n.Op == token.SUB {
					emit(n.Pos(), n.End(), text(n.X), "drop "+n.Op.String()+" in "+text(n))
				}
			case *ast.AssignStmt:
				sw := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*="}
				if o, ok := sw[n.Tok]; ok {
					emit(n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), o, text(n)+" -> "+o)
					emit(n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), "=", text(n)+" -> =")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					v, err := strconv.Atoi(n.Value)
					if err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" -> +1")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" -> -1")
						}
					}
				case token.FLOAT:
					v, err := strconv.ParseFloat(n.Value, 64)
					if err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v*1.5+0.25), n.Value+" changed")
					}
				case token.STRING:
					if len(n.Value) > 2 {
						emit(n.Pos(), n.End(), n.Value[:1]+"x"+n.Value[1:], n.Value+" changed")
					} else {
						emit(n.Pos(), n.End(), `"x"`, n.Value+" changed")
					}
				case token.CHAR:
					emit(n.Pos(), n.End(), `'~'`, n.Value+" changed")
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n.Pos(), n.End(), "false", "true -> false")
				} else if n.Name == "false" {
					emit(n.Pos(), n.End(), "true", "false -> true")
				}
			case *ast.CallExpr:
				if len(n.Args) >= 2 && !n.Ellipsis.IsValid() {
					for i := 0; i+1 < len(n.Args); i++ {
						emit(n.Args[i].Pos(), n.Args[i+1].End(), text(n.Args[i+1])+", "+text(n.Args[i]), "swap args of "+text(n.Fun)+" "+text(n.Args[i])+","+text(n.Args[i+1]))
					}
				}
			case *ast.ReturnStmt:
				if len(n.Results) == 1 {
					emit(n.Results[0].Pos(), n.Results[0].End(), "nil", "return nil for "+text(n.Results[0]))
					emit(n.Results[0].Pos(), n.Results[0].End(), "0", "return 0 for "+text(n.Results[0]))
				}
			}
			return true
		})
	}
}

func simple(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.AssignStmt:
		return s.Tok != token.DEFINE
	case *ast.ExprStmt, *ast.IncDecStmt:
		return true
	}
	return false
}
