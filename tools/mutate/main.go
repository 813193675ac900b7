// mutate lists small source mutations of Go files as JSON lines
// {"file","off","end","new","what"}; tools/mutate/run.py tries them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	What string `json:"what"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(a, b token.Pos, s, what string) {
			enc.Encode(mut{f, fset.Position(a).Line, off(a), off(b), s, fn + ": " + what})
		}
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
					emit(s.Pos(), s.End(), "", "delete "+text(s))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "delete "+text(s))
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK && x.Label == nil {
						emit(s.Pos(), s.End(), "", "delete break")
					}
					if x.Tok == token.CONTINUE && x.Label == nil {
						emit(s.Pos(), s.End(), "", "delete continue")
					}
				}
			}
			for i := 0; i+1 < len(list); i++ {
				a, b := list[i], list[i+1]
				if simple(a) && simple(b) {
					emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap "+text(a)+" / "+text(b))
				}
			}
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			switch fn {
			case "String", "Dotty", "GoString":
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, r := range map[token.Token][]string{
						token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
					}[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, text(x)+" -> "+r)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), text(x)+" -> left only")
						emit(x.Pos(), x.End(), text(x.Y), text(x)+" -> right only")
					}
				case *ast.IfStmt:
					c := text(x.Cond)
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+c+")", "if true: "+c)
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+c+")", "if false: "+c)
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.Atoi(x.Value); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
							}
						}
					}
				case *ast.IncDecStmt:
					r := "--"
					if x.Tok == token.DEC {
						r = "++"
					}
					emit(x.TokPos, x.TokPos+2, r, text(x)+" -> "+r)
				case *ast.Ident:
					switch x.Name {
					case "true":
						emit(x.Pos(), x.End(), "false", "true -> false")
					case "false":
						emit(x.Pos(), x.End(), "true", "false -> true")
					case "left":
						emit(x.Pos(), x.End(), "right", "left -> right")
					case "right":
						emit(x.Pos(), x.End(), "left", "right -> left")
					}
				case *ast.AssignStmt:
					switch x.Tok {
					case token.ADD_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "-=", text(x)+" -> -=")
					case token.SUB_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "+=", text(x)+" -> +=")
					}
				case *ast.BlockStmt:
					stmts(x.List)
				case *ast.CaseClause:
					stmts(x.Body)
				case *ast.CommClause:
					stmts(x.Body)
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							emit(r.Pos(), r.End(), "nil", text(x)+": err -> nil")
						}
					}
				}
				return true
			})
		}
	}
}

func simple(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
		return true
	case *ast.AssignStmt:
		return x.Tok != token.DEFINE
	}
	return false
}
