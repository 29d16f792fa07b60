// mutate lists single-point mutations of Go source files as JSON lines:
// {"file","start","end","new","line","desc"}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File       string `json:"file"`
	Start, End int
	New        string
	Line       int
	Desc       string
	Func       string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		cur := ""
		emit := func(a, b token.Pos, n string, kind string) {
			o := string(src[off(a):off(b)])
			if len(o) > 60 {
				o = o[:60]
			}
			enc.Encode(mut{fn, off(a), off(b), n, fset.Position(a).Line, fmt.Sprintf("%s: %q -> %q", kind, o, n), cur})
		}
		swaps := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}}
		asg := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "/=", token.QUO_ASSIGN: "*="}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			cur = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, r := range swaps[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "op")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.OpPos, x.OpPos+1, "", "not")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int")
							}
						}
					}
					if x.Kind == token.FLOAT {
						emit(x.Pos(), x.End(), "("+x.Value+" + 1.0)", "float")
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "bool")
					}
					if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "bool")
					}
				case *ast.IncDecStmt:
					if x.Tok == token.INC {
						emit(x.TokPos, x.TokPos+2, "--", "incdec")
					} else {
						emit(x.TokPos, x.TokPos+2, "++", "incdec")
					}
				case *ast.AssignStmt:
					if r, ok := asg[x.Tok]; ok {
						emit(x.TokPos, x.TokPos+2, r, "asg")
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "true || "+string(src[off(x.Cond.Pos()):off(x.Cond.End())]), "iftrue")
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "iffalse")
				case *ast.BlockStmt, *ast.CaseClause:
					var list []ast.Stmt
					if b, ok := x.(*ast.BlockStmt); ok {
						list = b.List
					} else {
						list = x.(*ast.CaseClause).Body
					}
					for _, s := range list {
						switch y := s.(type) {
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								emit(s.Pos(), s.End(), "", "del")
							}
						case *ast.IncDecStmt, *ast.ExprStmt, *ast.BranchStmt:
							emit(s.Pos(), s.End(), "", "del")
						}
					}
				}
				return true
			})
		}
	}
}
