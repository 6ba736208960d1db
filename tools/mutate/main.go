// mutate lists single-edit mutants of Go source files as JSON lines
// {file, func, line, off, end, old, new, kind}: mutate FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File, Func     string
	Line, Off, End int
	Old, New, Kind string
}

var swaps = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"},
	token.LAND: {"||"}, token.LOR: {"&&"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		for _, d := range f.Decls {
			name := ""
			if fd, ok := d.(*ast.FuncDecl); ok {
				if fd.Body == nil {
					continue
				}
				name = fd.Name.Name
			} else if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				continue
			} else {
				name = "var@" + strconv.Itoa(fset.Position(d.Pos()).Line/40)
			}
			emit := func(a, b token.Pos, repl, kind string) {
				o, e := off(a), off(b)
				enc.Encode(mut{file, name, fset.Position(a).Line, o, e, string(src[o:e]), repl, kind})
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "binop")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseUint(strings.ReplaceAll(x.Value, "_", ""), 0, 64)
						if err != nil {
							return true
						}
						emit(x.Pos(), x.End(), fmt.Sprintf("%#x", v+1), "lit+1")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprintf("%#x", v-1), "lit-1")
						}
						if v > 1000 {
							emit(x.Pos(), x.End(), fmt.Sprintf("%#x", v^(1<<uint(x.Pos()%10))), "lit^")
						}
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "negate")
					if _, ok := x.Cond.(*ast.BinaryExpr); ok && x.Init == nil {
						emit(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "never")
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						if x.Tok == token.ASSIGN {
							l := string(src[off(x.Lhs[0].Pos()):off(x.Lhs[len(x.Lhs)-1].End())])
							r := string(src[off(x.Rhs[0].Pos()):off(x.Rhs[len(x.Rhs)-1].End())])
							_ = l
							blanks := strings.TrimSuffix(strings.Repeat("_, ", len(x.Rhs)), ", ")
							if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
								blanks = strings.TrimSuffix(strings.Repeat("_, ", len(x.Lhs)), ", ")
							}
							emit(x.Pos(), x.End(), blanks+" = "+r, "drop")
						} else {
							emit(x.Pos(), x.End(), "_ = "+string(src[off(x.Rhs[0].Pos()):off(x.Rhs[0].End())]), "drop")
							if x.Tok == token.ADD_ASSIGN {
								emit(x.TokPos, x.TokPos+2, "-=", "op=")
							}
							if x.Tok == token.OR_ASSIGN {
								emit(x.TokPos, x.TokPos+2, "^=", "op=")
							}
							if x.Tok == token.XOR_ASSIGN {
								emit(x.TokPos, x.TokPos+2, "|=", "op=")
							}
						}
					}
				case *ast.IncDecStmt:
					s := "--"
					if x.Tok == token.DEC {
						s = "++"
					}
					emit(x.TokPos, x.TokPos+2, s, "incdec")
				case *ast.ExprStmt:
					if c, ok := x.X.(*ast.CallExpr); ok {
						emit(x.Pos(), x.End(), "", "dropcall")
						// swap the last two arguments
						if k := len(c.Args); k >= 2 {
							a, b := c.Args[k-2], c.Args[k-1]
							sa, sb := string(src[off(a.Pos()):off(a.End())]), string(src[off(b.Pos()):off(b.End())])
							if sa != sb {
								emit(a.Pos(), b.End(), sb+", "+sa, "swapargs")
							}
						}
					}
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "continue", "branch")
					} else if x.Label == nil && x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break", "branch")
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "bool")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "bool")
					}
				case *ast.SliceExpr:
					if x.High != nil {
						emit(x.High.Pos(), x.High.End(), "("+string(src[off(x.High.Pos()):off(x.High.End())])+")-1", "slice")
					}
				}
				return true
			})
		}
	}
}
