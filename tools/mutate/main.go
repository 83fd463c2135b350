// mutate lists small changes to a Go file: mutate FILE prints one JSON object
// per line {"line":..,"what":..,"off":..,"end":..,"new":..}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Func string `json:"func"`
	Line int    `json:"line"`
	What string `json:"what"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		idents := map[string]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				idents[id.Name] = true
			}
			return true
		})
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(a, b token.Pos, s, what string) {
				enc.Encode(mut{file, fd.Name.Name, fs.Position(a).Line, what, off(a), off(b), s})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					var alts []string
					switch x.Op {
					case token.ADD:
						alts = []string{"-"}
					case token.SUB:
						alts = []string{"+"}
					case token.MUL:
						alts = []string{"/"}
					case token.QUO:
						alts = []string{"*"}
					case token.REM:
						alts = []string{"/"}
					case token.LSS:
						alts = []string{"<=", ">"}
					case token.LEQ:
						alts = []string{"<"}
					case token.GTR:
						alts = []string{">=", "<"}
					case token.GEQ:
						alts = []string{">"}
					case token.EQL:
						alts = []string{"!="}
					case token.NEQ:
						alts = []string{"=="}
					case token.LAND:
						alts = []string{"||"}
					case token.LOR:
						alts = []string{"&&"}
					case token.SHL:
						alts = []string{">>"}
					case token.SHR:
						alts = []string{"<<"}
					case token.AND:
						alts = []string{"|"}
					}
					for _, a := range alts {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, x.Op.String()+" -> "+a)
					}
				case *ast.UnaryExpr:
					if x.Op == token.SUB || x.Op == token.NOT {
						emit(x.OpPos, x.X.Pos(), "", "drop "+x.Op.String())
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "if true")
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "if false")
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> "+fmt.Sprint(v+1))
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> "+fmt.Sprint(v-1))
							}
						}
					}
					if x.Kind == token.FLOAT {
						if v, err := strconv.ParseFloat(x.Value, 64); err == nil {
							w := v * 1.05
							if v == 0 {
								w = 0.05
							}
							s := strconv.FormatFloat(w, 'g', -1, 64)
							if !strings.ContainsAny(s, ".e") {
								s += ".0"
							}
							emit(x.Pos(), x.End(), s, x.Value+" -> "+s)
						}
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "", "delete "+text(x))
					}
					switch x.Tok {
					case token.ADD_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "-=", "+= -> -=")
						emit(x.TokPos, x.TokPos+2, "=", "+= -> =")
					case token.SUB_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "+=", "-= -> +=")
					case token.MUL_ASSIGN:
						emit(x.TokPos, x.TokPos+2, "=", "*= -> =")
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "delete "+text(x))
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "delete "+text(x))
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "delete "+text(x))
				case *ast.BranchStmt:
					if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
						o := "break"
						if x.Tok == token.BREAK {
							o = "continue"
						}
						emit(x.Pos(), x.End(), o, x.Tok.String()+" -> "+o)
						emit(x.Pos(), x.End(), "", "delete "+x.Tok.String())
					}
				case *ast.Ident:
					for _, p := range [][2]string{{"L", "R"}, {"R", "L"}, {"Left", "Right"}, {"Right", "Left"}, {"Min", "Max"}, {"Max", "Min"}, {"Sin", "Cos"}, {"Cos", "Sin"}, {"attack", "release"}, {"release", "attack"}, {"Attack", "Release"}, {"Release", "Attack"}, {"1", "2"}, {"2", "1"}, {"Start", "End"}, {"End", "Start"}, {"read", "write"}, {"write", "read"}, {"Input", "Output"}, {"Output", "Input"}, {"wet", "dry"}, {"dry", "wet"}, {"Floor", "Ceil"}, {"low", "high"}, {"high", "low"}, {"min", "max"}, {"max", "min"}} {
						if strings.Contains(x.Name, p[0]) {
							o := strings.Replace(x.Name, p[0], p[1], 1)
							if idents[o] || p[0] == "Min" || p[0] == "Max" || p[0] == "Sin" || p[0] == "Cos" || p[0] == "Floor" {
								emit(x.Pos(), x.End(), o, x.Name+" -> "+o)
							}
						}
					}
				}
				return true
			})
		}
	}
}
