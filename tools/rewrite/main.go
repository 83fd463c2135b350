// rewrite RULE FILE: prints FILE with its floating-point expressions rewritten
// into ones that mean the same up to rounding. Used to see that the checks stay
// quiet on such edits (tools/rewrite/run.py); no check runs it.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

var info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}

func float(e ast.Expr) bool {
	tv, ok := info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	b, ok := tv.Type.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func f64(e ast.Expr) bool {
	tv := info.Types[e]
	b, ok := tv.Type.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float64
}
func isConst(e ast.Expr) bool { return info.Types[e].Value != nil }
func paren(e ast.Expr) ast.Expr {
	switch e.(type) {
	case *ast.Ident, *ast.ParenExpr, *ast.CallExpr, *ast.SelectorExpr, *ast.BasicLit, *ast.IndexExpr:
		return e
	}
	p := &ast.ParenExpr{X: e}
	info.Types[p] = info.Types[e]
	return p
}
func un(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
func bin(x ast.Expr, op token.Token, y ast.Expr, t ast.Expr) ast.Expr {
	b := &ast.BinaryExpr{X: x, Op: op, Y: y}
	tv := info.Types[t]
	tv.Value = nil
	info.Types[b] = tv
	return b
}
func str(e ast.Expr) string {
	var b bytes.Buffer
	format.Node(&b, token.NewFileSet(), e)
	return b.String()
}

var count int
var needMath bool
var wrapped = map[*ast.CallExpr]bool{}

func rw(rule string, e *ast.BinaryExpr) ast.Expr {
	if !float(e) || isConst(e) || !float(e.X) || !float(e.Y) {
		return e
	}
	l, lok := un(e.X).(*ast.BinaryExpr)
	r, rok := un(e.Y).(*ast.BinaryExpr)
	lok = lok && !isConst(l) && float(l)
	rok = rok && !isConst(r) && float(r)
	switch rule {
	case "assoc":
		if (e.Op == token.ADD || e.Op == token.MUL) && lok && l.Op == e.Op {
			count++
			return bin(l.X, e.Op, paren(bin(l.Y, e.Op, e.Y, e)), e)
		}
		if e.Op == token.SUB && lok && l.Op == token.ADD {
			count++
			return bin(l.X, token.ADD, paren(bin(l.Y, token.SUB, e.Y, e)), e)
		}
		if e.Op == token.QUO && lok && l.Op == token.MUL {
			count++
			return bin(l.X, token.MUL, paren(bin(l.Y, token.QUO, e.Y, e)), e)
		}
	case "commute":
		if e.Op == token.ADD || e.Op == token.MUL {
			count++
			return bin(paren(e.Y), e.Op, paren(e.X), e)
		}
	case "recip":
		if e.Op == token.QUO && isConst(e.Y) {
			count++
			one := &ast.BasicLit{Kind: token.FLOAT, Value: "1.0"}
			q := &ast.ParenExpr{X: &ast.BinaryExpr{X: one, Op: token.QUO, Y: paren(e.Y)}}
			return bin(paren(e.X), token.MUL, q, e)
		}
	case "fma":
		if e.Op == token.ADD && f64(e) {
			a, c := l, e.Y
			if !(lok && l.Op == token.MUL) {
				if !(rok && r.Op == token.MUL) {
					return e
				}
				a, c = r, e.X
			}
			count++
			needMath = true
			conv := func(x ast.Expr) ast.Expr {
				return x
			}
			call := &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("math"), Sel: ast.NewIdent("FMA")}, Args: []ast.Expr{conv(a.X), conv(a.Y), conv(c)}}
			tv := info.Types[e]
			info.Types[call] = tv
			return call
		}
	case "wide": // float32 arithmetic in float64
		if f64(e) || e.Op != token.ADD && e.Op != token.SUB && e.Op != token.MUL && e.Op != token.QUO {
			return e
		}
		wide := func(x ast.Expr) ast.Expr {
			if isConst(x) {
				return x
			}
			if c, ok := un(x).(*ast.CallExpr); ok && wrapped[c] {
				return c.Args[0]
			}
			return &ast.CallExpr{Fun: ast.NewIdent("float64"), Args: []ast.Expr{x}}
		}
		count++
		call := &ast.CallExpr{Fun: ast.NewIdent("float32"), Args: []ast.Expr{&ast.ParenExpr{X: &ast.BinaryExpr{X: paren(wide(e.X)), Op: e.Op, Y: paren(wide(e.Y))}}}}
		wrapped[call] = true
		info.Types[call] = info.Types[e]
		return call
	case "lerp": // a*(1-m) + b*m -> a + m*(b-a)
		if e.Op == token.ADD && lok && rok && l.Op == token.MUL && r.Op == token.MUL {
			for k := 0; k < 8; k++ {
				p, q, u, v := l.X, l.Y, r.X, r.Y
				if k&1 != 0 {
					p, q = q, p
				}
				if k&2 != 0 {
					u, v = v, u
				}
				if k&4 != 0 {
					p, q, u, v = u, v, p, q
				}
				s, ok := un(q).(*ast.BinaryExpr)
				if !ok || s.Op != token.SUB || !isConst(s.X) || info.Types[s.X].Value.String() != "1" || str(un(s.Y)) != str(un(v)) {
					continue
				}
				count++
				return bin(p, token.ADD, bin(paren(v), token.MUL, paren(bin(paren(u), token.SUB, paren(p), e)), e), e)
			}
		}
	case "distribute": // a*(b+c) -> a*b + a*c
		if e.Op == token.MUL && rok && (r.Op == token.ADD || r.Op == token.SUB) {
			if _, isCall := un(e.X).(*ast.CallExpr); isCall && strings.Contains(str(e.X), "rand") {
				return e
			}
			count++
			return paren(bin(bin(paren(e.X), token.MUL, paren(r.X), e), r.Op, bin(paren(e.X), token.MUL, paren(r.Y), e), e))
		}
	}
	return e
}

// apply replaces binary expressions bottom-up.
func apply(rule string, n ast.Node) {
	fix := func(e ast.Expr) ast.Expr {
		if b, ok := e.(*ast.BinaryExpr); ok {
			return rw(rule, b)
		}
		return e
	}
	var post func(n ast.Node)
	post = func(n ast.Node) {
		if n == nil {
			return
		}
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			if m != nil {
				post(m)
			}
			return false
		})
		switch x := n.(type) {
		case *ast.BinaryExpr:
			x.X, x.Y = fix(x.X), fix(x.Y)
		case *ast.ParenExpr:
			x.X = fix(x.X)
		case *ast.UnaryExpr:
			x.X = fix(x.X)
		case *ast.CallExpr:
			for i := range x.Args {
				x.Args[i] = fix(x.Args[i])
			}
		case *ast.AssignStmt:
			for i := range x.Rhs {
				x.Rhs[i] = fix(x.Rhs[i])
			}
		case *ast.ReturnStmt:
			for i := range x.Results {
				x.Results[i] = fix(x.Results[i])
			}
		case *ast.ValueSpec:
			for i := range x.Values {
				x.Values[i] = fix(x.Values[i])
			}
		case *ast.KeyValueExpr:
			x.Value = fix(x.Value)
		case *ast.CompositeLit:
			for i := range x.Elts {
				x.Elts[i] = fix(x.Elts[i])
			}
		}
	}
	post(n)
}

func main() {
	rule, file := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(filepath.Dir(file) + "/*.go")
	var files []*ast.File
	var target *ast.File
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		files = append(files, a)
		if f == file {
			target = a
		}
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	conf.Check("p", fset, files, info)
	target.Comments = nil
	for _, d := range target.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.CONST {
			continue
		}
		for _, r := range strings.Split(rule, "+") {
			apply(r, d)
		}
	}
	var b bytes.Buffer
	if err := format.Node(&b, fset, target); err != nil {
		panic(err)
	}
	s := b.String()
	src, _ := os.ReadFile(file)
	if i := bytes.Index(src, []byte("//go:build")); i == 0 {
		s = string(src[:bytes.IndexByte(src, '\n')]) + "\n\n" + s
	}
	if needMath && !strings.Contains(s, "\"math\"") {
		s = strings.Replace(s, "\n", "\n\nimport \"math\"\n", 1)
	}
	fmt.Fprintln(os.Stderr, count)
	fmt.Print(s)
}
