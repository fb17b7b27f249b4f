// mutate lists or applies small changes to a Go file, for measuring how much
// of the code's behaviour the checks notice. For development only.
//
//	mutate FILE          prints one line per mutation: number, line, what
//	mutate FILE N OUT    writes the file with mutation N to OUT
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutation struct {
	pos  token.Pos
	what string
	do   func()
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mutation
	add := func(n ast.Node, what string, do func()) { ms = append(ms, mutation{n.Pos(), what, do}) }
	text := func(n ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, fset, n)
		return strings.Join(strings.Fields(b.String()), " ")
	}
	isLog := func(e ast.Expr) bool {
		c, ok := e.(*ast.CallExpr)
		return ok && (strings.HasPrefix(text(c.Fun), "logs.") || strings.HasPrefix(text(c.Fun), "fmt.Errorf"))
	}
	swap := map[token.Token][]token.Token{token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO},
		token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.AND: {token.OR}, token.OR: {token.AND}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.XOR: {token.OR}, token.AND_NOT: {token.AND}}
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			i := i
			switch x := s.(type) {
			case *ast.ExprStmt:
				if isLog(x.X) {
					continue
				}
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					continue
				}
			case *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
			case *ast.ReturnStmt:
				continue
			case *ast.IfStmt:
				if x.Init != nil {
					continue
				}
			default:
				continue
			}
			w := text(s)
			if len(w) > 70 {
				w = w[:70] + "..."
			}
			add(s, "delete: "+w, func() { list[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			return x.Tok == token.VAR || x.Tok == token.CONST
		case *ast.CallExpr:
			if isLog(x) {
				return false
			}
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				t, old := t, x.Op
				if old == token.ADD {
					if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
						continue
					}
					if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
						continue
					}
				}
				add(x, fmt.Sprintf("%s: %s -> %s", text(x), old, t), func() { x.Op = t })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseUint(x.Value, 0, 64)
				if err != nil {
					break
				}
				add(x, fmt.Sprintf("%s -> %d", x.Value, v+1), func() { x.Value = fmt.Sprint(v + 1) })
				if v > 0 {
					add(x, fmt.Sprintf("%s -> %d", x.Value, v-1), func() { x.Value = fmt.Sprint(v - 1) })
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 2 && x.Value[0] == '"' {
				add(x, x.Value+" -> changed", func() { x.Value = `"` + x.Value[1:len(x.Value)-1] + `~"` })
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				o := map[string]string{"true": "false", "false": "true"}[x.Name]
				add(x, x.Name+" -> "+o, func() { x.Name = o })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, text(x)+": ! dropped", func() {
					x.Op = token.ADD
					x.X = &ast.ParenExpr{X: x.X}
					*x = ast.UnaryExpr{OpPos: x.OpPos, Op: token.NOT, X: &ast.UnaryExpr{Op: token.NOT, X: x.X}}
				})
			}
		case *ast.IfStmt:
			c := x.Cond
			add(x, "if "+text(c)+": never", func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LAND, Y: ast.NewIdent("false")} })
			add(x, "if "+text(c)+": always", func() { x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LOR, Y: ast.NewIdent("true")} })
		case *ast.CaseClause:
			for i := range x.List {
				if len(x.List) > 1 {
					i := i
					add(x.List[i], "case "+text(x.List[i])+" dropped", func() { x.List = append(append([]ast.Expr(nil), x.List[:i]...), x.List[i+1:]...) })
				}
			}
			stmts(x.Body)
		case *ast.BlockStmt:
			stmts(x.List)
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\n", i, fset.Position(m.pos).Line, m.what)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	ms[k].do()
	o, err := os.Create(os.Args[3])
	if err != nil {
		panic(err)
	}
	if err := printer.Fprint(o, fset, f); err != nil {
		panic(err)
	}
	o.Close()
}
