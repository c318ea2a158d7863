// Mutate lists or applies small changes to a Go file.
// It is a development aid to find changes that no check notices.
//
//	mutate FILE          lists the changes
//	mutate FILE N        writes the file with change N to standard output
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	what string
	pos  token.Pos
	do   func()
}

func main() {
	fset := token.NewFileSet()
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	str := func(n ast.Node) string {
		var b bytes.Buffer
		format.Node(&b, fset, n)
		s := b.String()
		if len(s) > 80 {
			s = s[:80] + "..."
		}
		return string(bytes.ReplaceAll([]byte(s), []byte("\n"), []byte(" ")))
	}
	var cs []change
	add := func(n ast.Node, what string, do func()) {
		cs = append(cs, change{what, n.Pos(), do})
	}
	stmts := func(list []ast.Stmt) {
		for i := range list {
			i := i
			s := list[i]
			switch s := s.(type) {
			case *ast.ReturnStmt, *ast.DeclStmt, *ast.EmptyStmt:
				continue
			case *ast.AssignStmt:
				if s.Tok == token.DEFINE {
					continue
				}
			}
			add(s, "delete "+str(s), func() { list[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
			if i > 0 {
				p := list[i-1]
				switch p.(type) {
				case *ast.DeclStmt:
					continue
				}
				add(s, "swap with the one before "+str(s), func() { list[i-1], list[i] = s, p })
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
			for i := range n.List {
				i := i
				if len(n.List) > 1 {
					add(n.List[i], "remove case "+str(n.List[i]), func() { n.List = append(n.List[:i:i], n.List[i+1:]...) })
				}
			}
		case *ast.IfStmt:
			c := n.Cond
			add(n, "never: "+str(c), func() {
				n.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LAND, Y: ast.NewIdent("false")}
			})
			add(n, "always: "+str(c), func() { n.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LOR, Y: ast.NewIdent("true")} })
		case *ast.BinaryExpr:
			op := n.Op
			to := map[token.Token][]token.Token{
				token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
				token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
				token.LAND: {token.LOR}, token.LOR: {token.LAND},
				token.ADD: {token.SUB}, token.SUB: {token.ADD},
			}[op]
			for _, t := range to {
				t := t
				add(n, str(n)+" with "+t.String(), func() { n.Op = t })
			}
			if op == token.LAND || op == token.LOR {
				x, y := n.X, n.Y
				id := ast.NewIdent("true")
				if op == token.LOR {
					id = ast.NewIdent("false")
				}
				add(n, str(n)+" without left", func() { n.X = &ast.BinaryExpr{X: id, Op: token.LOR, Y: id}; _ = x })
				add(n, str(n)+" without right", func() { n.Y = id; _ = y })
			}
		case *ast.SelectorExpr:
			name := n.Sel.Name
			for _, p := range [][2]string{{"Left", "Right"}, {"Start", "End"}, {"left", "right"}, {"S", "E"}, {"First", "Rest"}, {"Prenex", "Statement"}, {"Terms", "Args"}} {
				for i := range p {
					if p[i] == name {
						o := p[1-i]
						add(n, str(n)+" becomes "+o, func() { n.Sel = ast.NewIdent(o) })
					}
				}
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(n.Args); i++ {
				i := i
				add(n, fmt.Sprintf("swap arguments %d of %s", i, str(n)), func() { n.Args[i], n.Args[i+1] = n.Args[i+1], n.Args[i] })
			}
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && n.Ellipsis == 0 && len(n.Args) == 2 {
				add(n, "append nothing "+str(n), func() { n.Args = n.Args[:1] })
			}
		case *ast.BasicLit:
			v := n.Value
			switch n.Kind {
			case token.INT:
				add(n, v+"+1", func() { n.Value = v + " + 1" })
			case token.STRING, token.CHAR:
				u, _ := strconv.Unquote(v)
				if n.Kind == token.STRING && u != "" {
					add(n, v+" empty", func() { n.Value = `""` })
				}
			}
		case *ast.KeyValueExpr:
			if id, ok := n.Key.(*ast.Ident); ok && id.Name != "Label" {
				_ = id
			}
		case *ast.CompositeLit:
			if len(n.Elts) < 30 {
				for i := range n.Elts {
					i := i
					add(n.Elts[i], "without element "+str(n.Elts[i]), func() { n.Elts = append(n.Elts[:i:i], n.Elts[i+1:]...) })
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n, "not "+str(n), func() { n.X = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: n.X}} })
			}
		case *ast.RangeStmt:
			x := n.X
			add(n, "range all but first of "+str(x), func() { n.X = &ast.SliceExpr{X: x, Low: ast.NewIdent("1")} })
		case *ast.BranchStmt:
			if n.Label == nil && (n.Tok == token.BREAK || n.Tok == token.CONTINUE) {
				t := n.Tok
				add(n, t.String()+" the other way", func() {
					if t == token.BREAK {
						n.Tok = token.CONTINUE
					} else {
						n.Tok = token.BREAK
					}
				})
			}
		case *ast.ReturnStmt:
			for i := range n.Results {
				i := i
				r := n.Results[i]
				if id, ok := r.(*ast.Ident); ok {
					switch id.Name {
					case "true":
						add(n, "return false", func() { n.Results[i] = ast.NewIdent("false") })
					case "false":
						add(n, "return true", func() { n.Results[i] = ast.NewIdent("true") })
					case "nil":
					default:
						add(n, "return nil for "+id.Name, func() { n.Results[i] = ast.NewIdent("nil") })
					}
				}
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		for i, c := range cs {
			fmt.Printf("%d\t%d\t%s\n", i, fset.Position(c.pos).Line, c.what)
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	cs[i].do()
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.Stdout.Write(b.Bytes())
}
