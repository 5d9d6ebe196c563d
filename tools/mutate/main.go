// Command mutate lists or applies small changes to the Go files of a tree: a
// development tool to see what the checks do not notice.
//
//	mutate list DIR            prints one line per mutant: N file:line operator
//	mutate apply DIR N         applies mutant N
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mutant struct {
	file string
	line int
	op   string
	do   func()
}

func main() {
	dir := os.Args[2]
	want := -1
	if os.Args[1] == "apply" {
		want, _ = strconv.Atoi(os.Args[3])
	}
	var files []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && (fi.Name() == ".git" || fi.Name() == "examples" || fi.Name() == "vendor") {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	n := 0
	for _, file := range files {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		var ms []mutant
		add := func(node ast.Node, op string, do func()) {
			ms = append(ms, mutant{file, fset.Position(node.Pos()).Line, op, do})
		}
		collect(f, add)
		for _, m := range ms {
			if want < 0 {
				rel, _ := filepath.Rel(dir, m.file)
				fmt.Printf("%d %s:%d %s\n", n, rel, m.line, m.op)
			} else if n == want {
				m.do()
				var b bytes.Buffer
				if err := format.Node(&b, fset, f); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(1)
				}
				os.WriteFile(m.file, b.Bytes(), 0o644)
				return
			}
			n++
		}
	}
}

var swaps = map[token.Token][]token.Token{
	token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
	token.ADD: {token.SUB}, token.SUB: {token.ADD},
}

func collect(f *ast.File, add func(ast.Node, string, func())) {
	inConst := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			if n.Tok == token.IMPORT {
				return false
			}
			_ = inConst
		case *ast.BinaryExpr:
			old := n.Op
			for _, t := range swaps[old] {
				t := t
				add(n, fmt.Sprintf("%s to %s", old, t), func() { n.Op = t })
			}
			if old == token.LAND || old == token.LOR {
				x, y := n.X, n.Y
				id := ast.NewIdent("true")
				if old == token.LOR {
					id = ast.NewIdent("false")
				}
				_ = x
				_ = y
				add(n, "drop left of "+old.String(), func() { n.X = id })
				add(n, "drop right of "+old.String(), func() { n.Y = id })
			}
		case *ast.IfStmt:
			c := n.Cond
			add(n, "negate if", func() { n.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: c}} })
			add(n, "if true", func() { n.Cond = &ast.BinaryExpr{X: ast.NewIdent("true"), Op: token.LOR, Y: &ast.ParenExpr{X: c}} })
			add(n, "if false", func() { n.Cond = &ast.BinaryExpr{X: ast.NewIdent("false"), Op: token.LAND, Y: &ast.ParenExpr{X: c}} })
			if n.Else != nil {
				add(n, "drop else", func() { n.Else = nil })
			}
		case *ast.BlockStmt:
			stmts(n, &n.List, add)
		case *ast.CaseClause:
			stmts(n, &n.Body, add)
			for i := range n.List {
				i := i
				if len(n.List) > 1 {
					add(n, fmt.Sprintf("drop case %d", i), func() { n.List = append(append([]ast.Expr{}, n.List[:i]...), n.List[i+1:]...) })
				}
			}
		case *ast.SwitchStmt:
			clauses(n.Body, add)
		case *ast.TypeSwitchStmt:
			clauses(n.Body, add)
		case *ast.BasicLit:
			v := n.Value
			switch n.Kind {
			case token.INT:
				add(n, v+" plus 1", func() { n.Value = "(" + v + "+1)" })
				if v != "0" {
					add(n, v+" minus 1", func() { n.Value = "(" + v + "-1)" })
				}
			case token.STRING:
				s, err := strconv.Unquote(v)
				if err != nil || strings.HasPrefix(s, "loukoum:") || strings.Contains(s, "github.com") {
					return true
				}
				add(n, "empty "+v, func() { n.Value = `""` })
				if s != "" {
					add(n, "longer "+v, func() { n.Value = strconv.Quote(s + " x") })
				}
				if strings.TrimSpace(s) != s {
					add(n, "trim "+v, func() { n.Value = strconv.Quote(strings.TrimSpace(s)) })
				}
			}
		case *ast.CallExpr:
			if len(n.Args) == 2 {
				add(n, "swap arguments", func() { n.Args[0], n.Args[1] = n.Args[1], n.Args[0] })
			}
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) == 2 {
				if inner, ok := n.Args[0].(*ast.CallExpr); ok {
					_ = inner
				}
			}
			if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
				pairs := map[string]string{"And": "Or", "Or": "And", "ToUpper": "ToLower", "HasPrefix": "HasSuffix", "TrimSpace": "ToLower", "Write": "Bind"}
				if p, ok := pairs[sel.Sel.Name]; ok {
					old := sel
					add(n, sel.Sel.Name+" to "+p, func() { old.Sel = ast.NewIdent(p) })
				}
			}
		case *ast.SliceExpr:
			if n.Slice3 {
				add(n, "drop capacity", func() { n.Max, n.Slice3 = nil, false })
			}
			if n.Low != nil {
				add(n, "drop low", func() { n.Low = nil })
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				x := n.X
				add(n, "drop !", func() { n.X = &ast.UnaryExpr{Op: token.NOT, X: x} })
			}
		case *ast.ReturnStmt:
			for i, r := range n.Results {
				i := i
				if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
					o := map[string]string{"true": "false", "false": "true"}[id.Name]
					add(n, id.Name+" to "+o, func() { n.Results[i] = ast.NewIdent(o) })
				}
			}
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && (x.Name == "token" || x.Name == "types") {
				subst := map[string][]string{"InnerJoin": {"LeftJoin"}, "LeftJoin": {"RightJoin"}, "RightJoin": {"LeftJoin"}, "Asc": {"Desc"}, "Desc": {"Asc"},
					"And": {"Or"}, "Or": {"And"}, "Left": {"Right"}, "Right": {"Left"}, "Exists": {"Not"}}
				for _, o := range subst[n.Sel.Name] {
					o := o
					add(n, n.Sel.Name+" to "+o, func() { n.Sel = ast.NewIdent(o) })
				}
			}
		case *ast.KeyValueExpr:
			return true
		case *ast.CompositeLit:
			if len(n.Elts) > 1 {
				if _, ok := n.Elts[0].(*ast.KeyValueExpr); ok {
					for i := range n.Elts {
						i := i
						add(n.Elts[i], "drop field", func() { n.Elts = append(append([]ast.Expr{}, n.Elts[:i]...), n.Elts[i+1:]...) })
					}
				}
			}
		}
		return true
	})
}

func clauses(b *ast.BlockStmt, add func(ast.Node, string, func())) {
	for i := range b.List {
		i := i
		add(b.List[i], "drop clause", func() { b.List = append(append([]ast.Stmt{}, b.List[:i]...), b.List[i+1:]...) })
	}
}

func stmts(n ast.Node, list *[]ast.Stmt, add func(ast.Node, string, func())) {
	for i, s := range *list {
		i := i
		switch s := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.RangeStmt, *ast.ForStmt, *ast.BranchStmt:
			add(s, "drop statement", func() { *list = append(append([]ast.Stmt{}, (*list)[:i]...), (*list)[i+1:]...) })
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				add(s, "drop assignment", func() { *list = append(append([]ast.Stmt{}, (*list)[:i]...), (*list)[i+1:]...) })
			}
		}
		if i+1 < len(*list) {
			_, a := (*list)[i].(*ast.ExprStmt)
			_, b := (*list)[i+1].(*ast.ExprStmt)
			if a && b {
				add(s, "swap statements", func() { (*list)[i], (*list)[i+1] = (*list)[i+1], (*list)[i] })
			}
		}
	}
}
