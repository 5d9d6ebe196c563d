// Command instr writes an overlay of the repository for "go build -overlay":
// a copy of every package with a scheduling point before each statement, map
// iterations in an order the explorer chooses, and the package verifhook that
// receives both. The repository itself is left alone.
//
//	instr REPO SCRATCHDIR        writes SCRATCHDIR/overlay.json
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

const hookSource = `//go:build go1.20

// Package verifhook lets the explorer decide the interleaving of goroutines
// and the iteration order of maps.
package verifhook

import (
	"fmt"
	"sort"
)

// Point is called before each statement.
var Point func()

// Order gives the permutation of n map keys to visit them in.
var Order func(n int) []int

// P is a scheduling point.
//go:norace
func P() {
	if f := Point; f != nil {
		f()
	}
}

// Sync is called before each statement that may synchronise with another
// goroutine.
var Sync func()

// S is a scheduling point before a statement that may synchronise.
//go:norace
func S() {
	if f := Sync; f != nil {
		f()
	}
}

// Keys gives the keys of a map in the order chosen by the explorer.
func Keys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if Order == nil || len(keys) < 2 {
		return keys
	}
	names := make([]string, len(keys))
	for i := range keys {
		names[i] = fmt.Sprintf("%#v", keys[i])
	}
	index := make([]int, len(keys))
	for i := range index {
		index[i] = i
	}
	sort.Slice(index, func(i, j int) bool { return names[index[i]] < names[index[j]] })
	out := make([]K, 0, len(keys))
	for _, p := range Order(len(keys)) {
		out = append(out, keys[index[p]])
	}
	return out
}
`

type pkg struct {
	dir   string
	path  string
	files []*ast.File
	names []string
	tpkg  *types.Package
	info  *types.Info
}

type loader struct {
	fset   *token.FileSet
	root   string
	module string
	pkgs   map[string]*pkg
}

// Import type checks the packages of the module; the others are left empty,
// their uses being reported to nobody.
func (l *loader) Import(path string) (*types.Package, error) {
	if path == l.module || strings.HasPrefix(path, l.module+"/") {
		p := l.load(path)
		if p == nil {
			return nil, fmt.Errorf("no package %s", path)
		}
		return p.tpkg, nil
	}
	t := types.NewPackage(path, filepath.Base(path))
	t.MarkComplete()
	return t, nil
}

func (l *loader) load(path string) *pkg {
	if p, ok := l.pkgs[path]; ok {
		return p
	}
	l.pkgs[path] = nil
	dir := filepath.Join(l.root, strings.TrimPrefix(strings.TrimPrefix(path, l.module), "/"))
	bp, err := build.Default.ImportDir(dir, 0)
	if err != nil || bp.Name == "main" {
		return nil
	}
	p := &pkg{dir: dir, path: path}
	for _, name := range bp.GoFiles {
		full := filepath.Join(dir, name)
		f, err := parser.ParseFile(l.fset, full, nil, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		p.files = append(p.files, f)
		p.names = append(p.names, full)
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: l, Error: func(error) {}}
	p.tpkg, _ = conf.Check(path, l.fset, p.files, p.info)
	if p.tpkg == nil {
		p.tpkg = types.NewPackage(path, bp.Name)
	}
	l.pkgs[path] = p
	return p
}

func hookCall(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("verifhook"), Sel: ast.NewIdent(name)}
}

func point(info *types.Info, s ast.Stmt) ast.Stmt {
	name := "P"
	if synchronises(info, s) {
		name = "S"
		nSync++
	}
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: hookCall(name)}}
}

var nSync int

// What the types of sync and sync/atomic offer.
var syncNames = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "TryLock": true, "TryRLock": true,
	"Load": true, "Store": true, "Swap": true, "CompareAndSwap": true, "Add": true, "And": true, "Or": true, "LoadOrStore": true, "LoadAndDelete": true,
	"CompareAndDelete": true, "Clear": true, "Range": true, "Delete": true, "Get": true, "Put": true, "Do": true,
	"Wait": true, "Signal": true, "Broadcast": true, "Done": true, "Go": true}

// synchronises tells whether a statement, without those nested in it, may
// synchronise with another goroutine: a use of a channel, or a call of what no
// package of the module declares under a name sync or sync/atomic know.
func synchronises(info *types.Info, s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			found = true
		case *ast.UnaryExpr:
			found = found || n.Op == token.ARROW
		case *ast.RangeStmt:
			if tv, ok := info.Types[n.X]; ok && tv.Type != nil {
				if _, ok := tv.Type.Underlying().(*types.Chan); ok {
					found = true
				}
			}
		case *ast.CallExpr:
			sel, ok := n.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			if id, ok := sel.X.(*ast.Ident); ok {
				if pn, ok := info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "sync/atomic" {
					found = true
				}
			}
			if syncNames[sel.Sel.Name] && info.Uses[sel.Sel] == nil {
				found = true
			}
		}
		return !found
	})
	return found
}

func spread(info *types.Info, list []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(list))
	for _, s := range list {
		if d, ok := s.(*ast.DeclStmt); ok {
			if g, ok := d.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
				out = append(out, s)
				continue
			}
		}
		out = append(out, point(info, s), s)
	}
	return out
}

// overMap rewrites "for k, v := range m" over a map.
func overMap(info *types.Info, s *ast.RangeStmt, serial *int) {
	tv, ok := info.Types[s.X]
	if !ok || tv.Type == nil || s.Tok != token.DEFINE {
		return
	}
	u := tv.Type.Underlying()
	if _, ok := u.(*types.Map); !ok {
		return
	}
	switch s.X.(type) {
	case *ast.Ident, *ast.SelectorExpr:
	default:
		return // evaluated once only
	}
	key, _ := s.Key.(*ast.Ident)
	if key == nil {
		return
	}
	value, _ := s.Value.(*ast.Ident)
	*serial++
	k := key.Name
	if k == "_" {
		k = fmt.Sprintf("verifKey%d", *serial)
	}
	okName := fmt.Sprintf("verifOk%d", *serial)
	var head []ast.Stmt
	v := "_"
	if value != nil {
		v = value.Name
	}
	head = append(head,
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v), ast.NewIdent(okName)}, Tok: token.DEFINE,
			Rhs: []ast.Expr{&ast.IndexExpr{X: s.X, Index: ast.NewIdent(k)}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(okName)},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
	s.X = &ast.CallExpr{Fun: hookCall("Keys"), Args: []ast.Expr{s.X}}
	s.Key, s.Value = ast.NewIdent("_"), ast.NewIdent(k)
	s.Body.List = append(head, s.Body.List...)
}

func main() {
	repo, scratch := os.Args[1], os.Args[2]
	points := os.Getenv("MC_POINTS") != "no"
	maps := os.Getenv("MC_MAPS") != "no"
	data, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	module := ""
	for _, l := range strings.Split(string(data), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			module = f[1]
		}
	}
	l := &loader{fset: token.NewFileSet(), root: repo, module: module, pkgs: map[string]*pkg{}}
	filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil || !fi.IsDir() {
			return nil
		}
		base := filepath.Base(path)
		if path != repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor" || base == "examples") {
			return filepath.SkipDir
		}
		if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil && path != repo {
			return filepath.SkipDir
		}
		rel, _ := filepath.Rel(repo, path)
		p := module
		if rel != "." {
			p += "/" + filepath.ToSlash(rel)
		}
		l.load(p)
		return nil
	})
	replace := map[string]string{}
	write := func(orig string, content []byte) {
		name := filepath.Join(scratch, fmt.Sprintf("f%d.go", len(replace)))
		if err := os.WriteFile(name, content, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		replace[orig] = name
	}
	nPoints, nMaps := 0, 0
	for _, p := range l.pkgs {
		if p == nil {
			continue
		}
		for i, f := range p.files {
			serial := 0
			if maps {
				ast.Inspect(f, func(n ast.Node) bool {
					if r, ok := n.(*ast.RangeStmt); ok {
						overMap(p.info, r, &serial)
					}
					return true
				})
				nMaps += serial
			}
			used := serial > 0
			if points {
				ast.Inspect(f, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.BlockStmt:
						// The clauses of a switch are no statements.
						if len(n.List) > 0 {
							switch n.List[0].(type) {
							case *ast.CaseClause, *ast.CommClause:
								return true
							}
						}
						nPoints += len(n.List)
						n.List = spread(p.info, n.List)
						used = used || len(n.List) > 0
					case *ast.CaseClause:
						n.Body = spread(p.info, n.Body)
						used = used || len(n.Body) > 0
					case *ast.CommClause:
						n.Body = spread(p.info, n.Body)
						used = used || len(n.Body) > 0
					}
					return true
				})
			}
			if !used {
				continue
			}
			// The positions of the comments no longer fit; directives stay in
			// the documentation of their declarations.
			var keep []*ast.CommentGroup
			for _, c := range f.Comments {
				if c.End() < f.Package {
					keep = append(keep, c)
				}
			}
			f.Comments = keep
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
				Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", module+"/verifhook")}}}}}, f.Decls...)
			var b bytes.Buffer
			if err := format.Node(&b, l.fset, f); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			src := b.Bytes()
			if !bytes.Contains(src, []byte("//go:build")) {
				// Keys takes keys of interface types, a matter of go 1.20.
				src = append([]byte("//go:build go1.20\n\n"), src...)
			}
			write(p.names[i], src)
		}
	}
	write(filepath.Join(repo, "verifhook", "hook.go"), []byte(hookSource))
	out, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(scratch, "overlay.json"), out, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Printf("%d files, %d statements, %d of which may synchronise, %d map iterations\n", len(replace), nPoints, nSync, nMaps)
}
