// Command instr rewrites the packages of a copy of the repository so that the operations which
// matter for schedules, faults and crashes go through the shims: names of os, io/ioutil, time,
// math/rand, sync, log and syscall which a shim defines are replaced by those of the shim, go
// statements become calls, and accesses to variables of the package which it changes are
// announced.
//
//	instr SHIMDIR DIR...
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const base = "github.com/Ptt-official-app/go-bbs/verifmcshim/"

var shims = map[string]string{
	"os": "vos", "io/ioutil": "vioutil", "time": "vtime", "math/rand": "vrand", "sync": "vsync", "log": "vlog", "syscall": "vsyscall",
	"golang.org/x/sys/unix": "vsyscall", "math/rand/v2": "vrand", "net/http": "vhttp", "sync/atomic": "vatomic",
}

func main() {
	names := map[string]map[string]bool{}
	for _, s := range shims {
		names[s] = exported(filepath.Join(os.Args[1], s))
	}
	for _, d := range os.Args[2:] {
		if d == "-sync" { // locks only in what follows
			for _, s := range shims {
				if s != "vsync" && s != "vatomic" {
					names[s] = nil
				}
			}
			locksOnly = true
			continue
		}
		pkg(d, names)
	}
}

var locksOnly bool

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func files(dir string) (l []string) {
	all, err := filepath.Glob(filepath.Join(dir, "*.go"))
	check(err)
	for _, f := range all {
		if !strings.HasSuffix(f, "_test.go") {
			l = append(l, f)
		}
	}
	return
}

func exported(dir string) map[string]bool {
	m := map[string]bool{}
	for _, name := range files(dir) {
		f, err := parser.ParseFile(token.NewFileSet(), name, nil, 0)
		check(err)
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() {
					m[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if t, ok := s.(*ast.TypeSpec); ok && t.Name.IsExported() {
						m[t.Name.Name] = true
					}
				}
			}
		}
	}
	return m
}

type file struct {
	name string
	f    *ast.File
}

func pkg(dir string, names map[string]map[string]bool) {
	fset := token.NewFileSet()
	byName := map[string][]file{}
	for _, n := range files(dir) {
		b, err := os.ReadFile(n)
		check(err)
		if strings.Contains(string(b), "\n//go:embed ") || strings.Contains(string(b), "\n//go:linkname ") {
			continue
		}
		f, err := parser.ParseFile(fset, n, b, 0)
		check(err)
		byName[f.Name.Name] = append(byName[f.Name.Name], file{n, f})
	}
	for _, fs := range byName {
		for _, f := range fs {
			for _, o := range f.f.Scope.Objects {
				top[o] = true
			}
		}
		vars := changed(fs)
		if locksOnly {
			vars = nil
		}
		for _, f := range fs {
			one(fset, f, names, vars)
		}
	}
}

func one(fset *token.FileSet, fl file, names map[string]map[string]bool, vars map[string]bool) {
	f := fl.f
	local := map[string]string{} // name in the file -> shim
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		s, ok := shims[p]
		if !ok {
			continue
		}
		n := filepath.Base(p)
		if n == "v2" {
			n = "rand"
		}
		if i.Name != nil {
			n = i.Name.Name
		}
		if n == "_" || n == "." {
			continue
		}
		local[n] = s
	}
	used := map[string]bool{}
	kept := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		x, ok := sel.X.(*ast.Ident)
		if !ok || x.Obj != nil {
			return true
		}
		if s, ok := local[x.Name]; ok {
			if names[s][sel.Sel.Name] {
				x.Name = s
				used[s] = true
			} else {
				kept[x.Name] = true
			}
		}
		return true
	})
	sched := false
	if !locksOnly {
		rewriteGo(f, &sched)
	}
	points(f, vars, &sched)
	if sched {
		used["vsched"] = true
	}
	if len(used) == 0 {
		return
	}
	// drop what is not used any more, add the shims
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			i := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(i.Path.Value)
			if _, ok := shims[p]; !ok {
				continue
			}
			n := filepath.Base(p)
			if n == "v2" {
				n = "rand"
			}
			if i.Name != nil {
				n = i.Name.Name
			}
			if !kept[n] && n != "_" && n != "." {
				i.Name = ast.NewIdent("_")
			}
		}
	}
	old, err := os.ReadFile(fl.name)
	check(err)
	var b strings.Builder
	check(format.Node(&b, fset, f))
	src := string(old[:fset.Position(f.Package).Offset]) + b.String() // with build tags
	// the import declarations go right after the package clause
	f2, err := parser.ParseFile(token.NewFileSet(), "", src, parser.PackageClauseOnly)
	check(err)
	at := int(f2.Name.End()) - 1
	var imp strings.Builder
	for _, s := range []string{"vos", "vioutil", "vtime", "vrand", "vsync", "vlog", "vsyscall", "vhttp", "vatomic", "vsched"} {
		if used[s] {
			fmt.Fprintf(&imp, "\nimport %q", base+s)
		}
	}
	src = src[:at] + "\n" + imp.String() + "\n" + src[at:]
	check(os.WriteFile(fl.name, []byte(src), 0644))
}

// rewriteGo replaces go statements.
func rewriteGo(f *ast.File, sched *bool) {
	lists(f, func(l []ast.Stmt) []ast.Stmt {
		for i, s := range l {
			g, ok := s.(*ast.GoStmt)
			if !ok {
				continue
			}
			*sched = true
			args := append([]ast.Expr{g.Call.Fun}, g.Call.Args...)
			if g.Call.Ellipsis.IsValid() {
				body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: g.Call}}}
				args = []ast.Expr{&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body}}
			}
			l[i] = &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent("Go")}, Args: args}}
		}
		return l
	})
}

// lists visits all statement lists.
func lists(f ast.Node, do func([]ast.Stmt) []ast.Stmt) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			n.List = do(n.List)
		case *ast.CaseClause:
			n.Body = do(n.Body)
		case *ast.CommClause:
			n.Body = do(n.Body)
		}
		return true
	})
}

// changed are the variables of the package which its functions change.
func changed(fs []file) map[string]bool {
	decl := map[string]bool{}
	for _, f := range fs {
		for _, d := range f.f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							decl[n.Name] = true
						}
					}
				}
			}
		}
	}
	out := map[string]bool{}
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.IndexExpr:
				e = x.X
			case *ast.SelectorExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.ParenExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			case *ast.Ident:
				if decl[x.Name] && global(x) {
					out[x.Name] = true
				}
				return
			default:
				return
			}
		}
	}
	for _, f := range fs {
		ast.Inspect(f.f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					if n.Key != nil {
						mark(n.Key)
					}
					if n.Value != nil {
						mark(n.Value)
					}
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "copy" || id.Name == "append") && len(n.Args) > 0 {
					mark(n.Args[0])
				}
			}
			return true
		})
	}
	return out
}

// global says whether the identifier is declared in the package.
func global(x *ast.Ident) bool {
	if x.Obj == nil {
		return true
	}
	_, ok := x.Obj.Decl.(*ast.ValueSpec)
	return ok && x.Obj.Kind == ast.Var && isTop(x.Obj)
}

var top = map[*ast.Object]bool{}

func isTop(o *ast.Object) bool { return top[o] }

// points announces accesses to the variables.
func points(f *ast.File, vars map[string]bool, sched *bool) {
	if len(vars) == 0 {
		return
	}
	lists(f, func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if v := mentions(s, vars); v != "" {
				*sched = true
				out = append(out, point(v))
			}
			out = append(out, s)
		}
		return out
	})
}

func point(v string) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{
		Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent("Point")},
		Args: []ast.Expr{&ast.CompositeLit{Type: &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent("Op")}, Elts: []ast.Expr{
			&ast.KeyValueExpr{Key: ast.NewIdent("Kind"), Value: &ast.BasicLit{Kind: token.STRING, Value: `"var"`}},
			&ast.KeyValueExpr{Key: ast.NewIdent("Name"), Value: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(v)}},
		}}},
	}}
}

// mentions says which variable a statement itself uses, without the blocks in it.
func mentions(s ast.Stmt, vars map[string]bool) (found string) {
	sel := map[*ast.Ident]bool{}
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SelectorExpr:
			sel[n.Sel] = true
		case *ast.KeyValueExpr:
			if id, ok := n.Key.(*ast.Ident); ok {
				sel[id] = true
			}
		case *ast.Ident:
			if vars[n.Name] && !sel[n] && (n.Obj == nil || top[n.Obj]) && found == "" {
				found = n.Name
			}
		}
		return true
	})
	return
}
