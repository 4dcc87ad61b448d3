package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// lifted rewrites functions within functions that look at variables of the
// function around them which change, as in
//
//	last := a
//	replace := func(parts []*Part) { … last … }
//	replace(x)
//
// so that they are given what they look at: replace := func(last *Part, parts
// []*Part), replace(last, x). The program does the same (such a function is
// only ever called, and changes none of these variables, and nothing else does
// while it runs), and what a variable holds is then known from where it is
// changed, as with any other. The result is the new contents of files.
func lifted(pkgs []*packages.Package) map[string][]byte {
	out := map[string][]byte{}
	for _, pk := range pkgs {
		for _, file := range pk.Syntax {
			var edits []edit
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					edits = append(edits, liftIn(pk, file, fd.Body)...)
				}
				if gd, ok := d.(*ast.GenDecl); ok {
					ast.Inspect(gd, func(n ast.Node) bool {
						if lit, ok := n.(*ast.FuncLit); ok {
							edits = append(edits, liftIn(pk, file, lit.Body)...)
							return false
						}
						return true
					})
				}
			}
			if len(edits) == 0 {
				continue
			}
			name := pk.Fset.Position(file.Pos()).Filename
			src, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].at > edits[j].at })
			for _, e := range edits {
				o := pk.Fset.Position(e.at).Offset
				src = append(append(append([]byte{}, src[:o]...), e.text...), src[o:]...)
			}
			out[name] = src
		}
	}
	return out
}

type edit struct {
	at   token.Pos
	text string
}

func liftIn(pk *packages.Package, file *ast.File, body *ast.BlockStmt) []edit {
	info := pk.TypesInfo
	// which variables are changed, where; which have their address taken
	changes := map[types.Object]int{}
	fixed := map[types.Object]bool{} // cannot be given
	var lits []*ast.FuncLit
	var stack []ast.Node
	set := func(e ast.Expr) {
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok {
			return
		}
		o := info.Uses[id]
		if o == nil {
			return
		}
		changes[o]++
		for _, l := range lits {
			if o.Pos() < l.Pos() || o.Pos() > l.End() {
				fixed[o] = true
			}
		}
	}
	calls := map[types.Object][]*ast.CallExpr{}
	bad := map[types.Object]bool{}
	defs := map[types.Object]*ast.FuncLit{}
	called := map[*ast.Ident]bool{}
	ast.Inspect(body, func(n ast.Node) bool {
		if n == nil {
			if l, ok := stack[len(stack)-1].(*ast.FuncLit); ok && len(lits) > 0 && lits[len(lits)-1] == l {
				lits = lits[:len(lits)-1]
			}
			stack = stack[:len(stack)-1]
			return true
		}
		switch n := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, n)
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				set(l)
			}
			if n.Tok == token.DEFINE && len(n.Lhs) == 1 && len(n.Rhs) == 1 {
				if id, ok := n.Lhs[0].(*ast.Ident); ok {
					if lit, ok := n.Rhs[0].(*ast.FuncLit); ok && info.Defs[id] != nil {
						defs[info.Defs[id]] = lit
					}
				}
			}
		case *ast.IncDecStmt:
			set(n.X)
		case *ast.RangeStmt:
			for _, e := range []ast.Expr{n.Key, n.Value} {
				if e == nil {
					continue
				}
				set(e)
				if id, ok := e.(*ast.Ident); ok && info.Defs[id] != nil {
					changes[info.Defs[id]]++
				}
			}
		case *ast.UnaryExpr:
			if id, ok := ast.Unparen(n.X).(*ast.Ident); ok && n.Op == token.AND {
				fixed[info.Uses[id]] = true
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && info.Uses[id] != nil {
				o := info.Uses[id]
				called[id] = true
				calls[o] = append(calls[o], n)
				if n.Ellipsis.IsValid() && len(n.Args) == 0 {
					bad[o] = true
				}
			}
		case *ast.GoStmt:
			if id, ok := n.Call.Fun.(*ast.Ident); ok {
				bad[info.Uses[id]] = true
			}
		case *ast.DeferStmt:
			if id, ok := n.Call.Fun.(*ast.Ident); ok {
				bad[info.Uses[id]] = true
			}
		}
		stack = append(stack, n)
		return true
	})
	ast.Inspect(body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && info.Uses[id] != nil && !called[id] {
			bad[info.Uses[id]] = true // used, and not called
		}
		return true
	})
	var out []edit
	var objs []types.Object
	for o := range defs {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	for _, o := range objs {
		lit := defs[o]
		if bad[o] || len(calls[o]) == 0 {
			continue
		}
		seen := map[types.Object]bool{}
		var vars []*types.Var
		inner := 0
		var nest []ast.Node
		ast.Inspect(lit.Body, func(n ast.Node) bool {
			if n == nil {
				if _, ok := nest[len(nest)-1].(*ast.FuncLit); ok {
					inner--
				}
				nest = nest[:len(nest)-1]
				return true
			}
			nest = append(nest, n)
			if _, ok := n.(*ast.FuncLit); ok {
				inner++
			}
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			v, ok := info.Uses[id].(*types.Var)
			if !ok || v.IsField() || v.Parent() == nil || v.Parent() == pk.Types.Scope() || v.Pos() >= lit.Pos() && v.Pos() < lit.End() {
				return true
			}
			if inner > 0 {
				fixed[v] = true
			}
			if !seen[v] && changes[v] > 0 {
				seen[v] = true
				vars = append(vars, v)
			}
			return true
		})
		var names, params []string
		for _, v := range vars {
			if fixed[v] {
				continue
			}
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				continue
			}
			ok := true
			for _, c := range calls[o] {
				sc := pk.Types.Scope().Innermost(c.Pos())
				if sc == nil {
					ok = false
					continue
				}
				_, at := sc.LookupParent(v.Name(), c.Pos())
				ok = ok && at == v
			}
			t := types.TypeString(v.Type(), func(q *types.Package) string {
				if q == pk.Types {
					return ""
				}
				for _, im := range file.Imports {
					if strings.Trim(im.Path.Value, `"`) == q.Path() {
						if im.Name != nil {
							return im.Name.Name
						}
						return q.Name()
					}
				}
				ok = false
				return ""
			})
			for _, f := range lit.Type.Params.List {
				ok = ok && len(f.Names) > 0
				for _, n := range f.Names {
					ok = ok && n.Name != v.Name()
				}
			}
			if ok {
				names = append(names, v.Name())
				params = append(params, v.Name()+" "+t)
			}
		}
		if len(names) == 0 {
			continue
		}
		comma := func(n int) string {
			if n > 0 {
				return ", "
			}
			return ""
		}
		out = append(out, edit{lit.Type.Params.Opening + 1, strings.Join(params, ", ") + comma(len(lit.Type.Params.List))})
		for _, c := range calls[o] {
			out = append(out, edit{c.Lparen + 1, strings.Join(names, ", ") + comma(len(c.Args))})
		}
		if os.Getenv("CHK_LIFT") != "" {
			fmt.Fprintln(os.Stderr, pk.Fset.Position(lit.Pos()), names)
		}
	}
	return out
}
