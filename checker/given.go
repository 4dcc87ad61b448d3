package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// givenBack says whether a value gets into what f returns: through variables,
// lists, channels and what is bound to closures, and through the functions
// among fs that it is passed to or returned by.
func (p *Prog) givenBack(v ssa.Value, f *ssa.Function, fs map[*ssa.Function]bool) bool {
	g := &givenFlow{p: p, fs: fs, seen: map[ssa.Value]bool{}}
	g.add(v)
	for len(g.todo) > 0 {
		v := g.todo[len(g.todo)-1]
		g.todo = g.todo[:len(g.todo)-1]
		if refs := v.Referrers(); refs != nil {
			for _, ins := range *refs {
				if g.use(v, ins, f) {
					return true
				}
			}
		}
	}
	return false
}

type givenFlow struct {
	p    *Prog
	fs   map[*ssa.Function]bool
	seen map[ssa.Value]bool
	todo []ssa.Value
}

func (g *givenFlow) add(v ssa.Value) {
	if v != nil && !g.seen[v] {
		g.seen[v] = true
		g.todo = append(g.todo, v)
	}
}

// into taints what an address, a channel or a map is a part of.
func (g *givenFlow) into(v ssa.Value, seen map[ssa.Value]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.FieldAddr:
		g.into(v.X, seen)
	case *ssa.IndexAddr:
		g.into(v.X, seen)
	case *ssa.Slice:
		g.into(v.X, seen)
	case *ssa.UnOp:
		g.into(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			g.into(e, seen)
		}
	case *ssa.FreeVar:
		g.add(v)
		fn := v.Parent()
		for i, q := range fn.FreeVars {
			if q != v || fn.Parent() == nil {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, ins := range b.Instrs {
					if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == fn {
						g.into(mc.Bindings[i], seen)
					}
				}
			}
		}
	case *ssa.Parameter:
		g.add(v)
		for i, q := range v.Parent().Params {
			if q != v {
				continue
			}
			for _, c := range g.p.callers(v.Parent()) {
				if i < len(c.Common().Args) && !c.Common().IsInvoke() {
					g.into(c.Common().Args[i], seen)
				}
			}
		}
	case *ssa.Alloc:
		g.add(v)
		// what has been stored there: the list that it is a variable for
		for _, ins := range *v.Referrers() {
			if st, ok := ins.(*ssa.Store); ok && st.Addr == v {
				switch st.Val.Type().Underlying().(type) {
				case *types.Slice, *types.Map, *types.Chan, *types.Pointer:
					g.into(st.Val, seen)
				}
			}
		}
	default:
		g.add(v)
	}
}

// use follows a value to where it is used; whether that is the result of f.
func (g *givenFlow) use(v ssa.Value, ins ssa.Instruction, f *ssa.Function) bool {
	switch ins := ins.(type) {
	case *ssa.Store:
		if ins.Val == v {
			g.into(ins.Addr, map[ssa.Value]bool{})
		}
	case *ssa.Send:
		if ins.X == v {
			g.into(ins.Chan, map[ssa.Value]bool{})
		}
	case *ssa.MapUpdate:
		if ins.Value == v {
			g.into(ins.Map, map[ssa.Value]bool{})
		}
	case *ssa.MakeClosure:
		for i, b := range ins.Bindings {
			if b == v {
				g.add(ins.Fn.(*ssa.Function).FreeVars[i])
			}
		}
	case *ssa.Return:
		fn := ins.Parent()
		if fn == f {
			return true
		}
		for i, x := range ins.Results {
			if x != v {
				continue
			}
			for _, c := range g.p.callers(fn) {
				cv, ok := c.(*ssa.Call)
				if !ok || !g.fs[cv.Parent()] {
					continue
				}
				if len(ins.Results) == 1 {
					g.add(cv)
					continue
				}
				for _, u := range *cv.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index == i {
						g.add(e)
					}
				}
			}
		}
	case ssa.CallInstruction:
		c := ins.Common()
		callee := c.StaticCallee()
		for i, a := range c.Args {
			if a == v && callee != nil && i < len(callee.Params) && g.fs[callee] {
				g.add(callee.Params[i])
			}
		}
		if cv, ok := ins.(*ssa.Call); ok && (callee == nil || !g.fs[callee]) && isError(cv) {
			g.add(cv) // wrapped
		}
		if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			g.add(ins.Value())
		}
	case ssa.Value:
		if b, ok := ins.(*ssa.BinOp); ok && b != nil {
			return false // what it is compared to
		}
		g.add(ins)
	}
	return false
}
