package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// origins says where the beginning of a text comes from: for a path, the place
// in the file system that it is below of; for an address, the host.
func (p *Prog) origins(v ssa.Value) []string {
	o := &origin{p: p, seen: map[originAt]bool{}, out: map[string]bool{}}
	o.of(v)
	if len(o.out) > 1 {
		delete(o.out, `the text ""`) // what a variable is before it is set
	}
	var out []string
	for s := range o.out {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

type origin struct {
	p     *Prog
	seen  map[originAt]bool
	out   map[string]bool
	stack []*ssa.Call // the calls whose results are looked into
	all   bool        // all of a list, not just what it begins with
}

type originAt struct {
	v     ssa.Value
	call  *ssa.Call
	depth int
	all   bool
}

func (o *origin) top() *ssa.Call {
	if len(o.stack) == 0 {
		return nil
	}
	return o.stack[len(o.stack)-1]
}

func (o *origin) of(v ssa.Value) {
	at := originAt{v, o.top(), len(o.stack), o.all}
	if v == nil || o.seen[at] {
		return
	}
	o.seen[at] = true
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			o.out["the text "+v.Value.ExactString()] = true
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			o.of(e)
		}
	case *ssa.BinOp:
		if v.Op == token.ADD {
			o.of(v.X)
		}
	case *ssa.Convert:
		o.of(v.X)
	case *ssa.ChangeType:
		o.of(v.X)
	case *ssa.ChangeInterface:
		o.of(v.X)
	case *ssa.MakeInterface:
		o.of(v.X)
	case *ssa.TypeAssert:
		o.of(v.X)
	case *ssa.Slice:
		o.of(v.X)
	case *ssa.Alloc:
		o.stored(v)
	case *ssa.Index:
		o.of(v.X)
	case *ssa.IndexAddr:
		o.of(v.X)
	case *ssa.Lookup:
		o.out["an entry of "+typeName(v.X.Type())] = true
	case *ssa.Extract:
		o.result(v.Tuple, v.Index)
	case *ssa.Call:
		o.result(v, 0)
	case *ssa.Next:
		if r, ok := v.Iter.(*ssa.Range); ok {
			o.of(r.X)
		}
	case *ssa.Parameter:
		o.param(v)
	case *ssa.FreeVar:
		for i, fv := range v.Parent().FreeVars {
			if fv != v {
				continue
			}
			for _, g := range o.p.Funcs {
				for _, b := range g.Blocks {
					for _, ins := range b.Instrs {
						if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == v.Parent() {
							o.of(mc.Bindings[i])
						}
					}
				}
			}
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return
		}
		switch a := v.X.(type) {
		case *ssa.Global:
			o.global(a)
		case *ssa.FieldAddr:
			o.field(derefType(a.X.Type()), a.Field)
		default:
			o.of(v.X)
		}
	case *ssa.FieldAddr:
		o.field(derefType(v.X.Type()), v.Field)
	case *ssa.Field:
		o.field(v.X.Type(), v.Field)
	default:
		o.out["something unknown"] = true
	}
}

// stored: what is put into this place.
func (o *origin) stored(a ssa.Value) {
	for _, ref := range *a.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			if ref.Addr == a {
				o.of(ref.Val)
			}
		case *ssa.IndexAddr:
			if c, ok := ref.Index.(*ssa.Const); ref.X != a || ok && !o.all && c.Int64() > 0 && isArray(a) {
				continue // only the beginning of what is joined matters
			}
			o.stored(ref)
		case *ssa.MakeClosure: // a variable that the closure can change
			fn := ref.Fn.(*ssa.Function)
			for i, b := range ref.Bindings {
				if b == a {
					o.stored(fn.FreeVars[i])
				}
			}
		}
	}
}

func isArray(v ssa.Value) bool {
	_, ok := derefType(v.Type()).Underlying().(*types.Array)
	return ok
}

func (o *origin) field(t types.Type, i int) {
	n := 0
	for _, g := range o.p.Funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == i && types.Identical(derefType(fa.X.Type()), t) {
						n++
						o.of(st.Val)
					}
				}
			}
		}
	}
	if n == 0 {
		o.out["a field of "+typeName(t)] = true
	}
}

func (o *origin) param(v *ssa.Parameter) {
	f := v.Parent()
	at := -1
	for i, x := range f.Params {
		if x == v {
			at = i
		}
	}
	if c := o.top(); c != nil && c.Common().StaticCallee() == f && at < len(c.Call.Args) {
		s := o.stack
		o.stack = s[:len(s)-1]
		o.of(c.Call.Args[at])
		o.stack = s
		return
	}
	n := 0
	for _, c := range o.p.callers(f) {
		if com := c.Common(); com.StaticCallee() == f && at < len(com.Args) {
			n++
			o.of(com.Args[at])
		}
	}
	if n > 0 {
		return
	}
	// a function that is handed to something else
	for _, g := range o.p.Funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				for _, a := range c.Call.Args {
					a = unwrapFn(a)
					if mc, ok := a.(*ssa.MakeClosure); ok && mc.Fn == f || a == ssa.Value(f) {
						if strings.HasPrefix(calleeName(c.Common()), "path/filepath.Walk") {
							o.of(c.Call.Args[0])
						} else {
							o.out["what "+calleeName(c.Common())+" gives"] = true
						}
						n++
					}
				}
			}
		}
	}
	if n == 0 {
		o.out["an argument of "+fname(f)] = true
	}
}

func (o *origin) result(t ssa.Value, i int) {
	switch t := t.(type) {
	case *ssa.Next:
		o.of(t)
		return
	case *ssa.TypeAssert:
		o.of(t.X)
		return
	case *ssa.Lookup:
		o.out["an entry of "+typeName(t.X.Type())] = true
		return
	case *ssa.Call:
		com := t.Common()
		name := calleeName(com)
		switch name {
		case "path/filepath.Join", "path/filepath.Dir", "path/filepath.EvalSymlinks", "path/filepath.Abs", "path/filepath.Clean", "fmt.Sprintf", "fmt.Sprint", "strings.TrimSpace":
			a := com.Args[0]
			if name == "fmt.Sprintf" {
				c, ok := a.(*ssa.Const)
				if !ok {
					break
				}
				if s := constant.StringVal(c.Value); !strings.HasPrefix(s, "%s") {
					o.out["the text "+c.Value.ExactString()] = true
					return
				}
				a = com.Args[1]
			}
			was := o.all
			o.all = false
			o.of(a)
			o.all = was
			return
		case "append":
			o.of(com.Args[0])
			if s, ok := com.Args[0].(*ssa.Slice); ok && isArray(s.X) && !o.all {
				return // this is what it begins with
			}
			was := o.all
			o.all = true
			o.of(com.Args[1])
			o.all = was
			return
		}
		if f := com.StaticCallee(); f != nil && o.p.inModule(f) && len(f.Blocks) > 0 {
			for _, b := range f.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || i >= len(ret.Results) {
					continue
				}
				last, isConst := ret.Results[len(ret.Results)-1].(*ssa.Const)
				if len(ret.Results) > 1 && isError(ret.Results[len(ret.Results)-1]) && !(isConst && last.IsNil()) {
					if c, ok := ret.Results[i].(*ssa.Const); ok && zeroConst(c) {
						continue // nothing, with an error
					}
				}
				was := o.stack
				if len(was) < 6 {
					o.stack = append(was[:len(was):len(was)], t)
				}
				o.of(ret.Results[i])
				o.stack = was
			}
			return
		}
		o.out[name] = true
		return
	}
	o.out["something unknown"] = true
}

func isError(v ssa.Value) bool {
	return types.Identical(v.Type(), types.Universe.Lookup("error").Type())
}

func zeroConst(c *ssa.Const) bool {
	return c.Value == nil || c.Value.Kind() == constant.String && constant.StringVal(c.Value) == ""
}

// global: what is put into a variable when the program starts, if that is made
// by the program itself; otherwise the variable is the origin.
func (o *origin) global(g *ssa.Global) {
	var vals []ssa.Value
	own := true
	for _, f := range o.p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					vals = append(vals, st.Val)
					c, ok := st.Val.(*ssa.Call)
					own = own && ok && c.Call.StaticCallee() != nil && o.p.inModule(c.Call.StaticCallee())
				}
			}
		}
	}
	if !own || len(vals) == 0 {
		o.out["the variable "+g.Pkg.Pkg.Name()+"."+g.Name()] = true
		return
	}
	for _, v := range vals {
		o.of(v)
	}
}
