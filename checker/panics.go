package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// panicSite is an instruction that panics unless its obligation holds.
type panicSite struct {
	I    ssa.Instruction
	Kind string
}

func (p *Prog) panicSites(f *ssa.Function) (out []panicSite) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.IndexAddr:
				if _, ok := x.X.(*ssa.Alloc); ok {
					if _, ok := x.Index.(*ssa.Const); ok {
						continue
					}
				}
				out = append(out, panicSite{i, "index"})
			case *ssa.Index:
				out = append(out, panicSite{i, "index"})
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
					out = append(out, panicSite{i, "index"})
				}
			case *ssa.Slice:
				if x.Low != nil || x.High != nil {
					out = append(out, panicSite{i, "slice"})
				}
			case *ssa.TypeAssert:
				if !x.CommaOk {
					out = append(out, panicSite{i, "type assertion"})
				}
			case *ssa.Panic:
				out = append(out, panicSite{i, "panic"})
			case *ssa.BinOp:
				if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.Type()) {
					out = append(out, panicSite{i, "division"})
				}
			case *ssa.MakeSlice:
				if _, ok := x.Len.(*ssa.Const); !ok {
					out = append(out, panicSite{i, "make"})
				}
			case *ssa.MapUpdate:
				out = append(out, panicSite{i, "map write"})
			}
		}
	}
	return
}

type panicProver struct {
	p     *Prog
	b     *Bounds
	facts *Facts
	// asserts decides non-comma type assertions a rule discharges by other means
	extra func(s panicSite, c *Ctx) bool
}

func (p *Prog) newPanicProver() *panicProver {
	b := &Bounds{p: p, axioms: map[string]bool{}, seen: map[string]bool{}}
	f := p.newFacts(nil)
	f.num = b
	f.killCalls = true
	b.facts = f
	return &panicProver{p: p, b: b, facts: f}
}

// holds decides the obligation in one context.
func (pp *panicProver) holds(s panicSite, c *Ctx) bool {
	fs := pp.facts.At(s.I, c)
	if fs == nil {
		return true // unreachable in this context
	}
	if fs.contradictory() {
		return true
	}
	switch x := s.I.(type) {
	case *ssa.IndexAddr:
		return pp.inBounds(x.X, x.Index, c, fs, s.I)
	case *ssa.Index:
		return pp.inBounds(x.X, x.Index, c, fs, s.I)
	case *ssa.Lookup:
		return pp.inBounds(x.X, x.Index, c, fs, s.I)
	case *ssa.Slice:
		n := pp.b.lenOf(x.X, c)
		lo, hi := Lin{}, n
		if x.Low != nil {
			lo = pp.b.lin(x.Low, c)
		}
		if x.High != nil {
			hi = pp.b.lin(x.High, c)
		}
		return pp.le(Lin{}, lo, fs) && pp.le(lo, hi, fs) && pp.le(hi, n, fs)
	case *ssa.MakeSlice:
		return pp.le(Lin{}, pp.b.lin(x.Len, c), fs)
	case *ssa.BinOp:
		d := pp.b.lin(x.Y, c)
		return d.base == "" && d.off != 0 || pp.b.solve(fs, Lin{"", 1}, d, 0)
	case *ssa.TypeAssert:
		want := typeName(x.AssertedType)
		e := pp.p.expr(x.X, c)
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			// interface-to-interface
			if types.Implements(x.X.Type(), x.AssertedType.Underlying().(*types.Interface)) {
				return true
			}
		}
		if fs["T:"+(&E{Op: "is", S: want, A: []*E{e}}).String()] {
			return true
		}
		all := true
		for _, a := range e.alts() {
			if a.T == nil || typeName(a.T) != want {
				all = false
			}
		}
		if all {
			return true
		}
	case *ssa.MapUpdate:
		return pp.nonNilMap(x.Map, c, fs)
	}
	if pp.extra != nil {
		return pp.extra(s, c)
	}
	return false
}

func (fs FactSet) contradictory() bool {
	for a := range fs {
		if strings.HasPrefix(a, "T:") && fs["F:"+a[2:]] {
			return true
		}
	}
	return false
}

func (pp *panicProver) le(a, b Lin, fs FactSet) bool { return pp.b.solve(fs, a, b, 0) }

func (pp *panicProver) inBounds(x, idx ssa.Value, c *Ctx, fs FactSet, at ssa.Instruction) bool {
	n := pp.b.lenOf(x, c)
	return pp.idxOK(idx, c, n, fs, 0)
}

func (pp *panicProver) idxOK(idx ssa.Value, c *Ctx, n Lin, fs FactSet, depth int) bool {
	i := pp.b.lin(idx, c)
	if pp.le(Lin{}, i, fs) && pp.b.solve(fs, i, n, -1) {
		return true
	}
	// case split over a merge of index values
	v, vc := pp.p.resolve(idx, c)
	if ph, ok := v.(*ssa.Phi); ok && depth < 3 {
		for k, e := range ph.Edges {
			if e == v {
				continue
			}
			es := pp.facts.edge(ph.Block().Preds[k], ph.Block(), vc)
			if es == nil {
				continue
			}
			m := es.clone()
			if vc == c {
				for a := range fs {
					m[a] = true
				}
			}
			if !pp.idxOK(e, vc, n, m, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (pp *panicProver) nonNilMap(m ssa.Value, c *Ctx, fs FactSet) bool {
	e := pp.p.expr(m, c)
	for _, a := range e.alts() {
		if a.Op == "new" {
			continue
		}
		if a.Op == "fld" || a.Op == "g" {
			if pp.p.fieldAlwaysMade(a) {
				continue
			}
		}
		if fs["F:"+binExpr(token.EQL, e, mk("const", "nil"), m.Type()).String()] {
			continue
		}
		return false
	}
	return true
}

// fieldAlwaysMade: every composite of the owning type built in the module sets
// this map field to a made map (or the global is initialised with one).
func (p *Prog) fieldAlwaysMade(a *E) bool {
	if a.Op == "g" {
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if st, ok := i.(*ssa.Store); ok {
						if g, ok := st.Addr.(*ssa.Global); ok && short(g.Pkg.Pkg.Path())+"."+g.Name() == a.S {
							if !p.madeMap(st.Val, rootCtx(f)) {
								return false
							}
						}
					}
				}
			}
		}
		return true
	}
	owner := a.A[0].T
	if owner == nil {
		return false
	}
	on := typeName(derefType(owner))
	st, ok := derefType(owner).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	idx := -1
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == a.S {
			idx = i
		}
	}
	if idx < 0 {
		return false
	}
	found := false
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.Field == idx && typeName(derefType(fa.X.Type())) == on {
						found = true
						if !p.madeMap(x.Val, rootCtx(f)) {
							return false
						}
					}
				case *ssa.Alloc:
					if typeName(derefType(x.Type())) != on {
						continue
					}
					// a composite built here must set the field (or be overwritten whole)
					if x.Comment == "complit" || x.Heap && x.Comment == "new" {
						has := false
						for _, r := range *x.Referrers() {
							if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == idx {
								has = true
							}
						}
						if !has {
							return false
						}
					}
				}
			}
		}
	}
	return found
}

func (p *Prog) madeMap(v ssa.Value, c *Ctx) bool {
	e := p.expr(v, c)
	for _, a := range e.alts() {
		if a.Op == "new" || a.Op == "fld" && a.S != "" && a.A[0].Op != "" && strings.HasPrefix(typeName(v.Type()), "map") && a.Op == "fld" {
			continue
		}
		return false
	}
	return true
}

// decide: the obligation holds in the function itself, or in every context
// from which the module calls it (callers up to depth levels).
func (pp *panicProver) decide(s panicSite, c *Ctx, depth int) (bool, string) {
	if pp.holds(s, c) {
		return true, ""
	}
	root := c
	for root.Parent != nil {
		root = root.Parent
	}
	if depth == 0 {
		return false, "undecided at " + root.key
	}
	f := root.Fn
	if f.Parent() != nil {
		// closure: look at it from where it is made
		ok := false
		for _, b := range f.Parent().Blocks {
			for _, i := range b.Instrs {
				if m, isM := i.(*ssa.MakeClosure); isM && m.Fn == ssa.Value(f) {
					pc := rootCtx(f.Parent())
					nc := pp.p.internCtx(&Ctx{Fn: f, Parent: pc, Closure: m, CloCtx: pc, depth: 1, key: pc.key + "~" + fname(f)})
					cc := pp.rebase(c, root, nc)
					if good, why := pp.decide(s, cc, depth-1); !good {
						return false, why
					}
					ok = true
				}
			}
		}
		return ok, "closure not found"
	}
	if pp.p.isAddrTaken(f) {
		return false, "function value"
	}
	cs := pp.p.callers(f)
	if len(cs) == 0 || f.Signature.Recv() != nil && pp.viaInterface(f) {
		return false, "no caller establishes it"
	}
	for _, call := range cs {
		pc := rootCtx(call.Parent())
		nc := pp.p.callee(call, pc)
		if nc == nil {
			return false, "recursive"
		}
		cc := pp.rebase(c, root, nc)
		if good, why := pp.decide(s, cc, depth-1); !good {
			return false, "via " + fname(call.Parent()) + ": " + why
		}
	}
	return true, ""
}

func (pp *panicProver) viaInterface(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	for _, g := range pp.p.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == f.Name() {
					it := ci.Common().Value.Type().Underlying().(*types.Interface)
					if types.Implements(f.Signature.Recv().Type(), it) {
						return true
					}
				}
			}
		}
	}
	return false
}

// rebase re-roots the context chain c (rooted at root) onto nc, which is a context for root.Fn.
func (pp *panicProver) rebase(c, root, nc *Ctx) *Ctx {
	if c == root {
		return nc
	}
	np := pp.rebase(c.Parent, root, nc)
	if c.Call != nil {
		if x := pp.p.callee(c.Call, np); x != nil {
			return x
		}
	}
	clo := c.CloCtx
	if clo != nil {
		clo = pp.rebase(clo, root, nc)
	}
	return pp.p.internCtx(&Ctx{Fn: c.Fn, Parent: np, Call: c.Call, Closure: c.Closure, CloCtx: clo, depth: np.depth + 1,
		key: fmt.Sprintf("%s>%p:%s", np.key, c.Call, fname(c.Fn))})
}

func (pp *panicProver) key(s panicSite, c *Ctx) string {
	e := func(v ssa.Value) string { return trim(pp.p.expr(v, c).String(), 160) }
	switch x := s.I.(type) {
	case *ssa.IndexAddr:
		return e(x.X) + "[" + e(x.Index) + "]"
	case *ssa.Index:
		return e(x.X) + "[" + e(x.Index) + "]"
	case *ssa.Lookup:
		return e(x.X) + "[" + e(x.Index) + "]"
	case *ssa.Slice:
		k := e(x.X) + "["
		if x.Low != nil {
			k += e(x.Low)
		}
		k += ":"
		if x.High != nil {
			k += e(x.High)
		}
		return k + "]"
	case *ssa.TypeAssert:
		return e(x.X) + ".(" + typeName(x.AssertedType) + ")"
	case *ssa.Panic:
		return e(x.X)
	case *ssa.BinOp:
		return e(x)
	case *ssa.MakeSlice:
		return e(x.Len)
	case *ssa.MapUpdate:
		return e(x.Map)
	}
	return ""
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func devPanics(p *Prog, pkg string) {
	pp := p.newPanicProver()
	tot, bad := 0, 0
	for _, f := range p.funcsIn(pkg) {
		if f.Name() == "init" {
			continue
		}
		for _, s := range p.panicSites(f) {
			tot++
			if ok, why := pp.decide(s, rootCtx(f), 3); !ok {
				bad++
				fmt.Printf("%s [%s] %s: %s   -- %s\n", p.ipos(s.I), fname(f), s.Kind, pp.key(s, rootCtx(f)), why)
			}
		}
	}
	fmt.Println(tot, "sites", bad, "undecided")
}
