package main

import (
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// glob matches text against a pattern where "…" stands for anything.
func glob(pat, s string) bool {
	parts := strings.Split(pat, "…")
	for i := range parts {
		parts[i] = regexp.QuoteMeta(parts[i])
	}
	re := globCache[pat]
	if re == nil {
		re = regexp.MustCompile("(?s)^" + strings.Join(parts, ".*") + "$")
		globCache[pat] = re
	}
	return re.MatchString(s)
}

var globCache = map[string]*regexp.Regexp{}

// dropZero removes zero values from unions: the value a helper returns beside
// an error, never used by a caller that checks it.
func dropZero(e *E) *E {
	if len(e.A) == 0 {
		return e
	}
	n := &E{Op: e.Op, S: e.S, T: e.T, V: e.V, C: e.C}
	var as []*E
	for _, a := range e.A {
		as = append(as, dropZero(a))
	}
	if e.Op == "phi" {
		var keep []*E
		for _, a := range as {
			if a.Op == "zero" || a.Op == "const" && (a.S == "zero" || a.S == "nil") {
				continue
			}
			keep = append(keep, a)
		}
		if len(keep) == 0 {
			return e
		}
		return union(keep)
	}
	n.A = as
	return n
}

// text is the comparison form of an expression.
func text(e *E) string { return norm(dropZero(e).String()) }

// partText rewrites the current-part expression of an UpdateScore method to P
// and the score to S.
func partText(e *E) string {
	s := text(e)
	s = strings.ReplaceAll(s, "elem(arg0.CurrentParts)", "P")
	return s
}

// implementers of a module interface: the named types whose value or pointer
// method set satisfies it.
func (p *Prog) implementers(rel, iface string) (out []*types.Named) {
	t := p.typ(rel, iface)
	if t == nil {
		return nil
	}
	it := t.Underlying().(*types.Interface)
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nm, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nm) {
				continue
			}
			if types.Implements(nm, it) || types.Implements(types.NewPointer(nm), it) {
				out = append(out, nm)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return typeName(out[i]) < typeName(out[j]) })
	return
}

// method returns the source function of t's method (value or pointer receiver).
func (p *Prog) method(t *types.Named, name string) *ssa.Function {
	n := typeName(t)
	if f := p.fn("(" + n + ")." + name); f != nil {
		return f
	}
	return p.fn("(*" + n + ")." + name)
}

// commonAncestor lifts two sites to the instructions of their closest common
// context.
func lift(a, b Site) (ssa.Instruction, ssa.Instruction, *Ctx, bool) {
	anc := map[*Ctx]ssa.Instruction{}
	for c, i := a.C, a.I; c != nil; {
		anc[c] = i
		if c.Call == nil {
			if c.Parent == nil {
				break
			}
			// closure handed to a call: position of the closure creation
			i = c.Closure
			c = c.Parent
			continue
		}
		i = c.Call
		c = c.Parent
	}
	for c, i := b.C, b.I; c != nil; {
		if ai, ok := anc[c]; ok {
			return ai, i, c, true
		}
		if c.Call == nil {
			if c.Parent == nil {
				break
			}
			i = c.Closure
			c = c.Parent
			continue
		}
		i = c.Call
		c = c.Parent
	}
	return nil, nil, nil, false
}

func isDefer(i ssa.Instruction) bool {
	_, ok := i.(*ssa.Defer)
	return ok
}

// before: some path within one iteration of the enclosing loops runs a, then b.
func before(a, b Site) bool {
	x, y, _, ok := lift(a, b)
	if !ok || x == nil || y == nil {
		return false
	}
	// a deferred call runs when the function returns
	if dx, dy := isDefer(x), isDefer(y); dx != dy {
		return dy
	} else if dx {
		x, y = y, x
	}
	if x.Block() == y.Block() {
		for _, i := range x.Block().Instrs {
			if i == x {
				return x != y
			}
			if i == y {
				return false
			}
		}
	}
	// a back edge starts another iteration; it only counts as a way out of a loop that does not hold y
	inner := map[*ssa.BasicBlock]bool{}
	for _, l := range loopsOf(x.Block().Parent()) {
		if l.Body[y.Block()] {
			inner[l.Head] = true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		if b == y.Block() {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if s.Dominates(b) && inner[s] {
				continue
			}
			if dfs(s) {
				return true
			}
		}
		return false
	}
	for _, s := range x.Block().Succs {
		if (!s.Dominates(x.Block()) || !inner[s]) && dfs(s) {
			return true
		}
	}
	return false
}

// composites lists the values of a struct type built in the inlined program.
type Built struct {
	Site
	E *E // the "new" expression
}

func (p *Prog) composites(root *Ctx, typ string) (out []Built) {
	p.sites(root, func(s Site) {
		if a, ok := s.I.(*ssa.Alloc); ok && typeName(derefType(a.Type())) == typ {
			if _, isS := derefType(a.Type()).Underlying().(*types.Struct); isS && p.hasFieldStores(a) {
				out = append(out, Built{s, p.expr(a, s.C)})
			}
		}
	})
	return
}

// fieldSite finds the store that sets field f of the composite.
func (p *Prog) fieldSites(b Built, f string) (out []Site) {
	a := b.I.(*ssa.Alloc)
	st := structOf(a.Type())
	for _, r := range *a.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok && st.Field(fa.Field).Name() == f {
			for _, q := range *fa.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == fa {
					out = append(out, Site{s, b.C})
				}
			}
		}
	}
	return
}

func in(s string, list ...string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

func globAny(s string, pats ...string) bool {
	for _, x := range pats {
		if glob(x, s) {
			return true
		}
	}
	return false
}

// has fact matching a glob
func (fs FactSet) match(pats ...string) bool {
	for a := range fs {
		if globAny(norm(a), pats...) {
			return true
		}
	}
	return false
}

// sliceElems: the elements stored into a slice literal (or variadic argument).
func (p *Prog) sliceElems(v ssa.Value) (out []ssa.Value) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, ref := range *al.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
					out = append(out, st.Val)
				}
			}
		}
	}
	return
}
