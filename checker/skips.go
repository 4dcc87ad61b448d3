package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A skip is a way through the code around an effect, ending without an error,
// on which the effect does not happen.
type skip struct {
	Known []string // guard texts known on the way
	At    ssa.Instruction
}

func guardText(a string) (string, bool) {
	if strings.HasPrefix(a, "E:") || strings.HasPrefix(a, "N:") {
		return "", false
	}
	t := toP(strings.ReplaceAll(a, " | zero}", "}"))
	return oneAlt.ReplaceAllString(t, "$1"), true
}

// levels lists the instruction standing for the site in each enclosing context.
func levels(s Site) (out []Site) {
	i, c := s.I, s.C
	for c != nil {
		if i != nil {
			out = append(out, Site{i, c})
		}
		if c.Call != nil {
			i = c.Call
		} else if c.Closure != nil {
			i = c.Closure
		} else {
			i = nil
		}
		c = c.Parent
	}
	return
}

// skips enumerates them, per enclosing loop and function; sibs are other sites
// that count as the same effect. ok is false when there are too many paths.
func (p *Prog) skips(facts *Facts, s Site, sibs []Site) (out []skip, ok bool) {
	ok = true
	for _, lv := range levels(s) {
		here := map[*ssa.BasicBlock]bool{lv.I.Block(): true}
		for _, o := range sibs {
			for _, l2 := range levels(o) {
				if l2.C == lv.C {
					here[l2.I.Block()] = true
				}
			}
		}
		var ls []*Loop
		for _, l := range loopsOf(lv.C.Fn) {
			if l.Body[lv.I.Block()] {
				ls = append(ls, l)
			}
		}
		for i := range ls { // innermost first
			for j := i + 1; j < len(ls); j++ {
				if len(ls[j].Body) < len(ls[i].Body) {
					ls[i], ls[j] = ls[j], ls[i]
				}
			}
		}
		if isDefer(lv.I) {
			ls = nil
		}
		if p.innerOnly && len(out) > 0 {
			break
		}
		for i := 0; i <= len(ls); i++ {
			if p.innerOnly && (i > 0 || len(ls) == 0) {
				break
			}
			var l *Loop
			start := lv.C.Fn.Blocks[0]
			if i < len(ls) {
				l = ls[i]
				start = l.Head
			}
			avoid := map[*ssa.BasicBlock]bool{}
			for b := range here {
				avoid[b] = true
			}
			if i > 0 {
				avoid[ls[i-1].Head] = true
			}
			if i < len(ls) && avoid[start] {
				continue
			}
			xs, fine := p.paths(facts, lv.C, start, l, avoid, nil)
			ok = ok && fine
			out = append(out, xs...)
		}
	}
	return
}

// paths enumerates the acyclic ways from start to the end of one iteration of
// l (or to a return that carries no error, when l is nil), or to the block to,
// that pass through none of the avoided blocks.
func (p *Prog) paths(facts *Facts, c *Ctx, start *ssa.BasicBlock, l *Loop, avoid map[*ssa.BasicBlock]bool, to *ssa.BasicBlock) (out []skip, ok bool) {
	ok = true
	n := 0
	on := map[*ssa.BasicBlock]bool{}
	cache := map[string][]string{}
	edgeFacts := func(v ssa.Value, t bool) []string {
		k := v.Name() + v.String()
		if t {
			k += "+"
		}
		if x, hit := cache[k]; hit {
			return x
		}
		var r []string
		for a := range facts.implied(v, t, c, 0) {
			if g, ok := guardText(a); ok {
				r = append(r, g)
			}
		}
		cache[k] = r
		return r
	}
	// can the region's end be reached from b without the avoided blocks?
	ends := map[*ssa.BasicBlock]bool{}
	var canEnd func(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool
	canEnd = func(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
		if avoid[b] || seen[b] {
			return false
		}
		seen[b] = true
		if b == to {
			return true
		}
		if l == nil && to == nil {
			if _, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR {
				return true
			}
		}
		for _, s := range b.Succs {
			if l != nil && s == l.Head && to == nil {
				return true
			}
			if l != nil && !l.Body[s] {
				continue
			}
			if canEnd(s, seen) {
				return true
			}
		}
		return false
	}
	for _, b := range c.Fn.Blocks {
		ends[b] = canEnd(b, map[*ssa.BasicBlock]bool{})
	}
	var base []string
	if in := facts.ctx(c).in[start]; in != nil {
		for a := range in {
			if g, ok := guardText(a); ok {
				base = append(base, g)
			}
		}
	} else {
		return nil, true
	}
	type vv struct {
		v ssa.Value
		t bool
	}
	var walk func(b, pred *ssa.BasicBlock, known map[string]bool, vals map[ssa.Value]bool, phis map[ssa.Value]ssa.Value)
	emit := func(known map[string]bool, at ssa.Instruction) {
		s := skip{At: at}
		for g := range known {
			s.Known = append(s.Known, g)
		}
		out = append(out, s)
	}
	walk = func(b, pred *ssa.BasicBlock, known map[string]bool, vals map[ssa.Value]bool, phis map[ssa.Value]ssa.Value) {
		if n > 4000 {
			ok = false
			return
		}
		if avoid[b] || on[b] || !ends[b] {
			return
		}
		on[b] = true
		defer delete(on, b)
		if pred != nil {
			for _, i := range b.Instrs {
				ph, isP := i.(*ssa.Phi)
				if !isP {
					break
				}
				for k, pb := range b.Preds {
					if pb == pred {
						e := ph.Edges[k]
						if x, h := phis[e]; h {
							e = x
						}
						np := make(map[ssa.Value]ssa.Value, len(phis)+1)
						for a, x := range phis {
							np[a] = x
						}
						np[ph] = e
						phis = np
					}
				}
			}
		}
		last := b.Instrs[len(b.Instrs)-1]
		if b == to {
			n++
			emit(known, last)
			return
		}
		if r, isR := last.(*ssa.Return); isR {
			n++
			if l != nil {
				return
			}
			if len(r.Results) > 0 {
				v := r.Results[len(r.Results)-1]
				if x, h := phis[v]; h {
					v = x
				}
				if typeName(v.Type()) == "error" && !isNilConst(v) {
					if definitelyNonNil(v) {
						return
					}
					if isNil, h := vals[v]; h && !isNil {
						return
					}
				}
			}
			emit(known, r)
			return
		}
		for k, s := range b.Succs {
			nk, nv := known, vals
			if ifi, isIf := last.(*ssa.If); isIf && len(b.Succs) == 2 {
				t := k == 0
				cond := ifi.Cond
				if x, h := phis[cond]; h {
					cond = x
				}
				if kc, isC := cond.(*ssa.Const); isC && kc.Value != nil {
					if (kc.Value.ExactString() == "true") != t {
						continue
					}
				} else {
					es := edgeFacts(cond, t)
					contra := false
					for _, e := range es {
						if known[negAtom(e)] {
							contra = true
						}
					}
					if contra {
						continue
					}
					nk = make(map[string]bool, len(known)+len(es))
					for a := range known {
						nk[a] = true
					}
					for _, e := range es {
						nk[e] = true
					}
					if bo, isB := cond.(*ssa.BinOp); isB && (bo.Op.String() == "==" || bo.Op.String() == "!=") {
						o := bo.X
						if isNilConst(o) {
							o = bo.Y
						} else if !isNilConst(bo.Y) {
							o = nil
						}
						if o != nil {
							if x, h := phis[o]; h {
								o = x
							}
							isNil := (bo.Op.String() == "==") == t
							if definitelyNonNil(o) && isNil || isNilConst(o) && !isNil {
								continue
							}
							nv = map[ssa.Value]bool{}
							for a, x := range vals {
								nv[a] = x
							}
							nv[o] = isNil
						}
					}
				}
			}
			if l != nil && s == l.Head {
				if to == nil {
					n++
					emit(nk, last)
				}
				continue
			}
			if l != nil && !l.Body[s] {
				continue
			}
			walk(s, b, nk, nv, phis)
		}
	}
	k0 := map[string]bool{}
	for _, g := range base {
		k0[g] = true
	}
	walk(start, nil, k0, nil, map[ssa.Value]ssa.Value{})
	return
}

// negPat is the negation of a guard pattern.
func negPat(q string) string {
	if strings.HasPrefix(q, "…") || len(q) < 3 {
		return ""
	}
	return negAtom(q)
}

// unexcusedIn is unexcused within the innermost loop only.
func (p *Prog) unexcusedIn(facts *Facts, s Site, conds []string) (string, ssa.Instruction) {
	p.innerOnly = true
	defer func() { p.innerOnly = false }()
	return p.unexcused(facts, s, nil, conds)
}

// unexcused returns a way around the effect on which none of the conditions is
// known to fail.
func (p *Prog) unexcused(facts *Facts, s Site, sibs []Site, conds []string) (string, ssa.Instruction) {
	var neg []string
	loose := false
	for _, c := range conds {
		for _, q := range strings.Split(c, " OR ") {
			if n := negPat(q); n != "" {
				neg = append(neg, n)
			} else {
				neg = append(neg, q)
			}
			_ = loose
		}
	}
	for _, l := range p.enclosing(s) {
		if l.Over != nil {
			o := toP(l.Over.String())
			neg = append(neg, "T:(0 == call:len("+o+"))", "T:(call:len("+o+") <= 0)", "F:(0 < call:len("+o+"))", "T:(nil == "+o+")", "T:("+o+" == nil)")
		}
	}
	xs, ok := p.skips(facts, s, sibs)
	if !ok {
		return "", nil
	}
	for _, x := range xs {
		hit := p.cannot != nil && p.cannot(x.Known)
		for _, g := range x.Known {
			if globAny(g, neg...) {
				hit = true
				break
			}
		}
		if !hit {
			var show []string
			for _, g := range x.Known {
				if !strings.Contains(g, "ind:") {
					show = append(show, g)
				}
			}
			return strings.Join(show, " & "), x.At
		}
	}
	return "", nil
}

// skippedOnly: the effect is skipped only where, for one of the alternatives,
// every listed condition is known.
func (p *Prog) skippedOnly(r *Report, rule, key string, facts *Facts, s Site, sibs []Site, alts ...[]string) {
	xs, ok := p.skips(facts, s, sibs)
	if !ok {
		return
	}
	for _, x := range xs {
		fine := false
		for _, alt := range alts {
			all := true
			for _, c := range alt {
				hit := false
				for _, g := range x.Known {
					hit = hit || globAny(g, strings.Split(c, " OR ")...)
				}
				all = all && hit
			}
			fine = fine || all
		}
		r.at(rule, key, x.At, fine, "skips it, knowing "+trim(strings.Join(x.Known, " & "), 500))
	}
}

// ways lists what is known on each way to a site within its function (or the
// current iteration of its innermost loop).
func (p *Prog) ways(facts *Facts, s Site) ([]skip, bool) {
	start := s.C.Fn.Blocks[0]
	var in *Loop
	for _, l := range loopsOf(s.C.Fn) {
		if l.Body[s.I.Block()] && (in == nil || len(l.Body) < len(in.Body)) {
			in = l
		}
	}
	if in != nil {
		start = in.Head
	}
	xs, ok := p.paths(facts, s.C, start, in, nil, s.I.Block())
	here := facts.At(s.I, s.C)
	for i := range xs {
		for a := range here {
			if g, ok := guardText(a); ok {
				xs[i].Known = append(xs[i].Known, g)
			}
		}
	}
	return xs, ok
}

func knows(known []string, c string) bool {
	for _, g := range known {
		if globAny(g, strings.Split(c, " OR ")...) {
			return true
		}
	}
	return false
}

// reachedOnly: on every way to the site, for one of the alternatives, every
// listed condition is known.
func (p *Prog) reachedOnly(r *Report, rule, key string, facts *Facts, s Site, extra FactSet, alts ...[]string) {
	xs, ok := p.ways(facts, s)
	if !ok {
		return
	}
	for _, x := range xs {
		for a := range extra {
			if g, ok := guardText(a); ok {
				x.Known = append(x.Known, g)
			}
		}
		fine := false
		for _, alt := range alts {
			all := true
			for _, c := range alt {
				all = all && knows(x.Known, c)
			}
			fine = fine || all
		}
		r.at(rule, key, s.I, fine, "reached knowing only "+trim(strings.Join(x.Known, " & "), 600))
	}
}
