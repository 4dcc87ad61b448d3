package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// way is one way a function can return: its results and what is known then.
type way struct {
	at    ssa.Instruction
	vals  []string // spelled out
	short []string // made values by the place they are made
	facts FactSet
	from  *ssa.BasicBlock
	ctx   *Ctx
}

// waysOut lists the ways an inlined function can return. A result chosen by a
// merge is taken apart by the edges of the merge, and one forwarded from an
// inlined call by the returns of the callee.
func (p *Prog) waysOut(c *Ctx, facts *Facts) (out []way) {
	for _, ret := range returns(c.Fn) {
		out = append(out, p.waysAt(ret, ret.Results, ret.Block(), facts.At(ret, c), c, facts, 0)...)
	}
	return
}

func (p *Prog) waysAt(at ssa.Instruction, res []ssa.Value, b *ssa.BasicBlock, known FactSet, c *Ctx, facts *Facts, depth int) (out []way) {
	if depth < 4 {
		split := false
		for _, r := range res {
			if ph, ok := r.(*ssa.Phi); ok && ph.Block() == b {
				split = true
			}
		}
		if split {
			for j, pr := range b.Preds {
				nr := append([]ssa.Value{}, res...)
				for i, r := range res {
					if ph, ok := r.(*ssa.Phi); ok && ph.Block() == b {
						nr[i] = ph.Edges[j]
					}
				}
				k := facts.edge(pr, b, c).clone()
				for a := range known {
					k[a] = true
				}
				out = append(out, p.waysAt(at, nr, pr, k, c, facts, depth+1)...)
			}
			return
		}
		var call *ssa.Call
		all := len(res) > 0
		for i, r := range res {
			x, ok := r.(*ssa.Extract)
			if ok {
				cl, isCall := x.Tuple.(*ssa.Call)
				all = all && isCall && x.Index == i && (call == nil || call == cl)
				call = cl
				continue
			}
			cl, isCall := r.(*ssa.Call)
			all = all && isCall && len(res) == 1
			call = cl
		}
		if all && call != nil && !p.Opaque[calleeName(call.Common())] {
			if cc := p.callee(call, c); cc != nil && relPkg(cc.Fn) != "" && cc.Fn.Signature.Results().Len() == len(res) {
				for _, w := range p.waysOut(cc, facts) {
					k := w.facts.clone()
					for a := range known {
						k[a] = true
					}
					out = append(out, way{at, w.vals, w.short, k, w.from, w.ctx})
				}
				return
			}
		}
	}
	// an error that comes from an inlined call, by the ways that call fails
	if n := len(res) - 1; depth < 4 && n > 0 && typeName(res[n].Type()) == "error" {
		var call *ssa.Call
		i := 0
		switch x := res[n].(type) {
		case *ssa.Extract:
			call, _ = x.Tuple.(*ssa.Call)
			i = x.Index
		case *ssa.Call:
			call = x
		}
		if call != nil && !p.Opaque[calleeName(call.Common())] {
			if cc := p.callee(call, c); cc != nil && relPkg(cc.Fn) != "" && i == cc.Fn.Signature.Results().Len()-1 {
				if known[atom(binExpr(token.EQL, p.expr(res[n], c), mk("const", "nil"), res[n].Type()), false)] {
					for _, w := range p.waysOut(cc, facts) {
						if w.vals[i] == "nil" {
							continue
						}
						k := w.facts.clone()
						for a := range known {
							k[a] = true
						}
						x := way{at: at, facts: k, from: b, ctx: c}
						for j, r := range res {
							if j == n {
								x.vals = append(x.vals, w.vals[i])
								x.short = append(x.short, w.short[i])
								continue
							}
							e := p.expr(stored(r, b), c)
							x.vals = append(x.vals, norm(p.shape(e)))
							x.short = append(x.short, partText(e))
						}
						out = append(out, x)
					}
					return
				}
			}
		}
	}
	w := way{at: at, facts: known, from: b, ctx: c}
	for _, r := range res {
		e := p.expr(stored(r, b), c)
		w.vals = append(w.vals, norm(p.shape(e)))
		w.short = append(w.short, partText(e))
	}
	return []way{w}
}

// knownWay: one of the patterns is known on every way into the block, though it
// need not be the same one.
func (f *Facts) knownWay(b *ssa.BasicBlock, c *Ctx, known FactSet, pats []string, depth int) bool {
	if known.match(pats...) {
		return true
	}
	if b == nil || depth > 3 || len(b.Preds) < 2 {
		return false
	}
	for _, pr := range b.Preds {
		if b.Dominates(pr) {
			return false
		}
		k := f.edge(pr, b, c).clone()
		for a := range known {
			k[a] = true
		}
		if !f.knownWay(pr, c, k, pats, depth+1) {
			return false
		}
	}
	return true
}

// stored gives the value last stored to a result variable of a function that
// recovers from panics.
func stored(v ssa.Value, b *ssa.BasicBlock) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return v
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	for n := 0; n < 10; n++ {
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if st, ok := b.Instrs[i].(*ssa.Store); ok && st.Addr == a {
				return st.Val
			}
		}
		if len(b.Preds) != 1 {
			return v
		}
		b = b.Preds[0]
	}
	return v
}

// retRow is a permitted way to return, with what must be known for it.
type retRow struct {
	V    []string
	When []string
	Opt  bool
}

// returnRows: every way the function returns is one of the rows, and every row
// occurs.
func (p *Prog) returnRows(r *Report, rule, fn string, rows ...retRow) {
	f := p.fn(fn)
	if f == nil {
		r.ob(rule, fn, "", false, "this function is gone")
		return
	}
	p.returnRowsOf(r, rule, fn, rootCtx(f), rows...)
}

func (p *Prog) returnRowsOf(r *Report, rule, fn string, c *Ctx, rows ...retRow) {
	facts := p.newFacts(nil)
	hit := make([]bool, len(rows))
	for _, w := range p.waysOut(c, facts) {
		ok, why := false, "returns "+trim(strings.Join(w.vals, ", "), 300)+", which it is not meant to"
		for i, ro := range rows {
			fits := true
			for j, v := range ro.V {
				fits = fits && j < len(w.vals) && (globAny(w.vals[j], strings.Split(v, " OR ")...) || globAny(w.short[j], strings.Split(v, " OR ")...))
			}
			if !fits {
				continue
			}
			missing := ""
			for _, q := range ro.When {
				if !facts.knownWay(w.from, w.ctx, w.facts, strings.Split(q, " OR "), 0) {
					missing = q
				}
			}
			if missing != "" {
				why = "returns " + trim(strings.Join(w.vals, ", "), 200) + " without " + missing
				continue
			}
			ok, hit[i] = true, true
			break
		}
		r.at(rule, fn+" returns", w.at, ok, why+" [known: "+trim(strings.Join(w.facts.sorted(), " "), 300)+"]")
	}
	for i, ro := range rows {
		if !ro.Opt {
			r.ob(rule, fmt.Sprintf("%s can return %s", fn, trim(strings.Join(ro.V, ", "), 100)), p.pos(c.Fn.Pos())+" ["+fname(c.Fn)+"]", hit[i], "it never does any more")
		}
	}
}
