package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// exists recognises a boolean that is true exactly when some element of a
// collection satisfies a condition, however it is computed: a flag set in a
// loop, a helper function with an early return, or slices.Contains. The
// result reads any(OVER: COND).
func (f *Facts) exists(v ssa.Value, c *Ctx) (string, bool) {
	p := f.p
	switch x := v.(type) {
	case *ssa.Phi:
		if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			return "", false
		}
		return f.flag(x, c)
	case *ssa.Call:
		n := calleeName(x.Common())
		if strings.HasPrefix(n, "slices.Contains[") || n == "slices.Contains" {
			s := p.expr(x.Common().Args[0], c)
			el := mk("elem", "", s)
			return "any(" + s.String() + ": T:" + binExpr(token.EQL, el, p.expr(x.Common().Args[1], c), nil).String() + ")", true
		}
		if p.Opaque[n] {
			return "", false
		}
		cc := p.callee(x, c)
		if cc == nil || cc.Fn.Signature.Results().Len() != 1 {
			return "", false
		}
		return f.earlyReturn(cc)
	}
	return "", false
}

type leaf struct {
	v         ssa.Value
	pred, blk *ssa.BasicBlock
}

func constBool(v ssa.Value) (val, ok bool) {
	k, isK := v.(*ssa.Const)
	if !isK || k.Value == nil {
		return false, false
	}
	s := k.Value.ExactString()
	return s == "true", s == "true" || s == "false"
}

func (f *Facts) flag(x *ssa.Phi, c *Ctx) (string, bool) {
	web := map[ssa.Value]bool{}
	var leaves []leaf
	var rec func(ph *ssa.Phi)
	rec = func(ph *ssa.Phi) {
		if web[ph] {
			return
		}
		web[ph] = true
		for i, e := range ph.Edges {
			if q, ok := e.(*ssa.Phi); ok {
				rec(q)
				continue
			}
			leaves = append(leaves, leaf{e, ph.Block().Preds[i], ph.Block()})
		}
	}
	rec(x)
	var trues, falses []leaf
	for _, l := range leaves {
		val, ok := constBool(l.v)
		switch {
		case ok && val:
			// "true" because the flag already was
			if ifi, isIf := l.pred.Instrs[len(l.pred.Instrs)-1].(*ssa.If); isIf && web[ifi.Cond] && l.pred.Succs[0] == l.blk && l.pred.Succs[1] != l.blk {
				continue
			}
			trues = append(trues, l)
		case ok:
			falses = append(falses, l)
		default:
			trues = append(trues, l)
		}
	}
	if len(trues) == 0 || len(falses) == 0 {
		return "", false
	}
	// the loops the flag is computed by: those around the true leaves and not around where it starts out false
	return f.anyOver(c, trues, func(l *Loop) bool {
		for _, fl := range falses {
			if l.Body[fl.pred] && l.Body[fl.blk] {
				return false
			}
		}
		return true
	})
}

func (f *Facts) earlyReturn(c *Ctx) (string, bool) {
	var trues []leaf
	for _, r := range returns(c.Fn) {
		b := r.Block()
		res := r.Results[0]
		if ph, ok := res.(*ssa.Phi); ok {
			_ = ph
			return "", false
		}
		val, ok := constBool(res)
		if !ok {
			return "", false
		}
		if !val {
			for _, pr := range b.Preds {
				for _, l := range loopsOf(c.Fn) {
					if l.Body[pr] && pr != testBlock(l) {
						return "", false
					}
				}
			}
			continue
		}
		for _, pr := range b.Preds {
			trues = append(trues, leaf{res, pr, b})
		}
	}
	if len(trues) == 0 {
		return "", false
	}
	return f.anyOver(c, trues, func(*Loop) bool { return true })
}

// testBlock is the block whose test ends the loop when the collection is
// exhausted.
func testBlock(l *Loop) *ssa.BasicBlock {
	for b := range l.Body {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Next); ok {
				return b
			}
		}
	}
	if _, ok := l.Head.Instrs[len(l.Head.Instrs)-1].(*ssa.If); ok {
		return l.Head
	}
	return nil
}

func (f *Facts) anyOver(c *Ctx, trues []leaf, use func(*Loop) bool) (string, bool) {
	p := f.p
	cf := f.ctx(c)
	text := ""
	for _, l := range trues {
		var ls []*Loop
		for q := l.pred; len(ls) == 0; q = q.Preds[0] {
			for _, lp := range loopsOf(c.Fn) {
				if lp.Body[q] && use(lp) {
					ls = append(ls, lp)
				}
			}
			if len(q.Preds) != 1 {
				break
			}
		}
		if len(ls) == 0 {
			return "", false
		}
		sort.Slice(ls, func(i, j int) bool { return len(ls[i].Body) > len(ls[j].Body) })
		var overs []string
		base := FactSet{}
		for _, lp := range ls {
			tb := testBlock(lp)
			if tb == nil {
				return "", false
			}
			over := p.over(lp, c)
			if over == nil {
				return "", false
			}
			overs = append(overs, over.String())
			for b := range lp.Body {
				for _, s := range b.Succs {
					if lp.Body[s] {
						if b == tb {
							for a := range f.edge(b, s, c) {
								base[a] = true
							}
						}
						continue
					}
					if b == tb {
						continue
					}
					// leaving early must mean it was found
					found := false
					for _, t := range trues {
						found = found || t.pred == b && t.blk == s
					}
					// a block in between
					if !found && len(s.Preds) == 1 && len(s.Succs) == 1 {
						for _, t := range trues {
							found = found || t.pred == s
						}
					}
					if !found {
						return "", false
					}
				}
			}
			for a := range cf.in[lp.Head] {
				base[a] = true
			}
		}
		known := f.edge(l.pred, l.blk, c).clone()
		if _, isK := constBool(l.v); !isK {
			for a := range f.implied(l.v, true, c, 3) {
				known[a] = true
			}
		}
		var conds []string
		for a := range known {
			if !base[a] && !strings.HasPrefix(a, "E:") && !strings.HasPrefix(a, "N:") {
				if base[negAtom(a)] || strings.HasPrefix(a, "F:any("+strings.Join(overs, ", ")+": ") {
					continue
				}
				conds = append(conds, a)
			}
		}
		if len(conds) == 0 {
			return "", false
		}
		sort.Strings(conds)
		t := "any(" + strings.Join(overs, ", ") + ": " + strings.Join(conds, " & ") + ")"
		if text != "" && text != t {
			return "", false
		}
		text = t
	}
	return text, text != ""
}
