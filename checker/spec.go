package main

import (
	"fmt"
	"go/token"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// want is one row of a function's specification: a write (or a dispatched
// call) the function performs, the value it writes, the collections it is
// repeated over, and the conditions it happens under.
type want struct {
	T       string   // target, with "…" wildcards; P is the current part
	V       []string // acceptable values
	Loops   []string // nil: not judged; else the enclosing loops' collections, innermost first
	When    []string // conditions that must hold there
	May     []string // further conditions that may hold there; nil with Exact means none
	Exact   bool     // no condition beyond When and May
	Once    bool     // at most once per iteration
	Opt     bool     // may be absent
	MinN    int
	MaySkip bool   // the conditions for it not happening are not judged
	Break   string // condition under which the loops may end early (the rest would not qualify)
}

// acts lists what the inlined program rooted at f does to its environment:
// stores to non-fresh locations and calls that cannot be inlined.
func (p *Prog) acts(f *ssa.Function) (out []Effect) {
	root := rootCtx(f)
	if m := p.actMemo[f]; m != nil {
		return m
	}
	for _, e := range p.effects(root) {
		if e.Field == "" || p.fresh || !isFresh(e.Base) {
			out = append(out, e)
		}
	}
	p.sites(root, func(s Site) {
		ci, ok := s.I.(ssa.CallInstruction)
		if !ok {
			return
		}
		n := calleeName(ci.Common())
		if p.callee(ci, s.C) != nil && !p.Opaque[n] {
			return
		}
		var args []*E
		if ci.Common().IsInvoke() {
			args = append(args, p.expr(ci.Common().Value, s.C))
		}
		for _, a := range ci.Common().Args {
			args = append(args, p.expr(a, s.C))
		}
		tgt := "call:" + n
		if k := p.closedName(ci, s.C); k != "" {
			n, tgt = k, "call:"+k
		} else if n == "dyn" {
			tgt = "call:" + p.expr(ci.Common().Value, s.C).String()
		}
		if _, isGo := ci.(*ssa.Go); isGo {
			tgt = "go:" + n
		}
		out = append(out, Effect{Site: s, Target: tgt, Base: mk("fn", n), Field: "call", Val: mk("args", "", args...)})
	})
	if p.actMemo == nil {
		p.actMemo = map[*ssa.Function][]Effect{}
	}
	p.actMemo[f] = out
	return
}

var oneAlt = regexp.MustCompile(`\{([^{}|]*)\}`)

func toP(s string) string {
	return strings.ReplaceAll(norm(s), "elem(arg0.CurrentParts)", "P")
}

// guards are the conditions known at a site, without loop bookkeeping and
// "no error so far".
func (p *Prog) guards(facts *Facts, s Site) (out []string) {
	fs := facts.At(s.I, s.C)
	for _, a := range fs.sorted() {
		if t, ok := plainGuard(a); ok {
			out = append(out, t)
		}
	}
	return
}

func plainGuard(a string) (string, bool) {
	if strings.HasPrefix(a, "E:") || strings.HasPrefix(a, "N:") {
		return "", false
	}
	t := toP(strings.ReplaceAll(a, " | zero}", "}"))
	t = oneAlt.ReplaceAllString(t, "$1")
	if strings.Contains(t, "ind:") && strings.Contains(t, "call:len(") {
		return "", false
	}
	if strings.HasPrefix(t, "T:more(") || strings.HasPrefix(t, "F:more(") || strings.HasPrefix(t, "T:(nil == ") || strings.HasPrefix(t, "T:(") && strings.HasSuffix(t, " == nil)") {
		return "", false
	}
	return t, true
}

// earlyExit reports an exit of a loop, other than its own end condition, that
// does not report an error.
func (p *Prog) earlyExit(l *Loop, c *Ctx, allow ...string) ssa.Instruction {
	ends := map[*ssa.BasicBlock]bool{l.Head: true}
	for b := range l.Body {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Next); ok {
				ends[b] = true
			}
		}
	}
	for b := range l.Body {
		if ends[b] {
			continue
		}
		// the bottom test of a rotated loop
		if ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if bo, ok := ifi.Cond.(*ssa.BinOp); ok {
				if _, _, ind := induction(bo.X); ind && (b.Succs[0] == l.Head || b.Succs[1] == l.Head) {
					continue
				}
			}
		}
		for _, s := range b.Succs {
			if l.Body[s] {
				continue
			}
			if len(allow) > 0 {
				facts := p.newFacts(nil)
				ok := false
				for a := range union2(facts.edge(b, s, c), facts.At(b.Instrs[len(b.Instrs)-1], c)) {
					ok = ok || globAny(toP(a), allow...)
				}
				if ok {
					continue
				}
			}
			seen := map[*ssa.BasicBlock]bool{}
			if i := goodReturn(s, seen); i != nil {
				return b.Instrs[len(b.Instrs)-1]
			}
		}
	}
	return nil
}

// goodReturn finds a reachable return that does not carry an error.
func goodReturn(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) ssa.Instruction {
	if seen[b] {
		return nil
	}
	seen[b] = true
	if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		if len(r.Results) == 0 {
			return r
		}
		last := r.Results[len(r.Results)-1]
		if typeName(last.Type()) != "error" || isNilConst(last) {
			return r
		}
		if ph, ok := last.(*ssa.Phi); ok && ph.Block() == b {
			for _, e := range ph.Edges {
				if isNilConst(e) {
					return r
				}
			}
		}
		return nil
	}
	for _, s := range b.Succs {
		if r := goodReturn(s, seen); r != nil {
			return r
		}
	}
	return nil
}

// judge compares one effect with a row; "" when it satisfies it.
func (p *Prog) judge(facts *Facts, e Effect, w want) string {
	got := partText(e.Val)
	if len(w.V) > 0 && !globAny(got, w.V...) {
		return "value is " + trim(got, 400) + "; expected " + trim(strings.Join(w.V, " or "), 400)
	}
	if w.Loops != nil {
		ls := p.enclosing(e.Site)
		var os []string
		for _, l := range ls {
			os = append(os, strings.ReplaceAll(overText(l), "elem(arg0.CurrentParts)", "P"))
		}
		ok := len(os) == len(w.Loops)
		for i := range os {
			ok = ok && globAny(os[i], strings.Split(w.Loops[i], " OR ")...)
		}
		if !ok {
			return "repeated over [" + trim(strings.Join(os, "; "), 300) + "], expected [" + strings.Join(w.Loops, "; ") + "]"
		}
		for _, l := range ls {
			var allow []string
			if w.Break != "" {
				allow = strings.Split(w.Break, " OR ")
			}
			if x := p.earlyExit(l.L, l.C, allow...); x != nil {
				return "the loop over " + overText(l) + " can end early without an error at " + p.ipos(x)
			}
		}
	}
	if w.When != nil || w.Exact {
		gs := p.guards(facts, e.Site)
		used := map[string]bool{}
		for _, c := range w.When {
			hit := false
			for _, g := range gs {
				if globAny(g, strings.Split(c, " OR ")...) {
					hit = true
					used[g] = true
				}
			}
			if !hit {
				return "not conditional on " + c + " (known here: " + trim(strings.Join(gs, " & "), 400) + ")"
			}
		}
		if w.Exact {
			for _, g := range gs {
				if used[g] || globAny(g, w.May...) {
					continue
				}
				if in(g, "T:{false | true}", "F:{false | true}") {
					extra, n := "", 0
					for _, alt := range p.boolAlts(facts, e.Site, g[0] == 'T') {
						n++
						for _, x := range alt {
							if !in(x, gs...) && !globAny(x, w.When...) && !globAny(x, w.May...) {
								extra = x
							}
						}
					}
					if n > 0 && extra == "" {
						continue
					}
					if extra != "" {
						g = extra
					}
				}
				return "only happens under " + trim(g, 300)
			}
		}
	}
	return ""
}

// effectSpec: within the targets of frame, f does exactly what the rows say.
func (p *Prog) effectSpec(r *Report, rule, fn string, frame []string, rows ...want) {
	f := p.fn(fn)
	if f == nil {
		r.ob(rule, fn, "", false, "this function is gone")
		return
	}
	p.effectSpecOf(r, rule, fn, f, frame, rows...)
}

func (p *Prog) effectSpecOf(r *Report, rule, fn string, f *ssa.Function, frame []string, rows ...want) {
	facts := p.newFacts(nil)
	hit := make([][]Effect, len(rows))
	for _, e := range p.acts(f) {
		t := toP(e.Target)
		if !globAny(t, frame...) {
			continue
		}
		why := "not among the writes this function is meant to perform"
		ok, judged := false, false
		for i, w := range rows {
			if !globAny(t, strings.Split(w.T, " OR ")...) {
				continue
			}
			y := p.judge(facts, e, w)
			if y == "" {
				ok = true
				hit[i] = append(hit[i], e)
				break
			}
			if !judged || !strings.HasPrefix(y, "value is ") {
				why, judged = y, true
			}
		}
		r.at(rule, fn+" "+trim(t, 120), e.I, ok, why)
	}
	for i, w := range rows {
		for _, e := range hit[i] {
			if !w.Exact || w.Opt || w.MaySkip {
				continue
			}
			var sibs []Site
			for j := range rows {
				if rows[j].T == w.T {
					for _, o := range hit[j] {
						sibs = append(sibs, o.Site)
					}
				}
			}
			conds := append(append([]string{}, w.When...), w.May...)
			why, at := p.unexcused(facts, e.Site, sibs, conds)
			pos := ""
			if at != nil {
				pos = p.ipos(at)
			}
			r.at(rule, fn+" always "+trim(w.T, 80), e.I, at == nil, "can be skipped (to "+pos+") when "+trim(why, 400))
		}
		r.ob(rule, fn+" performs "+w.T+" "+trim(strings.Join(w.V, " or "), 80), p.pos(f.Pos())+" ["+fname(f)+"]", len(hit[i]) > w.MinN || w.Opt || len(hit[i]) > 0 && w.MinN == 0, "nothing in the function does this any more")
		if w.Once {
			for a := range hit[i] {
				for b := range hit[i] {
					if a != b && before(hit[i][a].Site, hit[i][b].Site) {
						r.at(rule, fn+" once "+w.T, hit[i][b].I, false, "happens twice: also at "+p.ipos(hit[i][a].I))
					}
				}
			}
		}
	}
}

// boolAlts: the tests of merged booleans that decide whether the site is
// reached, as the alternatives under which they let it be reached.
func (p *Prog) boolAlts(facts *Facts, s Site, truth bool) (out [][]string) {
	for _, lv := range levels(s) {
		for _, b := range lv.C.Fn.Blocks {
			ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || !b.Dominates(lv.I.Block()) || b == lv.I.Block() {
				continue
			}
			v, want := ifi.Cond, truth
			for {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				v, want = u.X, !want
			}
			if text(p.expr(v, lv.C)) != "{false | true}" {
				continue
			}
			for _, c := range p.choices(facts, v, lv.C) {
				if in(c.Text, "true", "false") && (c.Text == "true") != want {
					continue
				}
				var alt []string
				for a := range c.Known {
					if g, ok := plainGuard(a); ok && !strings.Contains(g, "{false | true}") {
						alt = append(alt, g)
					}
				}
				if !in(c.Text, "true", "false") {
					if g, ok := guardText(atom(c.E, want)); ok {
						alt = append(alt, g)
					}
				}
				out = append(out, alt)
			}
		}
	}
	return
}

// returnSpec: every value f returns (as result idx) is one of the patterns.
func (p *Prog) returnSpec(r *Report, rule, fn string, idx int, pats ...string) {
	f := p.fn(fn)
	if f == nil {
		r.ob(rule, fn, "", false, "this function is gone")
		return
	}
	got := p.returned(f, idx)
	r.ob(rule, fmt.Sprintf("%s result %d", fn, idx), p.pos(f.Pos())+" ["+fname(f)+"]", globAny(got, pats...), "returns "+trim(got, 600)+"; expected "+trim(strings.Join(pats, " or "), 600))
}

func (p *Prog) returned(f *ssa.Function, idx int) string {
	var es []*E
	for _, ret := range returns(f) {
		if idx < len(ret.Results) {
			es = append(es, p.expr(ret.Results[idx], rootCtx(f)))
		}
	}
	return partText(union(es))
}
