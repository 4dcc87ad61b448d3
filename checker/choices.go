package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// choice is one value a merge point can take, with what is known when it does.
type choice struct {
	E     *E
	Text  string
	Known FactSet
	At    ssa.Instruction
	C     *Ctx
}

// choices lists the alternatives of a value: through phis, and through the
// returns of calls that can be inlined.
func (p *Prog) choices(facts *Facts, v ssa.Value, c *Ctx, site ...Site) []choice {
	seen := map[ssa.Value]bool{}
	var out []choice
	var rec func(v ssa.Value, c *Ctx, known FactSet, at ssa.Instruction, depth int)
	rec = func(v ssa.Value, c *Ctx, known FactSet, at ssa.Instruction, depth int) {
		add := func(fs FactSet) FactSet {
			o := FactSet{}
			for a := range known {
				o[a] = true
			}
			for a := range fs {
				o[a] = true
			}
			return o
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if seen[x] || depth > 8 {
				return
			}
			seen[x] = true
			for i, e := range x.Edges {
				pred := x.Block().Preds[i]
				fs := facts.edge(pred, x.Block(), c)
				if fs == nil {
					continue
				}
				rec(e, c, add(fs), pred.Instrs[len(pred.Instrs)-1], depth+1)
			}
			delete(seen, x)
			return
		case *ssa.Call:
			if cc := p.callee(x, c); cc != nil && !p.Opaque[calleeName(x.Common())] && depth < 8 && x.Common().Signature().Results().Len() == 1 {
				for _, r := range returns(cc.Fn) {
					rec(r.Results[0], cc, add(facts.At(r, cc)), r, depth+1)
				}
				return
			}
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				if cc := p.callee(call, c); cc != nil && !p.Opaque[calleeName(call.Common())] && depth < 8 {
					for _, r := range returns(cc.Fn) {
						if failing(r, x.Index) {
							continue
						}
						if len(site) > 0 {
							// another result of the same call may be known here
							here := facts.At(site[0].I, site[0].C)
							extra, ok := FactSet{}, true
							for j, o := range r.Results {
								if j == x.Index || typeName(o.Type()) != "bool" {
									continue
								}
								for _, ref := range *call.Referrers() {
									ex, isE := ref.(*ssa.Extract)
									if !isE || ex.Index != j {
										continue
									}
									for _, t := range []bool{true, false} {
										if !here[atom(p.expr(ex, c), t)] {
											continue
										}
										if k, isC := o.(*ssa.Const); isC {
											ok = ok && (k.Value.ExactString() == "true") == t
										} else {
											for a := range facts.implied(o, t, cc, 0) {
												extra[a] = true
											}
										}
									}
								}
							}
							if !ok {
								continue
							}
							rec(r.Results[x.Index], cc, add(union2(facts.At(r, cc), extra)), r, depth+1)
							continue
						}
						rec(r.Results[x.Index], cc, add(facts.At(r, cc)), r, depth+1)
					}
					return
				}
			}
		case *ssa.ChangeInterface:
			rec(x.X, c, known, at, depth)
			return
		}
		e := p.expr(v, c)
		out = append(out, choice{e, partText(e), known, at, c})
	}
	rec(v, c, FactSet{}, nil, 0)
	return out
}

func union2(a, b FactSet) FactSet {
	o := FactSet{}
	for x := range a {
		o[x] = true
	}
	for x := range b {
		o[x] = true
	}
	return o
}

// chosen: at every merge point of the inlined program whose value looks like
// pat, each alternative is taken only under the condition its row demands
// (value pattern -> condition alternatives separated by " OR "). Returns the
// number of merge points judged.
func (p *Prog) chosen(r *Report, rule, key string, root *Ctx, pat string, rows map[string]string) int {
	facts := p.newFacts(nil)
	n := 0
	p.sites(root, func(s Site) {
		v, ok := s.I.(ssa.Value)
		if !ok {
			return
		}
		switch s.I.(type) {
		case *ssa.Phi, *ssa.Call, *ssa.Extract:
		default:
			return
		}
		if !glob(pat, partText(p.expr(v, s.C))) {
			return
		}
		cs := p.choices(facts, v, s.C)
		if len(cs) < 2 {
			return
		}
		n++
		for _, ch := range cs {
			if in(ch.Text, "zero", "nil") {
				continue
			}
			hit := false
			for vp, cond := range rows {
				if !glob(vp, ch.Text) {
					continue
				}
				hit = true
				if cond == "" {
					continue
				}
				ok := false
				for a := range ch.Known {
					if globAny(toP(strings.ReplaceAll(a, " | zero}", "}")), strings.Split(cond, " OR ")...) {
						ok = true
					}
				}
				r.at(rule, key+": "+trim(ch.Text, 100)+" chosen", s.I, ok, "taken without "+cond+" being known")
			}
			r.at(rule, key+" alternative", s.I, hit, "unexpected alternative "+trim(ch.Text, 200))
		}
	})
	return n
}
