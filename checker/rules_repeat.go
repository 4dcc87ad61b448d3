package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C10"] = checkRepeats
}

const invUpdate = "call:inv:UpdateScore"

func alts(xs ...string) string { return strings.Join(xs, " OR ") }

func checkRepeats(p *Prog, r *Report) {
	r.rule("order", "events are applied once each, in the order written, until one fails")
	r.rule("context", "an error is reported at the place of the event that failed")
	r.rule("repeat", "a repeat applies its event once for each repetition 1..n, numbering it for the current parts, and then restores the number of the repeat around it")
	r.rule("ending", "an event on certain repetitions happens exactly when the current repetition is in one of its ranges, ends included")
	r.rule("variable", "a variable reference stands for the events last assigned to that name, with the variables in them replaced at the time of definition; an undefined one is an error")
	r.rule("marker", "a marker records the common offset of the current parts; jumping to an unknown marker is an error")
	r.rule("value", "the value of an event with events inside it is that event with each of them replaced by its value, in order")

	loopOf := map[string][]string{
		"(model.EventSequence).UpdateScore":     {"recv.Events"},
		"(model.Chord).UpdateScore":             {"recv.Events"},
		"(model.Cram).UpdateScore":              {"recv.Events"},
		"(model.VariableReference).UpdateScore": {"lk(arg0.Variables, recv.VariableName)"},
	}
	for _, fn := range sortedKeys(loopOf) {
		over := loopOf[fn][0]
		w := want{T: invUpdate, V: []string{"args(elem(" + over + "), arg0)"}, Loops: []string{over}, Exact: true, Once: true, May: []string{"T:hit(arg0.Variables, recv.VariableName)", "F:(nil == lk(arg0.Variables, recv.VariableName))"}}
		p.effectSpec(r, "order", fn, []string{invUpdate}, w)
		p.noErrorSkips(r, "order", fn)
	}
	p.effectSpec(r, "order", "(*model.Score).Update", []string{invUpdate},
		want{T: invUpdate, V: []string{"args(elem(arg0), recv)"}, Loops: []string{"arg0"}, Exact: true, Once: true})
	p.noErrorSkips(r, "order", "(*model.Score).Update")
	if f := p.fn("(*model.Score).Update"); f != nil {
		n := 0
		for _, o := range p.outcomesAll(f, 0) {
			n++
			r.at("context", "error of an event", o.site.I, globAny(o.shape, "AldaSourceError{Context=call:inv:GetSourceContext(elem(arg0)), Err="+invUpdate+"(elem(arg0), recv)}"), "reported as "+trim(o.shape, 300))
		}
		r.ob("context", "errors reported", p.pos(f.Pos())+" ["+fname(f)+"]", n > 0, "no error is reported")
	}

	p.repeatRule(r)
	p.endingRule(r)
	p.variableRule(r)
	p.markerRule(r)
	p.valueRule(r)
}

// outcomesAll: the non-nil values returned as result idx.
func (p *Prog) outcomesAll(f *ssa.Function, idx int) (out []outcome) {
	root := rootCtx(f)
	facts := p.newFacts(nil)
	for _, ret := range returns(f) {
		if len(ret.Results) <= idx || isNilConst(ret.Results[idx]) {
			continue
		}
		e := p.expr(ret.Results[idx], root)
		out = append(out, outcome{p.shape(e), e, p.guards(facts, Site{I: ret, C: root}), Site{I: ret, C: root}})
	}
	return
}

// noErrorSkips: every error that an applied event returns ends the function
// with an error.
func (p *Prog) noErrorSkips(r *Report, rule, fn string) {
	f := p.fn(fn)
	if f == nil {
		return
	}
	p.sites(rootCtx(f), func(s Site) {
		c, ok := s.I.(*ssa.Call)
		if !ok || !in(calleeName(c.Common()), "inv:UpdateScore", "inv:VariableValue") && !(c.Common().IsInvoke() && in(c.Common().Method.Name(), "UpdateScore", "VariableValue")) {
			return
		}
		why := p.errorLost(c)
		r.at(rule, "its error", c, why == "", why)
	})
}

func (p *Prog) repeatRule(r *Report) {
	const fn = "(model.Repeat).UpdateScore"
	f := p.fn(fn)
	if f == nil {
		r.ob("repeat", fn, "", false, "gone")
		return
	}
	// the two ways of counting 1..n
	type count struct{ v, in, out string }
	counts := []count{{"ind:1+1", "T:(ind:1+1 <= recv.Times)", "T:(recv.Times < ind:1+1)"}, {"(1 + ind:0+1)", "T:(ind:0+1 < recv.Times)", "T:(recv.Times <= ind:0+1)"}, {"(ind:0+1 + 1)", "T:(ind:0+1 < recv.Times)", "T:(recv.Times <= ind:0+1)"}}
	pick := func(f *ssa.Function, tgt string) (c count, ok bool) {
		for _, e := range p.acts(f) {
			if toP(e.Target) != tgt {
				continue
			}
			for _, k := range counts {
				if partText(e.Val) == norm(k.v) || norm(partText(e.Val)) == norm(k.v) {
					return k, true
				}
			}
		}
		return
	}
	cnt, ok := pick(f, "P.currentRepetition")
	r.ob("repeat", "numbering", p.pos(f.Pos())+" ["+fn+"]", ok, "the repetitions are not numbered 1, 2, …, n for the current parts")
	if ok {
		saved := "lk(new:map[*model.Part]int32(), P.origin)"
		p.effectSpecOf(r, "repeat", fn, f, []string{"P.…", "arg0.…", invUpdate, "new:map[*model.Part]int32()…"},
			want{T: "P.currentRepetition", V: []string{cnt.v}, Loops: []string{"arg0.CurrentParts", "? OR upto(recv.Times)"}, When: []string{cnt.in}, Exact: true, Once: true, MaySkip: true},
			want{T: "P.currentRepetition", V: []string{saved}, Loops: []string{"arg0.CurrentParts"}, May: []string{cnt.out}, Exact: true, Once: true, MaySkip: true},
			want{T: invUpdate, V: []string{"args(elem(slicelit(recv.Event)), arg0)"}, Loops: []string{"slicelit(recv.Event)", "? OR upto(recv.Times)"}, When: []string{cnt.in}, Exact: true, Once: true, MaySkip: true},
		)
		var num, rest, upd, save []Site
		for _, e := range append(p.acts(f), p.effects(rootCtx(f))...) {
			switch t := toP(e.Target); {
			case t == "P.currentRepetition" && norm(partText(e.Val)) == norm(cnt.v):
				num = append(num, e.Site)
			case t == "P.currentRepetition":
				rest = append(rest, e.Site)
			case t == invUpdate:
				upd = append(upd, e.Site)
			case glob("new:map[*model.Part]int32()[…", t):
				save = append(save, e.Site)
				r.at("repeat", "the repetition around it", e.I, t == "new:map[*model.Part]int32()[P.origin]" && partText(e.Val) == "P.currentRepetition", "remembers "+partText(e.Val)+" as "+t)
			}
		}
		r.ob("repeat", "the repetition around it remembered", p.pos(f.Pos())+" ["+fn+"]", len(save) > 0, "the number of the repetition around this repeat is not remembered")
		for _, u := range upd {
			for _, n := range num {
				r.at("repeat", "numbered before the event", u.I, p.sameIteration(n, u), "the event can happen before the repetition is numbered")
			}
			for _, x := range rest {
				r.at("repeat", "restored at the end", x.I, before(u, x) && !before(x, u), "restored before the repetitions are over")
			}
		}
		for _, s := range save {
			for _, n := range num {
				r.at("repeat", "remembered first", s.I, before(s, n) && !before(n, s), "remembered after it was overwritten")
			}
		}
		p.noErrorSkips(r, "repeat", fn)
	}
	const dn = "(model.Repeat).DurationMs"
	d := p.fn(dn)
	if d == nil {
		r.ob("repeat", dn, "", false, "gone")
		return
	}
	cnt, ok = pick(d, "arg0.currentRepetition")
	r.ob("repeat", "numbering of durations", p.pos(d.Pos())+" ["+dn+"]", ok, "the repetitions are not numbered 1, 2, …, n for the part")
	if !ok {
		return
	}
	p.effectSpecOf(r, "repeat", dn, d, []string{"arg0.…", "call:inv:DurationMs"},
		want{T: "arg0.currentRepetition", V: []string{cnt.v}, Loops: []string{"? OR upto(recv.Times)"}, When: []string{cnt.in}, Exact: true, Once: true, MaySkip: true},
		want{T: "arg0.currentRepetition", V: []string{"arg0.currentRepetition"}, Loops: []string{}, May: []string{cnt.out}, Exact: true, Once: true, MaySkip: true},
		want{T: "call:inv:DurationMs", V: []string{"args(recv.Event, arg0)"}, Loops: []string{"? OR upto(recv.Times)"}, When: []string{cnt.in}, Exact: true, Once: true, MaySkip: true},
	)
	p.returnSpec(r, "repeat", dn, 0, "{(call:inv:DurationMs(recv.Event, arg0) + rec) | 0}")
	for _, e := range p.acts(d) {
		st, ok := e.I.(*ssa.Store)
		if !ok || e.Target != "arg0.currentRepetition" || partText(e.Val) != "arg0.currentRepetition" {
			continue
		}
		ld, ok := st.Val.(*ssa.UnOp)
		r.at("repeat", "restored value", st, ok, "not the value the part had")
		if !ok {
			continue
		}
		for _, n := range p.acts(d) {
			if n.Target == "arg0.currentRepetition" && n.I != e.I {
				r.at("repeat", "remembered first", st, !before(n.Site, Site{I: ld, C: e.C}), "the value restored is read after it was overwritten")
			}
		}
	}
}

// sameIteration: a happens before b in every iteration in which b happens.
func (p *Prog) sameIteration(a, b Site) bool { return before(a, b) }

func (p *Prog) endingRule(r *Report) {
	const fn = "(model.OnRepetitions).UpdateScore"
	f := p.fn(fn)
	if f == nil {
		r.ob("ending", fn, "", false, "gone")
		return
	}
	lo, hi := "T:(elem(recv.Repetitions).First <= %.currentRepetition)", "T:(%.currentRepetition <= elem(recv.Repetitions).Last)"
	of := func(s, x string) string { return strings.ReplaceAll(s, "%", x) }
	anyOf := func(over, x string) string {
		return alts("T:any("+over+": "+of(hi, x)+" & "+of(lo, x)+")", "T:any("+over+": "+of(lo, x)+" & "+of(hi, x)+")")
	}
	when := alts(anyOf("recv.Repetitions", "P"), anyOf("arg0.CurrentParts, recv.Repetitions", "P"), anyOf("recv.Repetitions", "elem(arg0.CurrentParts)"), anyOf("arg0.CurrentParts, recv.Repetitions", "elem(arg0.CurrentParts)"))
	when = alts(when, "T:any(arg0.CurrentParts: T:(….currentRepetition <= elem(recv.Repetitions).Last) & T:(elem(recv.Repetitions).First <= ….currentRepetition) & T:any(recv.Repetitions: …))")
	may := []string{of(lo, "P"), of(hi, "P")}
	may = append(may, strings.Split(when, " OR ")...)
	p.effectSpecOf(r, "ending", fn, f, []string{"arg0.…", "P.…", invUpdate},
		want{T: invUpdate, V: []string{"args(elem(slicelit(recv.Event)), arg0)"}, Loops: []string{"slicelit(recv.Event)"}, When: []string{when}, May: may, Exact: true, Once: true, MaySkip: true})
	p.noErrorSkips(r, "ending", fn)
	facts := p.newFacts(nil)
	// it is left out only when no current part is on one of the repetitions
	for _, e := range p.acts(f) {
		if e.Target != invUpdate {
			continue
		}
		p.sites(rootCtx(f), func(s Site) {
			c, ok := s.I.(*ssa.Call)
			if ok && c.Parent() == f && s.C.Parent == nil && calleeName(c.Common()) == "(*model.Score).Update" {
				no := []string{}
				for _, w := range strings.Split(when, " OR ") {
					no = append(no, "F"+w[1:])
				}
				no = append(no, "T:(call:len(arg0.CurrentParts) <= (1 + ind:-1+1))", "T:(call:len(arg0.CurrentParts) <= ind:0+1)")
				u, at := p.unexcusedIn(facts, s, []string{strings.Join(no, " OR ")})
				if at == nil {
					at = s.I
				}
				r.at("ending", "left out", at, u == "", "the event is left out when "+u)
			}
		})
	}
	const dn = "(model.OnRepetitions).DurationMs"
	p.effectSpec(r, "ending", dn, []string{"arg0.…", "call:inv:DurationMs"},
		want{T: "call:inv:DurationMs", V: []string{"args(recv.Event, arg0)"}, Loops: []string{}, When: []string{alts(anyOf("recv.Repetitions", "arg0"), of(lo, "arg0")), alts(anyOf("recv.Repetitions", "arg0"), of(hi, "arg0"))}, May: []string{of(lo, "arg0"), of(hi, "arg0"), "T:{false | true}"}, Exact: true, Once: true, MaySkip: true})
	p.returnSpec(r, "ending", dn, 0, "{0 | call:inv:DurationMs(recv.Event, arg0)}", "{call:inv:DurationMs(recv.Event, arg0) | 0}")
}

func (p *Prog) variableRule(r *Report) {
	const def, ref = "(model.VariableDefinition).UpdateScore", "(model.VariableReference).UpdateScore"
	p.effectSpec(r, "variable", def, []string{"arg0.…", "P.…", "call:inv:VariableValue"},
		want{T: "arg0.Variables[recv.VariableName]", V: []string{"{call:append(rec, slicelit(call:inv:VariableValue(elem(recv.Events), arg0))) | slicelit()}"}, Loops: []string{}, Exact: true, Once: true},
		want{T: "call:inv:VariableValue", V: []string{"args(elem(recv.Events), arg0)"}, Loops: []string{"recv.Events"}, Exact: true, Once: true},
	)
	p.noErrorSkips(r, "variable", def)
	for _, m := range p.mapWriters("Score", "Variables") {
		// every writer is part of a definition
		f := p.fn(def)
		ok := false
		if f != nil {
			p.sites(rootCtx(f), func(s Site) { ok = ok || s.I == m })
		}
		r.at("variable", "writer of the variables", m, freshStore(m) || ok && p.onlyFrom(m.Parent(), fname(f)), "variables are written in "+fname(m.Parent()))
	}
	missing := "F:hit(arg0.Variables, recv.VariableName)"
	for _, fn := range []string{ref, "(model.VariableReference).VariableValue"} {
		f := p.fn(fn)
		if f == nil {
			r.ob("variable", fn, "", false, "gone")
			continue
		}
		p.refusal(r, "variable", f, "an undefined variable", missing)
	}
	p.effectSpec(r, "variable", "(model.VariableReference).DurationMs", []string{"arg0.…", "call:inv:DurationMs"},
		want{T: "call:inv:DurationMs", V: []string{"args(elem(lk(arg0.score.Variables, recv.VariableName)), arg0)"}, Loops: []string{"lk(arg0.score.Variables, recv.VariableName)"}, May: []string{"T:hit(arg0.score.Variables, recv.VariableName)"}, Exact: true, Once: true, MaySkip: true})
	p.returnSpec(r, "variable", "(model.VariableReference).DurationMs", 0, "{(call:inv:DurationMs(elem(lk(arg0.score.Variables, recv.VariableName)), arg0) + rec) | 0}")
	if f := p.fn("(model.VariableReference).VariableValue"); f != nil {
		for _, o := range p.outcomes(f, rootCtx(f), p.newFacts(nil)) {
			r.at("variable", "value of a reference", o.site.I, o.shape == "EventSequence{Events=lk(arg0.Variables, recv.VariableName)}", "is "+trim(o.shape, 200))
		}
	}
}

func (p *Prog) markerRule(r *Report) {
	const fn = "(model.Marker).UpdateScore"
	f := p.fn(fn)
	if f == nil {
		r.ob("marker", fn, "", false, "gone")
	} else {
		at := "ix(arg0.CurrentParts, 0).CurrentOffset"
		none := alts("T:(0 == call:len(arg0.CurrentParts))", "T:(call:len(arg0.CurrentParts) <= 0)", "T:(call:len(arg0.CurrentParts) < 1)")
		p.effectSpecOf(r, "marker", fn, f, []string{"arg0.…", "P.…"},
			want{T: "arg0.Markers[recv.Name]", V: []string{at}, Loops: []string{}, May: []string{"F:" + none[2:], "F:(0 == call:len(arg0.CurrentParts))", "T:(0 < call:len(arg0.CurrentParts))"}, Exact: true, Once: true, MaySkip: true})
		rest := "slice(arg0.CurrentParts, 1, call:len(arg0.CurrentParts))"
		differs := []string{}
		for _, x := range []string{"elem(" + rest + ")", "P", "elem(slice(arg0.CurrentParts, 1))", "elem(slice(arg0.CurrentParts, 1, zero))", "elem(slice(arg0.CurrentParts, 1, nil))"} {
			differs = append(differs, "F:("+x+".CurrentOffset == "+at+")", "F:("+at+" == "+x+".CurrentOffset)")
		}
		many := []string{"T:(1 < call:len(arg0.CurrentParts))", "F:(0 == call:len(arg0.CurrentParts))", "T:(0 < call:len(arg0.CurrentParts))"}
		p.refusal2(r, "marker", f, "a marker without parts", none, nil)
		p.refusal2(r, "marker", f, "an unclear offset", strings.Join(differs, " OR "), many)
	}
	const to = "(model.AtMarker).UpdateScore"
	g := p.fn(to)
	if g == nil {
		r.ob("marker", to, "", false, "gone")
		return
	}
	p.refusal(r, "marker", g, "an unknown marker", "F:hit(arg0.Markers, recv.Name)")
	p.effectSpecOf(r, "marker", to, g, []string{"P.…", "arg0.Markers…"},
		want{T: "P.LastOffset", V: []string{"P.CurrentOffset"}, Loops: []string{"arg0.CurrentParts"}, May: []string{"T:hit(arg0.Markers, recv.Name)"}, Exact: true, Once: true, MaySkip: true},
		want{T: "P.CurrentOffset", V: []string{"lk(arg0.Markers, recv.Name)"}, Loops: []string{"arg0.CurrentParts"}, May: []string{"T:hit(arg0.Markers, recv.Name)"}, Exact: true, Once: true, MaySkip: true})
	for _, m := range p.mapWriters("Score", "Markers") {
		ok := false
		if f != nil {
			p.sites(rootCtx(f), func(s Site) { ok = ok || s.I == m })
		}
		r.at("marker", "writer of the markers", m, freshStore(m) || ok && p.onlyFrom(m.Parent(), fname(f)), "markers are written in "+fname(m.Parent()))
	}
}

// refusal2: an error is made where cond holds, and where it is made nothing
// but cond and the may conditions are required.
func (p *Prog) refusal2(r *Report, rule string, f *ssa.Function, what, cond string, may []string) {
	facts := p.newFacts(nil)
	n := 0
	for _, s := range p.errorSites(f) {
		hit, extra := false, false
		for _, g := range p.guards(facts, s) {
			switch {
			case globAny(g, strings.Split(cond, " OR ")...):
				hit = true
			case globAny(g, may...):
			default:
				extra = true
			}
		}
		if hit && !extra {
			n++
			for _, l := range p.enclosing(s) {
				_ = l
			}
		}
	}
	r.ob(rule, fname(f)+" refuses "+what, p.pos(f.Pos())+" ["+fname(f)+"]", n > 0, "no error is reported exactly when "+trim(cond, 300))
}

// valueRule: every ScoreUpdate with events inside it maps VariableValue over
// them.
func (p *Prog) valueRule(r *Report) {
	for _, t := range p.implementers("model", "ScoreUpdate") {
		f := p.method(t, "VariableValue")
		if f == nil {
			continue
		}
		st, _ := t.Underlying().(*types.Struct)
		var one, many []string
		if st != nil {
			for i := 0; i < st.NumFields(); i++ {
				switch typeName(st.Field(i).Type()) {
				case "model.ScoreUpdate":
					one = append(one, st.Field(i).Name())
				case "[]model.ScoreUpdate":
					many = append(many, st.Field(i).Name())
				}
			}
		}
		name := typeName(t)
		where := p.pos(f.Pos()) + " [" + fname(f) + "]"
		p.noErrorSkips(r, "value", fname(f))
		if len(one)+len(many) == 0 {
			if name == "model.VariableReference" {
				continue
			}
			got := p.returned(f, 0)
			r.ob("value", "value of a "+name, where, got == "recv" || name == "model.LispList" && glob("call:inv:VariableValue({as:model.LispScoreUpdate(call:inv:Operate(…}, arg0)", got) || name == "model.PartDeclaration" && got == "nil" || got == "new:"+name+"()" || got == name+"()" || strings.HasPrefix(got, "zero"), "is "+got)
			continue
		}
		for _, fl := range append(append([]string{}, one...), many...) {
			inner := "recv." + fl
			isMany := in(fl, many...)
			loops := []string{}
			arg := inner
			if isMany {
				arg = "elem(" + inner + ")"
				loops = []string{inner}
			}
			val := "call:inv:VariableValue(" + arg + ", arg0)"
			p.effectSpecOf(r, "value", fname(f), f, []string{"call:inv:VariableValue"},
				want{T: "call:inv:VariableValue", V: []string{"args(" + arg + ", arg0)"}, Loops: loops, Exact: true, Once: true})
			// what ends up in the field
			ok, fresh := false, !isMany
			var sites []Site
			var resets []Site
			for _, e := range p.effects(rootCtx(f)) {
				if e.Field != fl {
					continue
				}
				tx := text(e.Val)
				switch {
				case !isMany && tx == val:
					ok = true
				case isMany && (tx == "slicelit()" || tx == "nil" || glob("makeslice…", tx)):
					resets = append(resets, e.Site)
				case isMany && strings.HasPrefix(tx, "call:append(") && strings.HasSuffix(tx, ", slicelit("+val+"))"):
					ok = true
					sites = append(sites, e.Site)
				case isMany && strings.HasPrefix(tx, "{") && strings.Contains(tx, "call:append(rec, slicelit("+val+"))"):
					ok = tx == "{call:append(rec, slicelit("+val+")) | slicelit()}" || tx == "{call:append(rec, slicelit("+val+")) | nil}" || tx == "call:append(rec, slicelit("+val+"))"
					fresh = true
				default:
					r.at("value", "events of a "+name, e.I, false, "set to "+trim(tx, 200))
				}
			}
			for _, a := range sites {
				for _, z := range resets {
					if u, _ := p.unexcused(p.newFacts(nil), z, nil, nil); u == "" && before(z, a) && !before(a, z) {
						fresh = true
					}
				}
			}
			r.ob("value", "events of a "+name, where, ok && fresh, "the events inside are not replaced by their values")
		}
		for _, o := range p.outcomes(f, rootCtx(f), p.newFacts(nil)) {
			for i := 0; i < st.NumFields(); i++ {
				fl := st.Field(i).Name()
				if in(fl, one...) || in(fl, many...) {
					continue
				}
				got := text(p.fieldOf(o.e, fl))
				r.at("value", "field "+fl+" of a "+name, o.site.I, globAny(got, "recv."+fl, "as:"+name+"(call:github.com/mohae/deepcopy.Copy(recv))."+fl), "becomes "+trim(got, 200))
			}
		}
	}
	r.floor("value", 20)
}

// freshStore: the instruction puts a new, empty map into a new object.
func freshStore(i ssa.Instruction) bool {
	st, ok := i.(*ssa.Store)
	if !ok {
		return false
	}
	_, isMap := st.Val.(*ssa.MakeMap)
	fa, isField := st.Addr.(*ssa.FieldAddr)
	if !isMap || !isField {
		return false
	}
	_, isNew := fa.X.(*ssa.Alloc)
	return isNew
}
