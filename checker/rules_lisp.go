package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C05"] = checkBuiltins
	checks["C06"] = checkPitch
}

const (
	lispN0 = "as:model.LispNumber(ix(arg0, 0)).Value"
	lispN1 = "as:model.LispNumber(ix(arg0, 1)).Value"
)

// lispSpec is the meaning of one built-in signature.
type lispSpec struct {
	names string
	types string
	shape []string
	when  []string
	may   []string
	attr  bool
}

const L0 = "NoteLength{Denominator=call:strconv.ParseFloat(…, 64), Dots=conv:int32(…)}"

func builtinSpecs() []lispSpec {
	L := L0
	tied := "Duration{Components=append(rec, [" + L + "])}"
	beatsOf := func(n string) string {
		return "(2 - call:math.Pow(2, conv:float64(un:-(zero)))) * 4 * recip(" + n + ")"
	}
	_ = beatsOf
	pos := func(n string) string { return "T:(1 <= " + n + ")" }
	whole := "T:(" + lispN0 + " == conv:float64(conv:int32(" + lispN0 + ")))"
	pct := []string{"T:(0 <= " + lispN0 + ")", "T:(" + lispN0 + " <= 100)"}
	sumBeats := "{(call:inv:Beats(elem(…)) + rec) | 0}"
	one := "(2 - call:math.Pow(2, conv:float64(un:-(zero))))"
	digit := []string{"F:(0 == call:strconv.ParseFloat(…", "F:(call:strconv.ParseFloat(… <= 0)", "T:(0 < call:strconv.ParseFloat(…", "T:(call#1:strconv.ParseFloat(… == nil)", "F:(0 == call:len(…", "T:(48 <= …", "T:(…<= 57)", "T:{…<= 57) | false}", "T:(0 < call:len(…", "T:(1 <= call:len(…", "F:{…", "T:(call:len(…) <= …"}
	as := func(ns, ty, sh string, when ...string) lispSpec {
		return lispSpec{names: ns, types: ty, shape: []string{sh}, when: when, attr: true}
	}
	fn := func(ns, ty, sh string, when ...string) lispSpec {
		return lispSpec{names: ns, types: ty, shape: []string{sh}, when: when}
	}
	with := func(s lispSpec, may ...string) lispSpec { s.may = append(s.may, may...); return s }
	upW := `T:("up" == as:model.LispSymbol(ix(arg0, 0)).Name)`
	downW := `T:("down" == as:model.LispSymbol(ix(arg0, 0)).Name)`
	return []lispSpec{
		as("octave", "LispNumber", "OctaveSet{OctaveNumber=conv:int32("+lispN0+")}", whole),
		with(as("octave", "LispSymbol", "OctaveUp{}", upW), `F:("down" == …`),
		with(as("octave", "LispSymbol", "OctaveDown{}", downW), `F:("up" == …`),
		as("tempo", "LispNumber", "TempoSet{Tempo="+lispN0+"}", pos(lispN0)),
		as("tempo", "LispNumber LispNumber", "TempoSet{Tempo=("+one+" * 4 * "+lispN1+" * recip("+lispN0+"))}", pos(lispN0), pos(lispN1)),
		with(as("tempo", "LispString LispNumber", "TempoSet{Tempo=("+lispN1+" * "+sumBeats+")}", pos(lispN1)), digit...),
		as("metric-modulation", "LispNumber LispNumber", "MetricModulation{Ratio=("+one+" * 4 * "+lispN0+" * recip("+one+") * recip(4) * recip("+lispN1+"))}", pos(lispN0), pos(lispN1)),
		with(as("metric-modulation", "LispNumber LispString", "MetricModulation{Ratio=("+lispN0+" * recip("+one+") * recip(4) * "+sumBeats+")}", pos(lispN0)), digit...),
		with(as("metric-modulation", "LispString LispNumber", "MetricModulation{Ratio=("+one+" * 4 * recip("+lispN1+") * recip("+sumBeats+"))}", pos(lispN1)), digit...),
		with(as("metric-modulation", "LispString LispString", "MetricModulation{Ratio=(recip("+strings.Replace(sumBeats, "elem(…)", "elem(…arg0, 0…)", 1)+") * "+strings.Replace(sumBeats, "elem(…)", "elem(…arg0, 1…)", 1)+")}"), digit...),
		as("quantization quantize quant", "LispNumber", "QuantizationSet{Quantization=("+lispN0+" * recip(100))}", "T:(0 <= "+lispN0+")"),
		as("volume vol", "LispNumber", "VolumeSet{Volume=("+lispN0+" * recip(100))}", pct...),
		as("track-volume track-vol", "LispNumber", "TrackVolumeSet{TrackVolume=("+lispN0+" * recip(100))}", pct...),
		as("panning pan", "LispNumber", "PanningSet{Panning=("+lispN0+" * recip(100))}", pct...),
		as("key(model.DynamicVolumes)", "", "DynamicMarking{Marking=key(model.DynamicVolumes)}"),
		as("set-duration", "LispNumber", "DurationSet{Duration=Duration{Components=[NoteLengthBeats{Quantity="+lispN0+"}]}}", pos(lispN0)),
		as("set-duration-ms", "LispNumber", "DurationSet{Duration=Duration{Components=[NoteLengthMs{Quantity="+lispN0+"}]}}", pos(lispN0)),
		as("set-note-length", "LispNumber", "DurationSet{Duration=Duration{Components=[NoteLength{Denominator="+lispN0+"}]}}", pos(lispN0)),
		with(as("set-note-length", "LispString", "DurationSet{Duration="+tied+"}"), digit...),
		as("key-signature key-sig", "LispString", "KeySignatureSet{KeySignature=new:model.KeySignature()}"),
		with(as("key-signature key-sig", "LispList", "KeySignatureSet{KeySignature=…}"), "T:(2 <= call:len(…", "F:(…", "T:is:…", "T:(1 < call:len(…"),
		as("transposition transpose", "LispNumber", "TranspositionSet{Semitones=conv:int32("+lispN0+")}", whole),
		as("reference-pitch tuning-constant", "LispNumber", "ReferencePitchSet{Frequency="+lispN0+"}", pos(lispN0)),
		as("midi-channel", "LispNumber", "MidiChannelSet{ChannelNumber=conv:int32("+lispN0+")}", whole, "T:(0 <= conv:int32("+lispN0+"))", "T:(conv:int32("+lispN0+") <= 15)"),
		fn("list", "…LispAny", "LispList{Elements=arg0}"),
		fn("ms", "LispNumber", "LispDuration{DurationComponent=NoteLengthMs{Quantity="+lispN0+"}}", pos(lispN0)),
		fn("note-length", "LispNumber", "LispDuration{DurationComponent=NoteLength{Denominator="+lispN0+"}}", pos(lispN0)),
		with(fn("note-length", "LispString", "LispDuration{DurationComponent="+L+"}"), digit...),
		fn("duration", "…LispDuration", "LispDuration{DurationComponent=Duration{Components=append(rec, [as:model.LispDuration(elem(arg0)).DurationComponent])}}"),
		fn("midi-note", "LispNumber", "LispPitch{PitchIdentifier=MidiNoteNumber{MidiNote=conv:int32("+lispN0+")}}", whole),
		with(fn("pitch", "LispList", "LispPitch{PitchIdentifier=LetterAndAccidentals{NoteLetter={0 | 1 | 2 | 3 | 4 | 5 | 6}, Accidentals={[] | append(rec, [{0 | 1 | 2}])}}}"), "…"),
		fn("note", "LispPitch", "LispScoreUpdate{ScoreUpdate=Note{Pitch=as:model.LispPitch(ix(arg0, 0)).PitchIdentifier}}"),
		fn("note", "LispPitch LispDuration", "LispScoreUpdate{ScoreUpdate=Note{Pitch=as:model.LispPitch(ix(arg0, 0)).PitchIdentifier, Duration=Duration{Components=[as:model.LispDuration(ix(arg0, 1)).DurationComponent]}}}"),
		fn("pause", "", "LispScoreUpdate{ScoreUpdate=Rest{}}"),
		fn("pause", "LispDuration", "LispScoreUpdate{ScoreUpdate=Rest{Duration=Duration{Components=[as:model.LispDuration(ix(arg0, 0)).DurationComponent]}}}"),
		{names: "slur", types: "LispScoreUpdate", shape: []string{"LispScoreUpdate{ScoreUpdate=…Note{Pitch=as:model.Note(as:model.LispScoreUpdate(ix(arg0, 0)).ScoreUpdate).Pitch, Duration=as:model.Note(as:model.LispScoreUpdate(ix(arg0, 0)).ScoreUpdate).Duration, Slurred=…true…}…}"},
			when: []string{"T:is:model.Note(as:model.LispScoreUpdate(ix(arg0, 0)).ScoreUpdate)"}},
	}
}

func checkBuiltins(p *Prog, r *Report) {
	r.rule("value", "each built-in function yields the value its name and arguments stand for")
	r.rule("domain", "each built-in accepts exactly the arguments in its range, and refuses the rest with an error")
	p.returnRows(r, "domain", "model.noteLength",
		retRow{V: []string{"NoteLength{}", "call:fmt.Errorf(…"}},
		retRow{V: []string{L0, "nil"}, When: []string{"F:(0 == call:strconv.ParseFloat(… OR F:(call:strconv.ParseFloat(… <= 0) OR T:(0 < call:strconv.ParseFloat(…", "T:(call:len(…arg0…) <= … OR F:(… < call:len(…arg0…)) OR T:(… == call:len(…arg0…)) OR T:(call:len(…arg0…) == … OR T:(0 == call:len(…) OR T:(call:regexp…"}})
	r.rule("names", "every documented name and signature is registered, once")
	r.rule("signature", "an implementation only uses the arguments its signature declares, at their declared types")
	r.rule("dispatch", "a call runs the first signature whose argument types match, and is an error when none does")
	r.rule("local-global", "NAME makes a local change, NAME! the same change globally")
	r.rule("dynamics", "the dynamic markings pppppp to ffffff stand for volumes that grow with loudness, within 0-1")
	r.rule("eval", "evaluating a list calls the function its operator names with the evaluated arguments, and quote protects its argument")

	specs := builtinSpecs()
	hit := make([]int, len(specs))
	facts := p.newFacts(nil)
	type k struct{ n, t string }
	reg := map[k]map[*ssa.Function]bool{}
	done := map[*ssa.Function]bool{}
	for _, b := range p.builtins() {
		ns, ts := strings.Join(b.Names, " "), strings.Join(b.Types, " ")
		if reg[k{ns, ts}] == nil {
			reg[k{ns, ts}] = map[*ssa.Function]bool{}
		}
		if b.Impl == nil {
			r.at("names", ns, b.At, false, "the implementation of this signature cannot be resolved")
			continue
		}
		if done[b.Impl] && b.Impl.Parent() != nil && len(b.Ctx.key) == 0 {
			continue
		}
		reg[k{ns, ts}][b.Impl] = true
		if done[b.Impl] {
			continue
		}
		done[b.Impl] = true
		known := false
		for _, o := range p.outcomes(b.Impl, b.Ctx, facts) {
			ok, why := false, "no such built-in signature is specified"
			for i, s := range specs {
				if s.names != ns || s.types != ts || s.attr != b.Attr {
					continue
				}
				known = true
				if !globAny(o.shape, s.shape...) {
					if !ok {
						why = "yields " + trim(o.shape, 400) + "; expected " + trim(strings.Join(s.shape, " or "), 400)
					}
					continue
				}
				hit[i]++
				ok, why = true, ""
				used := map[string]bool{}
				for _, w := range s.when {
					h := false
					for _, g := range o.guards {
						if glob(w, g) {
							h = true
							used[g] = true
						}
					}
					r.at("domain", ns+" ["+ts+"] "+trim(w, 100), o.site.I, h, "accepted without "+trim(w, 200)+" (known here: "+trim(strings.Join(o.guards, " & "), 300)+")")
				}
				for _, g := range o.guards {
					if !used[g] && !globAny(g, s.may...) {
						r.at("domain", ns+" ["+ts+"] no other condition", o.site.I, false, "also requires "+trim(g, 200))
					}
				}
				break
			}
			r.at("value", ns+" ["+ts+"]", o.site.I, ok, why)
		}
		if !known {
			r.at("names", ns+" ["+ts+"]", b.At, false, "registered under a name or signature that is not specified")
		}
		p.signatureUse(r, b)
	}
	for i, s := range specs {
		r.ob("names", s.names+" ["+s.types+"]", "", hit[i] > 0, "this built-in or its documented meaning is gone")
	}
	for x, fs := range reg {
		r.ob("names", x.n+" ["+x.t+"] once", "", len(fs) == 1, fmt.Sprintf("%d implementations", len(fs)))
	}
	p.localGlobal(r)
	p.dynamics(r)
	p.lispDispatch(r)
}

// signatureUse: indices and assertions on the argument list.
func (p *Prog) signatureUse(r *Report, b Builtin) {
	variadic := len(b.Types) > 0 && strings.HasPrefix(b.Types[len(b.Types)-1], "…")
	p.sites(b.Ctx, func(s Site) {
		ta, ok := s.I.(*ssa.TypeAssert)
		if !ok {
			return
		}
		x := p.expr(ta.X, s.C).String()
		var want string
		if x == "elem(arg0)" && variadic {
			want = strings.TrimPrefix(b.Types[len(b.Types)-1], "…")
		} else {
			var i int
			if n, _ := fmt.Sscanf(x, "ix(arg0, %d)", &i); n == 1 && x == fmt.Sprintf("ix(arg0, %d)", i) {
				if i >= len(b.Types) {
					r.at("signature", strings.Join(b.Names, " ")+" argument", ta, false, fmt.Sprintf("argument %d of a signature with %d", i, len(b.Types)))
					return
				}
				want = strings.TrimPrefix(b.Types[i], "…")
			}
		}
		if want == "" || ta.CommaOk {
			return
		}
		got := strings.TrimPrefix(typeName(ta.AssertedType), "model.")
		r.at("signature", strings.Join(b.Names, " ")+" ["+strings.Join(b.Types, " ")+"]", ta, got == want, "the argument is a "+want+", used as a "+got)
	})
}

// localGlobal: defattribute registers name -> AttributeUpdate and name! -> GlobalAttributeUpdate.
func (p *Prog) localGlobal(r *Report) {
	f := p.fn("model.defattribute")
	if f == nil {
		r.ob("local-global", "defattribute", "", false, "gone")
		return
	}
	// pair each name expression with the closure stored beside it
	pairs := map[string]string{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			v := p.expr(st.Val, rootCtx(f))
			key := fa.X.Name()
			if ia, ok := fa.X.(*ssa.IndexAddr); ok {
				key = ia.X.Name() + "[" + p.expr(ia.Index, rootCtx(f)).String()
			}
			if v.Op == "closure" {
				fn := v.V.(*ssa.MakeClosure).Fn.(*ssa.Function)
				pairs[key] += " -> " + p.closureShape(fn)
			} else if v.Op == "fn" {
				pairs[key] += " -> " + p.closureShape(v.V.(*ssa.Function))
			} else if typeName(v.T) == "string" || strings.Contains(v.String(), "elem(arg0)") {
				pairs[key] = v.String() + pairs[key]
			}
		}
	}
	var got []string
	for _, k := range sortedKeys(pairs) {
		if strings.Contains(pairs[k], " -> ") {
			got = append(got, pairs[k])
		}
	}
	all := strings.Join(got, "; ")
	r.ob("local-global", "local", p.pos(f.Pos())+" [model.defattribute]", strings.Contains(all, "elem(arg0) -> AttributeUpdate{PartUpdate=arg0}"), "registers "+all)
	r.ob("local-global", "global", p.pos(f.Pos())+" [model.defattribute]", strings.Contains(all, `(elem(arg0) + "!") -> GlobalAttributeUpdate{PartUpdate=arg0}`), "registers "+all)
}

func (p *Prog) closureShape(fn *ssa.Function) string {
	var xs []string
	for _, ret := range returns(fn) {
		xs = append(xs, p.shape(p.expr(ret.Results[0], rootCtx(fn))))
	}
	return strings.Join(xs, "|")
}

func (p *Prog) dynamics(r *Report) {
	m := p.mapLiteral("model", "DynamicVolumes")
	order := []string{"pppppp", "ppppp", "pppp", "ppp", "pp", "p", "mp", "mf", "f", "ff", "fff", "ffff", "fffff", "ffffff"}
	prev := -1.0
	for _, k := range order {
		var v float64
		n, _ := fmt.Sscan(m[k], &v)
		r.ob("dynamics", k, "client/model/attributes.go", n == 1 && v > prev && v > 0 && v <= 1, "stands for "+m[k]+" after "+fmt.Sprint(prev))
		prev = v
	}
	r.ob("dynamics", "markings", "client/model/attributes.go", len(m) == len(order), fmt.Sprintf("%d markings", len(m)))
	r.ob("dynamics", "fixed", "client/model/attributes.go", len(p.globalWriters("model", "DynamicVolumes")) == 1, "the table is written to elsewhere")
}

func (p *Prog) lispDispatch(r *Report) {
	f := p.fn("(model.LispFunction).Operate")
	if f == nil {
		r.ob("dispatch", "Operate", "", false, "gone")
		return
	}
	facts := p.newFacts(nil)
	n := 0
	p.sites(rootCtx(f), func(s Site) {
		c, ok := s.I.(*ssa.Call)
		if !ok || calleeName(c.Common()) != "dyn" {
			return
		}
		callee := p.expr(c.Common().Value, s.C).String()
		if !strings.Contains(callee, "Implementation") {
			return
		}
		n++
		gs := p.guards(facts, s)
		r.at("dispatch", "implementation called", c, callee == "elem(recv.Signatures).Implementation", "calls "+callee)
		r.at("dispatch", "arguments passed on", c, len(c.Common().Args) == 1 && p.expr(c.Common().Args[0], s.C).String() == "arg0", "other arguments are passed")
		ok = false
		for _, g := range gs {
			if g == "T:call:model.argumentsMatchSignature(arg0, elem(recv.Signatures))" || p.fn("model.argumentsMatchSignature") == nil {
				ok = true
			}
		}
		r.at("dispatch", "only when matching", c, ok, "known here: "+trim(strings.Join(gs, " & "), 300))
	})
	r.ob("dispatch", "Operate", p.pos(f.Pos()), n == 1, fmt.Sprintf("%d implementation calls", n))
	if m := p.fn("model.argumentsMatchSignature"); m == nil {
		r.ob("dispatch", "argumentsMatchSignature", "", false, "gone")
	} else {
		p.matchSignature(r, m)
	}
	ev := p.fn("(model.LispList).Eval")
	if ev == nil {
		r.ob("eval", "LispList.Eval", "", false, "gone")
		return
	}
	nOp := 0
	p.sites(rootCtx(ev), func(s Site) {
		c, ok := s.I.(*ssa.Call)
		if !ok || !c.Common().IsInvoke() || c.Common().Method.Name() != "Operate" {
			return
		}
		nOp++
		a := p.expr(c.Common().Args[0], s.C).String()
		o := p.expr(c.Common().Value, s.C).String()
		r.at("eval", "operator", c, strings.Contains(o, "ix(recv.Elements, 0)"), "operator is "+trim(o, 200))
		r.at("eval", "arguments", c, globAny(norm(a), "{call:append(rec, slicelit(call:inv:Eval(elem(slice(recv.Elements, 1, _))))) | slicelit()}", "call:append(rec, slicelit(call:inv:Eval(elem(slice(recv.Elements, 1, _)))))"), "arguments are "+trim(a, 300))
	})
	r.ob("eval", "Operate called", p.pos(ev.Pos()), nOp == 1, fmt.Sprintf("%d calls", nOp))
	nq := 0
	for _, o := range p.outcomes(ev, rootCtx(ev), facts) {
		if o.shape == "ix(recv.Elements, 1)" {
			nq++
			ok := false
			for _, g := range o.guards {
				if strings.HasPrefix(g, "T:is:model.LispSpecialFormQuote(") {
					ok = true
				}
			}
			r.at("eval", "quote", o.site.I, ok, "the unevaluated argument is returned outside of quote")
		}
	}
	r.ob("eval", "quote returns its argument", p.pos(ev.Pos()), nq >= 1, "quote no longer returns its argument")
	p.returnSpec(r, "eval", "(model.LispQuotedForm).Eval", 0, "recv.Form")
	for _, n := range []string{"LispNumber", "LispString", "LispNil", "LispFunction"} {
		p.returnSpec(r, "eval", "(model."+n+").Eval", 0, "recv")
	}
	if sy := p.fn("(model.LispSymbol).Eval"); sy != nil {
		for _, o := range p.outcomes(sy, rootCtx(sy), facts) {
			r.at("eval", "symbol", o.site.I, globAny(o.shape, "lk(model.specialForms, recv.Name)", "lk(model.environment, recv.Name)", "{lk(model.…, recv.Name) | lk(model.…, recv.Name)}"), "a symbol evaluates to "+o.shape)
			h := false
			for _, g := range o.guards {
				if strings.HasPrefix(g, "T:hit(") {
					h = true
				}
			}
			r.at("eval", "symbol known", o.site.I, h, "an unknown symbol evaluates without an error")
		}
	}
}

// matchSignature: the comparisons the matching rests on.
func (p *Prog) matchSignature(r *Report, m *ssa.Function) {
	facts := p.newFacts(nil)
	n := "{(call:len(arg1.ArgumentTypes) - 1) | call:len(arg1.ArgumentTypes)}"
	last := "call:reflect.TypeOf(as:model.LispVariadic(ix(arg1.ArgumentTypes, (call:len(arg1.ArgumentTypes) - 1))).Type)"
	needs := []struct {
		what string
		cond []string
		hit  int
	}{
		{"too few arguments for a variadic signature", []string{"T:(call:len(arg0) < " + n + ")", "T:is:model.LispVariadic(ix(arg1.ArgumentTypes, (call:len(arg1.ArgumentTypes) - 1)))"}, 0},
		{"a different number of arguments", []string{"F:(call:len(arg0) == " + n + ")", "F:{false | true}"}, 0},
		{"an argument of another type", []string{"F:(call:reflect.TypeOf(elem(arg0)) == call:reflect.TypeOf(elem(arg1.ArgumentTypes))) OR F:(call:reflect.TypeOf(ix(arg0, …)) == call:reflect.TypeOf(ix(arg1.ArgumentTypes, …)))", "F:(call:reflect.TypeOf(elem(arg1.ArgumentTypes)) == call:reflect.TypeOf(zero)) OR F:(call:reflect.TypeOf(ix(arg1.ArgumentTypes, …)) == call:reflect.TypeOf(zero))"}, 0},
		{"a variadic argument of another type", []string{"F:(" + last + " == call:reflect.TypeOf(elem(…arg0, " + n + "…)))", "F:(" + last + " == call:reflect.TypeOf(zero))"}, 0},
	}
	for _, rt := range returns(m) {
		k, ok := rt.Results[0].(*ssa.Const)
		if !ok {
			continue
		}
		gs := p.guards(facts, Site{rt, rootCtx(m)})
		if k.Value.ExactString() != "false" {
			for _, g := range gs {
				r.at("dispatch", "match", rt, globAny(g, "T:(0 == call:len(arg0))", "T:(0 == call:len(arg1.ArgumentTypes))", "T:(call:len(arg0) <= …"), "accepted only under "+trim(g, 300))
			}
			continue
		}
		found := false
		for i := range needs {
			all := true
			for _, c := range needs[i].cond {
				h := false
				for _, g := range gs {
					h = h || globAny(g, strings.Split(c, " OR ")...)
				}
				all = all && h
			}
			if all {
				needs[i].hit++
				found = true
			}
		}
		r.at("dispatch", "mismatch", rt, found, "refuses under "+trim(strings.Join(gs, " & "), 400))
	}
	for _, x := range needs {
		r.ob("dispatch", "refuses "+x.what, p.pos(m.Pos())+" ["+fname(m)+"]", x.hit > 0, "no longer refused")
	}
}
