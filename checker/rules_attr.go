package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C03"] = checkAttributes
	checks["C04"] = checkGlobalAttributes
}

func checkAttributes(p *Prog, r *Report) {
	r.rule("sets", "each attribute change sets exactly the part property it names, to the given value")
	r.rule("tempo-record", "a local tempo change is recorded at the part's current offset, after the tempo is set; a global one is not")
	r.rule("channel-guard", "MIDI channel 9 is refused for a part that is not percussion")
	r.rule("every-part", "a local attribute change is applied to each current part once, and remembered as the part's local override afterwards")
	r.rule("immediate", "attribute changes take no time")

	rows := map[string][]want{
		"TempoSet":          {{T: "arg0.Tempo", V: []string{"recv.Tempo"}, Exact: true, Loops: []string{}}},
		"MetricModulation":  {{T: "arg0.Tempo", V: []string{"(arg0.Tempo * recv.Ratio)"}, Exact: true, Loops: []string{}, Once: true}},
		"OctaveSet":         {{T: "arg0.Octave", V: []string{"recv.OctaveNumber"}, Exact: true, Loops: []string{}}},
		"OctaveUp":          {{T: "arg0.Octave", V: []string{"(1 + arg0.Octave)"}, Exact: true, Loops: []string{}, Once: true}},
		"OctaveDown":        {{T: "arg0.Octave", V: []string{"(arg0.Octave - 1)", "(-1 + arg0.Octave)"}, Exact: true, Loops: []string{}, Once: true}},
		"VolumeSet":         {{T: "arg0.Volume", V: []string{"recv.Volume"}, Exact: true, Loops: []string{}}},
		"TrackVolumeSet":    {{T: "arg0.TrackVolume", V: []string{"recv.TrackVolume"}, Exact: true, Loops: []string{}}},
		"DynamicMarking":    {{T: "arg0.Volume", V: []string{"lk(model.DynamicVolumes, recv.Marking)"}, Exact: true, May: []string{"T:hit(model.DynamicVolumes, recv.Marking)"}, Loops: []string{}}},
		"PanningSet":        {{T: "arg0.Panning", V: []string{"recv.Panning"}, Exact: true, Loops: []string{}}},
		"QuantizationSet":   {{T: "arg0.Quantization", V: []string{"recv.Quantization"}, Exact: true, Loops: []string{}}},
		"DurationSet":       {{T: "arg0.Duration", V: []string{"recv.Duration"}, Exact: true, Loops: []string{}}},
		"KeySignatureSet":   {{T: "arg0.KeySignature", V: []string{"recv.KeySignature"}, Exact: true, Loops: []string{}}},
		"TranspositionSet":  {{T: "arg0.Transposition", V: []string{"recv.Semitones"}, Exact: true, Loops: []string{}}},
		"ReferencePitchSet": {{T: "arg0.ReferencePitch", V: []string{"recv.Frequency"}, Exact: true, Loops: []string{}}},
		"MidiChannelSet": {
			{T: "arg0.MidiChannel", V: []string{"recv.ChannelNumber"}, Loops: []string{}},
			{T: "arg0.HasExplicitMidiChannel", V: []string{"true"}, Loops: []string{}},
		},
	}
	frame := []string{"arg0.…", "model.…", "recv.…"}
	for _, t := range p.implementers("model", "PartUpdate") {
		n := strings.TrimPrefix(typeName(t), "model.")
		f := p.method(t, "updatePart")
		if f == nil {
			continue
		}
		ws, known := rows[n]
		if !known {
			continue
		}
		if n == "TempoSet" || n == "MetricModulation" {
			vals := []string{"arg0.Tempo"}
			if n == "TempoSet" {
				vals = append(vals, "recv.Tempo")
			}
			ws = append(ws, want{T: "arg0.TempoValues[arg0.CurrentOffset]", V: vals, When: []string{"F:arg1"}, Exact: true, Loops: []string{}})
			var set, rec []Effect
			for _, e := range p.acts(f) {
				switch e.Target {
				case "arg0.Tempo":
					set = append(set, e)
				case "arg0.TempoValues[arg0.CurrentOffset]":
					rec = append(rec, e)
				}
			}
			for _, a := range rec {
				for _, b := range set {
					r.at("tempo-record", n+" order", a.I, text(a.Val) == "recv.Tempo" || before(b.Site, a.Site) && !before(a.Site, b.Site), "the tempo is recorded before it is set")
				}
			}
		}
		p.effectSpecOf(r, "sets", "("+typeName(t)+").updatePart", f, frame, ws...)
	}
	r.floor("sets", 2*len(rows))
	r.floor("tempo-record", 2)
	if f := p.fn("(model.MidiChannelSet).updatePart"); f != nil {
		p.refusal(r, "channel-guard", f, "channel 9 for a pitched part", "T:(9 == recv.ChannelNumber)", "F:as:model.MidiInstrument(arg0.StockInstrument).IsPercussion OR F:{false | as:model.MidiInstrument(arg0.StockInstrument).IsPercussion}")
	}
	p.effectSpec(r, "every-part", "(model.AttributeUpdate).UpdateScore", []string{"P.…", "arg0.…", "call:inv:updatePart"},
		want{T: "call:inv:updatePart", V: []string{"args(recv.PartUpdate, P, false)"}, Loops: []string{"arg0.CurrentParts"}, Exact: true, Once: true},
		want{T: "P.localAttributeOverride", V: []string{"recv.PartUpdate"}, Loops: []string{"arg0.CurrentParts"}, Exact: true},
	)
	for _, n := range []string{"AttributeUpdate", "GlobalAttributeUpdate"} {
		p.returnSpec(r, "immediate", "(model."+n+").DurationMs", 0, "0")
	}
}

// refusal: f has a return of a non-nil error whose known conditions are
// exactly the given ones (no weaker, no stronger).
func (p *Prog) refusal(r *Report, rule string, f *ssa.Function, what string, conds ...string) {
	facts := p.newFacts(nil)
	var seen []string
	n := 0
	for _, s := range p.errorSites(f) {
		gs := p.guards(facts, s)
		used := 0
		ok := true
		for _, g := range gs {
			m := false
			for _, c := range conds {
				if globAny(g, strings.Split(c, " OR ")...) {
					m = true
				}
			}
			ok = ok && m
		}
		for _, c := range conds {
			m := false
			for _, g := range gs {
				if globAny(g, strings.Split(c, " OR ")...) {
					m = true
				}
			}
			if m {
				used++
			}
		}
		if ok && used == len(conds) {
			n++
		}
		seen = append(seen, "["+strings.Join(gs, " & ")+"]")
	}
	r.ob(rule, fname(f)+" refuses "+what, p.pos(f.Pos())+" ["+fname(f)+"]", n > 0, "no error is reported exactly when "+strings.Join(conds, " & ")+"; errors are reported under "+trim(strings.Join(seen, " "), 500))
}

// errorSites: the points of the inlined program where an error value is made.
func (p *Prog) errorSites(f *ssa.Function) (out []Site) {
	p.sites(rootCtx(f), func(s Site) {
		if c, ok := s.I.(*ssa.Call); ok {
			switch calleeName(c.Common()) {
			case "fmt.Errorf", "errors.New", "help.UserFacingErrorf":
				out = append(out, s)
			}
		}
		if m, ok := s.I.(*ssa.MakeInterface); ok && typeName(m.Type()) == "error" {
			out = append(out, s)
		}
	})
	return
}

func checkGlobalAttributes(p *Prog, r *Report) {
	r.rule("record", "a global attribute change is recorded at the common offset of the current parts (0 without parts), after the changes already recorded there")
	r.rule("unclear", "a global attribute change is refused when the current parts are at different offsets")
	r.rule("sorted", "the itinerary's offsets are kept sorted, one entry per offset")
	r.rule("window", "the changes in effect are those after the part's last offset, up to and including its current offset, in order")
	r.rule("apply", "due global changes are applied to every current part, except those overridden locally by the same kind of change")
	r.rule("override-reset", "the local override lasts until global attributes are next applied")
	r.rule("before-sound", "due global changes are applied before a note, rest or chord is placed and before jumping to a marker; a chord applies them once")
	r.rule("tempo-itinerary", "the exported tempo map merges the master part's tempo changes and the global ones")

	off := "{0 | ix(arg0.CurrentParts, 0).CurrentOffset}"
	p.effectSpec(r, "record", "(model.GlobalAttributeUpdate).UpdateScore", []string{"arg0.…", "P.…", "ix(…"},
		want{T: "arg0.GlobalAttributes.itinerary[" + off + "]", V: []string{
			"call:append(lk(arg0.GlobalAttributes.itinerary, " + off + "), slicelit(recv.PartUpdate))"}, Loops: []string{}, Exact: true, May: []string{"…len(arg0.CurrentParts)…", "…hit(arg0.GlobalAttributes.itinerary, …"}, Once: true},
		want{T: "arg0.GlobalAttributes.itinerary[" + off + "]", V: []string{"slicelit()", "nil"}, When: []string{"F:hit(arg0.GlobalAttributes.itinerary, " + off + ") OR T:(0 == call:len(lk(arg0.GlobalAttributes.itinerary, " + off + ")))"}, Opt: true},
		want{T: "arg0.GlobalAttributes.offsets", V: []string{"call:append(arg0.GlobalAttributes.offsets, slicelit(" + off + "))"}, When: []string{"F:hit(arg0.GlobalAttributes.itinerary, " + off + ")"}, Exact: true, May: []string{"…len(arg0.CurrentParts)…"}, Loops: []string{}},
	)
	if f := p.fn("(model.GlobalAttributeUpdate).UpdateScore"); f != nil {
		// the itinerary is tested for the offset before it is added to it
		facts := p.newFacts(nil)
		n := 0
		for _, s := range p.errorSites(f) {
			for _, g := range p.guards(facts, s) {
				if globAny(g, "F:("+"elem(…arg0.CurrentParts…).CurrentOffset == …ix(arg0.CurrentParts, 0).CurrentOffset…)", "F:(…ix(arg0.CurrentParts, 0).CurrentOffset… == elem…(…arg0.CurrentParts…).CurrentOffset)", "F:(P.CurrentOffset == …ix(arg0.CurrentParts, 0).CurrentOffset…)") {
					n++
				}
			}
		}
		r.ob("unclear", "GlobalAttributeUpdate", p.pos(f.Pos()), n > 0, "differing offsets are no longer refused")
		sorted := false
		for _, e := range p.acts(f) {
			if e.Target == "call:sort.Float64s" || e.Target == "call:slices.Sort" || strings.HasPrefix(e.Target, "call:slices.Sort") || strings.HasPrefix(e.Target, "call:sort.S") {
				if strings.Contains(text(e.Val), "arg0.GlobalAttributes.offsets") {
					sorted = true
					for _, x := range p.acts(f) {
						if x.Target == "arg0.GlobalAttributes.offsets" {
							r.at("sorted", "sort follows insert", e.I, before(x.Site, e.Site), "the offsets are sorted before the new one is added")
						}
					}
					gs := p.guards(facts, e.Site)
					for _, g := range gs {
						if !globAny(g, "F:hit(arg0.GlobalAttributes.itinerary, …", "…len(arg0.CurrentParts)…") {
							r.at("sorted", "sort condition", e.I, false, "only sorted under "+g)
						}
					}
				}
			}
		}
		r.ob("sorted", "offsets sorted", p.pos(f.Pos()), sorted, "the offsets are not sorted after an insertion")
	}
	// who may touch the itinerary
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && typeName(derefType(fa.X.Type())) == "model.GlobalAttributes" && fieldName(fa) == "offsets" {
						got := text(p.expr(st.Val, rootCtx(f)))
						r.at("sorted", "writer of offsets", st, globAny(got, "call:append(…offsets, slicelit(…))", "slicelit()", "new:[]float64()", "nil"), "offsets set to "+trim(got, 200))
					}
				}
			}
		}
	}
	p.windowSpec(r)
	p.effectSpec(r, "apply", "(*model.Score).ApplyGlobalAttributes", []string{"elem(recv.CurrentParts)…", "recv.…", "call:inv:updatePart"},
		want{T: "call:inv:updatePart", V: []string{"args(elem(…), elem(recv.CurrentParts), true)"}, Loops: []string{"…", "recv.CurrentParts"}, Once: true, Exact: true,
			When: []string{"F:(call:reflect.TypeOf(elem(recv.CurrentParts).localAttributeOverride) == call:reflect.TypeOf(elem(…)))"}},
		want{T: "elem(recv.CurrentParts).localAttributeOverride", V: []string{"nil"}, Loops: []string{"recv.CurrentParts"}, Exact: true},
	)
	if f := p.fn("(*model.Score).ApplyGlobalAttributes"); f != nil {
		for _, e := range p.acts(f) {
			if e.Target == "call:inv:updatePart" {
				for _, x := range p.acts(f) {
					if strings.HasSuffix(x.Target, ".localAttributeOverride") {
						r.at("override-reset", "reset after use", x.I, !before(x.Site, e.Site), "the override is cleared before it was taken into account")
					}
				}
			}
		}
		r.floor("override-reset", 1)
	}
	cloned := map[ssa.Instruction]bool{}
	if f := p.fn(partClone); f != nil {
		for _, e := range p.effects(rootCtx(f)) {
			if e.Field == "localAttributeOverride" && text(e.Val) == "recv.localAttributeOverride" && strings.Contains(text(e.Base), "deepcopy.Copy(recv)") {
				cloned[e.I] = true
			}
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && typeName(derefType(fa.X.Type())) == "model.Part" && fieldName(fa) == "localAttributeOverride" {
						in := fname(f)
						got := text(p.expr(st.Val, rootCtx(f)))
						r.at("override-reset", "writer of the override", st, got == "nil" || strings.HasSuffix(got, "PartUpdate") || cloned[st] || strings.HasPrefix(got, "arg"), "set to "+got+" in "+in)
					}
				}
			}
		}
	}
	apply := "call:(*model.Score).ApplyGlobalAttributes"
	for _, n := range []string{"Note", "Rest"} {
		p.effectSpec(r, "before-sound", "(model."+n+").UpdateScore", []string{apply},
			want{T: apply, V: []string{"args(arg0)"}, Loops: []string{}, When: []string{"F:arg0.chordMode"}, Exact: true, Once: true})
	}
	for _, n := range []string{"Chord", "AtMarker"} {
		p.effectSpec(r, "before-sound", "(model."+n+").UpdateScore", []string{apply},
			want{T: apply, V: []string{"args(arg0)"}, Loops: []string{}, Exact: true, Once: true})
	}
	for _, n := range []string{"Note", "Rest", "Chord", "AtMarker"} {
		f := p.fn("(model." + n + ").UpdateScore")
		if f == nil {
			continue
		}
		for _, a := range p.acts(f) {
			if a.Target != apply {
				continue
			}
			for _, e := range p.acts(f) {
				if e.Target == apply {
					continue
				}
				if e.Field == "CurrentOffset" || e.Field == "LastOffset" || e.Field == "Events" || e.Field == "call" && in(e.Target, "call:inv:UpdateScore", "call:inv:Ms", "call:inv:CalculateMidiNote") {
					r.at("before-sound", n+" "+toP(trim(e.Target, 60)), e.I, !before(e.Site, a.Site), "happens before the due global attribute changes are applied")
				}
			}
		}
	}
	p.tempoItinerary(r)
}

// windowSpec: InWindow(start, end) appends the updates at the offsets o with
// start < o && o <= end, walking the sorted offsets.
func (p *Prog) windowSpec(r *Report) {
	f := p.fn("(model.GlobalAttributes).InWindow")
	if f == nil {
		f = p.fn("(*model.GlobalAttributes).InWindow")
	}
	if f == nil {
		r.ob("window", "InWindow", "", false, "gone")
		return
	}
	facts := p.newFacts(nil)
	n := 0
	p.sites(rootCtx(f), func(s Site) {
		c, ok := s.I.(*ssa.Call)
		if !ok || calleeName(c.Common()) != "append" {
			return
		}
		n++
		got := text(p.expr(c, s.C))
		r.at("window", "appended", c, globAny(got, "call:append(…, lk(recv.itinerary, elem(recv.offsets)))"), "appends "+trim(got, 300))
		gs := p.guards(facts, s)
		lo, hi := false, false
		for _, g := range gs {
			switch g {
			case "T:(arg0 < elem(recv.offsets))":
				lo = true
			case "T:(elem(recv.offsets) <= arg1)":
				hi = true
			default:
				r.at("window", "extra condition", c, false, "only under "+g)
			}
		}
		r.at("window", "after the last offset", c, lo, "conditions: "+strings.Join(gs, " & "))
		r.at("window", "up to the current offset", c, hi, "conditions: "+strings.Join(gs, " & "))
		ls := p.enclosing(s)
		r.at("window", "loop", c, len(ls) == 1 && overText(ls[0]) == "recv.offsets", "not walked over the offsets in order")
	})
	r.ob("window", "InWindow appends", p.pos(f.Pos()), n >= 1, "nothing is selected")
	// leaving the loop early is allowed only past the end of the window
	for _, l := range loopsOf(f) {
		for b := range l.Body {
			if b == l.Head {
				continue
			}
			for _, s := range b.Succs {
				if l.Body[s] {
					continue
				}
				es := facts.edge(b, s, rootCtx(f))
				r.ob("window", "leaves the walk", p.ipos(b.Instrs[len(b.Instrs)-1]), es["T:(arg1 < elem(recv.offsets))"], "leaves the walk before the end of the window")
			}
		}
	}
	for _, c := range p.callSites("(model.GlobalAttributes).InWindow", "(*model.GlobalAttributes).InWindow") {
		a := c.Common().Args
		e := text(p.expr(a[1], rootCtx(c.Parent()))) + "," + text(p.expr(a[2], rootCtx(c.Parent())))
		r.at("window", "arguments", c, glob("…LastOffset,…CurrentOffset", e), "window is "+e)
	}
}

// callSites lists the static call sites of the named functions.
func (p *Prog) callSites(names ...string) (out []ssa.CallInstruction) {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && in(calleeName(c.Common()), names...) {
					out = append(out, c)
				}
			}
		}
	}
	return
}

func (p *Prog) tempoItinerary(r *Report) {
	f := p.fn("(*model.Score).TempoItinerary")
	if f == nil {
		r.ob("tempo-itinerary", "TempoItinerary", "", false, "gone")
		return
	}
	facts := p.newFacts(nil)
	root := rootCtx(f)
	upd := "elem(lk(recv.GlobalAttributes.itinerary, elem(recv.GlobalAttributes.offsets)))"
	rows := []struct {
		key, val string
		when     []string
		hit      int
	}{
		{"0", "120", nil, 0},
		{"key(elem(recv.Parts).TempoValues)", "val(elem(recv.Parts).TempoValues)", []string{"T:(1 == elem(recv.Parts).TempoRole)"}, 0},
		{"elem(recv.GlobalAttributes.offsets)", "as:model.TempoSet(" + upd + ").Tempo", []string{"T:is:model.TempoSet(" + upd + ")"}, 0},
		{"elem(recv.GlobalAttributes.offsets)", "(…as:model.MetricModulation(" + upd + ").Ratio… * …as:model.TempoSet(" + upd + ").Tempo…)", nil, 0},
		{"elem(recv.GlobalAttributes.offsets)", "(…as:model.TempoSet(" + upd + ").Tempo… * …as:model.MetricModulation(" + upd + ").Ratio…)", nil, 0},
	}
	p.sites(root, func(s Site) {
		m, ok := s.I.(*ssa.MapUpdate)
		if !ok {
			return
		}
		k, v := text(p.expr(m.Key, s.C)), text(p.expr(m.Value, s.C))
		ok = false
		for i := range rows {
			if glob(rows[i].key, k) && glob(rows[i].val, v) {
				ok = true
				rows[i].hit++
				fs := facts.At(m, s.C)
				for _, w := range rows[i].when {
					r.at("tempo-itinerary", "condition "+w, m, fs.match(w), "conditions here: "+trim(strings.Join(p.guards(facts, s), " & "), 300))
				}
			}
		}
		r.at("tempo-itinerary", "entry", m, ok, "entry "+trim(k, 200)+" -> "+trim(v, 300))
	})
	for i, x := range rows {
		if i == 4 {
			continue
		}
		h := x.hit
		if i == 3 {
			h += rows[4].hit
		}
		r.ob("tempo-itinerary", "entries for "+x.key+" "+trim(x.val, 60), p.pos(f.Pos()), h > 0, "gone")
	}
}
