package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkNoteEvents
	checks["C02"] = checkTimeline
}

// msSum is the canonical duration of component list d at the current part's tempo.
func msSum(d string) string { return "{(call:inv:Ms(elem(" + d + "), P.Tempo) + rec) | 0}" }

const noteDur = "{P.Duration.Components | recv.Duration.Components}"

var scaledNoteMs = "(P.TimeScale * " + msSum(noteDur) + ")"

func checkNoteEvents(p *Prog, r *Report) {
	r.rule("event-field", "every NoteEvent field is computed from the note and the state of the part it is played by")
	r.rule("event-once", "a note appends its event to the score's events, exactly once per current part")
	r.rule("rest-silent", "no update other than a note builds note events")
	r.rule("event-guard", "a note with an audible duration sounds on every current part; only a MIDI number outside 0-127 stops it, with an error")
	r.rule("effective-duration", "the written duration is used when there is one, the part's default otherwise")
	r.rule("slur", "the quantization factor is applied exactly when the note is not slurred")
	r.rule("event-order", "the event's offset and sound settings are read before the note moves the part forward")
	r.rule("sticky-duration", "an explicit note or rest duration becomes the part's default duration, and nothing else does")
	r.rule("events-writers", "Score.Events only ever grows by note events appended in order")

	fields := map[string][]string{
		"Part":            {"P.origin"},
		"MidiNote":        {"call:inv:CalculateMidiNote(recv.Pitch, P.Octave, P.KeySignature, P.Transposition)"},
		"Offset":          {"P.CurrentOffset"},
		"Duration":        {scaledNoteMs},
		"AudibleDuration": {"{" + strings.Replace(scaledNoteMs, "(P.TimeScale", "(P.Quantization * P.TimeScale", 1) + " | " + scaledNoteMs + "}"},
		"Volume":          {"P.Volume"},
		"TrackVolume":     {"P.TrackVolume"},
		"Panning":         {"P.Panning"},
	}
	built := 0
	for _, t := range p.implementers("model", "ScoreUpdate") {
		f := p.method(t, "UpdateScore")
		if f == nil {
			continue
		}
		root := rootCtx(f)
		cs := p.composites(root, "model.NoteEvent")
		var events []Built
		for _, c := range cs {
			if len(p.fieldSites(c, "MidiNote")) > 0 || len(p.fieldSites(c, "Offset")) > 0 {
				events = append(events, c)
			}
		}
		if typeName(t) != "model.Note" {
			live := 0
			facts := p.newFacts(nil)
			for _, e := range events {
				fs := facts.At(e.I, e.C)
				if fs != nil && !fs.impossible(p, typeName(t)) {
					live++
				}
			}
			r.ob("rest-silent", typeName(t), p.pos(f.Pos())+" ["+fname(f)+"]", live == 0, "this update creates note events of its own")
			continue
		}
		effs := p.effects(root)
		for _, e := range events {
			built++
			for fld, pats := range fields {
				got := partText(p.fieldOf(e.E, fld))
				ok := in(got, pats...)
				r.at("event-field", "NoteEvent."+fld, e.I, ok, "is "+trim(got, 400)+", expected "+trim(strings.Join(pats, " or "), 400))
			}
			// one append per current part
			n := 0
			for _, ef := range effs {
				if ef.Target == "arg0.Events" {
					ls := p.enclosing(ef.Site)
					ok := len(ls) == 1 && overText(ls[0]) == "arg0.CurrentParts"
					got := text(ef.Val)
					ok = ok && glob("call:append(arg0.Events, slicelit(new:model.NoteEvent()))", got)
					var os []string
					for _, l := range ls {
						os = append(os, overText(l))
					}
					r.at("event-once", "append", ef.I, ok, "appended as "+trim(got, 200)+" inside loops over "+strings.Join(os, ", "))
					n++
				}
			}
			r.at("event-once", "appended", e.I, n == 1, fmt.Sprintf("%d append sites", n))
			// order
			var offs []Site
			for _, fs := range p.fieldSites(e, "Offset") {
				offs = append(offs, p.loadSite(Effect{Site: fs}))
			}
			for _, ef := range effs {
				if !in(ef.Field, "CurrentOffset", "LastOffset") || !strings.HasSuffix(partText(ef.Base), "P") {
					continue
				}
				for _, o := range offs {
					r.at("event-order", "Offset read before "+ef.Field+" moves", ef.I, ef.Field == "LastOffset" || !before(ef.Site, o), "the part is moved before the event's offset is read")
				}
			}
		}
		facts := p.newFacts(nil)
		p.sites(root, func(s Site) {
			b, ok := s.I.(*ssa.BinOp)
			if !ok || b.Op.String() != "*" {
				return
			}
			x, y := partText(p.expr(b.X, s.C)), partText(p.expr(b.Y, s.C))
			if strings.HasSuffix(x, "P.Quantization") || strings.HasSuffix(y, "P.Quantization") {
				fs := facts.At(b, s.C)
				r.at("slur", "quantized duration", b, fs["F:recv.Slurred"], "the note may be slurred here")
			}
		})
	}
	midi := "call:inv:CalculateMidiNote(recv.Pitch, P.Octave, P.KeySignature, P.Transposition)"
	p.effectSpec(r, "event-guard", "(model.Note).UpdateScore", []string{"arg0.Events"},
		want{T: "arg0.Events", Loops: []string{"arg0.CurrentParts"}, Exact: true, Once: true,
			When: []string{"T:(0 <= " + midi + ")", "T:(" + midi + " <= 127)"},
			May:  []string{"T:(0 < " + fields["AudibleDuration"][0] + ")", "T:is:model.Note(recv)", "F:is:model.Rest(recv)"}})
	r.ob("event-field", "built", "", built >= 1, "no NoteEvent is built by Note.UpdateScore any more")
	r.floor("slur", 1)
	for _, n := range []string{"Note", "Rest"} {
		if f := p.fn("(model." + n + ").UpdateScore"); f != nil {
			k := p.chosen(r, "effective-duration", n, rootCtx(f), "{P.Duration | recv.Duration}", map[string]string{
				"P.Duration":    "T:(…recv.Duration.Components… == nil) OR T:(nil == …recv.Duration.Components…) OR T:(0 == call:len(…recv.Duration.Components…))",
				"recv.Duration": "F:(…recv.Duration.Components… == nil) OR F:(nil == …recv.Duration.Components…) OR F:(0 == call:len(…recv.Duration.Components…)) OR T:(0 < call:len(…recv.Duration.Components…))",
			})
			r.ob("effective-duration", n+" merge", p.pos(f.Pos()), k > 0, "the choice between the written and the default duration is gone")
		}
	}
	r.floor("event-order", 2)
	for _, n := range []string{"Note", "Rest"} {
		f := p.fn("(model." + n + ").UpdateScore")
		if f == nil {
			r.ob("sticky-duration", n, "", false, "no UpdateScore")
			continue
		}
		p.effectSpecOf(r, "sticky-duration", n+" default duration", f, []string{"P.Duration"},
			want{T: "P.Duration", V: []string{"{P.Duration | recv.Duration}", "recv.Duration"}, Loops: []string{"arg0.CurrentParts"}, Once: true, Exact: true,
				May: []string{"F:(…Duration.Components… == nil)", "F:(nil == …Duration.Components…)", "T:(0 < call:len(…Duration.Components…))", "F:(0 == call:len(…Duration.Components…))"}})
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || typeName(derefType(fa.X.Type())) != "model.Score" || fieldName(fa) != "Events" {
					continue
				}
				got := text(p.expr(st.Val, rootCtx(f)))
				base := text(p.expr(fa.X, rootCtx(f)))
				ok = glob("call:append("+base+".Events, …)", got) || globAny(got, "nil", "slicelit()", "new:[]model.ScoreEvent()")
				r.at("events-writers", "Score.Events", st, ok, "set to "+trim(got, 200))
			}
		}
	}
	r.floor("events-writers", 1)
}

// impossible: the facts require the receiver to have another concrete type.
func (fs FactSet) impossible(p *Prog, self string) bool {
	for a := range fs {
		if strings.HasPrefix(a, "T:is:") && strings.HasSuffix(a, "(recv)") && a != "T:is:"+self+"(recv)" {
			return true
		}
		if a == "F:is:"+self+"(recv)" {
			return true
		}
	}
	return false
}

func checkTimeline(p *Prog, r *Report) {
	r.rule("advance", "each kind of update moves a part's offset by exactly the time it stands for, and no other update moves it")
	r.rule("always", "the move happens for every current part, under no further condition, once")
	r.rule("last-offset", "LastOffset takes the offset the part had before it moved")
	r.rule("chord-mode", "notes and rests move the part only outside of chords")
	r.rule("chord-shortest", "a chord advances by the minimum of its notes' durations, per part")
	r.rule("ms", "durations convert to milliseconds by their definition at the given tempo")
	r.rule("cram-scale", "cram scales its events by outer duration over inner duration")
	r.rule("duration-ms", "DurationMs of an update equals what playing it takes")

	advance := map[string][]string{
		"model.Note":     {"((P.TimeScale * " + msSum(noteDur) + ") + P.CurrentOffset)"},
		"model.Rest":     {"((P.TimeScale * " + msSum(noteDur) + ") + P.CurrentOffset)"},
		"model.Chord":    {"(P.CurrentOffset + lk(new:map[*model.Part]float64(), P))"},
		"model.AtMarker": {"lk(arg0.Markers, recv.Name)"},
	}
	for _, t := range p.implementers("model", "ScoreUpdate") {
		f := p.method(t, "UpdateScore")
		if f == nil {
			continue
		}
		root := rootCtx(f)
		facts := p.newFacts(nil)
		var cur, last int
		for _, ef := range p.effects(root) {
			if ef.Field != "CurrentOffset" && ef.Field != "LastOffset" || isFresh(ef.Base) || typeName(derefType(ef.Base.T)) != "model.Part" && ef.Base.T != nil {
				continue
			}
			got := partText(ef.Val)
			if partText(ef.Base) != "P" {
				r.at("advance", typeName(t)+" moves another part", ef.I, false, "writes "+trim(partText(ef.Base), 200)+"."+ef.Field)
				continue
			}
			fs := facts.At(ef.I, ef.C)
			ls := p.enclosing(ef.Site)
			inLoop := len(ls) == 1 && overText(ls[0]) == "arg0.CurrentParts"
			if ef.Field == "CurrentOffset" {
				cur++
				want := advance[typeName(t)]
				r.at("advance", typeName(t), ef.I, in(got, want...) && inLoop, "moves the part to "+trim(got, 300)+"; expected "+trim(strings.Join(want, " or "), 300)+" once per current part")
				r.at("last-offset", typeName(t)+" recorded", ef.I, p.hasTwin(facts, root, ef, "LastOffset"), "the part moves without its previous offset being recorded")
				if in(typeName(t), "model.Note", "model.Rest") {
					r.at("chord-mode", typeName(t), ef.I, fs["F:arg0.chordMode"], "a note inside a chord moves the part")
				}
			} else {
				last++
				r.at("last-offset", typeName(t), ef.I, got == "P.CurrentOffset" && inLoop, "LastOffset set to "+trim(got, 200))
				ld := p.loadSite(ef)
				for _, x := range p.effects(root) {
					if x.Field == "CurrentOffset" && partText(x.Base) == "P" {
						r.at("last-offset", typeName(t)+" order", ef.I, !before(x.Site, ld), "the offset is read after the part has moved")
					}
				}
			}
		}
		if want := advance[typeName(t)]; want != nil {
			r.ob("advance", typeName(t)+" present", p.pos(f.Pos())+" ["+fname(f)+"]", cur >= 1 && last >= 1, "no longer moves the part")
		}
	}
	r.floor("advance", 6)
	for n, w := range map[string]want{
		"Note":     {When: []string{"F:arg0.chordMode"}, May: []string{"T:is:model.…(recv)", "F:is:model.…(recv)"}},
		"Rest":     {When: []string{"F:arg0.chordMode"}, May: []string{"T:is:model.…(recv)", "F:is:model.…(recv)"}},
		"Chord":    {},
		"AtMarker": {May: []string{"T:hit(arg0.Markers, recv.Name)"}},
	} {
		w.T, w.Loops, w.Exact, w.Once = "P.CurrentOffset", []string{"arg0.CurrentParts"}, true, true
		p.effectSpec(r, "always", "(model."+n+").UpdateScore", []string{"P.CurrentOffset"}, w)
	}
	checkChordShortest(p, r)
	checkMs(p, r)
	checkCramScale(p, r)
	checkDurationMs(p, r)
}

func checkChordShortest(p *Prog, r *Report) {
	f := p.fn("(model.Chord).UpdateScore")
	if f == nil {
		r.ob("chord-shortest", "Chord.UpdateScore", "", false, "gone")
		return
	}
	evDur := "{as:model.Note(elem(recv.Events)).Duration.Components | as:model.Rest(elem(recv.Events)).Duration.Components | P.Duration.Components}"
	n := 0
	for _, ef := range p.effects(rootCtx(f)) {
		if ef.Field != "[]" || !glob("new:map[*model.Part]float64()[…]", text(ef.Base)+"[]") {
			continue
		}
		n++
		got := partText(ef.Val)
		key := strings.TrimSuffix(strings.TrimPrefix(strings.ReplaceAll(ef.Target, "elem(arg0.CurrentParts)", "P"), "new:map[*model.Part]float64()["), "]")
		ok := key == "P" && globAny(got, "1.79769e+308", "1.797693…e+308",
			"call:math.Min(lk(new:map[*model.Part]float64(), P), (P.TimeScale * "+msSum(evDur)+"))",
			"call:min(lk(new:map[*model.Part]float64(), P), (P.TimeScale * "+msSum(evDur)+"))",
			"(P.TimeScale * "+msSum(evDur)+")")
		r.at("chord-shortest", "shortest so far", ef.I, ok, "per-part shortest duration set to "+trim(got, 300)+" under key "+key)
	}
	r.ob("chord-shortest", "instances", p.pos(f.Pos()), n >= 2, "the per-part minimum is gone")
}

func checkMs(p *Prog, r *Report) {
	want := map[string][]string{
		"(model.NoteLength).Ms":         {"((2 - call:math.Pow(2, conv:float64(un:-(recv.Dots)))) * 4 * 60000 * recip(arg0) * recip(recv.Denominator))"},
		"(model.NoteLength).Beats":      {"((2 - call:math.Pow(2, conv:float64(un:-(recv.Dots)))) * 4 * recip(recv.Denominator))"},
		"(model.NoteLengthBeats).Ms":    {"(60000 * recip(arg0) * recv.Quantity)"},
		"(model.NoteLengthBeats).Beats": {"recv.Quantity"},
		"(model.NoteLengthMs).Ms":       {"recv.Quantity"},
		"(model.NoteLengthSeconds).Ms":  {"(1000 * recv.Quantity)"},
		"(model.Duration).Ms":           {"{(call:inv:Ms(elem(recv.Components), arg0) + rec) | 0}"},
		"(model.Duration).Beats":        {"{(call:inv:Beats(elem(recv.Components)) + rec) | 0}"},
		"(model.Barline).Ms":            {"0"},
		"(model.Barline).Beats":         {"0"},
	}
	for name, ws := range want {
		f := p.fn(name)
		if f == nil {
			r.ob("ms", name, "", false, "gone")
			continue
		}
		for _, ret := range returns(f) {
			got := text(p.expr(ret.Results[0], rootCtx(f)))
			r.at("ms", name, ret, in(got, ws...), "computes "+trim(got, 200)+", expected "+strings.Join(ws, " or "))
		}
	}
	r.floor("ms", 10)
}

func checkCramScale(p *Prog, r *Report) {
	f := p.fn("(model.Cram).UpdateScore")
	if f == nil {
		r.ob("cram-scale", "Cram.UpdateScore", "", false, "gone")
		return
	}
	inner := "{(call:inv:DurationMs(elem(recv.Events), as:*model.Part(call:github.com/mohae/deepcopy.Copy(P))) + rec) | 0}"
	outer := msSum("{P.Duration.Components | recv.Duration.Components}")
	want := []string{
		"(P.TimeScale * recip(" + inner + ") * " + outer + ")",
		"{(P.TimeScale * recip(" + inner + ") * " + outer + ") | -1}",
	}
	n := 0
	for _, ef := range p.effects(rootCtx(f)) {
		if ef.Field == "TimeScale" && partText(ef.Base) == "P" {
			got := partText(ef.Val)
			if got == "lk(new:map[*model.Part]float64(), P)" {
				continue // restoring, judged by the restore property
			}
			n++
			r.at("cram-scale", "TimeScale", ef.I, in(got, want...), "time scale is "+trim(got, 500))
		}
	}
	r.ob("cram-scale", "instances", p.pos(f.Pos()), n == 1, fmt.Sprintf("%d writes", n))
}

func checkDurationMs(p *Prog, r *Report) {
	sum := func(d string) string { return "{(call:inv:Ms(elem(" + d + "), arg0.Tempo) + rec) | 0}" }
	own := sum("{arg0.Duration.Components | recv.Duration.Components}")
	want := map[string][]string{
		"model.Note":              {own},
		"model.Rest":              {own},
		"model.Cram":              {own},
		"model.EventSequence":     {"{(call:inv:DurationMs(elem(recv.Events), arg0) + rec) | 0}"},
		"model.Chord":             {"…call:math.Min(…call:inv:DurationMs(elem(recv.Events), arg0)…", "…call:min(…call:inv:DurationMs(elem(recv.Events), arg0)…"},
		"model.Repeat":            {"{(call:inv:DurationMs(recv.Event, arg0) + rec) | 0}"},
		"model.OnRepetitions":     {"{0 | call:inv:DurationMs(recv.Event, arg0)}", "{call:inv:DurationMs(recv.Event, arg0) | 0}"},
		"model.VariableReference": {"{(call:inv:DurationMs(elem(lk(arg0.score.Variables, recv.VariableName)), arg0) + rec) | 0}", "…call:inv:DurationMs(elem(…), arg0) + rec…"},
	}
	for _, t := range p.implementers("model", "ScoreUpdate") {
		f := p.method(t, "DurationMs")
		if f == nil {
			continue
		}
		var es []*E
		for _, ret := range returns(f) {
			es = append(es, p.expr(ret.Results[0], rootCtx(f)))
		}
		got := text(union(es))
		ws := want[typeName(t)]
		if ws == nil {
			ws = []string{"0"}
			if typeName(t) == "model.LispList" {
				ws = []string{"…"}
			}
		}
		r.ob("duration-ms", typeName(t), p.pos(f.Pos())+" ["+fname(f)+"]", globAny(got, ws...), "returns "+trim(got, 300))
	}
	r.floor("duration-ms", 12)
}

// loadSite is where the value an effect stores was read from memory (the
// store itself when it is not a plain read).
func (p *Prog) loadSite(e Effect) Site {
	st, ok := e.I.(*ssa.Store)
	if !ok {
		return e.Site
	}
	v, c := p.resolve(st.Val, e.C)
	if i, ok := v.(ssa.Instruction); ok {
		return Site{i, c}
	}
	return e.Site
}

// hasTwin: another field of the same owner is written under the same
// conditions, in the same loops.
func (p *Prog) hasTwin(facts *Facts, root *Ctx, e Effect, field string) bool {
	g := strings.Join(p.guards(facts, e.Site), " & ")
	for _, x := range p.effects(root) {
		if x.Field == field && text(x.Base) == text(e.Base) && strings.Join(p.guards(facts, x.Site), " & ") == g {
			return true
		}
	}
	return false
}
