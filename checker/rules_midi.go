package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C07"] = checkChannels }

func checkChannels(p *Prog, r *Report) {
	r.rule("choice", "a channel is chosen only when it is the percussion channel (for percussion), unused, used by this part alone, or not sounding in another part at the same time; never channel 9 otherwise")
	r.rule("overlap", "a channel counts as unavailable exactly when an event of another part on it overlaps the note")
	r.rule("usage", "every assignment is recorded once for the part")
	r.rule("writers", "only assignment and the midi-channel attribute change a part's channel; only the attribute makes it explicit")
	f := p.fn("(*model.Score).assignMidiChannel")
	if f == nil {
		r.ob("choice", "assignMidiChannel", "", false, "gone")
		return
	}
	root := rootCtx(f)
	facts := p.newFacts(nil)
	perc := "T:as:model.MidiInstrument(arg0.StockInstrument).IsPercussion"
	n := 0
	ev := "as:model.NoteEvent(elem(recv.Events))"
	// results that are only ever channels not sounding elsewhere (or -1)
	free := map[string]bool{}
	p.sites(root, func(s Site) {
		ex, ok := s.I.(*ssa.Extract)
		if !ok || typeName(ex.Type()) != "int32" {
			return
		}
		t := text(p.expr(ex, s.C))
		if !strings.HasPrefix(t, "{") || free[t] {
			return
		}
		good := true
		for _, ch := range p.choices(facts, ex, s.C) {
			if ch.Text == "-1" {
				continue
			}
			ok := false
			for a := range ch.Known {
				g, k := guardText(a)
				ok = ok || k && globAny(g, "F:hit(new:map…, "+ch.Text+")", "F:lk(new:map…, "+ch.Text+")")
			}
			good = good && ok
		}
		if good {
			free[toP(t)] = true
		}
	})
	for _, ret := range returns(f) {
		if len(ret.Results) != 2 || !isNilConst(ret.Results[1]) {
			continue
		}
		for _, ch := range p.choices(facts, ret.Results[0], root, Site{ret, root}) {
			if ch.Text == "-1" {
				// the error alternative
				continue
			}
			n++
			site := Site{ch.At, ch.C}
			if ch.At == nil {
				site = Site{ret, root}
			}
			c := ch.Text
			use := func(c string) [][]string {
				out := [][]string{}
				for _, u := range []string{"ix(recv.midiChannelUsage, " + c + ")", "elem(recv.midiChannelUsage)"} {
					out = append(out, []string{"T:(0 == call:len(" + u + ")) OR T:(call:len(" + u + ") <= 0) OR T:(call:len(" + u + ") < 1)"},
						[]string{"T:(1 == call:len(" + u + "))", "T:(arg0.origin == ix(" + u + ", 0))"},
						[]string{"T:{(arg0.origin == ix(" + u + ", 0)) | false}"},
						[]string{"T:(1 == call:len(" + u + "))", "T:(arg0.origin == elem(" + u + "))"})
				}
				return out
			}
			switch {
			case c == "9":
				p.reachedOnly(r, "choice", "percussion channel", facts, site, ch.Known, []string{perc})
			case strings.Contains(c, "ind:"):
				var alts [][]string
				raw := strings.TrimSuffix(strings.TrimPrefix(c, "conv:int32("), ")")
				not9 := "F:(9 == " + c + ") OR F:(9 == " + raw + ") OR F:(" + raw + " == 9) OR F:(" + c + " == 9)"
				for _, a := range append(use(c), []string{"F:hit(…, " + c + ")"}, []string{"F:lk(…, " + c + ")"}) {
					alts = append(alts, append([]string{not9}, a...))
				}
				p.reachedOnly(r, "choice", "another channel", facts, site, ch.Known, alts...)
			case c == "arg0.MidiChannel":
				alts := append(use(c), []string{"F:hit(…, arg0.MidiChannel)"}, []string{"F:lk(…, arg0.MidiChannel)"})
				for t := range free {
					alts = append(alts, []string{"T:(arg0.MidiChannel == " + t + ")"}, []string{"T:(" + t + " == arg0.MidiChannel)"})
				}
				p.reachedOnly(r, "choice", "the part's own channel", facts, site, ch.Known, alts...)
			default:
				r.at("choice", "channel", ret, false, "assigns "+trim(c, 200))
			}
		}
	}
	r.ob("choice", "choices", p.pos(f.Pos())+" ["+fname(f)+"]", n >= 3, "the choice of channel is gone")
	k := 0
	for _, e := range p.effects(root) {
		t := norm(e.Target)
		switch {
		case glob("new:map[int32]…()[…]", t):
			k++
			r.at("overlap", "channel marked", e.I, t == "new:map[int32]bool()["+ev+".MidiChannel]" && in(text(e.Val), "true") || t == "new:map[int32]struct{}()["+ev+".MidiChannel]", "marks "+t+" := "+text(e.Val))
			end := ev + ".Offset + " + ev + ".AudibleDuration"
			end2 := ev + ".AudibleDuration + " + ev + ".Offset"
			conds := []string{
				"F:(arg0.origin == " + ev + ".Part.origin) OR F:(" + ev + ".Part.origin == arg0.origin) OR F:(arg0.origin == " + ev + ".Part) OR F:(" + ev + ".Part == arg0.origin)",
				"T:(arg0.CurrentOffset < (" + end + ")) OR T:(arg0.CurrentOffset < (" + end2 + "))",
				"T:(" + ev + ".Offset < (arg0.CurrentOffset + arg1)) OR T:(" + ev + ".Offset < (arg1 + arg0.CurrentOffset))",
				"T:is:model.NoteEvent(elem(recv.Events))",
			}
			gs := p.guards(facts, e.Site)
			for _, c := range conds {
				r.at("overlap", "when "+trim(c, 60), e.I, knows(gs, c), "marked also otherwise; known: "+trim(strings.Join(gs, " & "), 500))
			}
			ls := p.enclosing(e.Site)
			r.at("overlap", "every event", e.I, len(ls) == 1 && overText(ls[0]) == "recv.Events" && p.earlyExit(ls[0].L, ls[0].C) == nil, "not every event of the score is looked at")
			// within the loop
			var in Site = e.Site
			why, at := p.unexcusedIn(facts, in, append(conds, "F:hit(new:map[int32]…()"+", "+ev+".MidiChannel)", "F:lk(new:map[int32]…()"+", "+ev+".MidiChannel)", "T:{("+ev+".Offset < (arg0.CurrentOffset + arg1)) | false}", "T:{(arg0.CurrentOffset < …) | false}"))
			r.at("overlap", "only then spared", e.I, at == nil, "an overlapping event is passed over when "+why)
		case glob("ix(recv.midiChannelUsage, …)", t) || glob("recv.midiChannelUsage…", t):
		}
	}
	r.ob("overlap", "marks", p.pos(f.Pos())+" ["+fname(f)+"]", k >= 1, "overlapping events no longer make a channel unavailable")
	// recording
	m := 0
	for _, e := range p.effects(root) {
		t := norm(e.Target)
		if !glob("ix(recv.midiChannelUsage, …)", t) {
			continue
		}
		m++
		v := p.shape(e.Val)
		r.at("usage", "recorded", e.I, v == "append("+t+", [arg0.origin])", "records "+trim(v, 300))
		gs := p.guards(facts, e.Site)
		for _, g := range gs {
			ok := globAny(g, "F:any(ix(recv.midiChannelUsage, …): T:(arg0.origin == elem(ix(recv.midiChannelUsage, …))))", "F:any(ix(recv.midiChannelUsage, …): T:(elem(ix(recv.midiChannelUsage, …)) == arg0.origin))", "F:(arg0.origin == elem(…", "F:(elem(… == arg0.origin)", "T:(nil == …")
			r.at("usage", "condition", e.I, ok, "only recorded under "+g)
		}
		p.skippedOnly(r, "usage", "not recorded", facts, e.Site, nil, []string{"T:any(ix(recv.midiChannelUsage, …): T:(arg0.origin == elem(ix(recv.midiChannelUsage, …)))) OR T:any(ix(recv.midiChannelUsage, …): T:(elem(ix(recv.midiChannelUsage, …)) == arg0.origin))"}, []string{"T:(arg0.origin == elem(ix(recv.midiChannelUsage, …))) OR T:(elem(ix(recv.midiChannelUsage, …)) == arg0.origin)"})
	}
	r.ob("usage", "recording", p.pos(f.Pos())+" ["+fname(f)+"]", m == 1, "assignments are no longer recorded (or twice)")
	p.sites(root, func(s Site) {
		ph, ok := s.I.(*ssa.Phi)
		if !ok || typeName(ph.Type()) != "bool" {
			return
		}
		inUsage := false
		for _, l := range loopsOf(s.C.Fn) {
			if l.Body[ph.Block()] {
				if o := p.over(l, s.C); o != nil && glob("ix(recv.midiChannelUsage, …)", text(o)) {
					inUsage = true
				}
			}
		}
		if !inUsage {
			return
		}
		for _, c := range p.choices(facts, ph, s.C) {
			if c.Text == "true" {
				ok := false
				for a := range c.Known {
					ok = ok || globAny(a, "T:(arg0.origin == elem(…", "T:(elem(… == arg0.origin)")
				}
				r.at("usage", "already recorded", ph, ok, "taken for recorded without finding the part")
			}
		}
	})
	// writers
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || typeName(derefType(fa.X.Type())) != "model.Part" {
					continue
				}
				v := text(p.expr(st.Val, rootCtx(g)))
				_, fresh := fa.X.(*ssa.Alloc)
				switch fieldName(fa) {
				case "HasExplicitMidiChannel":
					ok := fresh && in(v, "false", "recv.HasExplicitMidiChannel") || fname(g) == "(model.MidiChannelSet).updatePart" || strings.HasSuffix(v, ".HasExplicitMidiChannel")
					r.at("writers", "explicit channel flag", st, ok, "set to "+v)
				case "MidiChannel":
					if fresh {
						r.at("writers", "channel of a new part", st, in(v, "-1", "recv.MidiChannel"), "a new part starts with channel "+v)
					}
				}
			}
		}
	}
	r.floor("writers", 2)
	// the note's part and the event carry the assigned channel
	p.effectSpec(r, "usage", "(model.Note).UpdateScore", []string{"P.MidiChannel", "P.origin.MidiChannel", "P.HasExplicitMidiChannel"},
		want{T: "P.MidiChannel", V: []string{"{-1 | 9 | …P.MidiChannel…}", "{9 | …P.MidiChannel…}"}, Loops: []string{"arg0.CurrentParts"}},
		want{T: "P.origin.MidiChannel", V: []string{"{-1 | 9 | …P.MidiChannel…}", "{9 | …P.MidiChannel…}"}, Loops: []string{"arg0.CurrentParts"}},
	)
}
