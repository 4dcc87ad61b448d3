package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkTransmission }

const (
	toBundle  = "(transmitter.OSCTransmitter).ScoreToOSCBundle"
	addBundle = "call:(*github.com/daveyarwood/go-osc/osc.Bundle).Append"
)

func checkTransmission(p *Prog, r *Report) {
	r.rule("message", "every message sent to a player has the address, the arguments, and the argument types the player reads")
	r.rule("note", "every note event from the start to before the end is sent once, with its own channel, pitch, volume and durations, at its offset less the start and the sync offset of its part")
	r.rule("control", "before a note, its patch, volume and panning are sent when the channel is not known to have them already, and never a patch on channel 9")
	r.rule("tempo", "tempo changes are sent from the last one at or before the start to before the end, in order, unless this is an incremental update")
	r.rule("play", "the score is played unless it is only to be loaded; a one-off player is shut down after the end of the score")
	r.rule("range", "the start and end default to the whole score, and are otherwise the offsets referred to; a bad reference is an error")
	r.rule("send", "each message reaches the player on the local machine at the given port; an error is reported")
	f := p.fn(toBundle)
	if f == nil {
		r.ob("note", toBundle, "", false, "gone")
		return
	}
	ti := "call:(*model.Score).TempoItinerary(arg0)"
	offs := "{call:append(rec, slicelit(key(" + ti + "))) | slicelit()}"
	abbreviated([][2]string{
		{"call:(*model.Score).InterpretOffsetReference", "REF"},
		{"new:transmitter.TransmissionContext()", "CTX"},
		{"slice(arg0.Events, CTX.fromIndex, {CTX.toIndex | call:len(arg0.Events)})", "EV"},
		{"slice(arg0.Events, CTX.fromIndex, {-1 | CTX.toIndex | call:len(arg0.Events)})", "EV"},
		{"slice(arg0.Events, CTX.fromIndex, {-1 | call:len(arg0.Events) | CTX.toIndex})", "EV"},
		{"slice(arg0.Events, CTX.fromIndex, {call:len(arg0.Events) | CTX.toIndex})", "EV"},
		{"as:model.NoteEvent(elem(EV))", "N"},
		{"{0 | REF(arg0, CTX.from)}", "START"},
		{"{1.797693134862315708145274237317043567981e+308 | REF(arg0, CTX.to)}", "END"},
		{"{1.7976931348623157e+308 | REF(arg0, CTX.to)}", "END"},
		{"{1.79769e+308 | REF(arg0, CTX.to)}", "END"},
		{"call:github.com/daveyarwood/go-osc/osc.NewBundle(call:time.Now())", "B"},
		{"lk(call:(*model.Score).Tracks(arg0), N.Part)", "TRK"},
		{offs, "OFFS"},
		{ti, "TI"},
		{"(N.Offset - (START + lk(CTX.syncOffsets, N.Part)))", "OFF"},
		{"(N.Offset - (lk(CTX.syncOffsets, N.Part) + START))", "OFF"},
		{"conv:int32(call:math.Round(OFF))", "AT"},
		{"msg(/system/tempo, conv:int32(call:math.Round({(elem(OFFS) - START) | 0})), conv:float32(lk(TI, elem(OFFS))))", "TEMPO"},
		{"msg(/system/tempo, conv:int32(call:math.Round(call:math.Max((elem(OFFS) - START), 0))), conv:float32(lk(TI, elem(OFFS))))", "TEMPO"},
		{"msg(/system/tempo, conv:int32(call:math.Round(call:math.Max(0, (elem(OFFS) - START)))), conv:float32(lk(TI, elem(OFFS))))", "TEMPO"},
	}, func() {
		p.sealed(func() { p.bundleRules(r, f) },
			"(*model.Score).InterpretOffsetReference", "(*model.Score).TempoItinerary", "(*model.Score).Tracks")
	})
	p.scoreSide(r)
	p.optionRule(r)
	p.sendRule(r)
	p.protocolRule(r)
}

// scoreSide: what the transmitter reads off the score.
func (p *Prog) scoreSide(r *Report) {
	r.rule("tracks", "each part has its own track, numbered from 1 in the order of the parts")
	r.rule("itinerary", "the tempo starts at 120, follows the master part's own tempo changes and, over those, the global ones; a metric modulation multiplies the tempo before it")
	const U = "elem(lk(recv.GlobalAttributes.itinerary, elem(recv.GlobalAttributes.offsets)))"
	p.withFresh(func() {
		p.effectSpec(r, "tracks", "(*model.Score).Tracks", []string{"new:map…", "recv…"},
			want{T: "new:map[*model.Part]int32()[elem(recv.Parts).origin]", V: []string{"conv:int32((1 + ind:-1+1))", "conv:int32((1 + ind:0+1))", "conv:int32(ind:1+1)", "ind:1+1", "conv:int32((1 + (1 + ind:-1+1)))", "conv:int32((1 + 1 + ind:-1+1))", "conv:int32((1 + call:len(…)))"}, Loops: []string{"recv.Parts"}, Exact: true, Once: true})
		m := "new:map[float64]float64()"
		tempo := "as:model.TempoSet(" + U + ").Tempo"
		ratio := "as:model.MetricModulation(" + U + ").Ratio"
		last := "{120 | prev(" + tempo + ")}"
		loops := []string{"lk(recv.GlobalAttributes.itinerary, elem(recv.GlobalAttributes.offsets))", "recv.GlobalAttributes.offsets"}
		const master = "T:(elem(recv.Parts).TempoRole == 1)"
		p.effectSpec(r, "itinerary", "(*model.Score).TempoItinerary", []string{"new:map…", "recv…"},
			want{T: m + "[0]", V: []string{"120"}, Loops: []string{}, Exact: true, Once: true},
			want{T: m + "[key(elem(recv.Parts).TempoValues)]", V: []string{"lk(elem(recv.Parts).TempoValues, key(elem(recv.Parts).TempoValues))", "elem(elem(recv.Parts).TempoValues)", "val(elem(recv.Parts).TempoValues)"}, Loops: []string{"elem(recv.Parts).TempoValues", "recv.Parts"}, When: []string{alts(master, "T:(1 == elem(recv.Parts).TempoRole)")}, Exact: true, Once: true},
			want{T: m + "[elem(recv.GlobalAttributes.offsets)]", V: []string{tempo}, Loops: loops, When: []string{"T:is:model.TempoSet(" + U + ")"}, May: []string{"F:is:model.MetricModulation(" + U + ")"}, Exact: true, Once: true},
			want{T: m + "[elem(recv.GlobalAttributes.offsets)]", V: []string{"(" + last + " * " + ratio + ")", "(" + ratio + " * " + last + ")"}, Loops: loops, When: []string{"T:is:model.MetricModulation(" + U + ")"}, May: []string{"F:is:model.TempoSet(" + U + ")"}, Exact: true, Once: true},
		)
		p.returnSpec(r, "itinerary", "(*model.Score).TempoItinerary", 0, m)
		f := p.fn("(*model.Score).TempoItinerary")
		if f == nil {
			return
		}
		// the running tempo follows sets and modulations alike
		facts := p.newFacts(nil)
		run := 0
		p.sites(rootCtx(f), func(s Site) {
			ph, ok := s.I.(*ssa.Phi)
			if !ok || typeName(ph.Type()) != "float64" {
				return
			}
			for _, l := range loopsOf(s.C.Fn) {
				if l.Head != ph.Block() {
					continue
				}
				run++
				var got []string
				for _, c := range p.choices(facts, ph, s.C) {
					got = append(got, c.Text)
				}
				sort.Strings(got)
				t := strings.Join(got, " | ")
				mod := last
				r.at("itinerary", "running tempo", ph, in(t, "("+mod+" * "+ratio+") | 120 | "+tempo, "("+ratio+" * "+mod+") | 120 | "+tempo, "("+ratio+" * "+mod+") | "+tempo+" | 120"), "becomes one of "+trim(t, 400))
			}
		})
		r.ob("itinerary", "running tempo kept", p.pos(f.Pos())+" ["+fname(f)+"]", run > 0, "no running tempo")
		var own, glob []Site
		for _, e := range p.acts(f) {
			switch norm(e.Target) {
			case m + "[key(elem(recv.Parts).TempoValues)]":
				own = append(own, e.Site)
			case m + "[elem(recv.GlobalAttributes.offsets)]":
				glob = append(glob, e.Site)
			}
		}
		for _, g := range glob {
			for _, o := range own {
				r.at("itinerary", "global changes over those of the part", g.I, before(o, g) && !before(g, o), "a global tempo change is overwritten by the part's own")
			}
		}
	})
	ref := "call:(*regexp.Regexp).FindStringSubmatch(call:regexp.MustCompile(\"^(\\\\d+):(\\\\d+)$\"), arg0)"
	abbreviated([][2]string{{ref, "M"}}, func() {
		const fn = "(*model.Score).InterpretOffsetReference"
		f := p.fn(fn)
		if f == nil {
			r.ob("range", fn, "", false, "gone")
			return
		}
		is := alts("T:(3 == call:len(M))", "F:(nil == M)", "F:(M == nil)", "T:(2 < call:len(M))", "T:(3 <= call:len(M))", "F:(0 == call:len(M))", "T:(0 < call:len(M))")
		isnt := alts("F:(3 == call:len(M))", "T:(nil == M)", "T:(M == nil)", "T:(call:len(M) <= 2)", "T:(call:len(M) < 3)", "T:(0 == call:len(M))", "T:(call:len(M) <= 0)")
		atoi := func(i string) string { return "call:strconv.Atoi(ix(M, " + i + "))" }
		facts := p.newFacts(nil)
		n := map[string]int{}
		for _, ret := range returns(f) {
			if failing(ret, 0) || !isNilConst(ret.Results[1]) {
				continue
			}
			for _, c := range p.choices(facts, ret.Results[0], rootCtx(f)) {
				var gs []string
				for a := range union2(c.Known, facts.At(ret, rootCtx(f))) {
					if g, ok := guardText(a); ok {
						gs = append(gs, g)
					}
				}
				switch {
				case globAny(c.Text, "(conv:float64((1000 * 60 * "+atoi("1")+")) + conv:float64((1000 * "+atoi("2")+")))", "conv:float64((1000 * ("+atoi("2")+" + (60 * "+atoi("1")+"))))", "conv:float64((1000 * ((60 * "+atoi("1")+") + "+atoi("2")+")))", "conv:float64(((1000 * 60 * "+atoi("1")+") + (1000 * "+atoi("2")+")))", "conv:float64(((1000 * "+atoi("2")+") + (1000 * 60 * "+atoi("1")+")))"):
					n["time"]++
					r.at("range", "minutes and seconds", ret, knows(gs, is), "taken as a time without being one")
				case c.Text == "lk(recv.Markers, arg0)":
					n["marker"]++
					r.at("range", "marker", ret, knows(gs, isnt) && knows(gs, "T:hit(recv.Markers, arg0)"), "taken as a marker knowing only "+trim(strings.Join(gs, " & "), 300))
				default:
					r.at("range", "offset reference", ret, false, "is "+trim(c.Text, 300))
				}
			}
		}
		r.ob("range", "times and markers", p.pos(f.Pos())+" ["+fn+"]", n["time"] > 0 && n["marker"] > 0, "times or markers are no longer understood")
		p.refusal2(r, "range", f, "an unknown reference", "F:hit(recv.Markers, arg0)", strings.Split(isnt, " OR "))
	})
}

// optionRule: each option sets its own field of the context.
func (p *Prog) optionRule(r *Report) {
	r.rule("option", "each transmission option sets its own field to what it was given, and all options are applied")
	for fn, w := range map[string]string{"TransmitFrom": "from", "TransmitTo": "to", "TransmitFromIndex": "fromIndex", "TransmitToIndex": "toIndex", "SyncOffsets": "syncOffsets", "OneOff": "oneOff", "LoadOnly": "loadOnly"} {
		f := p.fn("transmitter." + fn)
		if f == nil {
			r.ob("option", fn, "", false, "gone")
			continue
		}
		n := 0
		for _, ret := range returns(f) {
			e := p.expr(ret.Results[0], rootCtx(f))
			mc, ok := e.V.(*ssa.MakeClosure)
			var cc *Ctx
			if ok {
				cc = p.internCtx(&Ctx{Fn: mc.Fn.(*ssa.Function), Parent: rootCtx(f), Closure: mc, CloCtx: e.C, depth: 1, key: fname(f) + ">opt"})
			} else if g, ok := e.V.(*ssa.Function); ok && g.Blocks != nil {
				cc = rootCtx(g)
			} else {
				r.at("option", fn, ret, false, "returns "+trim(text(e), 200))
				continue
			}
			facts := p.newFacts(nil)
			for _, x := range p.effects(cc) {
				if typeName(derefType(x.Base.T)) != "transmitter.TransmissionContext" {
					continue
				}
				n++
				v := text(x.Val)
				ok := x.Field == w && (v == "true" && f.Signature.Params().Len() == 0 || v == "arg0" && f.Signature.Params().Len() == 1)
				r.at("option", fn, x.I, ok, "sets "+x.Field+" to "+v)
				u, at := p.unexcusedIn(facts, x.Site, nil)
				r.at("option", fn+" always", x.I, at == nil, "not set when "+u)
			}
		}
		r.ob("option", fn+" sets a field", p.pos(f.Pos())+" ["+fname(f)+"]", n == 1, "sets not exactly one field")
	}
}

const oscSend = "call:(*github.com/daveyarwood/go-osc/osc.Client).Send"

func (p *Prog) sendRule(r *Report) {
	cl := "call:github.com/daveyarwood/go-osc/osc.NewClient(\"127.0.0.1\", recv.Port, slicelit(call:github.com/daveyarwood/go-osc/osc.ClientProtocol(1)))"
	p.sealed(func() {
		for fn, m := range map[string]string{
			"TransmitMidiExportMessage": "msg(/system/midi/export, arg0)",
			"TransmitPingMessage":       "msg(/ping)",
			"TransmitPlayMessage":       "msg(/system/play)",
			"TransmitStopMessage":       "msg(/system/stop)",
			"TransmitShutdownMessage":   "msg(/system/shutdown, arg0)",
			"TransmitOffsetMessage":     "msg(/system/offset, arg0)",
			"TransmitScore":             "call:" + toBundle + "(recv, arg0, arg1)",
		} {
			name := "(transmitter.OSCTransmitter)." + fn
			f := p.fn(name)
			if f == nil {
				r.ob("send", fn, "", false, "gone")
				continue
			}
			p.effectSpecOf(r, "send", fn, f, []string{oscSend, "call:(*github.com/daveyarwood/go-osc…"},
				want{T: oscSend, V: []string{"args(" + cl + ", " + m + ")"}, Loops: []string{}, Exact: true, Once: true},
				want{T: "call:(*github.com/daveyarwood/go-osc/osc.Message).Append", V: []string{"args(" + m + ", …"}, Opt: true})
			for _, e := range p.acts(f) {
				c, ok := e.I.(*ssa.Call)
				if !ok || e.Target != oscSend && e.Target != "call:"+toBundle {
					continue
				}
				why := p.errorLost(c)
				for x := e.C; why == "" && x.Parent != nil; x = x.Parent {
					if cc, ok := x.Call.(*ssa.Call); ok {
						why = p.errorLost(cc)
					}
				}
				r.at("send", fn+" reports the error", c, why == "", why)
			}
		}
	}, toBundle)
}

// protocolRule: Go's messages against the player's parser.
func (p *Prog) protocolRule(r *Report) {
	kinds := map[string]string{"Int": "int32", "Float": "float32", "String": "string"}
	reads := playerReads(filepath.Join(p.Repo, "player/src/main/kotlin/io/alda/player/Parser.kt"))
	r.Extra["player addresses"] = len(reads)
	seen := map[string]bool{}
	for _, f := range p.Funcs {
		if f.Signature.Recv() == nil || typeName(f.Signature.Recv().Type()) != "transmitter.OSCTransmitter" || f.Synthetic != "" {
			continue
		}
		p.sites(rootCtx(f), func(s Site) {
			c, ok := s.I.(*ssa.Call)
			if !ok || calleeName(c.Common()) != oscNew {
				return
			}
			m := p.msgExpr(c, s.C)
			addr := text(m.A[0])
			if m.A[0].Op == "cat" {
				var sb strings.Builder
				for _, a := range m.A[0].A {
					if a.Op == "const" {
						sb.WriteString(a.S)
					} else {
						sb.WriteString("1")
					}
				}
				addr = sb.String()
			}
			if seen[addr+p.ipos(c)] {
				return
			}
			seen[addr+p.ipos(c)] = true
			var is *reading
			for k := range reads {
				if reads[k].re.MatchString(addr) {
					is = &reads[k]
					break
				}
			}
			if len(reads) > 0 {
				r.at("message", "address "+addr, c, is != nil, "the player does not know this address")
			}
			if is == nil {
				return
			}
			r.at("message", "arguments of "+addr, c, len(m.A)-1 == len(is.types), fmt.Sprintf("has %d arguments, the player reads %d", len(m.A)-1, len(is.types)))
			for k, a := range m.A[1:] {
				if k >= len(is.types) || a.T == nil {
					continue
				}
				b, ok := a.T.Underlying().(*types.Basic)
				if !ok {
					continue
				}
				r.at("message", fmt.Sprintf("argument %d of %s", k, addr), c, b.Name() == kinds[is.types[k]], "is "+b.Name()+", the player reads "+is.types[k])
			}
		})
	}
	r.floor("message", 9)
}

type reading struct {
	re    *regexp.Regexp
	types []string
}

var (
	ktAddr = regexp.MustCompile(`Regex\("([^"]+)"\)\.matches\(address\)`)
	ktArg  = regexp.MustCompile(`args\.get\((\d+)\) as (\w+)`)
)

// playerReads lists the addresses the player understands and the types of the
// arguments it takes from each.
func playerReads(file string) (out []reading) {
	src, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	s := string(src)
	at := ktAddr.FindAllStringSubmatchIndex(s, -1)
	for i, m := range at {
		end := len(s)
		if i+1 < len(at) {
			end = at[i+1][0]
		}
		re, err := regexp.Compile("^" + strings.ReplaceAll(s[m[2]:m[3]], `\\`, `\`) + "$")
		if err != nil {
			return nil
		}
		rd := reading{re: re}
		for _, a := range ktArg.FindAllStringSubmatch(s[m[1]:end], -1) {
			k, _ := strconv.Atoi(a[1])
			for len(rd.types) <= k {
				rd.types = append(rd.types, "")
			}
			rd.types[k] = a[2]
		}
		out = append(out, rd)
	}
	return
}

func (p *Prog) bundleRules(r *Report, f *ssa.Function) {
	facts := p.newFacts(nil)
	inRange := []string{"T:(call:inv:EventOffset(elem(EV)) < END)", "T:(START <= call:inv:EventOffset(elem(EV)))", "T:is:model.NoteEvent(elem(EV))"}
	end := "T:(END <= call:inv:EventOffset(elem(EV)))"
	round := func(x string) string { return "conv:int32(call:math.Round(" + x + "))" }
	ev := func(w want) want {
		w.T, w.Loops, w.Break, w.Exact, w.Once = addBundle, []string{"EV"}, end, true, true
		w.When = append(append([]string{}, inRange...), w.When...)
		w.May = append([]string{"F:is:model.NoteEvent(elem(EV))"}, w.May...)
		return w
	}
	patch := "as:model.MidiInstrument(N.Part.StockInstrument).PatchNumber"
	neq := func(m, v string) []string {
		k := "lk(" + m + ", N.MidiChannel)"
		return []string{"F:(" + k + " == " + v + ")", "F:(" + v + " == " + k + ")", "F:hit(" + m + ", N.MidiChannel)"}
	}
	known := func(m string) string { return "new:map[int32]" + m + "()" }
	kpatch, kvol := known("int32"), known("float64")
	noSync := alts("T:(0 == call:len(CTX.syncOffsets))", "T:(call:len(CTX.syncOffsets) <= 0)", "T:(call:len(CTX.syncOffsets) < 1)")
	rows := []want{
		ev(want{V: []string{"args(B, msg(cat(/track/, TRK, /midi/note), N.MidiChannel, AT, N.MidiNote, " + round("N.Duration") + ", " + round("N.AudibleDuration") + ", " + round("(127 * N.Volume)") + "))"}}),
		ev(want{V: []string{"args(B, msg(cat(/track/, TRK, /midi/patch), N.MidiChannel, AT, " + patch + "))"}, When: []string{"F:(9 == N.MidiChannel)"}, MaySkip: true, May: append(neq(kpatch, patch), "T:is:model.MidiInstrument(N.Part.StockInstrument)")}),
		ev(want{V: []string{"args(B, msg(cat(/track/, TRK, /midi/volume), N.MidiChannel, AT, " + round("(127 * N.TrackVolume)") + "))"}, MaySkip: true, May: neq(kvol, "N.TrackVolume")}),
		ev(want{V: []string{"args(B, msg(cat(/track/, TRK, /midi/panning), N.MidiChannel, AT, " + round("(127 * N.Panning)") + "))"}, MaySkip: true, May: neq(kvol, "N.Panning")}),
	}
	rows = append(rows,
		want{T: addBundle, V: []string{"args(B, msg(/system/play))"}, Loops: []string{}, When: []string{"F:CTX.loadOnly"}, Exact: true, Once: true},
		want{T: addBundle, V: []string{"args(B, msg(/system/shutdown, " + round("(10000 + {0 | call:math.Max(rec, (OFF + N.AudibleDuration))})") + "))",
			"args(B, msg(/system/shutdown, " + round("(10000 + {(OFF + N.AudibleDuration) | 0})") + "))",
			"args(B, msg(/system/shutdown, " + round("(10000 + {0 | prev((OFF + N.AudibleDuration))})") + "))"}, Loops: []string{}, When: []string{"T:CTX.oneOff"}, Exact: true, Once: true},
		want{T: addBundle, V: []string{"args(B, TEMPO)"}, Opt: true, MaySkip: true},
		want{T: addBundle, V: []string{"args(B, elem({call:append(rec, slicelit(TEMPO)) | slicelit()}))"}, Loops: []string{"{call:append(rec, slicelit(TEMPO)) | slicelit()}"}, When: []string{noSync}, Exact: true, Opt: true},
	)
	p.effectSpecOf(r, "note", toBundle, f, []string{addBundle}, rows...)

	// the sites of the four kinds of track message
	kind := map[string][]Site{}
	var tempo []Effect
	for _, e := range p.acts(f) {
		t := text(e.Val)
		if e.Target == addBundle {
			for _, k := range []string{"note", "patch", "volume", "panning"} {
				if strings.HasPrefix(t, "args(B, msg(cat(/track/, TRK, /midi/"+k+")") {
					kind[k] = append(kind[k], e.Site)
				}
			}
		}
		if (e.Target == addBundle || e.Target == "call:append") && globAny(t, "args(…, slicelit(TEMPO))", "args(…, TEMPO)") {
			tempo = append(tempo, e)
		}
	}
	// control changes: left out only when the channel has the value already
	type ctl struct{ name, v, m string }
	for _, c := range []ctl{{"patch", patch, kpatch}, {"volume", "N.TrackVolume", kvol}, {"panning", "N.Panning", kvol}} {
		k := "lk(" + c.m + ", N.MidiChannel)"
		same := alts("T:("+k+" == "+c.v+")", "T:("+c.v+" == "+k+")")
		for _, s := range kind[c.name] {
			ok := [][]string{{same}}
			if c.name == "patch" {
				ok = append(ok, []string{"T:(9 == N.MidiChannel)"})
			}
			p.skippedOnly(r, "control", c.name+" left out", facts, s, nil, append(ok, []string{"F:is:model.NoteEvent(elem(EV))"}, []string{end}, []string{"T:(call:inv:EventOffset(elem(EV)) < START)"})...)
			for _, n := range kind["note"] {
				r.at("control", c.name+" before the note", s.I, before(s, n) && !before(n, s), "sent after the note")
			}
		}
		// what the channel is known to have is what was sent to it
		n := 0
		for _, e := range p.effects(rootCtx(f)) {
			if norm(e.Target) != c.m+"[N.MidiChannel]" || text(e.Val) != c.v {
				continue
			}
			n++
			same := false
			for _, s := range kind[c.name] {
				same = same || p.together(s, e.Site)
			}
			r.at("control", c.name+" remembered when sent", e.I, same, "remembered although it may not have been sent")
			for _, o := range p.effects(rootCtx(f)) {
				if o.Base.V == e.Base.V && o.Base.C == e.Base.C {
					r.at("control", c.name+" kept apart", o.I, norm(o.Target) == c.m+"[N.MidiChannel]" && text(o.Val) == c.v, "the value remembered is "+text(o.Val))
				}
			}
			p.sites(rootCtx(f), func(s Site) {
				lk, ok := s.I.(*ssa.Lookup)
				if !ok {
					return
				}
				base := p.expr(lk.X, s.C)
				if base.V == e.Base.V && base.C == e.Base.C {
					for _, q := range p.compared(lk) {
						t := text(p.expr(q, s.C))
						r.at("control", c.name+" compared with what was sent", lk, t == c.v, "compared with "+trim(t, 200))
					}
				}
			})
		}
		r.ob("control", c.name+" remembered", p.pos(f.Pos())+" ["+fname(f)+"]", n > 0, "the value sent to a channel is not remembered")
	}
	// events in the order of their offsets
	by := p.sortedBy(r, "note", f, "EV", "call:inv:EventOffset(%)")
	r.ob("note", "events sorted", p.pos(f.Pos())+" ["+fname(f)+"]", len(by) > 0, "the events are not put in the order of their offsets")
	for _, s := range by {
		for _, n := range append(kind["note"], kind["patch"]...) {
			r.at("note", "sorted first", s.I, before(s, n) && !before(n, s), "sorted after the notes are sent")
		}
	}

	// tempo
	first := "{0 | elem(OFFS)}"
	for _, e := range tempo {
		why := p.judge(facts, e, want{Loops: []string{"OFFS"}, Break: "T:(END <= elem(OFFS))", When: []string{"T:(elem(OFFS) < END)", "T:(" + first + " <= elem(OFFS))"}, May: strings.Split(noSync, " OR "), Exact: true})
		r.at("tempo", "tempo message", e.I, why == "", why)
		u, at := p.unexcusedIn(facts, e.Site, []string{"T:(elem(OFFS) < END)", "T:(" + first + " <= elem(OFFS))", noSync})
		r.at("tempo", "left out", e.I, at == nil, "a tempo change is left out when "+u)
	}
	r.ob("tempo", "tempo messages", p.pos(f.Pos())+" ["+fname(f)+"]", len(tempo) > 0, "no tempo changes are sent")
	so := p.sortedBy(r, "tempo", f, "OFFS", "%")
	r.ob("tempo", "offsets sorted", p.pos(f.Pos())+" ["+fname(f)+"]", len(so) > 0, "tempo changes are not sent in order")
	k := 0
	p.sites(rootCtx(f), func(s Site) {
		ph, ok := s.I.(*ssa.Phi)
		if !ok || partText(p.expr(ph, s.C)) != first {
			return
		}
		k++
		var in *Loop
		for _, l := range loopsOf(s.C.Fn) {
			if l.Body[ph.Block()] && p.over(l, s.C) != nil && overText(LoopAt{l, s.C, p.over(l, s.C)}) == "OFFS" {
				in = l
			}
		}
		for _, c := range p.choices(facts, ph, s.C) {
			ok := c.Text == "0"
			for a := range c.Known {
				ok = ok || c.Text == "elem(OFFS)" && toP(a) == "T:(elem(OFFS) <= START)"
			}
			r.at("tempo", "tempo at the start", ph, ok, "taken to be "+trim(c.Text, 200))
		}
		if in != nil && in.Head == ph.Block() {
			if x := p.earlyExit(in, s.C, "T:(START < elem(OFFS))"); x != nil {
				r.at("tempo", "last tempo before the start", x, false, "the search for the tempo at the start ends early")
			}
			for i, e := range ph.Edges {
				if in.Body[ph.Block().Preds[i]] && e == ssa.Value(ph) {
					fs := facts.edge(ph.Block().Preds[i], ph.Block(), s.C)
					r.at("tempo", "tempo passed over", ph, fs.match("T:(START < elem(OFFS))"), "a tempo change at or before the start is passed over")
				}
			}
		}
	})
	r.ob("tempo", "tempo at the start", p.pos(f.Pos())+" ["+fname(f)+"]", k > 0, "nothing finds the last tempo change at or before the start")
	p.chosen(r, "tempo", "offset before the start", rootCtx(f), "{(elem(OFFS) - START) | 0}", map[string]string{
		"0": "T:((elem(OFFS) - START) < 0) OR T:((elem(OFFS) - START) <= 0) OR T:(elem(OFFS) < START) OR T:(elem(OFFS) <= START)", "(elem(OFFS) - START)": "F:((elem(OFFS) - START) < 0) OR T:(0 <= (elem(OFFS) - START)) OR T:(0 < (elem(OFFS) - START)) OR T:(START <= elem(OFFS)) OR T:(START < elem(OFFS))"})

	// length of the score
	longest := p.chosen(r, "play", "length of the score", rootCtx(f), "{(OFF + N.AudibleDuration) | 0 | prev((OFF + N.AudibleDuration))}", map[string]string{"0": "", "prev((OFF + N.AudibleDuration))": "", "(OFF + N.AudibleDuration)": "T:({0 | prev((OFF + N.AudibleDuration))} < (OFF + N.AudibleDuration)) OR T:({0 | prev((OFF + N.AudibleDuration))} <= (OFF + N.AudibleDuration))"})
	for _, e := range p.acts(f) {
		if e.Target == "call:math.Max" && glob("args({0 | call:math.Max…", text(e.Val)) {
			longest++
			why := p.judge(facts, e, want{Loops: []string{"EV"}, Break: end, When: inRange, May: []string{"…"}, Exact: true})
			r.at("play", "length of the score", e.I, why == "", why)
			for _, s := range kind["note"] {
				r.at("play", "every note counts", e.I, p.together(s, e.Site), "not every note that is sent counts towards the length of the score")
			}
		}
	}

	r.ob("play", "length of the score", p.pos(f.Pos())+" ["+fname(f)+"]", longest > 0, "nothing keeps where the last note ends")

	// range
	for _, x := range []struct{ f, d, name string }{{"CTX.from", "0", "START"}, {"CTX.to", "1.797…", "END"}} {
		unset := alts("T:(\"\" == "+x.f+")", "T:(0 == call:len("+x.f+"))", "T:("+x.f+" == \"\")", "T:(call:len("+x.f+") <= 0)")
		n := p.chosen(r, "range", x.name, rootCtx(f), x.name, map[string]string{x.d: unset, "REF(arg0, " + x.f + ")": ""})
		r.ob("range", x.name+" chosen", p.pos(f.Pos())+" ["+fname(f)+"]", n > 0, "no longer depends on "+x.f)
	}
	m := 0
	for _, e := range p.effects(rootCtx(f)) {
		if norm(e.Target) != "CTX.toIndex" {
			continue
		}
		if text(e.Val) == "call:len(arg0.Events)" {
			m++
			ok := false
			for _, g := range p.guards(facts, e.Site) {
				ok = ok || globAny(g, "T:(-1 == {…CTX.toIndex…})", "T:({…CTX.toIndex…} == -1)", "T:({…CTX.toIndex…} < 0)", "T:(-1 == CTX.toIndex)")
			}
			r.at("range", "all events", e.I, ok, "the last event is set although one was given")
		} else {
			r.at("range", "no last event given", e.I, text(e.Val) == "-1", "set to "+text(e.Val))
		}
	}
	r.ob("range", "all events by default", p.pos(f.Pos())+" ["+fname(f)+"]", m > 0, "without a last event the score is not sent to its end")
	for _, e := range p.acts(f) {
		if e.Target == "REF" || norm(e.Target) == "REF" || strings.HasSuffix(e.Target, ".InterpretOffsetReference") {
			why := p.errorLost(e.I.(*ssa.Call))
			r.at("range", "a bad reference", e.I, why == "", why)
		}
	}
	p.effectSpecOf(r, "range", toBundle, f, []string{"call:elem(arg1)"},
		want{T: "call:elem(arg1)", V: []string{"args(CTX)"}, Loops: []string{"arg1"}, Exact: true, Once: true})
}

// together: each of the two happens whenever the other does, in the same iteration.
func (p *Prog) together(a, b Site) bool {
	x, y, _, ok := lift(a, b)
	if !ok || x == nil || y == nil {
		return false
	}
	if x.Block() == y.Block() {
		return true
	}
	if p.byResult(x, y, b, a.C) || p.byResult(y, x, a, b.C) {
		return true
	}
	bx, by := x.Block(), y.Block()
	if !bx.Dominates(by) {
		bx, by = by, bx
	}
	if !bx.Dominates(by) {
		return false
	}
	// every way on from bx meets by before it leaves the iteration
	var in *Loop
	for _, l := range loopsOf(bx.Parent()) {
		if l.Body[bx] && l.Body[by] && (in == nil || len(l.Body) < len(in.Body)) {
			in = l
		}
	}
	seen := map[*ssa.BasicBlock]bool{by: true}
	ok = true
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		if len(b.Succs) == 0 {
			if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && goodReturn(r.Block(), map[*ssa.BasicBlock]bool{}) != nil {
				ok = false
			}
		}
		for _, s := range b.Succs {
			if in != nil && (s == in.Head || !in.Body[s]) {
				ok = false
				return
			}
			dfs(s)
		}
	}
	dfs(bx)
	return ok
}

// byResult: x happens exactly when the call y, in which b happens, gives the
// result that b goes with.
func (p *Prog) byResult(x, y ssa.Instruction, b Site, c *Ctx) bool {
	call, ok := y.(*ssa.Call)
	if !ok || b.C.Parent != c || b.C.Call != ssa.CallInstruction(call) {
		return false
	}
	for _, r := range *call.Referrers() {
		ifi, ok := r.(*ssa.If)
		if !ok {
			continue
		}
		for k, s := range ifi.Block().Succs {
			if len(s.Preds) != 1 || s != x.Block() {
				continue
			}
			good := true
			for _, ret := range returns(b.C.Fn) {
				v, isK := constBool(ret.Results[0])
				with := b.I.Block().Dominates(ret.Block())
				without := !with && !before(b, Site{ret, b.C})
				good = good && isK && (with && v == (k == 0) || without && v != (k == 0))
			}
			return good
		}
	}
	return false
}

// compared lists what a looked-up value is compared with.
func (p *Prog) compared(lk *ssa.Lookup) (out []ssa.Value) {
	vals := []ssa.Value{lk}
	if lk.CommaOk {
		vals = nil
		for _, r := range *lk.Referrers() {
			if x, ok := r.(*ssa.Extract); ok && x.Index == 0 {
				vals = append(vals, x)
			}
		}
	}
	for _, v := range vals {
		for _, r := range *v.Referrers() {
			if b, ok := r.(*ssa.BinOp); ok {
				if b.X == v {
					out = append(out, b.Y)
				} else {
					out = append(out, b.X)
				}
			}
		}
	}
	return
}

// sortedBy finds the calls that sort the list over in ascending order of key
// (with % for the element), and judges the comparison of any other sort of it.
func (p *Prog) sortedBy(r *Report, rule string, f *ssa.Function, over, key string) (out []Site) {
	for _, e := range p.acts(f) {
		c, ok := e.I.(*ssa.Call)
		if !ok || len(c.Call.Args) == 0 {
			continue
		}
		n := strings.TrimPrefix(e.Target, "call:")
		switch n {
		case "sort.Slice", "sort.SliceStable", "sort.Float64s", "sort.Strings", "sort.Ints", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		default:
			continue
		}
		if text(p.expr(c.Call.Args[0], e.C)) != over {
			continue
		}
		if len(c.Call.Args) == 1 {
			r.at(rule, "sorted "+over, c, key == "%", "sorted by its elements")
			if key == "%" {
				out = append(out, e.Site)
			}
			continue
		}
		cmp := p.expr(c.Call.Args[1], e.C)
		var rets []*E
		if mc, ok := cmp.V.(*ssa.MakeClosure); ok {
			fn := mc.Fn.(*ssa.Function)
			cc := p.internCtx(&Ctx{Fn: fn, Parent: e.C, Closure: mc, CloCtx: cmp.C, depth: e.C.depth + 1, key: e.C.key + ">cmp" + fname(fn)})
			for _, ret := range returns(fn) {
				rets = append(rets, p.expr(ret.Results[0], cc))
			}
		} else if fn, ok := cmp.V.(*ssa.Function); ok && fn.Blocks != nil {
			for _, ret := range returns(fn) {
				rets = append(rets, p.expr(ret.Results[0], rootCtx(fn)))
			}
		}
		got := text(union(rets))
		a := strings.ReplaceAll(key, "%", "ix("+over+", arg0)")
		b := strings.ReplaceAll(key, "%", "ix("+over+", arg1)")
		if strings.HasPrefix(n, "slices.") {
			a, b = strings.ReplaceAll(key, "%", "arg0"), strings.ReplaceAll(key, "%", "arg1")
		}
		good := in(got, "("+a+" < "+b+")", "("+a+" <= "+b+")", "call:cmp.Compare("+a+", "+b+")")
		r.at(rule, "sorted "+over, c, good, "ordered by "+trim(got, 300))
		if good {
			out = append(out, e.Site)
		}
	}
	return
}
