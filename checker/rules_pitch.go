package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func checkPitch(p *Prog, r *Report) {
	r.rule("midi-number", "a pitch's MIDI number is 12*(octave+1) + letter + accidentals + transposition; an explicit number is only transposed")
	r.rule("accidentals", "written accidentals win over the key signature; a sharp adds one semitone, a flat removes one, a natural neither")
	r.rule("names", "note letters, accidentals and scale types are what their names say, and unknown names are errors")
	r.rule("circle", "a key signature of n sharps or flats adds them in the order of the circle of fifths")
	r.rule("scale", "a scale's key signature is its letter's place in the circle of fifths for the mode, shifted by the tonic's accidentals")
	r.rule("shift", "shifting a key moves every letter by one semitone")
	r.rule("spelled", "a spelled key signature gives each letter exactly its own accidentals")

	letters := p.constNames("model", "NoteLetter") // value -> name
	accs := p.constNames("model", "Accidental")
	modes := p.constNames("model", "ScaleType")
	val := func(m map[string]string, name string) string {
		for v, n := range m {
			if n == name {
				return v
			}
		}
		return "?"
	}
	flat, sharp := val(accs, "Flat"), val(accs, "Sharp")
	p.returnSpec(r, "midi-number", "(model.MidiNoteNumber).CalculateMidiNote", 0, "(arg2 + recv.MidiNote)")
	p.returnSpec(r, "midi-number", "(model.LetterAndAccidentals).CalculateMidiNote", 0,
		"(arg2 + {(((1 + arg0) * 12) + lk(model.NoteLetterIntervals, recv.NoteLetter)) | (1 + rec) | (rec - 1)})",
		"(((1 + arg0) * 12) + arg2 + lk(model.NoteLetterIntervals, recv.NoteLetter) + {(1 + rec) | (rec - 1) | 0})",
		"{(((1 + arg0) * 12) + arg2 + lk(model.NoteLetterIntervals, recv.NoteLetter)) | (1 + rec) | (rec - 1)}")
	iv := p.mapLiteral("model", "NoteLetterIntervals")
	for l, s := range map[string]int{"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11} {
		r.ob("midi-number", "semitones of "+l, "client/model/pitch.go", iv[val(letters, l)] == fmt.Sprint(s), "is "+iv[val(letters, l)])
	}
	r.ob("midi-number", "intervals fixed", "client/model/pitch.go", len(iv) == 7 && len(p.globalWriters("model", "NoteLetterIntervals")) == 1, "the table changed")
	if f := p.fn("(model.LetterAndAccidentals).CalculateMidiNote"); f != nil {
		facts := p.newFacts(nil)
		own := "{lk(arg1, recv.NoteLetter) | recv.Accidentals}"
		n := p.chosen(r, "accidentals", "accidentals in effect", rootCtx(f), own, map[string]string{
			"lk(arg1, recv.NoteLetter)": "T:(…recv.Accidentals == nil) OR T:(nil == recv.Accidentals)",
			"recv.Accidentals":          "F:(recv.Accidentals == nil) OR F:(nil == recv.Accidentals)",
		})
		r.ob("accidentals", "choice", p.pos(f.Pos())+" ["+fname(f)+"]", n > 0, "the choice between written accidentals and the key signature is gone")
		up, down := 0, 0
		p.sites(rootCtx(f), func(s Site) {
			b, ok := s.I.(*ssa.BinOp)
			if !ok || b.Op.String() != "+" && b.Op.String() != "-" {
				return
			}
			ls := p.enclosing(s)
			if len(ls) != 1 || !strings.Contains(overText(ls[0]), "recv.Accidentals") {
				return
			}
			if _, isI := ls[0].L.Head.Instrs[0].(*ssa.Phi); isI && strings.Contains(p.expr(b, s.C).String(), "ind:") {
				return
			}
			gs := strings.Join(p.guards(facts, s), " & ")
			k, okc := b.Y.(*ssa.Const)
			if !okc {
				k, okc = b.X.(*ssa.Const)
			}
			r.at("accidentals", "step", b, okc && in(k.Value.ExactString(), "1", "-1"), "changes the number by something other than one")
			if !okc {
				return
			}
			isUp := (b.Op.String() == "+") == (k.Value.ExactString() == "1")
			w := flat
			if isUp {
				w = sharp
				up++
			} else {
				down++
			}
			r.at("accidentals", map[bool]string{true: "up", false: "down"}[isUp], b, strings.Contains(gs, "T:("+w+" == elem("), "known here: "+trim(gs, 200))
		})
		r.ob("accidentals", "steps", p.pos(f.Pos()), up == 1 && down == 1, fmt.Sprintf("%d steps up, %d down", up, down))
	}

	var lt []specRow
	for c := 'a'; c <= 'g'; c++ {
		lt = append(lt, specRow{[]string{fmt.Sprintf("T:(%d == arg0)", c)}, []string{val(letters, strings.ToUpper(string(c))), "nil"}})
	}
	lt = append(lt, specRow{nil, []string{"ERR"}})
	p.tableSpec(r, "names", "model.NewNoteLetter", lt...)
	var at []specRow
	for _, n := range []string{"Flat", "Natural", "Sharp"} {
		at = append(at, specRow{[]string{`T:("` + strings.ToLower(n) + `" == arg0)`}, []string{val(accs, n), "nil"}})
	}
	at = append(at, specRow{nil, []string{"ERR"}})
	p.tableSpec(r, "names", "model.NewAccidental", at...)
	sym := "as:model.LispSymbol(ix(arg0, 0))"
	mt := []specRow{{[]string{"F:(1 == call:len(arg0))"}, []string{"ERR"}}, {[]string{"F:is:model.LispSymbol(ix(arg0, 0))"}, []string{"ERR"}}}
	for _, x := range [][2]string{{"major", "Ionian"}, {"ionian", "Ionian"}, {"dorian", "Dorian"}, {"phrygian", "Phrygian"}, {"lydian", "Lydian"}, {"mixolydian", "Mixolydian"}, {"minor", "Aeolian"}, {"aeolian", "Aeolian"}, {"locrian", "Locrian"}} {
		mt = append(mt, specRow{[]string{`T:("` + x[0] + `" == ` + sym + `.Name)`}, []string{val(modes, x[1]), "nil"}})
	}
	mt = append(mt, specRow{nil, []string{"ERR"}})
	p.tableSpec(r, "names", "model.scaleType", mt...)

	// order of sharps and flats
	order := func(names string) string {
		var xs []string
		for _, l := range strings.Fields(names) {
			xs = append(xs, val(letters, l))
		}
		return "slicelit(" + strings.Join(xs, ", ") + ")"
	}
	sharps, flats := order("F C G D A E B"), order("B E A D G C F")
	if f := p.fn("model.KeySignatureFromCircleOfFifths"); f == nil {
		r.ob("circle", "KeySignatureFromCircleOfFifths", "", false, "gone")
	} else {
		n := 0
		for _, e := range p.effects(rootCtx(f)) {
			if e.Field != "[]" {
				continue
			}
			n++
			t := norm(e.Target)
			v := p.shape(e.Val)
			u := "{" + flats + " | " + sharps + "}"
			k := "ix(" + u + ", (ind:0+1 % call:len(" + u + ")))"
			k7 := "ix(" + u + ", (ind:0+1 % 7))"
			r.at("circle", "letter", e.I, in(t, "new:model.KeySignature()["+k+"]", "new:model.KeySignature()["+k7+"]"), "the accidental goes to "+trim(t, 300))
			r.at("circle", "accidental added", e.I, in(v, "append(lk(new:model.KeySignature(), "+k+"), [{"+flat+" | "+sharp+"}])", "append(lk(new:model.KeySignature(), "+k7+"), [{"+flat+" | "+sharp+"}])"), "becomes "+trim(v, 300))
			ls := p.enclosing(e.Site)
			r.at("circle", "count", e.I, len(ls) == 1 && globAny(overText(ls[0]), "upto(conv:int(call:math.Abs(conv:float64(arg0))))", "upto({arg0 | un:-(arg0)})", "upto({un:-(arg0) | arg0})"), "not repeated |n| times")
			for _, g := range p.guards(p.newFacts(nil), e.Site) {
				r.at("circle", "always", e.I, globAny(g, "F:(0 == arg0)", "T:(ind:0+1 < …"), "only under "+g)
			}
		}
		r.ob("circle", "additions", p.pos(f.Pos())+" ["+fname(f)+"]", n == 1, fmt.Sprintf("%d", n))
		for pat, rows := range map[string]map[string]string{
			"{" + flats + " | " + sharps + "}": {sharps: "T:(0 < arg0) OR T:(1 <= arg0) OR T:(0 <= arg0)", flats: "T:(arg0 <= 0) OR T:(arg0 < 0)"},
			"{" + flat + " | " + sharp + "}":   {sharp: "T:(0 < arg0) OR T:(1 <= arg0) OR T:(0 <= arg0)", flat: "T:(arg0 <= 0) OR T:(arg0 < 0)"},
		} {
			k := p.chosen(r, "circle", "sharps or flats", rootCtx(f), pat, rows)
			r.ob("circle", "sharps or flats by sign "+pat, p.pos(f.Pos()), k > 0, "the choice is gone")
		}
	}
	starts := map[string]string{"Ionian": "-1", "Dorian": "-3", "Phrygian": "-5", "Lydian": "0", "Mixolydian": "-2", "Aeolian": "-4", "Locrian": "-6"}
	if f := p.fn("model.partialCircleOfFifths"); f == nil {
		r.ob("scale", "partialCircleOfFifths", "", false, "gone")
	} else {
		n := 0
		facts := p.newFacts(nil)
		for _, e := range p.effects(rootCtx(f)) {
			if e.Field != "[]" {
				continue
			}
			n++
			t, v := norm(e.Target), text(e.Val)
			r.at("scale", "place of a letter", e.I, glob("new:map[model.NoteLetter]int()[elem("+sharps+")]", t) && globAny(v, "{(1 + rec) | -1 | -2 | -3 | -4 | -5 | -6 | 0}", "(1 + ind:-1+1 + {…})", "(ind:0+1 + {…})", "((1 + ind:-1+1) + {…})", "({…} + (1 + ind:-1+1))"), t+" is "+v)
			ls := p.enclosing(e.Site)
			r.at("scale", "every letter", e.I, len(ls) == 1 && overText(ls[0]) == sharps, "not every letter gets a place")
		}
		r.ob("scale", "places", p.pos(f.Pos())+" ["+fname(f)+"]", n == 1, fmt.Sprintf("%d", n))
		got := map[string]string{}
		p.sites(rootCtx(f), func(s Site) {
			ph, ok := s.I.(*ssa.Phi)
			if !ok || len(ph.Edges) < 6 {
				return
			}
			for _, ch := range p.choices(facts, ph, s.C) {
				for a := range ch.Known {
					if k, ok := eqConst(a, "arg0"); ok {
						got[modes[k]] = ch.Text
					}
				}
			}
		})
		if len(got) > 0 {
			for m, s := range starts {
				r.ob("scale", "start of "+m, p.pos(f.Pos())+" ["+fname(f)+"]", got[m] == s || got[m] == "" && s == "0", "starts at "+got[m])
			}
		} else {
			r.ob("scale", "starts", p.pos(f.Pos())+" ["+fname(f)+"]", false, "the modes' starting places are not chosen by mode")
		}
	}
	if f := p.fn("model.KeySignatureFromScale"); f == nil {
		r.ob("scale", "KeySignatureFromScale", "", false, "gone")
	} else {
		facts := p.newFacts(nil)
		n, m := 0, 0
		for _, c := range p.callSites("model.shiftKey") {
			_ = c
		}
		p.sites(rootCtx(f), func(s Site) {
			c, ok := s.I.(*ssa.Call)
			if !ok {
				return
			}
			switch calleeName(c.Common()) {
			case "(model.KeySignature).Flatten", "(model.KeySignature).Sharpen":
				n++
				w := flat
				if strings.HasSuffix(calleeName(c.Common()), "Sharpen") {
					w = sharp
				}
				h := false
				for _, g := range p.guards(facts, s) {
					h = h || globAny(g, "T:("+w+" == elem(arg0.Accidentals))")
				}
				r.at("scale", "tonic accidental", c, h, "shifted the wrong way")
				ls := p.enclosing(s)
				r.at("scale", "every tonic accidental", c, len(ls) == 1 && overText(ls[0]) == "arg0.Accidentals", "not for each accidental of the tonic")
			case "model.KeySignatureFromCircleOfFifths":
				m++
				a := text(p.expr(c.Common().Args[0], s.C))
				r.at("scale", "place looked up", c, a == "lk(new:map[model.NoteLetter]int(), arg0.NoteLetter)", "the key signature is made from "+a)
			case "model.partialCircleOfFifths":
				a := text(p.expr(c.Common().Args[0], s.C))
				r.at("scale", "mode", c, a == "arg1", "the circle is that of "+a)
			}
		})
		r.ob("scale", "shifts", p.pos(f.Pos())+" ["+fname(f)+"]", n == 2 && m == 1, fmt.Sprintf("%d shifts, %d look-ups", n, m))
	}
	for n, w := range map[string]string{"Flatten": flat + " " + sharp, "Sharpen": sharp + " " + flat} {
		f := p.fn("(model.KeySignature)." + n)
		if f == nil {
			r.ob("shift", n, "", false, "gone")
			continue
		}
		k := 0
		p.sites(rootCtx(f), func(s Site) {
			if c, ok := s.I.(*ssa.Call); ok && calleeName(c.Common()) == "model.shiftKey" {
				k++
				a := text(p.expr(c.Common().Args[1], s.C)) + " " + text(p.expr(c.Common().Args[2], s.C))
				r.at("shift", n, c, a == w && text(p.expr(c.Common().Args[0], s.C)) == "recv", "shifts "+a)
			}
		})
		r.ob("shift", n+" shifts", p.pos(f.Pos()), k == 1, "gone")
	}
	if f := p.fn("model.shiftKey"); f == nil {
		r.ob("shift", "shiftKey", "", false, "gone")
	} else {
		facts := p.newFacts(nil)
		all := order("A B C D E F G")
		el := "elem(" + all + ")"
		res := "new:model.KeySignature()[" + el + "]"
		have := map[string]int{}
		for _, e := range p.effects(rootCtx(f)) {
			if e.Field != "[]" {
				continue
			}
			t, v := norm(e.Target), p.shape(e.Val)
			r.at("shift", "letter", e.I, t == res, "writes "+trim(t, 200))
			gs := strings.Join(p.guards(facts, e.Site), " & ")
			hit := strings.Contains(gs, "T:hit(arg0, "+el+")")
			miss := strings.Contains(gs, "F:hit(arg0, "+el+")")
			lk := "lk(new:model.KeySignature(), " + el + ")"
			switch {
			case v == "[arg1]":
				have["plain"]++
				p.skippedOnly(r, "shift", "a letter stays plain", facts, e.Site, nil, []string{"T:hit(arg0, " + el + ")"})
				r.at("shift", "a letter without accidentals", e.I, miss, "known: "+gs)
			case v == "[]":
				have["start"]++
				p.skippedOnly(r, "shift", "a letter is dropped", facts, e.Site, nil,
					[]string{"F:hit(arg0, " + el + ")"}, []string{"T:(1 == call:len(lk(arg0, " + el + ")))", "T:(arg2 == ix(lk(arg0, " + el + "), 0)) OR T:(ix(lk(arg0, " + el + "), 0) == arg2)"})
				r.at("shift", "a letter with accidentals", e.I, hit, "known: "+gs)
			case v == "append("+lk+", [elem(lk(arg0, "+el+"))])":
				have["keep"]++
				p.skippedOnly(r, "shift", "an accidental is dropped", facts, e.Site, nil,
					[]string{"F:(arg1 == elem(lk(arg0, " + el + "))) OR F:(elem(lk(arg0, " + el + ")) == arg1)", "F:any(lk(arg0, " + el + "): F:(arg1 == elem(lk(arg0, " + el + ")))) OR F:any(lk(arg0, " + el + "): F:(elem(lk(arg0, " + el + ")) == arg1))"},
					[]string{"F:hit(arg0, " + el + ")"}, []string{"T:(1 == call:len(lk(arg0, " + el + ")))", "T:(arg2 == ix(lk(arg0, " + el + "), 0))"})
				r.at("shift", "kept accidental", e.I, hit, "known: "+gs)
			case v == "append("+lk+", [arg1])":
				have["add"]++
				p.skippedOnly(r, "shift", "no accidental is added", facts, e.Site, nil, []string{"T:any(lk(arg0, " + el + "): F:(arg1 == elem(lk(arg0, " + el + ")))) OR T:any(lk(arg0, " + el + "): F:(elem(lk(arg0, " + el + ")) == arg1))"},
					[]string{"F:hit(arg0, " + el + ")"}, []string{"T:(1 == call:len(lk(arg0, " + el + ")))", "T:(arg2 == ix(lk(arg0, " + el + "), 0))"})
				r.at("shift", "added accidental", e.I, hit && (strings.Contains(gs, "F:any(lk(arg0, "+el+"): F:(arg1 == elem(lk(arg0, "+el+"))))") || strings.Contains(gs, "F:any(lk(arg0, "+el+"): F:(elem(lk(arg0, "+el+")) == arg1))")), "added also when one was removed; known: "+gs)
			default:
				r.at("shift", "value", e.I, false, "set to "+trim(v, 200))
			}
		}
		for _, k := range []string{"plain", "start", "keep", "add"} {
			r.ob("shift", k, p.pos(f.Pos())+" ["+fname(f)+"]", have[k] == 1, fmt.Sprintf("%d", have[k]))
		}
	}
	// spelled key signatures
	if f := p.fn("model.letterAndAccidentals"); f == nil {
		r.ob("spelled", "letterAndAccidentals", "", false, "gone")
	} else {
		facts := p.newFacts(nil)
		n := 0
		signs := map[string]string{sharp: "43", flat: "45"}
		p.sites(rootCtx(f), func(s Site) {
			c, ok := s.I.(*ssa.Call)
			if !ok || calleeName(c.Common()) != "append" {
				return
			}
			v := p.shape(p.expr(c.Common().Args[1], s.C))
			known := func(k string, fs FactSet) bool {
				for g := range fs {
					if g, ok := guardText(g); ok && glob("T:("+k+" == elem(slice(conv:[]rune(arg0), 1, _)))", g) {
						return true
					}
				}
				return false
			}
			if k := signs[strings.Trim(v, "[]")]; k != "" {
				n++
				r.at("spelled", "accidental sign", c, known(k, facts.At(s.I, s.C)), "+ is not sharp or - is not flat")
				return
			}
			if v != "[{"+flat+" | "+sharp+"}]" {
				return
			}
			for _, el := range p.sliceElems(c.Common().Args[1]) {
				for _, ch := range p.choices(facts, el, s.C, s) {
					if k := signs[ch.Text]; k != "" {
						n++
						r.at("spelled", "accidental sign", c, known(k, union2(ch.Known, facts.At(s.I, s.C))), "+ is not sharp or - is not flat")
					}
				}
			}
		})
		r.ob("spelled", "signs", p.pos(f.Pos())+" ["+fname(f)+"]", n == 2, fmt.Sprintf("%d", n))
	}
	for _, fn := range []string{"model.keySignatureFromString", "model.keySignatureFromAccidentals"} {
		f := p.fn(fn)
		if f == nil {
			r.ob("spelled", fn, "", false, "gone")
			continue
		}
		n := 0
		for _, e := range p.effects(rootCtx(f)) {
			if e.Field == "[]" && strings.HasPrefix(norm(e.Target), "new:model.KeySignature()[") {
				n++
				r.at("spelled", fn, e.I, in(p.shape(e.Val), "{[] | append(rec, ["+flat+"]) | append(rec, ["+sharp+"])}", "{[] | append(rec, [{"+flat+" | "+sharp+"}])}"), "set to "+p.shape(e.Val))
			}
		}
		r.ob("spelled", fn+" sets", p.pos(f.Pos()), n == 1, fmt.Sprintf("%d", n))
	}
}
