package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = checkParser }

func checkParser(p *Prog, r *Report) {
	p.tokenRule(r)
	t := p.grammarRule(r)
	r.rule("errors", "no error met while parsing is dropped")
	for _, f := range p.funcsIn("parser") {
		if relPkg(f) != "parser" {
			continue
		}
		inParser := f.Signature.Recv() != nil && strings.HasSuffix(typeName(derefType(f.Signature.Recv().Type())), ".parser") || in(fname(f), "parser.Parse", "parser.ParseString", "parser.ParseFile", "parser.Scan")
		if !inParser {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || madeError(c) || t.sure[c] && !t.unsure[c] {
					continue
				}
				res := c.Common().Signature().Results()
				if n := res.Len(); n > 0 && typeName(res.At(n-1).Type()) == "error" {
					why := p.errorLost(c)
					r.at("errors", fname(f)+" "+calleeName(c.Common()), c, why == "", why)
				}
			}
		}
	}
	r.floor("errors", 20)
}

// tokenRule: the primitives the token-flow analysis takes for granted.
func (p *Prog) tokenRule(r *Report) {
	r.rule("tokens", "the primitives look at and consume the token they are meant to")
	const P, cur = "(*parser.parser).", "ix(recv.input, recv.current)"
	p.returnRows(r, "tokens", P+"peek", retRow{V: []string{cur}})
	p.returnRows(r, "tokens", P+"previous", retRow{V: []string{"ix(recv.input, (recv.current - 1)) OR ix(recv.input, (-1 + recv.current))"}})
	p.returnRows(r, "tokens", P+"next", retRow{V: []string{"ix(recv.input, (1 + recv.current))"}})
	p.returnRows(r, "tokens", P+"sourceContext", retRow{V: []string{"arg0.sourceContext"}, When: []string{"F:recv.suppressSourceContext"}},
		retRow{V: []string{"AldaSourceContext{} OR zero"}, When: []string{"T:recv.suppressSourceContext"}})
	eof := fmt.Sprint(p.tokenNo("EOF"))
	prev := "ix(recv.input, (recv.current - 1)) OR ix(recv.input, (-1 + recv.current)) OR " + cur
	p.returnRows(r, "tokens", P+"advance", retRow{V: []string{prev}})
	isOne := func(s string) []string {
		return []string{"T:(elem(slicelit(" + s + ")) == " + cur + ".tokenType) OR T:(" + s + " == " + cur + ".tokenType) OR T:(" + cur + ".tokenType == " + s + ")"}
	}
	p.returnRows(r, "tokens", P+"match", retRow{V: []string{prev, "true"}, When: isOne("elem(arg0)")}, retRow{V: []string{"parser.Token{} OR zero", "false"}})
	p.returnRows(r, "tokens", P+"check", retRow{V: []string{"true"}, When: []string{"T:(elem(arg0) == " + cur + ".tokenType)"}}, retRow{V: []string{"false"}})
	p.returnRows(r, "tokens", P+"consume", retRow{V: []string{prev, "nil"}, When: isOne("arg0")},
		retRow{V: []string{"parser.Token{} OR zero", "AldaSourceError{Context=" + cur + ".sourceContext, Err=…"}})
	p.returnRows(r, "tokens", P+"errorAtToken", retRow{V: []string{"AldaSourceError{Context=arg0.sourceContext, Err=…arg1…"}})
	p.returnRows(r, "tokens", P+"unexpectedTokenError", retRow{V: []string{"AldaSourceError{Context=arg0.sourceContext, Err=…"}})
	step := []string{"(1 + recv.current)"}
	notEOF := []string{"F:any(slicelit(" + eof + "): T:(elem(slicelit(" + eof + ")) == " + cur + ".tokenType))", "F:(" + eof + " == " + cur + ".tokenType)", "F:(" + cur + ".tokenType == " + eof + ")"}
	for _, fn := range []string{"advance", "match", "consume"} {
		may := append([]string{}, notEOF...)
		for _, s := range []string{"elem(arg0)", "arg0"} {
			may = append(may, "T:(elem(slicelit("+s+")) == "+cur+".tokenType)", "T:any(slicelit("+s+"): T:(elem(slicelit("+s+")) == "+cur+".tokenType))", "T:("+s+" == "+cur+".tokenType)")
		}
		p.effectSpec(r, "tokens", P+fn, []string{"recv.…"}, want{T: "recv.current", V: step, May: may, Exact: true, MaySkip: fn != "advance", Once: true})
		f := p.fn(P + fn)
		if f == nil || fn == "advance" {
			continue
		}
		for _, ret := range returns(f) {
			if v := ret.Results[1]; !isNilConst(v) {
				if k, ok := constBool(v); !ok || !k {
					continue
				}
			}
			moved := false
			for _, e := range p.acts(f) {
				if toP(e.Target) != "recv.current" {
					continue
				}
				ls := levels(e.Site)
				moved = moved || ls[len(ls)-1].I.Block().Dominates(ret.Block())
			}
			r.at("tokens", fn+" moves on", ret, moved, "it can succeed without moving to the next token")
		}
	}
	for _, fn := range []string{"check", "peek", "previous", "next", "sourceContext", "errorAtToken", "unexpectedTokenError"} {
		p.effectSpec(r, "tokens", P+fn, []string{"recv.…"})
	}
	// the position and the tokens change nowhere else
	for _, f := range p.funcsIn("parser") {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || typeName(derefType(fa.X.Type())) != "parser.parser" {
					continue
				}
				_, isNew := fa.X.(*ssa.Alloc)
				if fieldName(fa) == "input" || fieldName(fa) == "current" {
					n := fname(f)
					_, back := st.Val.(*ssa.UnOp)
					_, phi := st.Val.(*ssa.Phi)
					r.at("tokens", "writes "+n+" "+fieldName(fa), st, isNew || fieldName(fa) == "current" && (n == P+"advance" || back || phi), "the parser's "+fieldName(fa)+" is changed here")
				}
			}
		}
	}
	for _, old := range []string{"parser.Scan", pRoot} {
		p.Opaque[old] = true
	}
	defer func() {
		for _, old := range []string{"parser.Scan", pRoot} {
			delete(p.Opaque, old)
		}
	}()
	ps := "new:parser.parser())"
	p.fresh = true
	p.effectSpec(r, "tokens", "parser.Parse", []string{"new:parser.parser().input", "new:parser.parser().current"}, want{T: "new:parser.parser().input", V: []string{"call:parser.Scan(arg0, arg1)"}, May: []string{"T:(call#1:parser.Scan(arg0, arg1) == nil)"}, Exact: true},
		want{T: "new:parser.parser().current", V: []string{"0"}, Opt: true})
	p.fresh = false
	p.returnRows(r, "tokens", "parser.Parse", retRow{V: []string{"…", "call#1:parser.Scan(arg0, arg1)"}, When: []string{"F:(call#1:parser.Scan(arg0, arg1) == nil)"}},
		retRow{V: []string{"call:" + pRoot + "(" + ps, "call#1:" + pRoot + "(" + ps}})
}

func (p *Prog) tokenNo(name string) int {
	for i, n := range p.enum("parser", "TokenType") {
		if n == name {
			return i
		}
	}
	return -1
}

const pInner, pLisp, pRoot = "(*parser.parser).innerEvent", "(*parser.parser).lispList", "(*parser.parser).parseAST"

func (p *Prog) grammarRule(r *Report) *tokFlow {
	r.rule("grammar", "the parser accepts exactly the sequences of tokens of the grammar, in each recursive rule")
	t := p.newTokFlow(pInner, pLisp)
	m := &gram{t: t}
	inner := []string{"LeftParen", "Name", "OctaveSet", "OctaveUp", "OctaveDown", "NoteLetter", "RestLetter", "Barline", "EventSeqOpen", "CramOpen", "VoiceMarker", "Marker", "AtMarker"}
	var lispFirst []string
	for _, n := range t.names {
		if in(n, "Symbol", "Number", "String", "LeftParen", "SingleQuote", "RightParen") {
			lispFirst = append(lispFirst, n)
		}
	}
	t.first[pInner], t.first[pLisp] = t.set(inner...), t.set(lispFirst...)
	event := m.rule("innerEvent", inner)
	list := m.rule("lispList", lispFirst)
	rep := m.opt(m.none(), "Repeat")

	form := m.ifNext(m.seq(m.tok("LeftParen"), list), m.tok("Symbol", "Number", "String"), "LeftParen")
	lisp := m.seq(m.until(m.seq(m.not("EOF"), m.opt(m.none(), "SingleQuote"), form), "RightParen"), m.tok("RightParen"))

	lengths := []string{"NoteLength", "NoteLengthMs", "NoteLengthSeconds"}
	// a dotted length is told from an undotted one
	oneLength := m.any(m.seq(m.tok("NoteLength"), m.any(m.label("<NoteLength.literal.dots zero>"), m.label("<NoteLength.literal.dots positive>"))), m.tok(lengths[1:]...))
	bars := m.whileNext(m.tok("Barline"), "Barline")
	// after the first length of a duration
	duration := func(in []gst) (out []gst) {
		var stop []gst
		loop := m.star(func(in []gst) []gst {
			in = m.seq(bars, m.label("<mark>"))(in)
			var tied []gst
			for _, s := range in {
				stop = append(stop, gst{s.node, s.cur &^ t.set("Tie"), s.next})
				tied = append(tied, gst{s.node, s.cur & t.set("Tie"), s.next})
			}
			var again []gst
			for _, s := range m.merge(tied) {
				after := m.seq(m.tok("Tie"), bars, m.whileNext(m.tok("Tie"), "Tie"))([]gst{s})
				for _, a := range after {
					again = append(again, oneLength([]gst{{a.node, a.cur & t.set(lengths...), a.next}})...)
					if a.cur&^t.set(lengths...) != 0 {
						n := m.g.node()
						m.g.edge(a.node, "<back>", n)
						stop = append(stop, gst{n, t.set("Tie"), s.next})
					}
				}
			}
			return m.merge(again)
		}, func(in []gst) (again, stop []gst) { return in, nil })
		loop(in)
		return m.merge(stop)
	}
	length := m.ifNext(m.seq(oneLength, duration), m.none(), lengths...)
	note := m.seq(m.tok("NoteLetter"), m.whileNext(m.tok("Flat", "Natural", "Sharp"), "Flat", "Natural", "Sharp"), length, m.opt(m.none(), "Tie"))
	rest := m.seq(m.tok("RestLetter"), length)
	noteOrRest := m.ifNext(note, rest, "NoteLetter")
	between := m.whileNext(m.ifNext(m.seq(m.tok("LeftParen"), list), m.tok("OctaveUp", "OctaveDown", "OctaveSet"), "LeftParen"), "OctaveUp", "OctaveDown", "OctaveSet", "LeftParen")
	chord := func(in []gst) (out []gst) {
		var stop []gst
		m.star(func(in []gst) []gst {
			in = noteOrRest(in)
			var more []gst
			for _, s := range in {
				if s.cur&t.set("Repeat") != 0 {
					stop = append(stop, m.tok("Repeat")([]gst{{s.node, t.set("Repeat"), s.next}})...)
				}
				more = append(more, gst{s.node, s.cur &^ t.set("Repeat"), s.next})
			}
			var again []gst
			ahead := t.set("OctaveUp", "OctaveDown", "OctaveSet", "LeftParen")
			for _, s := range m.label("<mark>")(m.merge(more)) {
				// what comes first decides what is found on going back
				splits := []tset{s.cur &^ ahead}
				each(s.cur&ahead, func(i int) { splits = append(splits, 1<<uint(i)) })
				for _, split := range splits {
					for _, a := range between(m.merge([]gst{{s.node, split, s.next}})) {
						sep := t.set("Separator")
						again = append(again, m.tok("Separator")([]gst{{a.node, a.cur & sep, a.next}})...)
						if a.cur&^sep != 0 {
							n := m.g.node()
							m.g.edge(a.node, "<back>", n)
							if split&ahead != 0 {
								stop = append(stop, gst{n, split, s.next})
							} else {
								stop = append(stop, gst{n, a.cur &^ sep, a.next})
							}
						}
					}
				}
			}
			return m.seq(between, m.not())(m.merge(again))
		}, func(in []gst) (again, stop []gst) {
			for _, s := range in {
				again = append(again, gst{s.node, s.cur & t.set("NoteLetter", "RestLetter"), s.next})
			}
			return
		})(in)
		return m.merge(stop)
	}
	decl := []string{"Alias", "Separator", "Colon"}
	// stop before a part declaration
	partEnd := func(stops ...string) func([]gst) (again, stop []gst) {
		return func(in []gst) (again, stop []gst) {
			for _, s := range in {
				stop = append(stop, gst{s.node, s.cur & t.set(stops...), s.next})
				c := s.cur &^ t.set(stops...)
				again = append(again, gst{s.node, c &^ t.set("Name"), s.next})
				again = append(again, gst{s.node, c & t.set("Name"), s.next &^ t.set(decl...)})
				stop = append(stop, gst{s.node, c & t.set("Name"), s.next & t.set(decl...)})
			}
			return
		}
	}
	// the events on the line of the name
	same, later := m.label("<line of Name same>"), m.label("<line of Name later>")
	define := m.seq(m.tok("Equals"), m.not("EOF"), same, event, m.star(event, func(in []gst) (again, stop []gst) {
		for _, s := range in {
			stop = append(stop, gst{s.node, s.cur & t.eof, s.next})
			on := []gst{{s.node, s.cur &^ t.eof, s.next}}
			again, stop = append(again, same(on)...), append(stop, later(on)...)
		}
		return
	}))
	name := m.seq(m.tok("Name"), m.ifNext(define, rep, "Equals"))
	seq := m.seq(m.tok("EventSeqOpen"), m.until(m.seq(event, m.opt(m.none(), "Repetitions")), "EventSeqClose"), m.tok("EventSeqClose"), rep)
	cram := m.seq(m.tok("CramOpen"), m.not("CramClose"), m.until(event, "CramClose"), m.tok("CramClose"), length, rep)
	voices := func(in []gst) []gst {
		var stop []gst
		in = m.tok("VoiceMarker")(in)
		m.star(func(in []gst) []gst {
			in = m.star(event, partEnd("EOF", "VoiceMarker", "EventSeqClose", "CramClose"))(in)
			var again []gst
			for _, s := range in {
				stop = append(stop, gst{s.node, s.cur &^ t.set("VoiceMarker"), s.next})
				next := m.tok("VoiceMarker")([]gst{s})
				stop = append(stop, m.label("<VoiceMarker.literal zero>")(next)...)
				again = append(again, m.label("<VoiceMarker.literal positive>")(next)...)
			}
			return again
		}, func(in []gst) (again, stop []gst) { return in, nil })(in)
		return m.merge(stop)
	}
	all := m.any(m.seq(m.tok("LeftParen"), list, rep), name, m.tok("OctaveSet", "OctaveUp", "OctaveDown", "Barline", "Marker", "AtMarker"),
		seq, cram, voices, func(in []gst) []gst {
			return chord(m.ifNext(m.none(), m.not(t.names...), "NoteLetter", "RestLetter")(in))
		})
	events := m.star(event, partEnd("EOF"))
	part := m.seq(m.tok("Name"), m.whileNext(m.seq(m.tok("Separator"), m.tok("Name")), "Separator"), m.opt(m.none(), "Alias"), m.tok("Colon"), events)
	root := m.star(func(in []gst) (out []gst) {
		for _, s := range in {
			if s.cur == t.set("Name") && s.next&^t.set(decl...) == 0 {
				out = append(out, part([]gst{s})...)
			} else {
				out = append(out, events([]gst{s})...)
			}
		}
		return m.merge(out)
	}, func(in []gst) (again, stop []gst) {
		for _, s := range in {
			stop = append(stop, gst{s.node, s.cur & t.eof, s.next})
			c := s.cur &^ t.eof
			again = append(again, gst{s.node, c &^ t.set("Name"), s.next}, gst{s.node, c & t.set("Name"), s.next &^ t.set(decl...)}, gst{s.node, c & t.set("Name"), s.next & t.set(decl...)})
		}
		return
	})
	any := t.all
	for _, g := range []struct {
		fn   string
		prev tset
		rule grule
	}{{pLisp, t.set("LeftParen"), lisp}, {pInner, any, all}, {pRoot, any, root}} {
		f := p.fn(g.fn)
		if f == nil {
			r.ob("grammar", g.fn, "", false, "gone")
			continue
		}
		var got, want *nfa
		for {
			split := t.split
			t.fns = map[string]*tfn{}
			got, want = t.run(f, g.prev, any), m.build(any, g.rule)
			if split == t.split {
				break
			}
		}
		word, extra, same, n := differ(got, want)
		r.Extra["automaton states of "+g.fn] = len(got.edges)
		r.Extra["state pairs compared in "+g.fn] = n
		why := "not accepted although the grammar allows it: "
		if extra {
			why = "accepted although the grammar does not allow it: "
		}
		r.ob("grammar", g.fn, p.pos(f.Pos())+" ["+g.fn+"]", same && t.broken == "", t.broken+" "+why+trim(join(word), 600))
	}
	p.nodeRule(r, t)
	return t
}

func join(ws []string) (s string) {
	for _, w := range ws {
		s += w + " "
	}
	return
}

// nodeSpec says what a node of the syntax tree is made of.
type nodeSpec struct {
	lit  string // source of the literal
	ctx  string // acceptable sources of the source context; "-" for none
	kids string // children, in order: groups "A|B", "*" for any number
}

func nodeSpecs() map[string]nodeSpec {
	const ev = "innerEvent"
	return map[string]nodeSpec{
		"AtMarkerNode":                 {"AtMarker.literal", "AtMarker.sourceContext", ""},
		"BarlineNode":                  {"", "Barline.sourceContext", ""},
		"ChordNode":                    {"", "that of first", "NoteNode|RestNode|OctaveUpNode|OctaveDownNode|OctaveSetNode|lispList*"},
		"CramNode":                     {"", "CramOpen.sourceContext", "EventSequenceNode, DurationNode"},
		"DenominatorNode":              {"NoteLength.literal.denominator", "-", ""},
		"DotsNode":                     {"NoteLength.literal.dots", "-", ""},
		"DurationNode":                 {"", "that of first", "NoteLengthNode|NoteLengthMsNode|NoteLengthSecondsNode|BarlineNode*"},
		"EventSequenceNode":            {"", "*", ev + "|OnRepetitionsNode*"},
		"FirstRepetitionNode":          {"Repetitions.literal[].First", "-", ""},
		"FlatNode":                     {"", "Flat.sourceContext", ""},
		"ImplicitPartNode":             {"", "that of EventSequenceNode", "EventSequenceNode"},
		"LastRepetitionNode":           {"Repetitions.literal[].Last", "-", ""},
		"LispListNode":                 {"", "LeftParen.sourceContext", "LispNumberNode|LispQuotedFormNode|LispStringNode|LispSymbolNode|lispList*"},
		"LispNumberNode":               {"Number.literal", "Number.sourceContext", ""},
		"LispQuotedFormNode":           {"", "SingleQuote.sourceContext", "LispNumberNode|LispStringNode|LispSymbolNode|lispList"},
		"LispStringNode":               {"String.literal", "String.sourceContext", ""},
		"LispSymbolNode":               {"Symbol.text", "Symbol.sourceContext", ""},
		"MarkerNode":                   {"Marker.literal", "Marker.sourceContext", ""},
		"NaturalNode":                  {"", "Natural.sourceContext", ""},
		"NoteAccidentalsNode":          {"", "that of first", "FlatNode|NaturalNode|SharpNode*"},
		"NoteLengthMsNode":             {"NoteLengthMs.literal", "NoteLengthMs.sourceContext", ""},
		"NoteLengthNode":               {"", "NoteLength.sourceContext", "DenominatorNode, DotsNode"},
		"NoteLengthSecondsNode":        {"NoteLengthSeconds.literal", "NoteLengthSeconds.sourceContext", ""},
		"NoteLetterAndAccidentalsNode": {"", "NoteLetter.sourceContext", "NoteLetterNode, NoteAccidentalsNode"},
		"NoteLetterNode":               {"NoteLetter.literal", "NoteLetter.sourceContext", ""},
		"NoteNode":                     {"", "NoteLetter.sourceContext", "NoteLetterAndAccidentalsNode, DurationNode, TieNode"},
		"OctaveDownNode":               {"", "OctaveDown.sourceContext", ""},
		"OctaveSetNode":                {"OctaveSet.literal", "OctaveSet.sourceContext", ""},
		"OctaveUpNode":                 {"", "OctaveUp.sourceContext", ""},
		"OnRepetitionsNode":            {"", "Repetitions.sourceContext", ev + ", RepetitionsNode"},
		"PartAliasNode":                {"Alias.literal", "Alias.sourceContext", ""},
		"PartDeclarationNode":          {"", "Name.sourceContext", "PartNamesNode, PartAliasNode"},
		"PartNameNode":                 {"Name.text", "Name.sourceContext", ""},
		"PartNamesNode":                {"", "Name.sourceContext", "PartNameNode*"},
		"PartNode":                     {"", "Name.sourceContext", "PartDeclarationNode, EventSequenceNode"},
		"RepeatNode":                   {"", "Repeat.sourceContext", "ChordNode|CramNode|EventSequenceNode|NoteNode|OctaveDownNode|OctaveSetNode|OctaveUpNode|RestNode|VariableReferenceNode|lispList, TimesNode"},
		"RepetitionRangeNode":          {"", "-", "FirstRepetitionNode, LastRepetitionNode"},
		"RepetitionsNode":              {"", "Repetitions.sourceContext", "RepetitionRangeNode*"},
		"RestNode":                     {"", "RestLetter.sourceContext", "DurationNode"},
		"RootNode":                     {"", "-", "ImplicitPartNode|PartNode*"},
		"SharpNode":                    {"", "Sharp.sourceContext", ""},
		"TieNode":                      {"", "Tie.sourceContext", ""},
		"TimesNode":                    {"Repeat.literal", "-", ""},
		"VariableDefinitionNode":       {"", "Equals.sourceContext|Name.sourceContext", "VariableNameNode, EventSequenceNode"},
		"VariableNameNode":             {"Name.text", "Name.sourceContext", ""},
		"VariableReferenceNode":        {"Name.text", "Name.sourceContext", ""},
		"VoiceGroupEndMarkerNode":      {"", "VoiceMarker.sourceContext", ""},
		"VoiceGroupNode":               {"", "VoiceMarker.sourceContext", "VoiceNode*, VoiceGroupEndMarkerNode"},
		"VoiceNode":                    {"", "that of VoiceNumberNode", "VoiceNumberNode, EventSequenceNode"},
		"VoiceNumberNode":              {"VoiceMarker.literal", "VoiceMarker.sourceContext", ""},
	}
}

// nodeRule judges what the token-flow analysis found of the nodes.
func (p *Prog) nodeRule(r *Report, t *tokFlow) {
	r.rule("nodes", "each node carries the literal, place and children its tokens give it")
	r.rule("linear", "every node made goes into the tree, once, in the order of its tokens")
	specs := nodeSpecs()
	where := func(k string) string {
		if i := t.where[k]; i != nil {
			return p.ipos(i) + " [" + fname(i.Parent()) + "]"
		}
		return ""
	}
	made := map[string]bool{}
	for i := range t.made {
		made[t.nodeName(i)] = true
	}
	for _, n := range t.nodes {
		s, ok := specs[n]
		if !ok {
			if made[n] {
				r.ob("nodes", n, where(n), false, "the parser makes a node it is not known to make")
			}
			continue
		}
		if !made[n] {
			r.ob("nodes", n, "", false, "the parser makes no such node any more")
			continue
		}
		lits := sortedKeys(t.lits[n])
		wantLit := s.lit
		if n == "VoiceGroupEndMarkerNode" {
			wantLit = ""
		}
		got := strings.Join(lits, " or ")
		r.ob("nodes", n+" literal", where("lit "+n), got == wantLit, "the literal is "+orNone(got)+"; expected "+orNone(wantLit))
		for _, c := range sortedKeys(t.ctxs[n]) {
			ok := s.ctx == "*"
			switch s.ctx {
			case "that of first":
				ok = strings.HasPrefix(c, "that of ") && c != "that of some element" && c != "that of "
			default:
				ok = ok || in(c, strings.Split(s.ctx, "|")...)
			}
			r.ob("nodes", n+" place", where("ctx "+n), ok, "the source context is "+c+"; expected "+s.ctx)
		}
		if s.ctx != "-" {
			r.ob("nodes", n+" has a place", where("ctx "+n), len(t.ctxs[n]) > 0, "the node has no source context any more")
		}
		// children
		rank, many := map[string]int{}, map[string]bool{}
		var wantKids []string
		if s.kids != "" {
			for i, g := range strings.Split(s.kids, ", ") {
				rep := strings.HasSuffix(g, "*")
				for _, k := range strings.Split(strings.TrimSuffix(g, "*"), "|") {
					rank[k], many[k] = i, rep
					wantKids = append(wantKids, k)
				}
			}
		}
		list := "children of " + n
		var gotKids []string
		each(t.elements(list), func(i int) {
			k := t.nodeName(i)
			gotKids = append(gotKids, k)
			r.ob("nodes", n+" child "+k, where("kids "+n), in(k, wantKids...), "a "+k+" is put below it; expected "+s.kids)
		})
		for _, k := range wantKids {
			r.ob("nodes", n+" has "+k, where("kids "+n), in(k, gotKids...), "no "+k+" is put below it any more")
		}
		t.pairs(list, func(a, b int) {
			x, y := t.nodeName(a), t.nodeName(b)
			_, kx := rank[x]
			_, ky := rank[y]
			if !kx || !ky {
				return
			}
			ok := rank[x] < rank[y] || rank[x] == rank[y] && many[x] && many[y]
			r.ob("nodes", n+": "+x+" before "+y, where("kids "+n), ok, "expected "+s.kids)
		})
	}
	for k, types := range map[string]string{"NoteLength.literal": "parser.noteLength", "Repeat.literal": "int32", "Repetitions.literal": "[]model.RepetitionRange", "VoiceMarker.literal": "int32"} {
		for _, a := range sortedKeys(t.asserts[k]) {
			r.ob("nodes", k+" asserted to be "+a, where("assert "+k), a == types, "it is a "+types)
		}
	}
	for _, k := range sortedKeys(t.asserts) {
		r.ob("nodes", "type of "+k, where("assert "+k), in(k, "NoteLength.literal", "Repeat.literal", "Repetitions.literal", "VoiceMarker.literal"), "the type of this is not known")
	}
	for fn, kinds := range map[string]string{pRoot: "RootNode", pLisp: "LispListNode",
		pInner: "AtMarkerNode|BarlineNode|ChordNode|CramNode|EventSequenceNode|LispListNode|MarkerNode|NoteNode|OctaveDownNode|OctaveSetNode|OctaveUpNode|RepeatNode|RestNode|VariableDefinitionNode|VariableReferenceNode|VoiceGroupNode|lispList"} {
		each(t.elements("result of "+fn), func(i int) {
			r.ob("nodes", fn+" gives "+t.nodeName(i), "", in(t.nodeName(i), strings.Split(kinds, "|")...), "expected "+kinds)
		})
		r.ob("nodes", fn+" gives nodes", "", t.elements("result of "+fn) != 0, "no node is known to be returned")
	}
	for _, k := range sortedKeys(t.lost) {
		pos := where(k)
		r.ob("linear", pos+" "+t.lost[k], pos, false, "the node (or list of nodes) made here "+t.lost[k])
	}
	r.ob("linear", "nodes followed", "", len(t.where) > 60, "too few nodes were seen")
	r.Extra["nodes and lists followed"] = len(t.where)
}

func orNone(s string) string {
	if s == "" {
		return "none"
	}
	return s
}
