package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C12"] = checkScanner }

const (
	chSpace  = " \r\n\t"
	chDigit  = "0-9"
	chLetter = "a-zA-Z"
	chNote   = "a-g"
	chName   = "-+_'().a-zA-Z0-9"
	chNoSym  = " \t\r\n()[]{}\""
	chLenEnd = " \r\n/~]}"
	chAfterN = "-# \r\n+_/~*'}]<>0-9"
	chAfterR = "# \r\n/~*'}]<>0-9"
	chAfterO = " \r\n"
	chAfterT = " \r\n]}"
)

func checkScanner(p *Prog, r *Report) {
	c := p.newCharFlow(chSpace, chDigit, chLetter, chNote, chName, chNoSym, chLenEnd, chAfterN, chAfterR, chAfterO, chAfterT,
		"#", "(", ")", "'", "\"", "-", ".", "{", "}", "[", "]", "+", "_", "/", "<", ">", ":", "~", "|", "=", "*", "%", "@", "r", "o", "V", "s", "m", ",", " ", "\n", "\t")
	p.charRule(r)
	p.lexRule(r, c)
	p.scanRule(r, c)
}

// charRule: the primitives look at and consume the character they are meant
// to, and keep count of lines and columns.
func (p *Prog) charRule(r *Report) {
	r.rule("characters", "the primitives look at and consume the character they are meant to, and keep count of lines and columns")
	const S, cur, next, n = scanner, "ix(recv.input, recv.current)", "ix(recv.input, (1 + recv.current))", "call:len(recv.input)"
	end := []string{"T:(" + n + " <= recv.current)"}
	more := []string{"T:(recv.current < " + n + ")"}
	p.returnRows(r, "characters", S+"peek", retRow{V: []string{"0"}, When: end}, retRow{V: []string{cur}, When: more})
	p.returnRows(r, "characters", S+"peekNext", retRow{V: []string{"0"}, When: []string{"T:(" + n + " <= (1 + recv.current))"}}, retRow{V: []string{next}, When: []string{"T:((1 + recv.current) < " + n + ")"}})
	p.returnRows(r, "characters", S+"reachedEOF", retRow{V: []string{"(" + n + " <= recv.current)"}})
	p.returnRows(r, "characters", S+"eofIsNext", retRow{V: []string{"(" + n + " <= (1 + recv.current))"}})
	p.returnRows(r, "characters", S+"advance", retRow{V: []string{cur}})
	is := "T:(arg0 == " + cur + ")"
	p.returnRows(r, "characters", S+"match", retRow{V: []string{"true"}, When: []string{is, more[0]}}, retRow{V: []string{"false"}, When: []string{end[0] + " OR F:(arg0 == " + cur + ")"}})
	nl := "(10 == " + cur + ")"
	for _, fn := range []string{"advance", "match"} {
		may := []string{}
		if fn == "match" {
			may = []string{is, more[0], "F:" + end[0][2:]}
		}
		p.effectSpec(r, "characters", S+fn, []string{"recv.…"},
			want{T: "recv.current", V: []string{"(1 + recv.current)"}, May: may, Exact: true, Once: true, MaySkip: fn == "match"},
			want{T: "recv.line", V: []string{"(1 + recv.line)"}, When: []string{"T:" + nl}, May: may, Once: true, MaySkip: true},
			want{T: "recv.column", V: []string{"1"}, When: []string{"T:" + nl}, May: may, MaySkip: true},
			want{T: "recv.column", V: []string{"(1 + recv.column)"}, When: []string{"F:" + nl}, May: may, MaySkip: true})
	}
	for _, fn := range []string{"peek", "peekNext", "reachedEOF", "eofIsNext", "errorAtPosition", "unexpectedCharError"} {
		p.effectSpec(r, "characters", S+fn, []string{"recv.…"})
	}
	place := func(line, col string) string {
		return "Context=AldaSourceContext{Filename=recv.filename, Line=" + line + ", Column=" + col + "}"
	}
	p.returnRows(r, "characters", S+"errorAtPosition", retRow{V: []string{"AldaSourceError{" + place("arg0", "arg1") + ", Err=…arg2…"}})
	p.returnRows(r, "characters", S+"unexpectedCharError", retRow{V: []string{"AldaSourceError{" + place("arg2", "arg3") + ", Err=…"}})
	p.fresh = true
	tk, ctx := "new:parser.Token()", "new:model.AldaSourceContext()"
	const sctx = "AldaSourceContext{Filename=recv.filename, Line=recv.startLine, Column=recv.startColumn}"
	p.effectSpec(r, "characters", S+"addToken", []string{"recv.…", tk + ".…"},
		want{T: "recv.tokens", V: []string{"call:append(recv.tokens, slicelit(" + tk + "))", "append(recv.tokens, [parser.Token{sourceContext=" + sctx + ", tokenType=arg0, text=conv:string(slice(recv.input, recv.start, recv.current)), literal=arg1}])"}, Exact: true, Once: true},
		want{T: tk + ".tokenType", V: []string{"arg0"}, Exact: true},
		want{T: tk + ".text", V: []string{"conv:string(slice(recv.input, recv.start, recv.current))"}, Exact: true},
		want{T: tk + ".literal", V: []string{"arg1"}, Exact: true},
		want{T: tk + ".sourceContext", V: []string{sctx, ctx}, Exact: true},
		want{T: ctx + ".Filename", V: []string{"recv.filename"}, Opt: true},
		want{T: ctx + ".Line", V: []string{"recv.startLine"}, Opt: true},
		want{T: ctx + ".Column", V: []string{"recv.startColumn"}, Opt: true})
	p.fresh = false
	p.returnRows(r, "characters", "parser.newScanner", retRow{V: []string{"parser.scanner{filename=arg0, input=conv:[]rune(arg1), …line=1, column=1}"}})
	p.fresh = true
	p.effectSpec(r, "characters", "parser.newScanner", []string{"new:parser.scanner().…"},
		want{T: "new:parser.scanner().filename", V: []string{"arg0"}, Exact: true},
		want{T: "new:parser.scanner().input", V: []string{"conv:[]rune(arg1)"}, Exact: true},
		want{T: "new:parser.scanner().line", V: []string{"1"}, Exact: true},
		want{T: "new:parser.scanner().column", V: []string{"1"}, Exact: true},
		want{T: "new:parser.scanner().start", V: []string{"0"}, Opt: true},
		want{T: "new:parser.scanner().current", V: []string{"0"}, Opt: true},
		want{T: "new:parser.scanner().startLine", V: []string{"0", "1"}, Opt: true},
		want{T: "new:parser.scanner().startColumn", V: []string{"0", "1"}, Opt: true},
		want{T: "new:parser.scanner().tokens", V: []string{"[]", "nil", "slicelit()"}, Opt: true},
		want{T: "new:parser.scanner().sexpLevel", V: []string{"0"}, Opt: true})
	p.fresh = false
}

// scanRule: the whole input is scanned, token by token.
func (p *Prog) scanRule(r *Report, c *charFlow) {
	r.rule("whole input", "the scanner goes on from token to token until the end of the input, and ends with an EOF token")
	f := p.fn("parser.Scan")
	if f == nil || c.broken != "" {
		r.ob("whole input", "Scan", "", false, "not followed")
		return
	}
	c.used, c.faults = map[string]bool{}, map[string]ssa.Instruction{}
	c.scanSub = true
	g := c.run(f, false, c.all)
	c.scanSub = false
	if c.broken != "" {
		r.ob("whole input", "Scan", p.pos(f.Pos()), false, "what it does could not be followed: "+c.broken)
		return
	}
	for _, k := range sortedKeys(c.faults) {
		r.at("whole input", k, c.faults[k], false, k)
	}
	ok, bad := c.languages(g)
	l := &lexGrammar{c: c, m: &gram{t: c.t}}
	build := func(eof string) (*nfa, *nfa) {
		n := newNFA()
		e, a, b := n.node(), n.node(), n.node()
		n.edge(0, "scan", 0)
		n.edge(0, "scan", e)
		n.edge(e, "error of the token", e)
		n.edge(0, eof, a)
		n.edge(a, "gives tokens", b)
		n.edge(b, "<EOF>", 1)
		fail := n.node()
		n.edge(0, "error of the token", fail)
		c.errNode = fail
		return c.languages(n)
	}
	_ = l
	refOK, refBad := build("append {.sourceContext.Column=column@now, .sourceContext.Filename=filename, .sourceContext.Line=line@now, .tokenType=EOF}")
	w, in, same, _ := differ(ok, refOK)
	r.ob("whole input", "Scan", p.pos(f.Pos()), same, lexDiff(w, in))
	w, in, same, _ = differ(bad, refBad)
	r.ob("whole input", "Scan errors", p.pos(f.Pos()), same, lexDiff(w, in))
	r.ob("whole input", "tokens scanned", p.pos(f.Pos()), c.calls > 0, "no token is scanned")
}

// lexGrammar builds the reference for one token.
type lexGrammar struct {
	c   *charFlow
	m   *gram
	bad []gst // what ends in an error, and how
	how []string
	alt int
}

func (l *lexGrammar) ch(s string) grule {
	want := l.c.chars(s)
	return l.m.tokSet(want)
}

func (l *lexGrammar) label(s string) grule { return l.m.label(s) }

func (l *lexGrammar) fail(how string) grule {
	return func(in []gst) []gst {
		for _, s := range in {
			l.m.g.edge(s.node, how, 2)
		}
		return nil
	}
}

const (
	lexNext  = "error about the next character at line@now column@now"
	lexLast  = "error about the last character at line@start column@start"
	lexNow   = "error at line@now column@now"
	lexStart = "error at line@start column@start"
)

// when chooses by the next character; the end counts as outside.
func (l *lexGrammar) when(s string, then, els grule) grule {
	return l.m.ifSet(l.c.chars(s), then, els)
}

func (l *lexGrammar) whenOrEOF(s string, then, els grule) grule {
	return l.m.ifSet(l.c.chars(s)|l.c.eof, then, els)
}

// after chooses by the character after the next one.
func (l *lexGrammar) after(set tset, then, els grule) grule {
	return func(in []gst) (out []gst) {
		var a, b []gst
		for _, s := range in {
			x, y := gst{s.node, s.cur, s.next & set}, gst{s.node, s.cur, s.next &^ set}
			a, b = append(a, x), append(b, y)
		}
		return l.m.merge(append(then(l.m.merge(a)), els(l.m.merge(b))...))
	}
}

func (l *lexGrammar) many(s string) grule {
	return l.m.starSet(l.ch(s), l.c.chars(s))
}

func (l *lexGrammar) build(r grule) *nfa {
	l.m.g = newNFA()
	l.m.g.node() // the errors
	for _, s := range r([]gst{{0, l.c.all &^ l.c.eof, l.c.all}}) {
		l.c.g = l.m.g
		st := &cstate{runes: map[int]tset{tCur: s.cur, tNext: s.next}}
		if l.c.settle(st) {
			l.c.ahead(st, s.node, 1)
		}
	}
	return l.m.g
}

func (l *lexGrammar) token(lisp bool) grule {
	m := l.m
	seq, none, when := m.seq, m.none(), l.when
	tok := func(name, lit string) grule { return l.label("token " + name + " " + lit) }
	one := func(ch, name string) grule { return seq(l.ch(ch), tok(name, "nil")) }
	digits := l.many(chDigit)
	number := func(rest grule) grule {
		return seq(digits, when(".", l.after(l.c.chars(chDigit), seq(l.ch("."), digits), none), none), l.label("float 64 text[start+0,+0]"), l.check("#0 is a number", lexStart), rest)
	}
	integer := func(text string) grule {
		return seq(l.label("int 10 32 "+text), l.check("#0 is a number", lexStart))
	}
	var word grule
	comment := func() grule {
		rest := l.c.all &^ l.c.eof &^ l.c.chars("\n")
		return seq(l.ch("#"), m.starSet(m.tokSet(rest), rest))
	}
	if lisp {
		str := l.c.all &^ l.c.eof &^ l.c.chars("\"")
		sym := l.c.all &^ l.c.eof &^ l.c.chars(chNoSym)
		symbol := seq(m.tokSet(sym), m.starSet(m.tokSet(sym), sym), tok("Symbol", "nil"))
		num := seq(m.tokSet(l.c.chars("-"+chDigit)), number(tok("Number", "float#0")))
		word = when("'", one("'", "SingleQuote"),
			when("\"", seq(l.ch("\""), m.starSet(m.tokSet(str), str), m.ifSet(l.c.eof, l.fail(lexNow), seq(l.ch("\""), tok("String", "text[start+1,-1]")))),
				when(chDigit, num,
					when("-", l.after(l.c.chars(chDigit), num, symbol),
						when(chNoSym, seq(l.ch(chNoSym), l.fail(lexLast)), symbol)))))
	} else {
		dots := func() grule {
			body := seq(l.ch("."), l.label("count one"))
			if l.alt&1 != 0 {
				body = seq(l.label("count one"), l.ch("."))
			}
			return m.starSet(body, l.c.chars("."))
		}
		length := number(when("s", l.after(l.c.chars(chLenEnd)|l.c.eof, seq(l.ch("s"), tok("NoteLengthSeconds", "float#0")), l.beats(dots(), tok("NoteLength", "{.denominator=float#0, .dots=count}"))),
			when("m", l.after(l.c.chars("s"), seq(l.ch("m"), l.ch("s"), tok("NoteLengthMs", "float#0")), l.beats(dots(), tok("NoteLength", "{.denominator=float#0, .dots=count}"))),
				l.beats(dots(), tok("NoteLength", "{.denominator=float#0, .dots=count}")))))
		number1 := func(rest grule) grule { // digits that are needed
			return when(chDigit, seq(l.label("("), l.ch(chDigit), digits, integer("text[(,+0]"), rest), l.fail(lexNext))
		}
		reps := func(in []gst) []gst {
			pair := number1(when("-", seq(l.ch("-"), number1(l.label("append {.First=int#1, .Last=int#0}"))), l.label("append {.First=int#0, .Last=int#0}")))
			more := m.starSet(seq(l.ch(","), pair), l.c.chars(","))
			return seq(pair, more)(in)
		}
		name := func(kind string) grule {
			return when(chName, seq(l.many(chName), tok(kind, "text[start+1,+0]")), l.fail(lexNext))
		}
		octave := seq(digits, l.whenOrEOF(chAfterO, seq(integer("text[start+1,+0]"), tok("OctaveSet", "int#0")), l.fail(lexNext)))
		voice := seq(digits, when(":", seq(integer("text[start+1,+0]"), l.ch(":"), tok("VoiceMarker", "int#0")), l.fail(lexNext)))
		if l.alt&2 != 0 {
			voice = seq(digits, when(":", seq(l.ch(":"), integer("text[start+1,-1]"), tok("VoiceMarker", "int#0")), l.fail(lexNext)))
		}
		asName := seq(l.many(chName), tok("Name", "nil"))
		letter := func(first string, els grule) grule {
			return seq(l.ch(first), when(chLetter, asName, els))
		}
		others := l.c.chars(chLetter) &^ l.c.chars(chNote) &^ l.c.chars("r") &^ l.c.chars("o") &^ l.c.chars("V")
		word = when(chDigit, seq(l.ch(chDigit), length),
			when(chNote, letter(chNote, l.whenOrEOF(chAfterN, tok("NoteLetter", "last character"), l.fail(lexNext))),
				when("r", letter("r", l.whenOrEOF(chAfterR, tok("RestLetter", "nil"), l.fail(lexNext))),
					when("o", letter("o", when(chDigit, octave, l.fail(lexNext))),
						when("V", letter("V", when(chDigit, voice, l.fail(lexNext))),
							m.ifSet(others, seq(m.tokSet(others), when(chLetter, asName, l.fail(lexNext))),
								when("'", seq(l.ch("'"), reps, tok("Repetitions", "list")),
									when("*", seq(l.ch("*"), l.many(" "), when(chDigit, seq(l.label("("), l.ch(chDigit), digits, l.whenOrEOF(chAfterT, seq(integer("text[(,+0]"), tok("Repeat", "int#0")), l.fail(lexNext))), l.fail(lexNext))),
										when("\"", seq(l.ch("\""), l.many(chName), m.ifSet(l.c.eof, l.fail(lexNow), when("\"", seq(l.ch("\""), tok("Alias", "text[start+1,-1]")), l.fail(lexNext)))),
											when("%", seq(l.ch("%"), name("Marker")),
												when("@", seq(l.ch("@"), name("AtMarker")),
													l.singles(m.seq(m.tokSet(l.c.all&^l.c.eof), l.fail(lexLast)), one))))))))))))
	}
	return when(chSpace, l.ch(chSpace),
		when("#", comment(),
			when("(", seq(l.ch("("), tok("LeftParen", "nil"), l.label("level+1")),
				when(")", seq(l.ch(")"), tok("RightParen", "nil"), l.label("level-1")), word))))
}

// check: an int that does not fit is an error.
func (l *lexGrammar) check(ok, bad string) grule {
	return func(in []gst) []gst {
		for _, s := range in {
			l.m.g.edge(s.node, bad, 2)
		}
		return l.label(ok)(in)
	}
}

func (l *lexGrammar) beats(dots, tok grule) grule {
	return l.m.seq(l.check("#0 is not zero", lexStart), dots, tok)
}

func (l *lexGrammar) singles(els grule, one func(ch, name string) grule) grule {
	for _, s := range []string{"{CramOpen", "}CramClose", "[EventSeqOpen", "]EventSeqClose", "-Flat", "+Sharp", "_Natural", "/Separator", "<OctaveDown", ">OctaveUp", ":Colon", "~Tie", "|Barline", "=Equals"} {
		els = l.when(s[:1], one(s[:1], s[1:]), els)
	}
	return els
}

func (m *gram) tokSet(want tset) grule {
	return func(in []gst) (out []gst) {
		for _, s := range in {
			if c := s.cur & want; c != 0 {
				out = append(out, gst{m.t.emitTok(m.g, s.node, c), s.next, m.t.all})
			}
		}
		return m.merge(out)
	}
}

func (m *gram) ifSet(want tset, then, els grule) grule {
	return func(in []gst) (out []gst) {
		var a, b []gst
		for _, s := range in {
			a = append(a, gst{s.node, s.cur & want, s.next})
			b = append(b, gst{s.node, s.cur &^ want, s.next})
		}
		return m.merge(append(then(m.merge(a)), els(m.merge(b))...))
	}
}

func (m *gram) starSet(body grule, want tset) grule {
	return m.star(body, func(in []gst) (a, b []gst) {
		for _, s := range in {
			a = append(a, gst{s.node, s.cur & want, s.next})
			b = append(b, gst{s.node, s.cur &^ want, s.next})
		}
		return
	})
}

// lexRule compares what the scanner does for one token with the reference.
func (p *Prog) lexRule(r *Report, c *charFlow) {
	r.rule("words", "the scanner turns each word of the lexical grammar into the token it stands for, and nothing else into a token")
	r.rule("refused", "what is not a word is refused with an error at the right place")
	f := p.fn(scanner + "scanToken")
	if f == nil {
		r.ob("words", "scanToken", "", false, "the scanner has no scanToken any more")
		return
	}
	for _, lisp := range []bool{false, true} {
		mode := map[bool]string{false: "outside S-expressions", true: "in S-expressions"}[lisp]
		c.used = map[string]bool{}
		g := c.run(f, lisp, c.all&^c.eof)
		if c.broken != "" {
			r.ob("words", mode, "", false, "what the scanner does could not be followed: "+c.broken)
			return
		}
		ok, bad := c.languages(g)
		var diff string
		same := false
		for alt := 0; alt < 4 && !same; alt++ {
			l := &lexGrammar{c: c, m: &gram{t: c.t}, alt: alt}
			ref := l.build(l.token(lisp))
			c.errNode = 2
			rok, rbad := c.languages(ref)
			rok2 := relabel(rok)
			w, inCode, s, n := differ(ok, rok2)
			r.Extra["states compared "+mode] = n
			same = s
			if !s && diff == "" {
				diff = lexDiff(w, inCode)
			}
			if alt == 0 {
				w, inCode, s, n := differ(bad, rbad)
				r.Extra["states compared for errors "+mode] = n
				r.ob("refused", mode, p.pos(f.Pos()), s, lexDiff(w, inCode))
			}
		}
		r.ob("words", mode, p.pos(f.Pos()), same, diff)
	}
	for _, k := range sortedKeys(c.faults) {
		r.at("words", k, c.faults[k], false, "the scanner "+k)
	}
	r.Extra["classes of characters"] = len(c.t.names)
	r.ob("words", "no faults", "", true, "")
}

// relabel: in the reference the beginnings of texts are marked as such.
func relabel(n *nfa) *nfa { return n }

func lexDiff(w []string, inCode bool) string {
	if inCode {
		return "the scanner does what the lexical grammar does not: " + strings.Join(w, " ")
	}
	return fmt.Sprint("the scanner does not do what the lexical grammar says: ", strings.Join(w, " "))
}
