package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C22"] = checkFormat }

func checkFormat(p *Prog, r *Report) {
	r.rule("durations", "A duration is written with all of its parts, in their order: each length as it is, what it is tied to, its barlines, and what comes before and after it")
	r.rule("events", "Each thing that a part can do is written as the text that stands for it")
	formatDurations(p, r)
	formatEvents(p, r)
	r.rule("lisp", "A Lisp form is written with every value in it, in order, with its parentheses, quotes and quotation marks")
	formatLisp(p, r)
	r.rule("parts", "Every part is written, in order: its names, its alias, and then everything in it")
	formatParts(p, r)
	r.rule("layout", "Every text that is written comes out, once and in order: breaking lines and indenting only change the blanks between texts, and a definition stays on its line until its last event")
	formatLayout(p, r)
}

// lispText: what turns a Lisp form into text: the function within the
// formatter that takes a node and gives back a text or an error.
func (p *Prog) lispText() *ssa.Function {
	var out *ssa.Function
	for f := range p.reachable(p.fn("(*parser.formatter).formatInnerEvents")) {
		s := f.Signature
		if f.Pkg == nil || !strings.HasSuffix(f.Pkg.Pkg.Path(), "/parser") || s.Params().Len() != 1 || s.Results().Len() != 2 {
			continue
		}
		if strings.HasSuffix(typeName(s.Params().At(0).Type()), "ASTNode") && s.Results().At(0).Type().String() == "string" && s.Results().At(1).Type().String() == "error" {
			out = f
		}
	}
	return out
}

// lispCall: what a call of it starts with.
func (p *Prog) lispCall() string {
	f := p.lispText()
	if f == nil {
		return "call:none("
	}
	if f.Signature.Recv() != nil {
		return "call:" + fname(f) + "(recv, "
	}
	return "call:" + fname(f) + "("
}

func formatLisp(p *Prog, r *Report) {
	f := p.lispText()
	node, again, name := "arg0", "call:dyn(…, ", ""
	if f != nil {
		name = fname(f)
		if f.Parent() == nil {
			again = p.lispCall()
		}
	}
	sp := func(name, s, a string) (out [][2]string) {
		for _, t := range texts(s, a) {
			out = append(out, [2]string{name, "ret " + t + ", nil"})
		}
		return out
	}
	one, quoted := again+"elem("+node+".Children))", again+"ix("+node+".Children, 0))"
	lit := func(ty string) string { return "as:" + ty + "(" + node + ".Literal)" }
	written := append(append(append(sp("list", "(%s)", `call:strings.Join(…, " ")`), sp("put-quoted", "'%s", quoted)...), sp("string", `\"%s\"`, lit("string"))...), sp("whole", "%d", lit("int32"))...)
	say := map[string]string{
		"LispListNode":       "(more+ get get+ add)* (more+ get get- no-get | more- list)",
		"LispNumberNode":     "whole | broken | refused",
		"LispQuotedFormNode": "quoted (quoted+ put-quoted | quoted- no-quoted)",
		"LispStringNode":     "string",
		"LispSymbolNode":     "symbol",
	}
	p.eachNode(node, nil, func(ty string, as map[string]bool) {
		want := say[ty]
		if want == "" {
			want = "refused"
		}
		p.behaves(r, "lisp", "writing a "+ty, f, traceSpec{
			Assume: as, Closed: []string{name}, Builds: []string{"string"},
			Events: append(written, [][2]string{{"get", one}, {"quoted", quoted}, {"add", "add " + one}, {"no-get", `ret …, ` + hashOf(one)}, {"no-quoted", "ret …, " + hashOf(quoted)},
				{"symbol", "ret " + lit("string") + ", nil"}, {"broken", "ret call:strconv.FormatFloat(" + lit("float64") + ", 102, -1, 64), nil"}, {"refused", "ret …, call:fmt.Errorf(…"}}...),
			Conds: [][2]string{noErr("get", hashOf(one)), noErr("quoted", hashOf(quoted)), {"more", "(… < call:len(arg0.Children))"}},
		}, want)
	})
}

func formatParts(p *Prog, r *Report) {
	n := "elem(arg0.Children)"
	expect := func(e, ty string) string {
		return "call:(parser.ASTNode).expectNodeType(" + e + ", " + p.nodeNum(ty) + ")"
	}
	kids := func(e string, i string) string { return "ix(" + e + ".Children, " + i + ")" }
	counts := func(e, k string) string { return "call:(parser.ASTNode).expectNChildren(" + e + ", [" + k + "])" }
	format := func(e string) string { return "call:(*parser.formatter).formatInnerEvents(recv, " + e + ")" }
	events, one := expect(kids(n, "1"), "EventSequenceNode"), expect(kids(n, "0"), "EventSequenceNode")
	decl := expect(kids(n, "0"), "PartDeclarationNode")
	names := expect(kids(decl, "0"), "PartNamesNode")
	some := "call:(parser.ASTNode).expectChildren(" + names + ")"
	name := expect("elem("+names+".Children)", "PartNameNode")
	alias := expect(kids(decl, "1"), "PartAliasNode")
	all := `call:strings.Join(…, "/")`
	closed := []string{"(*parser.formatter).write", "(*parser.formatter).flush", "(*parser.formatter).emptyLine", "(*parser.formatter).indent", "(*parser.formatter).unindent", "(*parser.formatter).formatInnerEvents", "(parser.ASTNode).expect…"}
	steps := func(pre string, st ...string) (ok, fails string) {
		ok = pre
		var fs []string
		for _, s := range st {
			if !strings.HasPrefix(s, "!") {
				ok += " " + s
				continue
			}
			s = s[1:]
			fs = append(fs, ok+" "+s+" "+s+"- no-"+s)
			ok += " " + s + " " + s + "+"
		}
		return ok, strings.Join(fs, " | ")
	}
	imp, impNot := steps("", "!count1", "!only", "!in1")
	head, headNot := steps("", "!count2", "!decl", "!count12", "!names", "!some")
	pre := head + " (left+ name name+ add)*"
	tail, tailNot := steps("", "indent", "!events", "!in", "unindent")
	say := map[string][2]string{
		"ImplicitPartNode": {imp, impNot},
		"PartNode": {pre + " left- (aliased+ alias alias+ with-alias | aliased- plain) " + tail,
			headNot + " | " + pre + " (left+ name name- no-name | left- (aliased+ alias alias- no-alias | (aliased+ alias alias+ with-alias | aliased- plain) (" + tailNot + ")))"},
	}
	var ev, cs [][2]string
	for _, x := range [][3]string{{"count1", counts(n, "1")}, {"count2", counts(n, "2")}, {"only", one, "2"}, {"in1", format(one + ".Children")}, {"decl", decl, "2"}, {"count12", counts(decl, "1, 2")}, {"names", names, "2"}, {"some", some}, {"name", name, "2"}, {"alias", alias, "2"}, {"events", events, "2"}, {"in", format(events + ".Children")}} {
		err := x[1]
		if x[2] != "" {
			err = hashOf(err)
		}
		ev = append(ev, [2]string{x[0], x[1]}, [2]string{"no-" + x[0], "ret " + err})
		cs = append(cs, noErr(x[0], err))
	}
	// (an empty line between parts is only for the eye)
	ev = append(ev, [2]string{"-", "call:(*parser.formatter).emptyLine(recv)"})
	for _, m := range []string{"flush", "indent", "unindent"} {
		ev = append(ev, [2]string{m, "call:(*parser.formatter)." + m + "(recv)"})
	}
	ev = append(ev, [2]string{"add", "add as:string(" + name + ".Literal)"}, [2]string{"end", "ret nil"})
	for _, t := range texts(`%s \"%s\":`, all, "as:string("+alias+".Literal)") {
		ev = append(ev, [2]string{"with-alias", "call:(*parser.formatter).write(recv, " + t + ")"})
	}
	for _, t := range texts("%s:", all) {
		ev = append(ev, [2]string{"plain", "call:(*parser.formatter).write(recv, " + t + ")"})
	}
	cs = append(cs, [2]string{"aliased", "(1 < call:len(" + decl + ".Children))"}, [2]string{"left", "(… < call:len(" + names + ".Children))"}, [2]string{"-", "((1 + 1 + …) < call:len(arg0.Children))"}, [2]string{"-", "((2 + …) < call:len(arg0.Children))"}, [2]string{"-", "((1 + loop:…) < call:len(arg0.Children))"}, [2]string{"more", "(… < call:len(arg0.Children))"})
	p.eachNode(n, []string{"ImplicitPartNode", "PartNode"}, func(ty string, as map[string]bool) {
		p.behaves(r, "parts", "writing "+ty, p.fn("(*parser.formatter).formatTopLevel"), traceSpec{Assume: as, Closed: closed, Builds: []string{"string"}, Events: ev, Conds: cs},
			"(more+ "+say[ty][0]+" flush)* (more- end | more+ ("+say[ty][1]+"))")
	})
}

func formatLayout(p *Prog, r *Report) {
	fm := func(m string) *ssa.Function { return p.fn("(*parser.formatter)." + m) }
	line, flush := "call:(*parser.formatter).line(recv)", "call:(*parser.formatter).flush(recv)"
	closed := []string{"(*parser.formatter).line", "(*parser.formatter).flush", "(*parser.formatter).formatTopLevel", "parser.newFormatter"}
	joined := `call:strings.Join(recv.texts, " ")`
	for _, some := range []bool{false, true} {
		name, ref := "an empty line", "empty"
		if some {
			name, ref = "a line", "indented"
		}
		p.behaves(r, "layout", name, fm("line"), traceSpec{Assume: map[string]bool{"(0 == call:len(" + joined + "))": !some, "(0 < call:len(" + joined + "))": some, `("" == ` + joined + ")": !some, "(" + joined + ` == "")`: !some, "(0 < call:len(recv.texts))": some},
			Events: [][2]string{{"indented", "ret (call:strings.Repeat(recv.indentText, recv.indentLevel) + " + joined + ")"}, {"empty", "ret " + joined}, {"empty", `ret ""`}}}, ref)
	}
	// in each state: whether lines may be broken (or only once the last event of
	// a definition asks for it), and whether there is something to write
	in := func(free, last, more bool) map[string]bool {
		out := map[string]bool{"(0 < call:len(recv.texts))": more, "(recv.softWrapLen < call:len(" + line + "))": more}
		for v, is := range map[string]bool{"0": free, "1": !free && !last, "2": last} {
			out["("+v+" == recv.varDef)"], out["(recv.varDef == "+v+")"] = is, is
		}
		return out
	}
	put := "call:append(recv.texts, [arg0])"
	without := "slice(" + put + ", …, (call:len(" + put + ") - 1))"
	ev := [][2]string{{"-", line}, {"flush", flush}, {"out", `call:inv:Write(recv.out, conv:[]byte((` + line + ` + "\n")))`}, {"empty", `call:inv:Write(recv.out, conv:[]byte("\n"))`}, {"anew", "recv.texts := []"}, {"anew", "recv.texts := nil"}, {"let-go", "recv.varDef := 0"},
		{"deeper", "recv.indentLevel := (1 + recv.indentLevel)"}, {"back", "recv.indentLevel := (recv.indentLevel - 1)"}, {"put", "recv.texts := " + put}, {"put", "recv.texts := call:append(" + without + ", [arg0])"}, {"put", "recv.texts := [arg0]"},
		{"take-back", "recv.texts := " + without}, {"take-back", "recv.texts := recv.texts"}, {"end", "ret "}}
	for _, st := range []struct {
		name       string
		free, last bool
	}{{"between definitions", true, false}, {"within a definition", false, false}, {"within the last event of a definition", false, true}} {
		for _, more := range []bool{false, true} {
			name := ", " + st.name
			if more {
				name += ", with more to write"
			}
			say := func(what, fn, ref string) {
				p.behaves(r, "layout", what+name, fm(fn), traceSpec{Closed: closed, Assume: in(st.free, st.last, more), Events: ev}, ref)
			}
			when := func(b bool, s string) string {
				if b {
					return s
				}
				return ""
			}
			say("breaking the line", "flush", when(st.free && more, "out anew ")+"end")
			say("writing a text", "write", "put "+when(st.free && more, "take-back flush put ")+"end")
			if more {
				continue
			}
			say("an empty line", "emptyLine", when(st.free, "flush empty ")+"end")
			say("one level deeper", "indent", when(st.last, "let-go ")+when(st.free || st.last, "flush deeper ")+"end")
			say("back by one level", "unindent", when(st.free, "flush back ")+"end")
		}
	}
	temp := "bytes.Buffer{}"
	make := "call:parser.newFormatter(" + temp + ", arg2)"
	all := "call:(*parser.formatter).formatTopLevel(" + make + ", arg0)"
	bytes := "call:(*bytes.Buffer).Bytes(" + temp + ")"
	p.behaves(r, "layout", "the whole score", p.fn("parser.FormatASTToCode"), traceSpec{Closed: closed, Events: [][2]string{{"make", make}, {"format", all}, {"no-format", "ret " + all}, {"-", bytes}, {"out", "call:inv:Write(arg1, " + bytes + ")"}, {"end", "ret " + hashOf("call:inv:Write(arg1, "+bytes+")")}}, Conds: [][2]string{noErr("format", all)}},
		"make format (format- no-format | format+ out end)")
	opt := `parser.formatter{indentText="  ", out=arg0, softWrapLen=80, texts=[]}`
	p.behaves(r, "layout", "how it is set up", p.fn("parser.newFormatter"), traceSpec{Events: [][2]string{{"set", "call:dyn(elem(arg1), " + opt + ")"}, {"end", "ret " + opt}}, Conds: [][2]string{{"more", "(… < call:len(arg1))"}}}, "(more+ set)* more- end")
	for fn, field := range map[string]string{"parser.ConfigureSoftWrapLen": "softWrapLen", "parser.ConfigureIndentText": "indentText"} {
		f := p.fn(fn)
		if f == nil || len(f.AnonFuncs) != 1 {
			r.ob("layout", "setting the "+field, fn, false, "this is no longer one setting")
			continue
		}
		p.behaves(r, "layout", "setting the "+field, f.AnonFuncs[0], traceSpec{Events: [][2]string{{"set", "arg0." + field + " := free:…"}, {"end", "ret "}}}, "set end")
	}
}

const textIs = "strings.Builder{}"

// eachNode: the same for each type of node that there may be.
func (p *Prog) eachNode(at string, types []string, do func(ty string, assume map[string]bool)) {
	vals := p.constNames("parser", "ASTNodeType")
	var nums []string
	name := map[string]string{}
	for v, n := range vals {
		nums = append(nums, v)
		name[v] = n
	}
	sort.Strings(nums)
	for _, v := range nums {
		n := name[v]
		if len(types) > 0 && !in(n, types...) {
			continue
		}
		as := map[string]bool{}
		for _, o := range nums {
			as["("+o+" == "+at+".Type)"] = o == v
		}
		do(n, as)
	}
}

func (p *Prog) nodeNum(name string) string {
	for v, n := range p.constNames("parser", "ASTNodeType") {
		if n == name {
			return v
		}
	}
	return "?"
}

// texts: what a format with values for its %s and %d can look like: formatted,
// or put together.
func texts(format string, args ...string) []string {
	out := []string{`call:fmt.Sprintf("` + format + `", [` + strings.Join(args, ", ") + `])`}
	joined := []string{""}
	plus := func(xs ...string) {
		var next []string
		for _, j := range joined {
			for _, x := range xs {
				if j != "" {
					x = j + " + " + x
				}
				next = append(next, x)
			}
		}
		joined = next
	}
	rest, pieces := format, 0
	for _, a := range args {
		i := strings.Index(strings.ReplaceAll(rest, "%%", "  "), "%")
		if i < 0 {
			return out
		}
		if i > 0 {
			plus(`"` + strings.ReplaceAll(rest[:i], "%%", "%") + `"`)
			pieces++
		}
		if rest[i+1] == 'd' {
			plus("call:strconv.Itoa(conv:int("+a+"))", "call:strconv.Itoa("+a+")", `call:fmt.Sprintf("%d", [`+a+`])`, "call:strconv.FormatInt(conv:int64("+a+"), 10)")
		} else {
			plus(a)
		}
		pieces++
		rest = rest[i+2:]
	}
	if rest != "" {
		plus(`"` + rest + `"`)
		pieces++
	}
	for _, j := range joined {
		if pieces > 1 {
			j = "(" + j + ")"
		}
		out = append(out, j)
	}
	return out
}

func formatDurations(p *Prog, r *Report) {
	text := func(s string) string { return "call:(*strings.Builder).WriteString(" + textIs + ", " + s + ")" }
	child := "elem(arg1.Children)"
	num := func(e string) string {
		return "call:strconv.FormatFloat(as:float64(" + e + `.Literal), 102, -1, 64)`
	}
	denom := "call:(parser.ASTNode).expectNodeType(ix(" + child + ".Children, 0), " + p.nodeNum("DenominatorNode") + ")"
	dots := "call:(parser.ASTNode).expectNodeType(ix(" + child + ".Children, 1), " + p.nodeNum("DotsNode") + ")"
	count := "call:(parser.ASTNode).expectNChildren(" + child + ", [1, 2])"
	var lengths [][2]string
	for name, ts := range map[string][]string{"ms": texts("%sms", num(child)), "seconds": texts("%ss", num(child)), "plain": append(texts("%s%s", num(denom), `call:strings.Repeat(".", 0)`), num(denom), "("+num(denom)+` + "")`),
		"dotted": texts("%s%s", num(denom), `call:strings.Repeat(".", conv:int(as:int32(`+dots+`.Literal)))`)} {
		for _, t := range ts {
			lengths = append(lengths, [2]string{name, text(t)})
		}
	}
	ends := "more- (some+ after write end | some- end)"
	tied := func(one, fails string) string {
		some := "more+ " + one + " (more+ tie " + one + ")* "
		if fails != "" {
			fails = "| more+ " + fails + " | " + some + " more+ tie " + fails
		}
		return "before (" + ends + " | " + some + ends + fails + ")"
	}
	say := map[string]string{
		"NoteLengthNode":        tied("count count+ denom denom+ (dots+ get-dots got+ dotted | dots- plain)", "count (count- uncounted | count+ denom (denom- no-denom | denom+ dots+ get-dots got- no-dots))"),
		"NoteLengthMsNode":      tied("ms", ""),
		"NoteLengthSecondsNode": tied("seconds", ""),
	}
	bar := "(more+ (last+ after | last-) (some+ write | some-) bar blank)"
	stops := "(" + ends + " | more+ refused)"
	say["BarlineNode"] = "before " + bar + "* " + ends
	p.eachNode(child, nil, func(ty string, as map[string]bool) {
		want := say[ty]
		if want == "" {
			want = "before " + stops
		}
		p.behaves(r, "durations", "writing one of "+ty, p.fn("(*parser.formatter).formatWithDuration"), traceSpec{
			Assume:   as,
			Closed:   []string{"(*parser.formatter).write", "(parser.ASTNode).expect…"},
			Impure:   []string{"(*strings.Builder).WriteString", "(*strings.Builder).Reset"},
			Pure:     []string{"(*strings.Builder).Len", "(*strings.Builder).String"},
			Volatile: []string{"call:(*strings.Builder).Len(" + textIs + ")"},
			Events: append(lengths, [][2]string{{"before", text("arg0")}, {"after", text("arg2")}, {"tie", text(`"~"`)}, {"write", "call:(*parser.formatter).write(recv, call:(*strings.Builder).String(" + textIs + "))"},
				{"bar", `call:(*parser.formatter).write(recv, "|")`}, {"blank", "call:(*strings.Builder).Reset(" + textIs + ")"}, {"count", count}, {"denom", denom}, {"get-dots", dots},
				{"refused", "ret call:fmt.Errorf(…"}, {"uncounted", "ret " + count}, {"no-denom", "ret " + hashOf(denom)}, {"no-dots", "ret " + hashOf(dots)}, {"end", "ret nil"}}...),
			Conds: [][2]string{noErr("count", count), noErr("denom", hashOf(denom)), noErr("got", hashOf(dots)), {"dots", "(1 < call:len(" + child + ".Children))"},
				{"some", "(0 < call:(*strings.Builder).Len(" + textIs + "))"}, {"more", "(… < call:len(arg1.Children))"}, {"last", "(… == (call:len(arg1.Children) - 1))"}},
		}, want)
	})
	as := map[string]bool{}
	p.eachNode(child, []string{"NoteLengthNode"}, func(_ string, a map[string]bool) {
		for k := range a {
			if !in(k, "("+p.nodeNum("BarlineNode")+" == "+child+".Type)", "("+p.nodeNum("NoteLengthMsNode")+" == "+child+".Type)") {
				as[k] = false
			}
		}
	})
	p.behaves(r, "durations", "lengths and barlines", p.fn("(*parser.formatter).formatWithDuration"), traceSpec{
		Assume:   as,
		Closed:   []string{"(*parser.formatter).write", "(parser.ASTNode).expect…"},
		Impure:   []string{"(*strings.Builder).WriteString", "(*strings.Builder).Reset"},
		Pure:     []string{"(*strings.Builder).Len", "(*strings.Builder).String"},
		Volatile: []string{"call:(*strings.Builder).Len(" + textIs + ")"},
		Events: append(lengths, [][2]string{{"before", text("arg0")}, {"after", text("arg2")}, {"tie", text(`"~"`)}, {"write", "call:(*parser.formatter).write(recv, call:(*strings.Builder).String(" + textIs + "))"},
			{"bar", `call:(*parser.formatter).write(recv, "|")`}, {"blank", "call:(*strings.Builder).Reset(" + textIs + ")"}, {"refused", "ret call:fmt.Errorf(…"}, {"end", "ret nil"}}...),
		Conds: [][2]string{{"some", "(0 < call:(*strings.Builder).Len(" + textIs + "))"}, {"more", "(… < call:len(arg1.Children))"}, {"last", "(… == (call:len(arg1.Children) - 1))"}, {"-", "(… == " + child + ".Type)"}},
	}, "before "+bar+"* ("+stops+" | more+ ms ("+bar+" | more+ tie ms)* "+stops+")")
}

func formatEvents(p *Prog, r *Report) {
	n := "elem(arg0)"
	write := func(s string) string { return "call:(*parser.formatter).write(recv, " + s + ")" }
	sp := func(f string, as ...string) (out []string) {
		for _, t := range texts(f, as...) {
			out = append(out, write(t))
		}
		return out
	}
	lit := func(ty string) string { return "as:" + ty + "(" + n + ".Literal)" }
	child := func(i string) string { return "ix(" + n + ".Children, " + i + ")" }
	expect := func(e, ty string) string {
		return "call:(parser.ASTNode).expectNodeType(" + e + ", " + p.nodeNum(ty) + ")"
	}
	counts := func(e, k string) string { return "call:(parser.ASTNode).expectNChildren(" + e + ", [" + k + "])" }
	format := func(e string) string { return "call:(*parser.formatter).formatInnerEvents(recv, " + e + ")" }
	long := func(pre, d, post string) string {
		return "call:(*parser.formatter).formatWithDuration(recv, " + pre + ", " + d + ", " + post + ")"
	}
	closed := []string{"(*parser.formatter).write", "(*parser.formatter).flush", "(*parser.formatter).indent", "(*parser.formatter).unindent", "(*parser.formatter).formatInnerEvents", "(*parser.formatter).formatWithDuration", "(parser.ASTNode).expect…"}
	if f := p.lispText(); f != nil {
		closed = append(closed, fname(f))
	}
	type what struct {
		one, fails string
		events     [][2]string
		conds      [][2]string
		types      map[string]string // of parts that are known in this case
		subst      map[string]*E
	}
	simple := func(es ...string) what {
		w := what{one: "one"}
		for _, e := range es {
			w.events = append(w.events, [2]string{"one", e})
		}
		return w
	}
	// a step that can fail: what it is called, what it is, and what is then given back
	may := func(w *what, name, call, err string) string {
		w.events = append(w.events, [2]string{name, call}, [2]string{"no-" + name, "ret " + err})
		w.conds = append(w.conds, noErr(name, err))
		return name
	}
	// steps in order: the words for all of them going well, and for one of them failing
	run := func(w *what, steps ...string) {
		var fails []string
		for i, st := range steps {
			w.one += " " + st
			if strings.HasPrefix(st, "!") {
				w.one = w.one[:len(w.one)-len(st)] + st[1:] + " " + st[1:] + "+"
				var before []string
				for _, x := range steps[:i] {
					if x[0] == '!' {
						x = x[1:] + " " + x[1:] + "+"
					}
					before = append(before, x)
				}
				fails = append(fails, strings.Join(append(before, st[1:], st[1:]+"-", "no-"+st[1:]), " "))
			}
		}
		w.fails = strings.Join(fails, " | ")
	}
	count := func(w *what, k string) string { c := counts(n, k); return may(w, "count", c, c) }
	get := func(w *what, name, e, ty string) string {
		c := expect(e, ty)
		may(w, name, c, hashOf(c))
		return c
	}
	put := func(w *what, name string, es ...string) {
		for _, e := range es {
			w.events = append(w.events, [2]string{name, e})
		}
	}
	is := func(w *what, name, c string) { w.conds = append(w.conds, [2]string{name, c}) }
	in1 := func(w *what, name, e string) { c := format(e); may(w, name, c, c) }
	over := func(w *what, name, pre, d, post string) { c := long(pre, d, post); may(w, name, c, c) }
	say := map[string]what{
		"AtMarkerNode":            simple(sp("@%s", lit("string"))...),
		"MarkerNode":              simple(sp("%%%s", lit("string"))...),
		"BarlineNode":             simple(write(`"|"`)),
		"OctaveDownNode":          simple(write(`"<"`)),
		"OctaveUpNode":            simple(write(`">"`)),
		"OctaveSetNode":           simple(sp("o%d", lit("int32"))...),
		"VariableReferenceNode":   simple(write(lit("string"))),
		"VoiceGroupEndMarkerNode": simple(write(`"V0:"`)),
	}
	add := func(ty string, build func(w *what)) { w := what{}; build(&w); say[ty] = w }
	add("VoiceGroupNode", func(w *what) {
		in1(w, "in", n+".Children")
		run(w, "flush", "!in")
	})
	add("EventSequenceNode", func(w *what) {
		in1(w, "in", n+".Children")
		put(w, "open", write(`"["`))
		put(w, "close", write(`"]"`))
		run(w, "flush", "open", "indent", "!in", "unindent", "close")
	})
	add("VoiceNode", func(w *what) {
		count(w, "2")
		num := get(w, "number", child("0"), "VoiceNumberNode")
		evs := get(w, "events", child("1"), "EventSequenceNode")
		in1(w, "in", evs+".Children")
		put(w, "write", sp("V%d:", "as:int32("+num+".Literal)")...)
		run(w, "!count", "!number", "write", "indent", "!events", "!in", "unindent")
	})
	add("RepeatNode", func(w *what) {
		count(w, "2")
		in1(w, "in", "["+child("0")+"]")
		times := get(w, "times", child("1"), "TimesNode")
		put(w, "write", sp("*%d", "as:int32("+times+".Literal)")...)
		run(w, "!count", "!in", "!times", "write")
	})
	node := p.elemType(p.fn("(*parser.formatter).formatInnerEvents"))
	parts := func(names ...string) *E {
		e := &E{Op: "slicelit"}
		for _, x := range names {
			e.A = append(e.A, &E{Op: "opaque", S: x, T: node})
		}
		return e
	}
	for _, given := range []bool{false, true} {
		as, kids := "alone", []string{}
		if given {
			as, kids = "with a duration", []string{"D"}
		}
		add("CramNode as "+as, func(w *what) {
			w.types, w.subst = map[string]string{"E": "EventSequenceNode", "D": "DurationNode"}, map[string]*E{n + ".Children": parts(append([]string{"E"}, kids...)...)}
			count(w, "1, 2")
			evs := get(w, "events", "E", "EventSequenceNode")
			in1(w, "in", evs+".Children")
			dur := get(w, "duration", "D", "DurationNode")
			over(w, "long", `"}"`, dur, `""`)
			put(w, "open", write(`"{"`))
			put(w, "close", write(`"}"`))
			if given {
				run(w, "!count", "!events", "open", "!in", "!duration", "!long")
			} else {
				run(w, "!count", "!events", "open", "!in", "close")
			}
		})
		add("RestNode as "+as, func(w *what) {
			w.types, w.subst = map[string]string{"D": "DurationNode"}, map[string]*E{n + ".Children": parts(kids...)}
			dur := get(w, "duration", "D", "DurationNode")
			over(w, "long", `"r"`, dur, `""`)
			put(w, "plain", write(`"r"`))
			if given {
				run(w, "!duration", "!long")
			} else {
				run(w, "plain")
			}
		})
	}
	add("OnRepetitionsNode", func(w *what) {
		count(w, "2")
		in1(w, "in", "["+child("0")+"]")
		reps := get(w, "reps", child("1"), "RepetitionsNode")
		rr := get(w, "range", "elem("+reps+".Children)", "RepetitionRangeNode")
		both := counts(rr, "2")
		may(w, "both", both, both)
		fr := get(w, "first", "ix("+rr+".Children, 0)", "FirstRepetitionNode")
		lr := get(w, "last", "ix("+rr+".Children, 1)", "LastRepetitionNode")
		f, l := "as:int32("+fr+".Literal)", "as:int32("+lr+".Literal)"
		for _, t := range texts("%d", f) {
			put(w, "one", "add "+t)
		}
		for _, t := range texts("%d-%d", f, l) {
			put(w, "many", "add "+t)
		}
		put(w, "write", sp("'%s", "call:strings.Join(…, \",\")")...)
		is(w, "same", "("+f+" == "+l+")")
		is(w, "left", "(… < call:len("+reps+".Children))")
		each := "range range+ both both+ first first+ last last+ (same+ one | same- many)"
		pre := "count count+ in in+ reps reps+ (left+ " + each + ")* "
		w.one = pre + "left- write"
		w.fails = "count count- no-count | count count+ in in- no-in | count count+ in in+ reps reps- no-reps | " + pre + "left+ range (range- no-range | range+ both (both- no-both | both+ first (first- no-first | first+ last last- no-last)))"
	})
	add("VariableDefinitionNode", func(w *what) {
		count(w, "2")
		name := get(w, "name", child("0"), "VariableNameNode")
		evs := get(w, "events", child("1"), "EventSequenceNode")
		last := "(call:len(" + evs + ".Children) - 1)"
		in1(w, "most", "slice("+evs+".Children, _, "+last+")")
		in1(w, "last", "[ix("+evs+".Children, "+last+")]")
		put(w, "write", sp("%s =", "as:string("+name+".Literal)")...)
		for _, x := range [][2]string{{"defining", "1"}, {"at-last", "2"}, {"done", "0"}} {
			put(w, x[0], "recv.varDef := "+x[1])
		}
		is(w, "some", "(0 < call:len("+evs+".Children))")
		pre := "flush defining count count+ name name+ write events events+ "
		w.one = pre + "(some- | some+ most most+ at-last last last+) done flush"
		w.fails = "flush defining count (count- no-count | count+ name (name- no-name | name+ write events events- no-events)) | " + pre + "some+ most (most- no-most | most+ at-last last last- no-last)"
	})
	// notes and chords: with each of the lists of accidentals, and of what may be in a chord
	accidentals := map[byte]string{'F': "FlatNode", 'N': "NaturalNode", 'S': "SharpNode", 'x': "TieNode"}
	signs := map[byte]string{'F': "-", 'N': "_", 'S': "+"}
	for _, more := range []string{"", "D", "T", "DT"} {
		for _, acc := range words("FNSx", 3) {
			if more != "" && len(acc) > 1 || strings.Contains(acc, "x") && len(acc) > 2 {
				continue
			}
			add("NoteNode as P"+acc+more, func(w *what) {
				w.types = map[string]string{"P": "NoteLetterAndAccidentalsNode", "D": "DurationNode", "T": "TieNode"}
				kids := []string{"P"}
				for _, c := range more {
					kids = append(kids, string(c))
				}
				count(w, "1, 2, 3")
				laa := get(w, "pitch", "P", "NoteLetterAndAccidentalsNode")
				some := "call:(parser.ASTNode).expectChildren(" + laa + ")"
				may(w, "some", some, some)
				letter := get(w, "letter", "L", "NoteLetterNode")
				put(w, "name", "call:(*strings.Builder).WriteRune("+textIs+", as:rune("+letter+".Literal))")
				put(w, "name", "call:(*strings.Builder).WriteRune("+textIs+", as:int32("+letter+".Literal))")
				list := get(w, "signs", "A", "NoteAccidentalsNode")
				laaKids := []string{"L"}
				steps := []string{"!count", "!pitch", "!some", "!letter", "name"}
				w.subst = map[string]*E{n + ".Children": parts(kids...)}
				refused := false
				if acc != "" {
					laaKids = append(laaKids, "A")
					steps = append(steps, "!signs")
					var each []string
					for i := range acc {
						name := string(rune('a' + i))
						w.types[name] = accidentals[acc[i]]
						each = append(each, name)
						if acc[i] == 'x' {
							refused = true
							break
						}
						put(w, "sign"+signName[acc[i]], "call:(*strings.Builder).WriteString("+textIs+`, "`+signs[acc[i]]+`")`)
						steps = append(steps, "sign"+signName[acc[i]])
					}
					w.subst[list+".Children"] = parts(each...)
				}
				w.subst[laa+".Children"] = parts(laaKids...)
				text, slur := "call:(*strings.Builder).String("+textIs+")", `""`
				if strings.Contains(more, "T") {
					slur = `"~"`
				}
				over(w, "long", text, "D", slur)
				put(w, "plain", sp("%s%s", text, slur)...)
				if slur == `""` {
					put(w, "plain", write(text))
				}
				switch {
				case refused:
					run(w, steps...)
					w.fails += " | " + w.one + " refused"
					w.one = ""
					return
				case strings.Contains(more, "D"):
					steps = append(steps, "!long")
				default:
					steps = append(steps, "plain")
				}
				run(w, steps...)
			})
		}
	}
	chord := map[byte]string{'N': "NoteNode", 'R': "RestNode", 'O': "OctaveUpNode"}
	for _, members := range words("NRO", 4) {
		if members == "" {
			continue
		}
		add("ChordNode as "+members, func(w *what) {
			c := "call:(parser.ASTNode).expectChildren(" + n + ")"
			may(w, "some", c, c)
			put(w, "separator", write(`"/"`))
			w.types = map[string]string{}
			steps := []string{"!some"}
			var kids []string
			for i := range members {
				name := string(rune('a' + i))
				kids = append(kids, name)
				w.types[name] = chord[members[i]]
				in1(w, "in"+name, "["+name+"]")
				steps = append(steps, "!in"+name)
				if members[i] != 'O' && strings.ContainsAny(members[i+1:], "NR") {
					steps = append(steps, "separator")
				}
			}
			w.subst = map[string]*E{n + ".Children": parts(kids...)}
			run(w, steps...)
		})
	}
	add("LispListNode", func(w *what) {
		c := p.lispCall() + n + ")"
		may(w, "text", c, hashOf(c))
		put(w, "write", write(c))
		run(w, "!text", "write")
	})
	all := p.allNodeTypes()
	p.eachNode(n, nil, func(ty string, as map[string]bool) {
		if _, ok := say[ty]; !ok && !in(ty, "ChordNode", "NoteNode", "CramNode", "RestNode") {
			say[ty] = what{fails: "refused"}
		}
		var keys []string
		for k := range say {
			if k == ty || strings.HasPrefix(k, ty+" as ") {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, key := range keys {
			w := say[key]
			ref := "(more+ (" + w.one + "))* more- end"
			if w.fails != "" {
				ref = "(more+ (" + w.one + "))* (more- end | more+ (" + w.fails + "))"
			}
			if w.one == "" {
				ref = "more- end | more+ (" + w.fails + ")"
			}
			known := merged(as)
			for name, t := range w.types {
				for v, o := range all {
					known["("+v+" == "+name+".Type)"] = o == t
				}
			}
			p.behaves(r, "events", "writing a "+key, p.fn("(*parser.formatter).formatInnerEvents"), traceSpec{
				Assume: known, Subst: w.subst, Closed: closed, Impure: []string{"(*strings.Builder).Write…"}, Pure: []string{"(*strings.Builder).String"}, Builds: []string{"string"},
				Events: append(w.events, [][2]string{{"flush", "call:(*parser.formatter).flush(recv)"}, {"indent", "call:(*parser.formatter).indent(recv)"}, {"unindent", "call:(*parser.formatter).unindent(recv)"}, {"end", "ret nil"}, {"refused", "ret call:fmt.Errorf(…"}}...),
				Conds:  append(w.conds, [2]string{"more", "(… < call:len(arg0))"}),
			}, ref)
		}
	})
}

var signName = map[byte]string{'F': "-flat", 'N': "-natural", 'S': "-sharp"}

// words: all of them up to a length.
func words(letters string, n int) []string {
	out, last := []string{""}, []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range last {
			for _, c := range letters {
				next = append(next, w+string(c))
			}
		}
		out, last = append(out, next...), next
	}
	return out
}

// elemType: what the list is of that a function is given first.
func (p *Prog) elemType(f *ssa.Function) types.Type {
	if f == nil || len(f.Params) < 2 {
		return nil
	}
	s, ok := f.Params[1].Type().Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	return s.Elem()
}

func (p *Prog) allNodeTypes() map[string]string { return p.constNames("parser", "ASTNodeType") }
