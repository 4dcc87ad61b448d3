package main

import (
	"fmt"
	"regexp"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = checkUpdates }

// The shape of the trees the parser makes (what C13 decides): for each node
// type, the types of its children by position, and how many there are.
type astShape struct {
	at   [][]string // by position; the last one repeats
	n    []int      // numbers of children; nil: one or more (any, when none are given)
	any  bool       // there may be none
	text string
}

var astShapes = map[string]astShape{
	"RootNode":                     {any: true},
	"ImplicitPartNode":             {at: [][]string{{"EventSequenceNode"}}, n: []int{1}},
	"PartNode":                     {at: [][]string{{"PartDeclarationNode"}, {"EventSequenceNode"}}, n: []int{2}},
	"PartDeclarationNode":          {at: [][]string{{"PartNamesNode"}, {"PartAliasNode"}}, n: []int{1, 2}},
	"PartNamesNode":                {at: [][]string{{"PartNameNode"}}},
	"ChordNode":                    {},
	"CramNode":                     {at: [][]string{{"EventSequenceNode"}, {"DurationNode"}}, n: []int{1, 2}},
	"DurationNode":                 {at: [][]string{{"NoteLengthNode", "NoteLengthMsNode", "NoteLengthSecondsNode", "BarlineNode"}}},
	"NoteLengthNode":               {at: [][]string{{"DenominatorNode"}, {"DotsNode"}}, n: []int{1, 2}},
	"EventSequenceNode":            {any: true},
	"LispListNode":                 {any: true, at: [][]string{{"LispListNode", "LispNumberNode", "LispQuotedFormNode", "LispStringNode", "LispSymbolNode"}}},
	"LispQuotedFormNode":           {at: [][]string{{"LispListNode", "LispNumberNode", "LispQuotedFormNode", "LispStringNode", "LispSymbolNode"}}, n: []int{1}},
	"NoteNode":                     {at: [][]string{{"NoteLetterAndAccidentalsNode"}, {"DurationNode", "TieNode"}}, n: []int{1, 2, 3}},
	"NoteAccidentalsNode":          {at: [][]string{{"FlatNode", "NaturalNode", "SharpNode"}}},
	"OnRepetitionsNode":            {at: [][]string{{}, {"RepetitionsNode"}}, n: []int{2}},
	"RepetitionsNode":              {at: [][]string{{"RepetitionRangeNode"}}},
	"RepetitionRangeNode":          {at: [][]string{{"FirstRepetitionNode"}, {"LastRepetitionNode"}}, n: []int{2}},
	"RepeatNode":                   {at: [][]string{{}, {"TimesNode"}}, n: []int{2}},
	"RestNode":                     {at: [][]string{{"DurationNode"}}, n: []int{0, 1}},
	"VariableDefinitionNode":       {at: [][]string{{"VariableNameNode"}, {"EventSequenceNode"}}, n: []int{2}},
	"VoiceGroupNode":               {at: [][]string{{"VoiceNode", "VoiceGroupEndMarkerNode"}}},
	"VoiceNode":                    {at: [][]string{{"VoiceNumberNode"}, {"EventSequenceNode"}}, n: []int{2}},
	"NoteLetterAndAccidentalsNode": {at: [][]string{{"NoteLetterNode"}, {"NoteAccidentalsNode"}}, n: []int{1, 2}},
}

// trees reasons about paths into a tree of the parser.
type trees struct {
	p    *Prog
	num  map[string]string // name -> number of a node type
	root string            // recv or arg0
	is   map[string]string // what nodes are known to be; path -> number
}

func (t *trees) shapeAt(path, node string) (astShape, bool) {
	ty := t.typesAt(path, node)
	if len(ty) != 1 {
		return astShape{}, false
	}
	s, ok := astShapes[ty[0]]
	return s, ok
}

// typesAt: what the node at a path can be, in a tree whose root is a NODE; nil
// when it could be anything.
func (t *trees) typesAt(path, node string) []string {
	ty := t.typesOf(path, node)
	for _, n := range ty {
		if t.is[path] == t.num[n] && path != t.root {
			return []string{n}
		}
	}
	return ty
}

func (t *trees) typesOf(path, node string) []string {
	if path == t.root {
		return []string{node}
	}
	inner, i, j := "", 0, 0
	switch {
	case strings.HasPrefix(path, "elem(") && strings.HasSuffix(path, ".Children)"):
		inner, i, j = path[5:len(path)-len(".Children)")], 0, -1
	case strings.HasPrefix(path, "elem(slice(") && strings.HasSuffix(path, ".Children, 1, _))"):
		inner, i, j = path[11:len(path)-len(".Children, 1, _))")], 1, -1
	case strings.HasPrefix(path, "ix(") && strings.HasSuffix(path, ")"):
		k := strings.LastIndex(path, ".Children, ")
		if k < 0 {
			return nil
		}
		inner = path[3:k]
		if n, err := fmt.Sscanf(path[k+len(".Children, "):], "%d)", &i); n != 1 || err != nil {
			i, j = 0, -1
			if strings.Contains(path[k:], "1 + ") || strings.Contains(path[k:], "ind:1+1") {
				i = 1
			}
		} else {
			j = i
		}
	default:
		return nil
	}
	s, ok := t.shapeAt(inner, node)
	if !ok || len(s.at) == 0 {
		return nil
	}
	var out []string
	for k := i; ; k++ {
		at := s.at[min(k, len(s.at)-1)]
		if len(at) == 0 {
			return nil
		}
		out = append(out, at...)
		if k == j || k >= len(s.at)-1 {
			return out
		}
	}
}

var (
	typeFact = regexp.MustCompile(`^([TF]):\((\d+) == (.*)\.Type\)$`)
	lenFact  = regexp.MustCompile(`^([TF]):\((\d+) (==|<=|<) call:len\((.*)\.Children\)\)$`)
	lenFact2 = regexp.MustCompile(`^([TF]):\(call:len\((.*)\.Children\) (==|<=|<) (\d+)\)$`)
	childErr = regexp.MustCompile(`^F:\((call#1:(UPDATES|DURATION|FORM)\(.*|nil) == (nil|call#1:(UPDATES|DURATION|FORM)\(.*|\{.*call#1:(UPDATES|DURATION|FORM)\(.*)\)$`)
	noLetter = regexp.MustCompile(`^F:\((call#1:model\.NewNoteLetter\(.*|nil) == (nil|call#1:model\.NewNoteLetter\(.*)\)$`)
)

// impossible: the facts cannot all hold of a well-formed tree, or one of them
// is the failure of something inside.
func (t *trees) impossible(node string, facts FactSet) bool {
	no := map[string]map[string]bool{}
	lens := map[string]map[int]bool{}
	t.is = map[string]string{}
	for f := range facts {
		if m := typeFact.FindStringSubmatch(f); m != nil && m[1] == "T" {
			if o, ok := t.is[m[3]]; ok && o != m[2] {
				return true
			}
			t.is[m[3]] = m[2]
		}
	}
	defer func() { t.is = nil }()
	for f := range facts {
		if childErr.MatchString(f) || noLetter.MatchString(f) {
			return true
		}
		if m := typeFact.FindStringSubmatch(f); m != nil {
			ty := t.typesOf(m[3], node)
			if ty == nil {
				continue
			}
			if m[1] == "T" {
				ok := false
				for _, n := range ty {
					ok = ok || t.num[n] == m[2]
				}
				if !ok {
					return true
				}
				continue
			}
			if no[m[3]] == nil {
				no[m[3]] = map[string]bool{}
			}
			no[m[3]][m[2]] = true
			all := true
			for _, n := range ty {
				all = all && no[m[3]][t.num[n]]
			}
			if all {
				return true
			}
			continue
		}
		path, op, truth, k := "", "", false, 0
		if m := lenFact.FindStringSubmatch(f); m != nil {
			fmt.Sscan(m[2], &k)
			path, op, truth = m[4], map[string]string{"==": "==", "<=": ">=", "<": ">"}[m[3]], m[1] == "T"
		} else if m := lenFact2.FindStringSubmatch(f); m != nil {
			fmt.Sscan(m[4], &k)
			path, op, truth = m[2], m[3], m[1] == "T"
		} else {
			continue
		}
		s, ok := t.shapeAt(path, node)
		if !ok || s.any {
			continue
		}
		ns := s.n
		if ns == nil {
			ns = []int{1, 2, 3, 4, 5, 6, 7, 8, 1 << 30}
			for _, n := range strings.FieldsFunc(t.lens(facts), func(c rune) bool { return c == ' ' }) {
				var j int
				if fmt.Sscan(n, &j); j > 9 {
					ns = append(ns, j-1, j, j+1)
				}
			}
		}
		if lens[path] == nil {
			lens[path] = map[int]bool{}
		}
		all := true
		for _, n := range ns {
			holds := map[string]bool{"==": n == k, ">=": n >= k, ">": n > k, "<=": n <= k, "<": n < k}[op]
			if holds != truth {
				lens[path][n] = true
			}
			all = all && lens[path][n]
		}
		if all {
			return true
		}
	}
	return false
}

// astField is something an update is given.
type astField struct {
	t    string // TYPE.Field
	v    string // alternatives
	when string // only then; alternatives
	opt  bool
	loop string // or in a loop over this
}

// astMeaning is what a node stands for.
type astMeaning struct {
	node   string
	out    []string
	fields []astField
}

const (
	ixC0, ixC1 = "ix(recv.Children, 0)", "ix(recv.Children, 1)"
	eachOf     = "{[] | append(rec, call:UPDATES(elem(X.Children)))} OR {append(rec, call:UPDATES(elem(X.Children))) | nil} OR append(zero, call:UPDATES(elem(X.Children))) OR append(rec, call:UPDATES(elem(X.Children))) OR {append(rec, call:UPDATES(elem(X.Children))) | zero} OR {append(rec, call:UPDATES(elem(X.Children))) | makeslice…}"
)

func eachUpdate(x string) []string {
	return strings.Split(strings.ReplaceAll(eachOf, "X", x), " OR ")
}

// prefixed puts each way of writing the updates of x after some text.
func around(a, x, b string) (out []string) {
	for _, e := range eachUpdate(x) {
		out = append(out, a+e+b)
	}
	return
}

func eachValue(x string) string {
	var out []string
	for _, e := range eachUpdate(x) {
		e = strings.NewReplacer("[]", "slicelit()", "append(", "call:append(").Replace(e)
		out = append(out, e)
		if a, b, ok := strings.Cut(strings.Trim(e, "{}"), " | "); ok {
			out = append(out, "{"+b+" | "+a+"}")
		}
	}
	return strings.Join(out, " OR ")
}

const oneOrMore = "{ix(call:UPDATES(" + ixC0 + "), 0) | new:model.EventSequence()} OR ix(call:UPDATES(" + ixC0 + "), 0) OR new:model.EventSequence()"

func astMeanings() []astMeaning {
	ctx := "recv.SourceContext"
	one := func(node, typ string, fields ...astField) astMeaning {
		fs := []astField{{t: typ + ".SourceContext", v: ctx}}
		return astMeaning{node, []string{"[" + typ + "{SourceContext=" + ctx + "…}]", "[{" + typ + "{…}…}]"}, append(fs, fields...)}
	}
	f := func(t, v string) astField { return astField{t: t, v: v} }
	opt := func(t, v, when string) astField { return astField{t: t, v: v, when: when} }
	more := func(node string, fields ...astField) astMeaning {
		m := one(node, strings.TrimSuffix(node, "Node"), fields...)
		m.fields = append(m.fields, astField{t: "EventSequence.SourceContext", v: ixC0 + ".SourceContext", when: "F:(1 == call:len(call:UPDATES(" + ixC0 + ")))", opt: true}, astField{t: "EventSequence.Events", v: "call:UPDATES(" + ixC0 + ")", when: "F:(1 == call:len(call:UPDATES(" + ixC0 + ")))", opt: true})
		return m
	}
	decl := "ix(recv.Children, 0)"
	rep := more("RepeatNode", f("Repeat.Event", oneOrMore), f("Repeat.Times", "as:int32("+ixC1+".Literal)"))
	rep.fields[0].v += " OR " + ixC0 + ".SourceContext"
	rep.out = []string{"[Repeat{SourceContext=" + ixC0 + ".SourceContext, …}]", "[Repeat{SourceContext=recv.SourceContext, …}]"}
	rng := "elem(" + ixC1 + ".Children)"
	attr := func(node, v string) astMeaning {
		return astMeaning{node, []string{"[AttributeUpdate{SourceContext=" + ctx + ", PartUpdate=" + v + "}]"}, []astField{f("AttributeUpdate.SourceContext", ctx), f("AttributeUpdate.PartUpdate", "…"), {t: "OctaveSet.OctaveNumber", v: "as:int32(recv.Literal)", opt: true}}}
	}
	laa := ixC0
	kid := "elem(slice(recv.Children, 1, _)) OR elem(recv.Children) OR ix(recv.Children, {…}) OR ix(recv.Children, 1) OR ix(recv.Children, ind:1+1)"
	kids := func(pre, post string) string {
		var xs []string
		for _, k := range strings.Split(kid, " OR ") {
			xs = append(xs, pre+k+post)
		}
		return strings.Join(xs, " OR ")
	}
	acc := "elem(ix(" + laa + ".Children, 1).Children).Type)"
	return []astMeaning{
		one("AtMarkerNode", "AtMarker", f("AtMarker.Name", "as:string(recv.Literal)")),
		one("BarlineNode", "Barline"),
		one("MarkerNode", "Marker", f("Marker.Name", "as:string(recv.Literal)")),
		one("VariableReferenceNode", "VariableReference", f("VariableReference.VariableName", "as:string(recv.Literal)")),
		one("VoiceGroupEndMarkerNode", "VoiceGroupEndMarker"),
		one("ChordNode", "Chord", f("Chord.Events", eachValue("recv"))),
		one("EventSequenceNode", "EventSequence", f("EventSequence.Events", eachValue("recv"))),
		one("CramNode", "Cram", f("Cram.Events", eachValue(ixC0)), opt("Cram.Duration", "call:DURATION("+ixC1+")", "T:(1 < call:len(recv.Children)) OR T:(2 == call:len(recv.Children)) OR F:(1 == call:len(recv.Children)) OR T:(2 <= call:len(recv.Children))")),
		one("RestNode", "Rest", astField{t: "Rest.Duration", v: "call:DURATION(" + ixC0 + ") OR call:DURATION(elem(recv.Children))", when: "T:(1 == call:len(recv.Children)) OR F:(0 == call:len(recv.Children)) OR T:(0 < call:len(recv.Children))", loop: "recv.Children"}),
		attr("OctaveDownNode", "OctaveDown{}"), attr("OctaveUpNode", "OctaveUp{}"), attr("OctaveSetNode", "OctaveSet{OctaveNumber=as:int32(recv.Literal)}"),
		rep,
		more("OnRepetitionsNode", f("OnRepetitions.Event", oneOrMore),
			f("OnRepetitions.Repetitions", "+ new:model.RepetitionRange()"),
			f("RepetitionRange.First", "as:int32(ix("+rng+".Children, 0).Literal)"), f("RepetitionRange.Last", "as:int32(ix("+rng+".Children, 1).Literal)")),
		{"ImplicitPartNode", eachUpdate(ixC0), nil},
		{"RootNode", eachUpdate("recv"), nil},
		{"VoiceGroupNode", eachUpdate("recv"), nil},
		{"PartNode", around("append([…PartDeclaration{SourceContext=recv.SourceContext…], ", ixC1, ")"), []astField{f("PartDeclaration.SourceContext", ctx),
			f("PartDeclaration.Names", "+ as:string(elem(ix("+decl+".Children, 0).Children).Literal)"),
			opt("PartDeclaration.Alias", "as:string(ix("+decl+".Children, 1).Literal)", "T:(1 < call:len("+decl+".Children)) OR T:(2 == call:len("+decl+".Children)) OR F:(1 == call:len("+decl+".Children))")}},
		one("VariableDefinitionNode", "VariableDefinition", f("VariableDefinition.VariableName", "as:string("+ixC0+".Literal)"), f("VariableDefinition.Events", eachValue(ixC1))),
		{"VoiceNode", around("append([VoiceMarker{SourceContext="+ixC0+".SourceContext, VoiceNumber=as:int32("+ixC0+".Literal)}], ", ixC1, ")"), []astField{f("VoiceMarker.SourceContext", ixC0+".SourceContext"), f("VoiceMarker.VoiceNumber", "as:int32("+ixC0+".Literal)")}},
		one("NoteNode", "Note", f("Note.Pitch", "…new:model.LetterAndAccidentals()…"),
			f("LetterAndAccidentals.NoteLetter", "call:model.NewNoteLetter(as:rune(ix("+laa+".Children, 0).Literal))"),
			opt("LetterAndAccidentals.Accidentals", "+ <Flat>", "T:(FlatNode == "+acc),
			opt("LetterAndAccidentals.Accidentals", "+ <Natural>", "T:(NaturalNode == "+acc),
			opt("LetterAndAccidentals.Accidentals", "+ <Sharp>", "T:(SharpNode == "+acc),
			opt("Note.Duration", kids("call:DURATION(", ")"), kids("T:(DurationNode == ", ".Type)")),
			opt("Note.Slurred", "true", kids("T:(TieNode == ", ".Type)"))),
		{"LispListNode", []string{"[as:model.LispList(call:FORM(recv))]", "[call:FORM(recv)]"}, nil},
	}
}

func durationMeaning() astMeaning {
	kid := "elem(recv.Children)"
	is := func(n string) string { return "T:(" + n + " == " + kid + ".Type)" }
	f := func(t, v, when string) astField { return astField{t: t, v: v, when: when} }
	return astMeaning{"DurationNode", []string{"Duration{…}", "{Duration{…}…}"}, []astField{
		f("Duration.Components", "+ new:model.Barline()", is("BarlineNode")),
		f("Duration.Components", "+ new:model.NoteLength()", is("NoteLengthNode")),
		f("Duration.Components", "+ new:model.NoteLengthMs()", is("NoteLengthMsNode")),
		f("Duration.Components", "+ new:model.NoteLengthSeconds()", is("NoteLengthSecondsNode")),
		f("Barline.SourceContext", kid+".SourceContext", is("BarlineNode")),
		f("NoteLength.Denominator", "as:float64(ix("+kid+".Children, 0).Literal)", is("NoteLengthNode")),
		f("NoteLength.Dots", "{0 | as:int32(ix("+kid+".Children, 1).Literal)} OR as:int32(ix("+kid+".Children, 1).Literal)", is("NoteLengthNode")+" OR T:(1 < call:len("+kid+".Children)) OR T:(2 == call:len("+kid+".Children)) OR F:(1 == call:len("+kid+".Children))"),
		f("NoteLengthMs.Quantity", "as:float64("+kid+".Literal)", is("NoteLengthMsNode")),
		f("NoteLengthSeconds.Quantity", "as:float64("+kid+".Literal)", is("NoteLengthSecondsNode")),
	}}
}

func formMeanings() []astMeaning {
	one := func(node, typ, field, v string, vs ...string) astMeaning {
		return astMeaning{node, []string{typ + "{SourceContext=recv.SourceContext…}", "{" + typ + "{…}…}"},
			[]astField{{t: typ + ".SourceContext", v: "recv.SourceContext"}, {t: typ + "." + field, v: strings.Join(append(vs, v), " OR ")}}}
	}
	return []astMeaning{
		one("LispListNode", "LispList", "Elements", "+ call:FORM(elem(recv.Children))"),
		one("LispNumberNode", "LispNumber", "Value", "as:float64(recv.Literal)"),
		one("LispStringNode", "LispString", "Value", "as:string(recv.Literal)"),
		one("LispSymbolNode", "LispSymbol", "Name", "as:string(recv.Literal)"),
		one("LispQuotedFormNode", "LispQuotedForm", "Form", "call:FORM("+ixC0+")"),
	}
}

// treeFunc finds the function from a node to a RESULT and an error.
func (p *Prog) treeFunc(result string) (out []*ssa.Function) {
	for _, f := range p.funcsIn("parser") {
		s := f.Signature
		if s.Results().Len() != 2 || typeName(s.Results().At(0).Type()) != result || typeName(s.Results().At(1).Type()) != "error" {
			continue
		}
		var in []types.Type
		if s.Recv() != nil {
			in = append(in, s.Recv().Type())
		}
		for i := 0; i < s.Params().Len(); i++ {
			in = append(in, s.Params().At(i).Type())
		}
		if len(in) == 1 && typeName(derefType(in[0])) == "parser.ASTNode" {
			out = append(out, f)
		}
	}
	return
}

func checkUpdates(p *Prog, r *Report) {
	r.rule("meaning", "each node of the tree becomes the event it stands for, made of what the node and its children hold")
	r.rule("possible", "a tree the parser can make is never refused, but for an error in something inside")
	r.rule("inside", "the events inside become updates once each, in order, and their errors are reported")
	u := p.fn("(parser.ASTNode).Updates")
	if u == nil {
		r.ob("meaning", "Updates", "", false, "ASTNode.Updates is gone")
		return
	}
	closed := map[*ssa.Function]string{u: "UPDATES"}
	ds, fs := p.treeFunc("model.Duration"), p.treeFunc("model.LispForm")
	for _, f := range ds {
		closed[f] = "DURATION"
	}
	for _, f := range fs {
		closed[f] = "FORM"
	}
	r.ob("meaning", "the functions", p.pos(u.Pos()), len(ds) == 1 && len(fs) == 1, fmt.Sprintf("there are %d functions from nodes to durations and %d to Lisp forms, expected one of each", len(ds), len(fs)))
	if len(ds) != 1 || len(fs) != 1 {
		return
	}
	p.literalRule(r)
	p.sealed(func() {
		p.closed, p.keepCtx, p.fresh = closed, true, true
		defer func() { p.closed, p.keepCtx, p.fresh = nil, false, false }()
		p.treeRule(r, u, astMeanings())
		p.treeRule(r, fs[0], formMeanings())
		p.treeRule(r, ds[0], []astMeaning{durationMeaning()})
	}, "model.NewNoteLetter")
}

func (p *Prog) treeRule(r *Report, f *ssa.Function, ms []astMeaning) {
	names := p.constNames("parser", "ASTNodeType")
	t := &trees{p: p, num: map[string]string{}, root: "arg0"}
	if f.Signature.Recv() != nil {
		t.root = "recv"
	}
	for v, n := range names {
		t.num[n] = v
	}
	acc := map[string]string{}
	for v, n := range p.constNames("model", "Accidental") {
		acc[n] = v
	}
	nodeName := regexp.MustCompile(`\b(\w+Node) ==`)
	accName := regexp.MustCompile(`<(\w+)>`)
	fix := func(s string) string {
		s = strings.ReplaceAll(s, "recv", t.root)
		s = nodeName.ReplaceAllStringFunc(s, func(x string) string { return t.num[strings.TrimSuffix(x, " ==")] + " ==" })
		return accName.ReplaceAllStringFunc(s, func(x string) string { return acc[x[1:len(x)-1]] })
	}
	single := len(ms) == 1
	by := map[string]*astMeaning{}
	for i := range ms {
		by[ms[i].node] = &ms[i]
	}
	facts := p.newFacts(nil)
	nodeOf := func(known []string) string {
		if single {
			return ms[0].node
		}
		for _, g := range known {
			if m := typeFact.FindStringSubmatch(g); m != nil && m[1] == "T" && m[3] == t.root {
				return names[m[2]]
			}
		}
		return ""
	}
	// what comes out
	hit := map[string]bool{}
	for _, w := range p.waysOut(rootCtx(f), facts) {
		node := nodeOf(w.facts.sorted())
		m := by[node]
		failed := w.vals[1] != "nil"
		switch {
		case failed && node != "":
			r.at("possible", fname(f)+" "+node+" refused", w.at, t.impossible(node, w.facts), "a "+node+" that the parser can make is refused here (known: "+trim(strings.Join(w.facts.sorted(), " & "), 300)+")")
		case failed:
			for n := range by {
				r.at("possible", fname(f)+" "+n+" handled", w.at, w.facts["F:("+t.num[n]+" == "+t.root+".Type)"] || len(w.facts) == 0 || t.impossible(n, w.facts), "a "+n+" can be refused here")
			}
		case node == "" || m == nil:
			r.at("meaning", fname(f)+" other", w.at, false, "a node of type "+node+" becomes "+trim(w.vals[0], 200))
		default:
			var pats []string
			for _, o := range m.out {
				pats = append(pats, fix(o))
			}
			hit[node] = true
			r.at("meaning", fname(f)+" "+node, w.at, globAny(w.vals[0], pats...), "it becomes "+trim(w.vals[0], 400)+"; expected "+trim(strings.Join(pats, " or "), 300))
		}
	}
	for n := range by {
		r.ob("meaning", fname(f)+" "+n+" has a meaning", p.pos(f.Pos()), hit[n], "a "+n+" is not turned into updates any more")
	}
	// what it is made of
	done := map[string]bool{}
	var effects []Effect
	lists := map[string]bool{}
	for _, m := range ms {
		for _, x := range m.fields {
			lists[x.t] = lists[x.t] || strings.HasPrefix(x.v, "+ ")
		}
	}
	made := func(e Effect) string {
		tgt := toP(e.Target)
		if !strings.HasPrefix(tgt, "new:model.") || !strings.Contains(tgt, "().") {
			return ""
		}
		return strings.Replace(strings.TrimPrefix(tgt, "new:model."), "()", "", 1)
	}
	whole := func(name, v string) bool {
		for _, m := range ms {
			for _, x := range m.fields {
				if x.t == name && globAny(v, strings.Split(fix(x.v), " OR ")...) {
					return true
				}
			}
		}
		return false
	}
	known := map[int]FactSet{}
	expand := func(e Effect, v ssa.Value, c *Ctx) {
		for _, ch := range p.choices(facts, v, c) {
			x := e
			x.Val = ch.E
			known[len(effects)] = ch.Known
			effects = append(effects, x)
		}
	}
	for _, e := range p.acts(f) {
		name := made(e)
		if name == "" {
			continue
		}
		st, isStore := e.I.(*ssa.Store)
		if lists[name] {
			as, bad := p.grown(e.Val)
			r.at("meaning", fname(f)+" "+name+" grows", e.I, bad == "", name+" is set to "+trim(partText(e.Val), 300)+": "+bad)
			for _, a := range as {
				a.Target = e.Target
				if v := appended(a.I); v != nil {
					expand(a, v, a.C)
				} else {
					effects = append(effects, a)
				}
			}
		} else if isStore && !whole(name, partText(e.Val)) {
			expand(e, st.Val, e.C)
		} else {
			effects = append(effects, e)
		}
	}
	for k, e := range effects {
		name := made(e)
		gs := p.guards(facts, e.Site)
		for a := range known[k] {
			if t, ok := plainGuard(a); ok {
				gs = append(gs, t)
			}
		}
		node := nodeOf(gs)
		m := by[node]
		if m == nil {
			r.at("meaning", fname(f)+" "+name, e.I, false, "is made for a node of type "+node)
			continue
		}
		v := partText(e.Val)
		zero := in(v, "0", "nil", "zero", "false", "\"\"")
		if lists[name] {
			v = "+ " + v
			if a, b, ok := strings.Cut(v[2:], " | "); ok && "{"+b == a+"}" {
				v = "+ " + a[1:]
			}
		}
		ok, why := false, "is set to "+trim(v, 250)
		for i, x := range m.fields {
			if x.t != name {
				continue
			}
			when := strings.Split(fix(x.when), " OR ")
			var conds []string
			if x.when != "" {
				conds = append(conds, when...)
				conds = append(conds, t.others(when)...)
			}
			if zero && !globAny(v, strings.Split(fix(x.v), " OR ")...) {
				// nothing: only where there is nothing
				cannot, neg := t.cannot(node, conds), false
				for _, g := range gs {
					for _, c := range conds {
						neg = neg || globAny(g, negPat(c))
					}
				}
				if x.when != "" && (neg || cannot(gs)) {
					ok = true
				} else {
					why = "can be left as it is"
				}
				continue
			}
			if !globAny(v, strings.Split(fix(x.v), " OR ")...) {
				if !strings.HasPrefix(why, "is set without") && !strings.HasPrefix(why, "can be") {
					why = "is set to " + trim(v, 250) + "; expected " + trim(fix(x.v), 250)
				}
				continue
			}
			met := x.when == ""
			for _, g := range gs {
				met = met || globAny(g, when...)
			}
			for _, l := range p.enclosing(e.Site) {
				met = met || x.loop != "" && overText(l) == fix(x.loop)
			}
			if !met {
				why = "is set without " + fix(x.when)
				continue
			}
			skip, at := p.unexcusedTree(facts, e.Site, conds, t, node)
			if at != nil && !x.opt {
				why = "can be left out (to " + p.ipos(at) + ") when " + trim(skip, 300)
				continue
			}
			for _, l := range p.enclosing(e.Site) {
				if x := p.earlyExit(l.L, l.C); x != nil {
					skip = p.ipos(x)
				}
			}
			if skip != "" {
				why = "is not set for all of them: the loop ends early (" + skip + ")"
				continue
			}
			ok = true
			done[fmt.Sprint(node, i)] = true
			break
		}
		r.at("meaning", fname(f)+" "+node+" "+name, e.I, ok, name+" "+why)
	}
	for _, m := range ms {
		for i, x := range m.fields {
			r.ob("meaning", fname(f)+" "+m.node+" sets "+x.t+" "+x.v, p.pos(f.Pos()), x.opt || done[fmt.Sprint(m.node, i)] || strings.HasSuffix(x.v, "…"), x.t+" of a "+m.node+" is never set to "+fix(x.v))
		}
	}
	// what is inside
	n := 0
	p.sites(rootCtx(f), func(s Site) {
		c, ok := s.I.(*ssa.Call)
		if !ok || p.closedName(c, s.C) == "" {
			return
		}
		n++
		lost := p.errorLost(c)
		r.at("inside", fname(f)+" error", c, lost == "", lost)
		arg := ""
		for _, a := range c.Common().Args {
			arg = p.expr(a, s.C).String()
		}
		ls := p.enclosing(s)
		if strings.HasPrefix(arg, "elem(") && len(ls) > 0 {
			r.at("inside", fname(f)+" each", c, "elem("+norm(overText(ls[0]))+")" == norm(arg), "the loop is over "+overText(ls[0])+", not over the children")
			x := p.earlyExit(ls[0].L, ls[0].C)
			r.at("inside", fname(f)+" all", c, x == nil, "the loop over the children can end early without an error")
			node := nodeOf(p.guards(facts, s))
			if node != "NoteNode" {
				skip, at := p.unexcusedIn(facts, s, nil)
				r.at("inside", fname(f)+" none left out", c, at == nil, "a child can be left out when "+trim(skip, 300))
			}
		}
	})
	if f.Name() == "Updates" {
		r.ob("inside", "calls", p.pos(f.Pos()), n >= 10, "too few nodes inside are looked at")
	}
}

// unexcusedTree is unexcused, leaving out the ways that no tree can take.
func (p *Prog) unexcusedTree(facts *Facts, s Site, conds []string, t *trees, node string) (string, ssa.Instruction) {
	p.cannot = t.cannot(node, conds)
	defer func() { p.cannot = nil }()
	return p.unexcused(facts, s, nil, conds)
}

// cannot: no tree is like this, or the conditions are about a node that is not
// there.
func (t *trees) cannot(node string, conds []string) func(known []string) bool {
	return func(known []string) bool {
		ks := FactSet{"T:(" + t.num[node] + " == " + t.root + ".Type)": true}
		for _, k := range known {
			ks[k] = true
		}
		for _, c := range conds {
			if m := typeFact.FindStringSubmatch(c); m != nil && m[1] == "T" && t.absent(m[3], node, ks) {
				return true
			}
		}
		return t.impossible(node, ks)
	}
}

// appended gives the value of an append of one value.
func appended(i ssa.Instruction) ssa.Value {
	c, ok := i.(*ssa.Call)
	if !ok || len(c.Call.Args) != 2 {
		return nil
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out ssa.Value
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				if out != nil {
					return nil
				}
				out = st.Val
			}
		}
	}
	return out
}

// lens: the numbers that numbers of children are compared with.
func (t *trees) lens(facts FactSet) (out string) {
	for f := range facts {
		if m := lenFact.FindStringSubmatch(f); m != nil {
			out += m[2] + " "
		} else if m := lenFact2.FindStringSubmatch(f); m != nil {
			out += m[4] + " "
		}
	}
	return
}

// absent: there is no node at a path, going by how many children are known.
func (t *trees) absent(path, node string, facts FactSet) bool {
	var inner, more string
	k := 0
	switch {
	case strings.HasPrefix(path, "elem(slice(") && strings.HasSuffix(path, ".Children, 1, _))"):
		inner, k = path[11:len(path)-len(".Children, 1, _))")], 1
	case strings.HasPrefix(path, "elem(") && strings.HasSuffix(path, ".Children)"):
		inner = path[5 : len(path)-len(".Children)")]
	case strings.HasPrefix(path, "ix(") && strings.HasSuffix(path, ")"):
		i := strings.LastIndex(path, ".Children, ")
		if i < 0 {
			return false
		}
		inner, more = path[3:i], path[i+len(".Children, "):]
		if n, err := fmt.Sscanf(more, "%d)", &k); n != 1 || err != nil {
			k = 0
			if strings.Contains(more, "1 + ") || strings.Contains(more, "ind:1+1") {
				k = 1
			}
		}
	default:
		return false
	}
	if t.absent(inner, node, facts) {
		return true
	}
	// more than k of them cannot be
	more = fmt.Sprintf("T:(%d < call:len(%s.Children))", k, inner)
	fs := FactSet{more: true}
	for f := range facts {
		fs[f] = true
	}
	return t.impossible(node, fs) && !t.impossible(node, FactSet{more: true})
}

// others: that the node is of none of the other types, for a condition that it
// is of one.
func (t *trees) others(when []string) (out []string) {
	for _, w := range when {
		if m := typeFact.FindStringSubmatch(w); m != nil && m[1] == "T" {
			for _, n := range t.num {
				if n != m[2] {
					out = append(out, "F:("+n+" == "+m[3]+".Type)")
				}
			}
		}
	}
	return
}

// grown: what a list is made of, when it is made by appending to what is there.
func (p *Prog) grown(e *E) (items []Effect, bad string) {
	seen := map[*E][2]bool{}
	done := map[ssa.Instruction]bool{}
	var walk func(e *E) (starts, goes bool)
	walk = func(e *E) (starts, goes bool) {
		if s, ok := seen[e]; ok {
			return s[0], s[1]
		}
		defer func() { seen[e] = [2]bool{starts, goes} }()
		switch t := text(e); {
		case e.Op == "phi":
			for _, a := range e.A {
				s, g := walk(a)
				starts, goes = starts || s, goes || g
			}
			return
		case e.Op == "call" && e.S == "append" && len(e.A) == 2:
			_, g := walk(e.A[0])
			if i := e.V.(ssa.Instruction); !done[i] {
				done[i] = true
				items = append(items, Effect{Site: Site{I: i, C: e.C}, Val: e.A[1]})
			}
			if !g && len(p.enclosing(Site{I: e.V.(ssa.Instruction), C: e.C})) > 0 {
				bad = "it starts over each time round"
			}
			return false, true
		case t == "rec" || t == "zero":
			return true, true
		case t == "nil" || t == "slicelit()" || strings.HasPrefix(t, "makeslice(0"):
			return true, false
		default:
			bad = trim(t, 100) + " is no part of it"
		}
		return
	}
	walk(e)
	return
}

// literalTypes are what the literals of tokens and nodes hold; those of the
// tokens that a node takes its literal from are the same.
var tokenLiterals = map[string]string{
	"Alias": "string", "AtMarker": "string", "Marker": "string", "String": "string",
	"NoteLength": "parser.noteLength", "NoteLengthMs": "float64", "NoteLengthSeconds": "float64", "Number": "float64",
	"NoteLetter": "int32", "OctaveSet": "int32", "Repeat": "int32", "VoiceMarker": "int32", "Repetitions": "[]model.RepetitionRange",
}

var nodeLiterals = map[string]string{
	"AtMarkerNode": "string", "MarkerNode": "string", "PartNameNode": "string", "PartAliasNode": "string", "VariableNameNode": "string", "VariableReferenceNode": "string", "LispStringNode": "string", "LispSymbolNode": "string",
	"DenominatorNode": "float64", "NoteLengthMsNode": "float64", "NoteLengthSecondsNode": "float64", "LispNumberNode": "float64",
	"DotsNode": "int32", "NoteLetterNode": "int32", "OctaveSetNode": "int32", "TimesNode": "int32", "FirstRepetitionNode": "int32", "LastRepetitionNode": "int32", "VoiceNumberNode": "int32",
}

// dynTypes: the types of what an interface holds; ok is false when they are not
// known.
func (p *Prog) dynTypes(v ssa.Value, c *Ctx, depth int) (out []types.Type, ok bool) {
	if depth > 8 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return nil, v.Value == nil
	case *ssa.MakeInterface:
		return []types.Type{v.X.Type()}, true
	case *ssa.ChangeInterface:
		return p.dynTypes(v.X, c, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			ts, fine := p.dynTypes(e, c, depth+1)
			if !fine {
				return nil, false
			}
			out = append(out, ts...)
		}
		return out, true
	case *ssa.Parameter:
		if c.Parent != nil && c.Call != nil && c.ArgsAt == nil && !c.Call.Common().IsInvoke() {
			for i, q := range c.Fn.Params {
				if q == v && i < len(c.Call.Common().Args) {
					return p.dynTypes(c.Call.Common().Args[i], c.Parent, depth+1)
				}
			}
		}
	}
	return nil, false
}

func basicName(t types.Type) string {
	t = types.Unalias(t)
	if b, ok := t.(*types.Basic); ok {
		return map[types.BasicKind]string{types.Int32: "int32"}[b.Kind()] + map[bool]string{true: "", false: b.Name()}[b.Kind() == types.Int32]
	}
	if s, ok := t.(*types.Slice); ok {
		return "[]" + basicName(s.Elem())
	}
	return typeName(t)
}

func (p *Prog) literalRule(r *Report) {
	r.rule("literal", "what a token or a node holds is of the type that is looked for in it")
	seen := map[string]int{}
	check := func(root *ssa.Function, owner, kindField, field, kindType string, want map[string]string) {
		names := p.constNames("parser", kindType)
		p.sites(rootCtx(root), func(s Site) {
			st, ok := s.I.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || typeName(derefType(fa.X.Type())) != owner || fieldName(fa) != field {
				return
			}
			ts, known := p.dynTypes(st.Val, s.C, 0)
			if !known || len(ts) == 0 {
				return
			}
			// the kind set beside it
			for _, ref := range *fa.X.Referrers() {
				ka, ok := ref.(*ssa.FieldAddr)
				if !ok || fieldName(ka) != kindField {
					continue
				}
				for _, u := range *ka.Referrers() {
					ks, ok := u.(*ssa.Store)
					if !ok || ks.Addr != ssa.Value(ka) {
						continue
					}
					for _, a := range p.expr(ks.Val, s.C).alts() {
						n := names[a.String()]
						if n == "" {
							continue
						}
						for _, t := range ts {
							r.at("literal", "of "+n, s.I, basicName(t) == want[n], "holds a "+basicName(t)+", expected "+want[n])
						}
						seen[n]++
					}
				}
			}
		})
	}
	for f := range p.reachable(p.fn("parser.Parse"), p.fn("parser.Scan")) {
		if f.Parent() != nil {
			continue
		}
		check(f, "parser.Token", "tokenType", "literal", "TokenType", tokenLiterals)
		check(f, "parser.ASTNode", "Type", "Literal", "ASTNodeType", nodeLiterals)
	}
	for n := range tokenLiterals {
		r.ob("literal", "of "+n+" seen", "", seen[n] > 0, "no token of this type is made with a literal of a known type any more")
	}
}

// reachable lists the functions of the module that can run when one of these
// does: called, or mentioned as a value.
func (p *Prog) reachable(from ...*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || out[f] || f.Blocks == nil || !p.inModule(f) && f.Synthetic == "" {
			return
		}
		out[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range from {
		visit(f)
	}
	return out
}
