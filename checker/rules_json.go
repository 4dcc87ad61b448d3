package main

import (
	"fmt"
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C23"] = checkJSON }

func checkJSON(p *Prog, r *Report) {
	r.rule("complete", "Every field of an event, an attribute, a Lisp value, a part and a score is in its data")
	jsonComplete(p, r)
	r.rule("data", "The data of each thing says what it is, and every field under its own name, with its value, each element of a list in its order")
	jsonData(p, r)
	r.rule("names", "Letters, accidentals and roles have the same names in data everywhere")
	jsonNames(p, r)
	r.rule("tree", "The data of a tree contains every node, with its type, its children in order, its literal and its place")
	jsonTree(p, r)
	r.rule("list", "Each list is made right before it is gone through: it does not begin again in the middle, and does not go on with the next one")
	jsonLists(p, r)
	r.rule("read", "What the REPL client and the readable tree look for in the data is what the data has")
	jsonRead(p, r)
	r.rule("build", "An object has every pair that it is made of, an array every element, in order")
	jsonBuild(p, r)
}

// jsonMethods: the types with data, and what makes the data.
func (p *Prog) jsonMethods() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, pk := range []string{"model", "parser"} {
		for _, f := range p.funcsIn(pk) {
			if f.Name() == "JSON" && f.Signature.Recv() != nil && f.Signature.Params().Len() == 0 && f.Synthetic == "" {
				out[typeName(derefType(f.Signature.Recv().Type()))] = f
			}
		}
	}
	return out
}

// leftOut: fields that are not data: where it was written, and what only serves
// to make a score.
var leftOut = map[string]string{
	"*.SourceContext":               "where it was written",
	"model.LispFunction.Signatures": "not data", "model.LispFunction.FunctionSignatures": "not data", "model.LispFunction.Implementations": "not data",
	"model.Part.HasExplicitMidiChannel": "how midi-channel came about",
}

func jsonComplete(p *Prog, r *Report) {
	ms := p.jsonMethods()
	var names []string
	for n := range ms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := ms[n]
		st := structOf(f.Signature.Recv().Type())
		if st == nil {
			continue
		}
		used := p.fieldsInResult(f)
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			if !fd.Exported() || leftOut["*."+fd.Name()] != "" || leftOut[n+"."+fd.Name()] != "" {
				continue
			}
			r.ob("complete", n+"."+fd.Name(), p.pos(f.Pos()), used[fd.Name()], "the data of "+n+" does not contain its "+fd.Name())
		}
	}
	r.floor("complete", 60)
}

// fieldsInResult: the fields of its receiver that a function reads for
// something that it hands on.
func (p *Prog) fieldsInResult(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	recvs := map[ssa.Value]bool{}
	if len(f.Params) > 0 {
		recvs[f.Params[0]] = true
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok && recvs[s.Val] {
				recvs[s.Addr] = true
			}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.FieldAddr:
				if recvs[x.X] && p.handedOn(x, map[ssa.Value]bool{}) {
					out[structOf(derefType(x.X.Type())).Field(x.Field).Name()] = true
				}
			case *ssa.Field:
				if recvs[x.X] && p.handedOn(x, map[ssa.Value]bool{}) {
					out[structOf(x.X.Type()).Field(x.Field).Name()] = true
				}
			}
		}
	}
	// what the receiver is handed to as a whole
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || g == f || len(g.Params) == 0 || g.Pkg == nil || !strings.HasSuffix(g.Pkg.Pkg.Path(), "client/model") || len(c.Call.Args) == 0 || !recvs[unload(c.Call.Args[0])] {
				continue
			}
			for n := range p.fieldsInResult(g) {
				out[n] = true
			}
		}
	}
	return out
}

// unload: what a value is read from, when it is read from a variable.
func unload(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok {
		return u.X
	}
	return v
}

// handedOn: the value, or what is made of it, is given to a function that is not
// of logging, or is returned.
func (p *Prog) handedOn(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Return:
			return true
		case ssa.CallInstruction:
			n := calleeName(x.Common())
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
			if !strings.Contains(n, "zerolog") {
				return true
			}
		case *ssa.Store:
			if x.Val == v && p.handedOn(baseOf(x.Addr), seen) {
				return true
			}
		case *ssa.If:
			return true
		case *ssa.BinOp:
			continue
		case ssa.Value:
			if p.handedOn(x, seen) {
				return true
			}
		}
	}
	return false
}

func baseOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		default:
			return v
		}
	}
}

const gabs = "(*github.com/Jeffail/gabs/v2.Container)."

func obj(kv ...string) string {
	if len(kv) == 0 {
		return "call:json.Object(nil)"
	}
	for i := 0; i < len(kv); i += 2 {
		kv[i] = `"` + kv[i] + `"`
	}
	return sortPairs("call:json.Object([" + strings.Join(kv, ", ") + "])")
}

// jsonSpec: what the data of a type is: what is given back, the lists that are
// gone through, with what is added for each element, and what is only there if.
type jsonSpec struct {
	ret  string
	each [][2]string // list, what is added for an element
	when [][4]string // condition, whether it must hold, object, pair
	over [][2]string // map or list, what is set for each
}

func jsonData(p *Prog, r *Report) {
	arr := "call:json.Array(nil)"
	q := func(s string) string { return `"` + s + `"` }
	typed := func(ty, v string) string { return obj("type", q(ty), "value", v) }
	attr := func(name, v string) jsonSpec { return jsonSpec{ret: obj("attribute", q(name), "value", v)} }
	inv := func(f string) string { return "call:inv:JSON(" + f + ")" }
	dur := "call:(model.Duration).JSON(recv.Duration)"
	lasts := [2]string{"(recv.Duration.Components == nil)", "(nil == recv.Duration.Components)"}
	events := [][2]string{{"recv.Events", inv("elem(recv.Events)")}}
	all := obj("events", arr)
	pitch, cram, rest, names := obj("pitch", inv("recv.Pitch")), all, obj(), obj("names", "recv.Names")
	say := map[string]jsonSpec{
		"model.AtMarker":              {ret: typed("at-marker", obj("name", "recv.Name"))},
		"model.Marker":                {ret: typed("marker", obj("name", "recv.Name"))},
		"model.Barline":               {ret: obj("type", q("barline"))},
		"model.Chord":                 {ret: typed("chord", all), each: events},
		"model.EventSequence":         {ret: typed("event-sequence", all), each: events},
		"model.Cram":                  {ret: typed("cram", cram), each: events, when: [][4]string{{lasts[0], "-", cram, dur + `, ["duration"]`}}},
		"model.Note":                  {ret: typed("note", pitch), when: [][4]string{{lasts[0], "-", pitch, dur + `, ["duration"]`}, {"recv.Slurred", "+", pitch, `true, ["slurred?"]`}}},
		"model.Rest":                  {ret: typed("rest", rest), when: [][4]string{{lasts[0], "-", rest, dur + `, ["duration"]`}}},
		"model.PartDeclaration":       {ret: typed("part-declaration", names), when: [][4]string{{`("" == recv.Alias)`, "-", names, `recv.Alias, ["alias"]`}}},
		"model.Repeat":                {ret: typed("repeat", obj("event", inv("recv.Event"), "times", "recv.Times"))},
		"model.OnRepetitions":         {ret: typed("on-repetitions", obj("repetitions", arr, "event", inv("recv.Event"))), each: [][2]string{{"recv.Repetitions", obj("first", "elem(recv.Repetitions).First", "last", "elem(recv.Repetitions).Last")}}},
		"model.VariableDefinition":    {ret: typed("variable-definition", obj("name", "recv.VariableName", "events", arr)), each: events},
		"model.VariableReference":     {ret: typed("variable-reference", obj("name", "recv.VariableName"))},
		"model.VoiceMarker":           {ret: typed("voice-marker", obj("number", "recv.VoiceNumber"))},
		"model.VoiceGroupEndMarker":   {ret: obj("type", q("voice-group-end-marker"))},
		"model.Duration":              {ret: obj("components", arr), each: [][2]string{{"recv.Components", inv("elem(recv.Components)")}}},
		"model.NoteLength":            {ret: obj("denominator", "recv.Denominator", "dots", "recv.Dots")},
		"model.NoteLengthBeats":       {ret: obj("beats", "recv.Quantity")},
		"model.NoteLengthMs":          {ret: obj("ms", "recv.Quantity")},
		"model.NoteLengthSeconds":     {ret: obj("s", "recv.Quantity")},
		"model.MidiNoteNumber":        {ret: obj("midi-note", "recv.MidiNote")},
		"model.LetterAndAccidentals":  {ret: obj("letter", "call:(model.NoteLetter).String(recv.NoteLetter)", "accidentals", arr), each: [][2]string{{"recv.Accidentals", "call:(model.Accidental).String(elem(recv.Accidentals))"}}},
		"model.AttributeUpdate":       {ret: inv("recv.PartUpdate"), over: [][2]string{{"", inv("recv.PartUpdate") + `, "attribute-update", ["type"]`}}},
		"model.GlobalAttributeUpdate": {ret: inv("recv.PartUpdate"), over: [][2]string{{"", inv("recv.PartUpdate") + `, "global-attribute-update", ["type"]`}}},
		"model.DurationSet":           {ret: dur, over: [][2]string{{"", dur + `, "duration", ["attribute"]`}}},
		"model.DynamicMarking":        attr("dynamic-marking", "recv.Marking"),
		"model.KeySignatureSet":       attr("key-signature", "call:(model.KeySignature).JSON(recv.KeySignature)"),
		"model.MetricModulation":      attr("tempo", obj("ratio", "recv.Ratio")),
		"model.MidiChannelSet":        attr("midi-channel", "recv.ChannelNumber"),
		"model.OctaveSet":             attr("octave", "recv.OctaveNumber"),
		"model.OctaveUp":              attr("octave", q("up")),
		"model.OctaveDown":            attr("octave", q("down")),
		"model.PanningSet":            attr("panning", "recv.Panning"),
		"model.QuantizationSet":       attr("quantization", "recv.Quantization"),
		"model.ReferencePitchSet":     attr("reference-pitch", "recv.Frequency"),
		"model.TempoSet":              attr("tempo", "recv.Tempo"),
		"model.TrackVolumeSet":        attr("track-volume", "recv.TrackVolume"),
		"model.TranspositionSet":      attr("transposition", "recv.Semitones"),
		"model.VolumeSet":             attr("volume", "recv.Volume"),
		"model.LispAny":               {ret: obj("type", q("any-indicator"))},
		"model.LispVariadic":          {ret: typed("variadic-indicator", inv("recv.Type"))},
		"model.LispSpecialFormQuote":  {ret: typed("special-form", q("quote"))},
		"model.LispFunction":          {ret: typed("function", `call:fmt.Sprintf("<fn %s>", [recv.Name])`)},
		"model.LispNil":               {ret: obj("type", q("nil"))},
		"model.LispQuotedForm":        {ret: typed("quoted-form", inv("recv.Form"))},
		"model.LispSymbol":            {ret: typed("symbol", "recv.Name")},
		"model.LispNumber":            {ret: typed("number", "recv.Value")},
		"model.LispString":            {ret: typed("string", "recv.Value")},
		"model.LispScoreUpdate":       {ret: typed("score-update", inv("recv.ScoreUpdate"))},
		"model.LispPitch":             {ret: typed("pitch", inv("recv.PitchIdentifier"))},
		"model.LispDuration":          {ret: typed("duration", inv("recv.DurationComponent"))},
		"model.LispList":              {ret: typed("list", arr), each: [][2]string{{"recv.Elements", inv("elem(recv.Elements)")}}},
		"model.NoteEvent": {ret: obj("part", "call:(*model.Part).ID(recv.Part)", "midi-channel", "recv.MidiChannel", "midi-note", "recv.MidiNote", "offset", "recv.Offset", "duration", "recv.Duration", "audible-duration", "recv.AudibleDuration",
			"volume", "recv.Volume", "track-volume", "recv.TrackVolume", "panning", "recv.Panning")},
	}
	part := obj("name", "recv.Name", "stock-instrument", "call:inv:Name(recv.StockInstrument)", "tempo-role", "call:(model.TempoRole).String(recv.TempoRole)", "tempo", "recv.Tempo", "key-signature", "call:(model.KeySignature).JSON(recv.KeySignature)",
		"transposition", "recv.Transposition", "reference-pitch", "recv.ReferencePitch", "current-offset", "recv.CurrentOffset", "last-offset", "recv.LastOffset", "octave", "recv.Octave", "volume", "recv.Volume", "track-volume", "recv.TrackVolume",
		"panning", "recv.Panning", "midi-channel", "recv.MidiChannel", "quantization", "recv.Quantization", "duration", dur, "time-scale", "recv.TimeScale", "tempo-values", obj())
	score := obj("parts", obj(), "current-parts", arr, "aliases", obj(), "events", arr, "global-attributes", "call:(*model.GlobalAttributes).JSON(recv.GlobalAttributes)", "markers", "recv.Markers", "variables", obj())
	ms := p.jsonMethods()
	closed := []string{"json.Object", "json.Array", "(model.….JSON", "(*model.….JSON", "(model.NoteLetter).String", "(model.Accidental).String", "(model.TempoRole).String", "(*model.Part).ID"}
	pure := []string{"json.Object", "json.Array", "(model.….JSON", "(*model.….JSON", "inv:JSON", "inv:Name", "(model.NoteLetter).String", "(model.Accidental).String", "(model.TempoRole).String", "(*model.Part).ID"}
	set := func(to, pair string) string { return "call:" + gabs + "Set(" + to + ", " + pair + ")" }
	add := func(v string) string { return "call:" + gabs + "ArrayAppend(" + arr + ", " + v + ", nil)" }
	for n, f := range ms {
		w, ok := say[n]
		if !ok {
			if !in(n, "model.Part", "model.Score", "model.GlobalAttributes", "model.KeySignature", "parser.ASTNode") {
				r.ob("data", "the data of "+n, p.pos(f.Pos()), false, "there is data of something new, which has no reference here")
			}
			continue
		}
		ev := [][2]string{{"ret", "ret " + w.ret}}
		var cs [][2]string
		ref := ""
		for i, e := range w.each {
			a, more := fmt.Sprint("add", i), fmt.Sprint("more", i)
			ev = append(ev, [2]string{a, add(e[1])})
			cs = append(cs, [2]string{more, "(… < call:len(" + e[0] + "))"})
			ref += fmt.Sprintf("(%s+ %s)* %s- ", more, a, more)
		}
		for i, o := range w.over {
			a := fmt.Sprint("set", i)
			ev = append(ev, [2]string{a, "call:" + gabs + "Set(" + o[1] + ")"})
			ref += a + " "
		}
		// with each of the things that are only there if
		for m := 0; m < 1<<len(w.when); m++ {
			as := map[string]bool{}
			one, key := ref, "the data of "+n
			var comm []string
			e2 := ev
			for i, c := range w.when {
				there := m>>i&1 == 1
				as[c[0]] = there == (c[1] == "+")
				if c[0] == lasts[0] {
					as[lasts[1]] = as[c[0]]
				}
				if strings.Contains(c[0], "recv.Alias") {
					as[`(recv.Alias == "")`], as["(0 < call:len(recv.Alias))"] = as[c[0]], !as[c[0]]
				}
				if a := fmt.Sprint("with", i); there {
					e2 = append(e2, [2]string{a, set(c[2], c[3])})
					one += a + " "
					comm = append(comm, a)
					key += ", with " + c[3][strings.LastIndex(c[3], "[")+1:len(c[3])-1]
				}
			}
			p.behaves(r, "data", key, f, traceSpec{Assume: as, Closed: closed, Pure: pure, Events: e2, Conds: cs, Commute: [][]string{comm}}, one+"ret")
		}
		delete(say, n)
	}
	for n := range say {
		r.ob("data", "the data of "+n, "?", false, "there is no data of it anymore")
	}
	off := `[call:fmt.Sprintf("%f", [`
	p.behaves(r, "data", "the data of a part", ms["model.Part"], traceSpec{Closed: closed, Pure: append(pure, "sort.Float64s"), Events: [][2]string{{"tempo", "call:" + gabs + "Set(" + obj() + ", lk(recv.TempoValues, elem(loop:…)), " + off + "elem(loop:…)])])"}, {"ret", "ret " + part}},
		Conds: [][2]string{{"more", "(… < call:len(loop:…))"}}}, "(ret | (more+ tempo)* more- ret)")
	p.behaves(r, "data", "the data of global attributes", ms["model.GlobalAttributes"], traceSpec{Closed: closed, Pure: pure, Events: [][2]string{{"set", set(obj(), arr+", "+off+"elem(recv.offsets)])]")}, {"add", add(inv("elem(lk(recv.itinerary, elem(recv.offsets)))"))}, {"ret", "ret " + obj()}},
		Conds: [][2]string{{"more", "(… < call:len(recv.offsets))"}, {"each", "(… < call:len(lk(recv.itinerary, elem(recv.offsets))))"}}}, "(more+ (each+ add)* each- set)* more- ret")
	p.behaves(r, "data", "the data of a key signature", ms["model.KeySignature"], traceSpec{Closed: closed, Pure: pure, Events: [][2]string{{"set", set(obj(), arr+", [call:(model.NoteLetter).String(key(recv))]")}, {"add", add("call:(model.Accidental).String(elem(val(recv)))")}, {"ret", "ret " + obj()}},
		Conds: [][2]string{{"more", "more(recv)"}, {"each", "(… < call:len(val(recv)))"}}}, "(more+ (each+ add)* each- set)* more- ret")
	id := func(e string) string { return "call:(*model.Part).ID(" + e + ")" }
	p.behaves(r, "data", "the data of a score", ms["model.Score"], traceSpec{Closed: closed, Pure: pure, Events: [][2]string{{"part", set(obj(), "call:(*model.Part).JSON(elem(recv.Parts)), ["+id("elem(recv.Parts)")+"]")}, {"current", add(id("elem(recv.CurrentParts)"))},
		{"member", add(id("elem(val(recv.Aliases))"))}, {"alias", set(obj(), arr+", [key(recv.Aliases)]")}, {"event", add(inv("elem(recv.Events)"))}, {"of-variable", add(inv("elem(val(recv.Variables))"))}, {"variable", set(obj(), arr+", [key(recv.Variables)]")}, {"ret", "ret " + score}},
		Conds: [][2]string{{"parts", "(… < call:len(recv.Parts))"}, {"currents", "(… < call:len(recv.CurrentParts))"}, {"aliases", "more(recv.Aliases)"}, {"members", "(… < call:len(val(recv.Aliases)))"}, {"events", "(… < call:len(recv.Events))"}, {"variables", "more(recv.Variables)"}, {"ofs", "(… < call:len(val(recv.Variables)))"}}},
		"(parts+ part)* parts- (currents+ current)* currents- (aliases+ (members+ member)* members- alias)* aliases- (events+ event)* events- (variables+ (ofs+ of-variable)* ofs- variable)* variables- ret")
}

func jsonNames(p *Prog, r *Report) {
	for ty, name := range map[string]func(string) string{
		"NoteLetter": func(n string) string { return n },
		"Accidental": strings.ToLower,
		"TempoRole":  func(n string) string { return strings.ToLower(strings.TrimPrefix(n, "TempoRole")) },
	} {
		f := p.fn("(model." + ty + ").String")
		names := p.constNames("model", ty)
		for v, n := range names {
			as := map[string]bool{}
			for o := range names {
				as["("+o+" == recv)"], as["(recv == "+o+")"] = o == v, o == v
			}
			p.behaves(r, "names", ty+" "+n, f, traceSpec{Assume: as, Events: [][2]string{{"ret", `ret "` + name(n) + `"`}}}, "ret")
		}
	}
	p.behaves(r, "names", "the name of a part", p.fn("(*model.Part).ID"), traceSpec{Events: [][2]string{{"ret", `ret call:fmt.Sprintf("%p", [recv])`}}}, "ret")
}

func jsonTree(p *Prog, r *Report) {
	node := obj("type", "call:(parser.ASTNodeType).String(recv.Type)")
	child := "call:(parser.ASTNode).JSON(elem(recv.Children))"
	arr := "call:json.Array(nil)"
	set := func(v, k string) string { return "call:" + gabs + "Set(" + node + ", " + v + `, ["` + k + `"])` }
	letter := p.nodeNum("NoteLetterNode")
	for m := 0; m < 16; m++ {
		kids, lit, isLetter, where := m&1 != 0, m&2 != 0, m&4 != 0, m&8 != 0
		ref, key := "", "a node"
		if kids {
			ref += "(more+ add)* more- children "
			key += ", with children"
		}
		switch {
		case lit && isLetter:
			ref += "letter "
			key += ", with a letter"
		case lit:
			ref += "literal "
			key += ", with a literal"
		case isLetter:
			continue
		}
		if where {
			ref += "place "
			key += ", with a place"
		}
		p.behaves(r, "tree", key, p.fn("(parser.ASTNode).JSON"), traceSpec{
			Assume: map[string]bool{"(0 < call:len(recv.Children))": kids, "(recv.Literal == nil)": !lit, "(nil == recv.Literal)": !lit, "(" + letter + " == recv.Type)": isLetter, "(0 < recv.SourceContext.Line)": where, "(recv.SourceContext.Line < 1)": !where, "(0 == recv.SourceContext.Line)": !where, "(recv.SourceContext.Line == 0)": !where, "(0 == call:len(recv.Children))": !kids, "(call:len(recv.Children) == 0)": !kids, "(call:len(recv.Children) < 1)": !kids},
			Closed: []string{"json.Object", "json.Array", "(parser.ASTNode).JSON", "(parser.ASTNodeType).String"}, Pure: []string{"json.Object", "json.Array", "(parser.ASTNode).JSON", "(parser.ASTNodeType).String"},
			Events: [][2]string{{"add", "call:" + gabs + "ArrayAppend(" + arr + ", " + child + ", nil)"}, {"children", set(arr, "children")}, {"letter", set(`call:fmt.Sprintf("%c", [recv.Literal])`, "literal")}, {"literal", set("recv.Literal", "literal")},
				{"place", set(obj("line", "recv.SourceContext.Line", "column", "recv.SourceContext.Column"), "source-context")}, {"ret", "ret " + node}},
			Conds: [][2]string{{"more", "(… < call:len(recv.Children))"}}, Commute: [][]string{{"children", "letter", "literal", "place"}},
		}, ref+"ret")
	}
	types := p.constNames("parser", "ASTNodeType")
	f := p.fn("(parser.ASTNodeType).String")
	for v, n := range types {
		as := map[string]bool{}
		for o := range types {
			as["("+o+" == recv)"], as["(recv == "+o+")"] = o == v, o == v
		}
		p.behaves(r, "tree", "the name of "+n, f, traceSpec{Assume: as, Events: [][2]string{{"ret", `ret "` + n + `"`}}}, "ret")
	}
	r.floor("tree", 30)
}

func jsonBuild(p *Prog, r *Report) {
	newOne := "call:github.com/Jeffail/gabs/v2.New()"
	p.behaves(r, "build", "an array", p.fn("json.Array"), traceSpec{Impure: []string{"github.com/…", "(*github.com/…"}, Events: [][2]string{{"new", newOne}, {"array", "call:" + gabs + "Array(" + newOne + `, ["theArray"])`}, {"add", "call:" + gabs + "ArrayAppend(" + newOne + `, elem(arg0), ["theArray"])`},
		{"find", "call:" + gabs + "Search(" + newOne + `, ["theArray"])`}, {"ret", "ret call:" + gabs + "Search(" + newOne + `, ["theArray"])`}}, Conds: [][2]string{{"more", "(… < call:len(arg0))"}}}, "new array (more+ add)* more- find ret")
	o := p.fn("json.Object")
	if o == nil || len(o.Params) != 1 {
		r.ob("build", "an object", "?", false, "this function is gone")
		return
	}
	for _, odd := range []bool{false, true} {
		as, want := map[string]bool{}, "new (more+ set)* more- ret"
		for _, c := range []string{"(0 == (call:len(arg0) % 2))", "((call:len(arg0) % 2) == 0)"} {
			as[c] = !odd
		}
		as["(1 == (call:len(arg0) % 2))"] = odd
		key := "an object"
		if odd {
			key, want = "an object of a name without a value", "odd"
		}
		p.behaves(r, "build", key, o, traceSpec{Assume: as, Impure: []string{"github.com/…", "(*github.com/…"},
			Events: [][2]string{{"new", newOne}, {"set", "call:" + gabs + "Set(" + newOne + ", ix(arg0, (1 + ind:…)), [as:string(ix(arg0, ind:…))])"}, {"odd", "panic …"}, {"ret", "ret " + newOne}},
			Conds:  [][2]string{{"more", "((1 + ind:…) < call:len(arg0))"}, {"more", "(ind:… < call:len(arg0))"}, {"more", "(ind:… < (call:len(arg0) - 1))"}}}, want)
	}
}

// sortPairs: the pairs of an object have no order.
func sortPairs(s string) string {
	const open = "json.Object(["
	i := strings.Index(s, open)
	if i < 0 {
		return s
	}
	i += len(open)
	var parts []string
	depth, quoted, from, j := 0, false, i, i
	for ; j < len(s); j++ {
		switch c := s[j]; {
		case c == '\\' && quoted:
			j++
		case c == '"':
			quoted = !quoted
		case quoted:
		case c == '(' || c == '[' || c == '{':
			depth++
		case c == ',' && depth == 0:
			parts = append(parts, strings.TrimSpace(s[from:j]))
			from = j + 1
		case c == ')' || c == ']' || c == '}':
			depth--
		}
		if depth < 0 {
			break
		}
	}
	if depth >= 0 {
		return s
	}
	parts = append(parts, strings.TrimSpace(s[from:j]))
	if len(parts)%2 != 0 {
		return s
	}
	var pairs []string
	for k := 0; k < len(parts); k += 2 {
		pairs = append(pairs, parts[k]+", "+sortPairs(parts[k+1]))
	}
	sort.Strings(pairs)
	return s[:i] + strings.Join(pairs, ", ") + sortPairs(s[j:])
}

// jsonLists: what elements are added to is made once each time that the elements
// are gone through.
func jsonLists(p *Prog, r *Report) {
	ms := p.jsonMethods()
	var names []string
	for n := range ms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := ms[n]
		loops := loopsOf(f)
		around := func(b *ssa.BasicBlock) map[*Loop]bool {
			out := map[*Loop]bool{}
			for _, l := range loops {
				if l.Body[b] {
					out[l] = true
				}
			}
			return out
		}
		for _, b := range f.Blocks {
			in := around(b)
			if len(in) == 0 {
				continue
			}
			var least *Loop
			for l := range in {
				if least == nil || len(l.Body) < len(least.Body) {
					least = l
				}
			}
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) == 0 {
					continue
				}
				if w := calleeName(&c.Call); !strings.HasSuffix(w, "gabs/v2.Container).Set") && !strings.HasSuffix(w, "gabs/v2.Container).ArrayAppend") {
					continue
				}
				for _, v := range allOf(c.Call.Args[0], map[ssa.Value]bool{}) {
					m, ok := v.(*ssa.Call)
					if !ok {
						continue
					}
					at := around(m.Block())
					good := !at[least] && len(at) == len(in)-1
					r.at("list", "the data of "+n, c, good, "what this adds to is made elsewhere than right before the loop")
				}
			}
		}
	}
	r.floor("list", 8)
}

// allOf: what a value can be.
func allOf(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	if x, ok := v.(*ssa.Phi); ok {
		var out []ssa.Value
		for _, e := range x.Edges {
			out = append(out, allOf(e, seen)...)
		}
		return out
	}
	return []ssa.Value{v}
}

// jsonRead: what is looked for in data by the programs that read it is in the
// data.
func jsonRead(p *Prog, r *Report) {
	keys := func(fs ...string) map[string]bool {
		out := map[string]bool{}
		for _, n := range fs {
			f := p.fn(n)
			if f == nil {
				continue
			}
			for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
				for k := range textsIn(g) {
					out[k] = true
				}
				for _, b := range g.Blocks {
					for _, i := range b.Instrs {
						if c, ok := i.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Pkg == f.Pkg {
							for k := range textsIn(c.Call.StaticCallee()) {
								out[k] = true
							}
						}
					}
				}
			}
		}
		return out
	}
	for pk, have := range map[string]map[string]bool{"repl": keys("(*model.Score).JSON", "(*model.Part).JSON"), "parser": keys("(parser.ASTNode).JSON")} {
		for _, f := range p.funcsIn(pk) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					c, ok := i.(*ssa.Call)
					if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) != 2 || !strings.HasSuffix(calleeName(&c.Call), "gabs/v2.Container).Search") {
						continue
					}
					for _, k := range listed(c.Call.Args[1]) {
						r.at("read", "what "+pk+" looks for", c, have[k], "there is no "+k+" in the data")
					}
				}
			}
		}
	}
	r.floor("read", 1)
}

// textsIn: the texts that a function contains.
func textsIn(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				if k, ok := (*o).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					out[constant.StringVal(k.Value)] = true
				}
			}
		}
	}
	return out
}

// listed: the constant texts in a list of arguments.
func listed(v ssa.Value) (out []string) {
	s, ok := v.(*ssa.Slice)
	if !ok || s.X.Referrers() == nil {
		return nil
	}
	for _, ref := range *s.X.Referrers() {
		a, ok := ref.(*ssa.IndexAddr)
		if !ok || a.Referrers() == nil {
			continue
		}
		for _, w := range *a.Referrers() {
			if st, ok := w.(*ssa.Store); ok {
				if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					out = append(out, constant.StringVal(k.Value))
				}
			}
		}
	}
	return out
}
