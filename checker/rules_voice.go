package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C09"] = checkVoices
}

const (
	partClone = "(*model.Part).Clone"
	getVoice  = "(*model.Part).GetVoice"
	newVoice  = "(*model.Part).NewVoice"
)

// privateFields lists the unexported fields that values of a type carry, as
// far as exported fields, elements and pointers lead.
func privateFields(t types.Type, impl func(*types.Named) []types.Type, seen map[types.Type]bool, path string, out *[]string, modPath string) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch u := t.(type) {
	case *types.Named:
		if st, ok := u.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if !f.Exported() {
					if u.Obj().Pkg() != nil && strings.HasPrefix(u.Obj().Pkg().Path(), modPath) {
						*out = append(*out, path+"."+f.Name()+" of "+u.Obj().Name())
					}
					continue
				}
				privateFields(f.Type(), impl, seen, path+"."+f.Name(), out, modPath)
			}
			return
		}
		if _, ok := u.Underlying().(*types.Interface); ok {
			for _, x := range impl(u) {
				privateFields(x, impl, seen, path, out, modPath)
			}
			return
		}
		privateFields(u.Underlying(), impl, seen, path, out, modPath)
	case *types.Pointer:
		privateFields(u.Elem(), impl, seen, path, out, modPath)
	case *types.Slice:
		privateFields(u.Elem(), impl, seen, path, out, modPath)
	case *types.Array:
		privateFields(u.Elem(), impl, seen, path, out, modPath)
	case *types.Map:
		privateFields(u.Key(), impl, seen, path, out, modPath)
		privateFields(u.Elem(), impl, seen, path, out, modPath)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			privateFields(u.Field(i).Type(), impl, seen, path, out, modPath)
		}
	}
}

func checkVoices(p *Prog, r *Report) {
	r.rule("copy", "a copy of a part has everything the part has")
	r.rule("template", "every voice of a group starts from one snapshot of the part, taken when the group began")
	r.rule("enter", "a voice marker continues the voice of that number, or starts it, for every current part")
	r.rule("leave", "when a group ends, the voice that ends last (of those, the one that was last begun; else the first to be at that offset) becomes the part, everywhere")

	p.cloneRule(r)

	p.sealed(func() {
		f := p.fn(newVoice)
		if f == nil {
			r.ob("template", "NewVoice", "", false, "gone")
			return
		}
		snap := "call:" + partClone + "(recv)"
		none := "T:(0 == call:len(recv.voices.voices)) OR T:(call:len(recv.voices.voices) < 1) OR T:(call:len(recv.voices.voices) <= 0)"
		p.effectSpecOf(r, "template", newVoice, f, []string{"recv.…", snap + ".…"},
			want{T: "recv.voiceTemplate", V: []string{snap}, Loops: []string{}, When: []string{none}, May: []string{"T:(nil == recv.voiceTemplate)"}, Exact: true, Once: true},
			want{T: snap + ".voiceTemplate", V: []string{snap}, Loops: []string{}, When: []string{none}, May: []string{"T:(nil == recv.voiceTemplate)"}, Exact: true, Once: true},
			want{T: "recv.voices.voices[arg0]", V: []string{"call:" + partClone + "(recv.voiceTemplate)"}, Loops: []string{}, Exact: true, Once: true},
			want{T: "recv.voices.insertionOrder", V: []string{"call:append(recv.voices.insertionOrder, slicelit(arg0))"}, Loops: []string{}, Exact: true, Once: true},
		)
		var tmpl, copies []Site
		for _, e := range p.acts(f) {
			if e.Target == "recv.voiceTemplate" {
				tmpl = append(tmpl, e.Site)
			}
			if e.Target == "call:"+partClone && text(e.Val) == "args(recv.voiceTemplate)" {
				copies = append(copies, e.Site)
			}
		}
		r.ob("template", "snapshot copied", p.pos(f.Pos())+" ["+newVoice+"]", len(copies) == 1, "a voice is not a copy of the snapshot")
		for _, c := range copies {
			for _, t := range tmpl {
				r.at("template", "snapshot taken first", c.I, before(t, c) && !before(c, t), "the snapshot is copied before it is taken")
			}
		}
		r.ob("template", "the voice returned", p.pos(f.Pos())+" ["+newVoice+"]", p.returned(f, 0) == "call:"+partClone+"(recv.voiceTemplate)", "returns "+p.returned(f, 0))
		for _, m := range p.mapWriters("Voices", "voices") {
			r.at("template", "writer of the voices", m, strings.Contains(fname(m.Parent()), "Voice"), "written in "+fname(m.Parent()))
		}
	}, partClone)

	p.sealed(func() {
		f := p.fn(getVoice)
		if f == nil {
			r.ob("enter", "GetVoice", "", false, "gone")
		} else {
			p.effectSpecOf(r, "enter", getVoice, f, []string{"recv.…", "call:" + newVoice, "….currentRepetition"},
				want{T: alts("{call:"+newVoice+"(recv, arg0) | lk(recv.voices.voices, arg0)}.currentRepetition", "{lk(recv.voices.voices, arg0) | call:"+newVoice+"(recv, arg0)}.currentRepetition", "lk(recv.voices.voices, arg0).currentRepetition"), V: []string{"recv.currentRepetition"}, Loops: []string{}, May: []string{"T:hit(recv.voices.voices, arg0)"}, Exact: true, Once: true},
				want{T: "call:" + newVoice, V: []string{"args(recv, arg0)"}, Loops: []string{}, When: []string{"F:hit(recv.voices.voices, arg0) OR T:(nil == lk(recv.voices.voices, arg0))"}, Exact: true, Once: true})
			p.returnSpec(r, "enter", getVoice, 0, "{call:"+newVoice+"(recv, arg0) | lk(recv.voices.voices, arg0)}", "{lk(recv.voices.voices, arg0) | call:"+newVoice+"(recv, arg0)}", "lk(recv.voices.voices, arg0)")
			facts := p.newFacts(nil)
			for _, ret := range returns(f) {
				for _, ch := range p.choices(facts, ret.Results[0], rootCtx(f)) {
					if !glob("lk(…", ch.Text) {
						continue
					}
					if again := p.returned(f, 0) == ch.Text; again {
						continue // looked up again, after it was started if need be
					}
					known := append(p.guards(facts, Site{I: ret, C: rootCtx(f)}), ch.Known.sorted()...)
					ok := false
					for _, g := range known {
						ok = ok || globAny(g, "T:hit(recv.voices.voices, arg0)", "F:(nil == lk(recv.voices.voices, arg0))")
					}
					r.at("enter", "existing voice", ret, ok, "returned without being there")
				}
			}
		}
	}, newVoice)

	p.sealed(func() {
		same := "T:(P.origin == P.origin) OR T:(P.origin == elem(arg0.CurrentParts).origin)"
		p.effectSpec(r, "enter", "(model.VoiceMarker).UpdateScore", []string{"P", "P.…", "arg0.…", "call:" + getVoice},
			want{T: "P", V: []string{"call:" + getVoice + "(P, recv.VoiceNumber)", "call:" + getVoice + "(elem(arg0.CurrentParts), recv.VoiceNumber)"}, May: []string{same, "T:(P.origin == P.origin)"}, Exact: true, MaySkip: true},
			want{T: "call:" + getVoice, V: []string{"args(P, recv.VoiceNumber)", "args(elem(arg0.CurrentParts), recv.VoiceNumber)"}, Loops: []string{"arg0.CurrentParts"}, Exact: true, Once: true},
		)
		if f := p.fn("(model.VoiceMarker).UpdateScore"); f != nil {
			facts := p.newFacts(nil)
			for _, e := range p.acts(f) {
				if toP(e.Target) == "P" {
					gs := p.guards(facts, e.Site)
					ls := p.enclosing(e.Site)
					r.at("enter", "part replaced by its voice", e.I, len(ls) == 1 && len(gs) == 0 || len(ls) == 2 && len(gs) == 1, "replaced under "+strings.Join(gs, " & "))
				}
			}
		}
		p.leave(r)
	}, getVoice)
}

func (p *Prog) leave(r *Report) {
	const vge = "(model.VoiceGroupEndMarker).UpdateScore"
	f := p.fn(vge)
	if f == nil {
		r.ob("leave", vge, "", false, "gone")
		return
	}
	voice := func(n string) string {
		return "call:" + getVoice + "(P, " + n + ") OR lk(P.voices.voices, " + n + ")"
	}
	ord := "P.voices.insertionOrder"
	latest := voice("ix(" + ord + ", (call:len(" + ord + ") - 1))")
	others := voice("elem(slice("+ord+", 0, (call:len("+ord+") - 1)))") + " OR " + voice("elem("+ord+")")
	facts := p.newFacts(nil)
	some := []string{"F:(0 == call:len(P.voices.voices))", "T:(0 < call:len(P.voices.voices))", "F:(0 == call:len(" + ord + "))", "T:(0 < call:len(" + ord + "))"}
	// the voice chosen
	type tgt struct {
		name, pat string
		loops     []string
		when      string
	}
	tgts := []tgt{
		{"current part", "P", []string{"arg0.CurrentParts"}, ""},
		{"part of the score", "elem(arg0.Parts)", []string{"arg0.Parts", "arg0.CurrentParts"}, "T:(P.origin == elem(arg0.Parts).origin) OR T:(elem(arg0.Parts).origin == P.origin)"},
		{"aliased part", "elem(val(arg0.Aliases))", []string{"val(arg0.Aliases)", "arg0.Aliases", "arg0.CurrentParts"}, "T:(P.origin == elem(val(arg0.Aliases)).origin) OR T:(elem(val(arg0.Aliases)).origin == P.origin)"},
	}
	var chosenText string
	rows := []want{}
	for _, e := range p.acts(f) {
		if toP(e.Target) == "P" {
			chosenText = partText(e.Val)
		}
	}
	r.ob("leave", "current part replaced", p.pos(f.Pos())+" ["+vge+"]", chosenText != "", "the current part is never replaced by a voice")
	if chosenText == "" {
		return
	}
	for _, t := range tgts {
		w := want{T: t.pat, V: []string{chosenText}, Loops: t.loops, May: some, Exact: true, MaySkip: t.when == ""}
		if t.when != "" {
			w.When = []string{t.when}
		}
		rows = append(rows, w)
	}
	frame := []string{"P", "P.…", "elem(…", "arg0.…", chosenText + ".…"}
	rows = append(rows,
		want{T: chosenText + ".voices", V: []string{"new:model.Voices()"}, Loops: []string{"arg0.CurrentParts"}, May: some, Exact: true, MaySkip: true},
		want{T: chosenText + ".voiceTemplate", V: []string{"nil"}, Loops: []string{"arg0.CurrentParts"}, May: some, Exact: true, MaySkip: true},
	)
	p.effectSpecOf(r, "leave", vge, f, frame, rows...)
	for _, e := range p.acts(f) {
		t := toP(e.Target)
		if t == "P" {
			p.skippedOnly(r, "leave", "group ended", facts, e.Site, nil, []string{"T:(0 == call:len(P.voices.voices)) OR T:(call:len(P.voices.voices) <= 0) OR T:(0 == call:len(" + ord + "))"})
			// the alternatives of the value
			st, ok := e.I.(*ssa.Store)
			if !ok {
				r.at("leave", "voice chosen", e.I, false, "not a plain store")
				continue
			}
			seen := map[string]bool{}
			for _, ch := range p.choices(facts, st.Val, e.C) {
				tx := toP(ch.Text)
				switch {
				case globAny(tx, strings.Split(latest, " OR ")...):
					seen["latest"] = true
				case globAny(tx, strings.Split(others, " OR ")...):
					seen["others"] = true
					ok := false
					for a := range ch.Known {
						a = strings.ReplaceAll(toP(a), "prev("+tx+")", tx)
						so, found := strings.CutSuffix(a, " < "+tx+".CurrentOffset)")
						far := strings.TrimPrefix(so, "T:(")
						if found && far != so && strings.HasPrefix(far, "{") && strings.Contains(far, tx+".CurrentOffset") {
							for _, l := range strings.Split(latest, " OR ") {
								ok = ok || strings.Contains(far, l+".CurrentOffset")
							}
						}
					}
					r.at("leave", "an earlier voice wins", ch.At, ok, "chosen without being further on than the voice chosen so far")
				default:
					r.at("leave", "voice chosen", ch.At, false, "unexpected choice "+trim(tx, 200))
				}
			}
			r.at("leave", "latest voice", e.I, seen["latest"], "the voice begun last is not considered")
			r.at("leave", "other voices", e.I, seen["others"], "the other voices are not considered")
		}
	}
	// every other voice is compared
	n := 0
	p.sites(rootCtx(f), func(s Site) {
		b, ok := s.I.(*ssa.BinOp)
		if !ok {
			return
		}
		x, y := partText(p.expr(b.X, s.C)), partText(p.expr(b.Y, s.C))
		if !strings.Contains(x, ".CurrentOffset") || !strings.Contains(y, ".CurrentOffset") {
			return
		}
		n++
		ls := p.enclosing(s)
		ok = len(ls) == 2
		if ok {
			o := toP(overText(ls[0]))
			ok = globAny(o, "slice("+ord+", 0, (call:len("+ord+") - 1))", ord, "slice(elem(arg0.CurrentParts).voices.insertionOrder, 0, (call:len(elem(arg0.CurrentParts).voices.insertionOrder) - 1))")
			r.at("leave", "compared with", b, p.earlyExit(ls[0].L, ls[0].C) == nil, "the comparison can end early")
		}
		r.at("leave", "every other voice compared", b, ok, "not for every other voice of the part")
	})
	r.ob("leave", "comparison", p.pos(f.Pos())+" ["+vge+"]", n == 1, "no single comparison of where voices end")
}

// cloneRule: deep copies drop unexported fields; whatever copies a value that
// has some must put them back.
func (p *Prog) cloneRule(r *Report) {
	impl := func(n *types.Named) (out []types.Type) {
		_, ok := n.Underlying().(*types.Interface)
		if !ok || n.Obj().Pkg() == nil {
			return nil
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), modPath), "/")
		if !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return nil
		}
		for _, x := range p.implementers(rel, n.Obj().Name()) {
			out = append(out, x)
		}
		return
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(*ssa.Call)
				if !ok || !strings.HasSuffix(calleeName(call.Common()), "deepcopy.Copy") {
					continue
				}
				arg := call.Call.Args[0]
				if mi, ok := arg.(*ssa.MakeInterface); ok {
					arg = mi.X
				}
				t := arg.Type()
				if types.IsInterface(t) {
					r.at("copy", "copied type", call, false, "a value of unknown type is copied")
					continue
				}
				var priv []string
				named := typeName(derefType(t))
				if named == "model.Part" {
					st := structOf(t)
					if st == nil {
						st, _ = derefType(t).Underlying().(*types.Struct)
					}
					p.partCopy(r, f, call, arg, st)
					continue
				}
				st, _ := derefType(t).Underlying().(*types.Struct)
				if st == nil {
					r.at("copy", "copied type", call, false, "not a struct: "+named)
					continue
				}
				for k := 0; k < st.NumFields(); k++ {
					fl := st.Field(k)
					if !fl.Exported() {
						priv = append(priv, fl.Name())
						continue
					}
					var sub []string
					privateFields(fl.Type(), impl, map[types.Type]bool{}, fl.Name(), &sub, modPath)
					if len(sub) > 0 && !replacedAfter(f, call, fl.Name()) {
						priv = append(priv, sub...)
					}
				}
				r.at("copy", "fields of a copied "+named, call, len(priv) == 0, "the copy lacks "+strings.Join(priv, ", "))
			}
		}
	}
	r.floor("copy", 6)
}

// replacedAfter: the field of the copy is given a new value before the copy is
// used.
func replacedAfter(f *ssa.Function, call *ssa.Call, field string) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa) != field {
				continue
			}
			if copyOf(fa.X, call, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

func copyOf(v ssa.Value, call *ssa.Call, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(call) {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.TypeAssert:
		return copyOf(x.X, call, seen)
	case *ssa.Extract:
		return copyOf(x.Tuple, call, seen)
	case *ssa.UnOp:
		return copyOf(x.X, call, seen)
	case *ssa.Alloc:
		for _, ref := range *x.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(x) && copyOf(st.Val, call, seen) {
				return true
			}
		}
	}
	return false
}

func (p *Prog) partCopy(r *Report, f *ssa.Function, call *ssa.Call, src ssa.Value, st *types.Struct) {
	root := rootCtx(f)
	srcT := text(p.expr(src, root))
	facts := p.newFacts(nil)
	for k := 0; k < st.NumFields(); k++ {
		fl := st.Field(k)
		var at *Effect
		n := 0
		for _, e := range p.effects(root) {
			if !strings.Contains(text(e.Base), "deepcopy.Copy("+srcT+")") || e.Field != fl.Name() {
				continue
			}
			e := e
			at = &e
			n++
		}
		if fl.Exported() {
			r.at("copy", "field "+fl.Name()+" of a copied part", call, n == 0, "changed in the copy")
			continue
		}
		if at == nil {
			r.at("copy", "field "+fl.Name()+" of a copied part", call, false, "not copied")
			continue
		}
		r.at("copy", "field "+fl.Name()+" of a copied part", at.I, n == 1 && text(at.Val) == srcT+"."+fl.Name(), "set to "+trim(text(at.Val), 200))
		u, _ := p.unexcused(facts, at.Site, nil, nil)
		r.at("copy", "field "+fl.Name()+" always copied", at.I, u == "", "not copied when "+u)
	}
}
