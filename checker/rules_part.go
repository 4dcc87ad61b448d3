package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C08"] = checkParts
}

// calleeReturning: the module function f calls (directly) whose results are of
// the given types.
func (p *Prog) calleeReturning(f *ssa.Function, results string) *ssa.Function {
	if f == nil {
		return nil
	}
	var out *ssa.Function
	n := 0
	p.sites(rootCtx(f), func(s Site) {
		ci, ok := s.I.(ssa.CallInstruction)
		if !ok || s.C.Parent != nil {
			return
		}
		g := ci.Common().StaticCallee()
		if g == nil || !p.inModule(g) || strings.ReplaceAll(types.TypeString(g.Signature.Results(), func(q *types.Package) string { return q.Name() }), " ", "") != results {
			return
		}
		if out != g {
			n++
		}
		out = g
	})
	if n != 1 {
		return nil
	}
	return out
}

func checkParts(p *Prog, r *Report) {
	r.rule("declare", "a part declaration ends the voice group, adds missing parts once, sets the current parts and defines the aliases, in that order")
	r.rule("select", "which parts a declaration refers to, and when it is refused")
	r.rule("lookup", "which parts are unnamed, named and aliased")
	r.rule("new-part", "a new part starts with the documented defaults")
	r.rule("instruments", "every General MIDI program has its name and number; aliases mean the instrument they belong to")
	r.rule("tables", "the instrument table and the aliases are only written where they are defined")
	decl := p.fn("(model.PartDeclaration).UpdateScore")
	det := p.fn("model.determineParts")
	if det == nil {
		det = p.calleeReturning(decl, "([]*model.Part,error)")
	}
	if decl == nil || det == nil {
		r.ob("declare", "PartDeclaration", "", false, "gone")
		return
	}
	const endGroup = "(model.VoiceGroupEndMarker).UpdateScore"
	p.sealed(func() {
		var D string
		for _, e := range p.acts(decl) {
			if e.Target == "call:"+fname(det) {
				D = "call:" + fname(det) + "(" + strings.TrimSuffix(strings.TrimPrefix(text(e.Val), "args("), ")")
				D += ")"
			}
		}
		r.ob("declare", "parts chosen", p.pos(decl.Pos())+" ["+fname(decl)+"]", D != "" && !strings.Contains(D, "|"), "the parts are no longer determined")
		had := "F:any(arg0.Parts: T:(elem(arg0.Parts) == elem(" + D + "))) OR F:any(arg0.Parts: T:(elem(" + D + ") == elem(arg0.Parts)))"
		al := `F:("" == recv.Alias) OR T:(0 < call:len(recv.Alias))`
		own := "lk(new:map[*model.Part][]string(), elem(" + D + "))"
		p.effectSpecOf(r, "declare", fname(decl), decl, []string{"arg0.…", "P.…", "ix(…", "elem(…", "call:" + endGroup},
			want{T: "call:" + endGroup, V: []string{"args(zero, arg0)", "args(…, arg0)"}, Loops: []string{}, Exact: true, Once: true},
			want{T: "ix(" + D + ", 0).TempoRole", V: []string{"1"}, Loops: []string{}, When: []string{"T:(0 == call:len(arg0.Parts))"}, Exact: true},
			want{T: "arg0.Parts", V: []string{"call:append(arg0.Parts, slicelit(elem(" + D + ")))"}, Loops: []string{D}, When: []string{had}, Exact: true, Once: true},
			want{T: "arg0.CurrentParts", V: []string{D}, Loops: []string{}, Exact: true},
			want{T: "arg0.Aliases[recv.Alias]", V: []string{D}, Loops: []string{}, When: []string{al}, Exact: true},
			want{T: `arg0.Aliases[(recv.Alias + "." + elem(` + D + ").Name)] OR arg0.Aliases[((recv.Alias + \".\") + elem(" + D + ").Name)]", V: []string{"slicelit(elem(" + D + "))"}, Loops: []string{D}, When: []string{al}, Exact: true},
			want{T: `arg0.Aliases[(recv.Alias + "." + elem(` + own + "))]", V: []string{"slicelit(elem(" + D + "))"}, Loops: []string{own, D}, When: []string{al}, Exact: true},
		)
		// order: the parts are looked up after the voice group has ended and before anything is written; the aliases of the part are read before new ones exist
		var end, det0, parts, role, alias, read []Site
		for _, e := range append(p.acts(decl), p.effects(rootCtx(decl))...) {
			switch t := norm(e.Target); {
			case t == "call:"+endGroup:
				end = append(end, e.Site)
			case t == "call:"+fname(det):
				det0 = append(det0, e.Site)
			case t == "arg0.Parts":
				parts = append(parts, e.Site)
			case strings.HasSuffix(t, ".TempoRole"):
				role = append(role, e.Site)
			case glob("arg0.Aliases[…", t):
				alias = append(alias, e.Site)
			case glob("new:map[*model.Part][]string()[…", t):
				read = append(read, e.Site)
				r.at("declare", "own aliases", e.I, glob("{[] | append(rec, [key(arg0.Aliases)])}", p.shape(e.Val)), "records "+trim(p.shape(e.Val), 200))
			}
		}
		r.ob("declare", "own aliases read", p.pos(decl.Pos())+" ["+fname(decl)+"]", len(read) == 1, "the aliases a part already has are no longer noted")
		order := func(what string, as, bs []Site) {
			for _, a := range as {
				for _, b := range bs {
					r.at("declare", what, b.I, before(a, b) && !before(b, a), "can happen before "+p.ipos(a.I))
				}
			}
		}
		order("voices end before parts are looked up", end, det0)
		order("the first part becomes master before it is added", role, parts)
		order("a part's own aliases are read before new ones are defined", read, alias)
	}, fname(det), endGroup)

	p.sealed(func() {
		p.selection(r, det)
	}, "(*model.Score).NewPart", "(*model.Score).UnnamedParts", "(*model.Score).AliasedStockInstruments")

	p.partLookups(r)
	p.newPart(r)
	p.instrumentTable(r)
}

func (p *Prog) selection(r *Report, det *ssa.Function) {
	root := rootCtx(det)
	facts := p.newFacts(nil)
	n0 := "ix(arg0.Names, 0)"
	named := "lk(arg1.Aliases, " + n0 + ")"
	un := "call:(*model.Score).UnnamedParts(arg1, " + n0 + ")"
	ali := "call:(*model.Score).AliasedStockInstruments(arg1, " + n0 + ")"
	taken := "lk(arg1.Aliases, arg0.Alias)"
	noAlias := `T:("" == arg0.Alias) OR T:(call:len(arg0.Alias) <= 0) OR T:(0 == call:len(arg0.Alias))`
	alias := `F:("" == arg0.Alias) OR T:(0 < call:len(arg0.Alias))`
	empty := func(l string) string {
		return "T:(call:len(" + l + ") <= 0) OR T:(0 == call:len(" + l + ")) OR T:(call:len(" + l + ") < 1)"
	}
	some := func(l string) string {
		return "T:(0 < call:len(" + l + ")) OR F:(0 == call:len(" + l + ")) OR T:(1 <= call:len(" + l + "))"
	}
	one := "T:(1 == call:len(arg0.Names))"
	many := "F:(1 == call:len(arg0.Names)) OR T:(1 < call:len(arg0.Names))"
	dot := "T:call:strings.ContainsRune(" + n0 + ", 46) OR T:call:strings.Contains(" + n0 + `, ".")`
	en := "elem(arg0.Names)"
	enNamed := "lk(arg1.Aliases, " + en + ")"
	enUn := "call:(*model.Score).UnnamedParts(arg1, " + en + ")"
	newPart := func(n string) string { return "call:(*model.Score).NewPart(arg1, " + n + ")" }
	known := map[string]bool{}
	both := func(a, b string) []string {
		return []string{"{call:append(rec, slicelit(" + a + ")) | call:append(rec, " + b + ") | slicelit()}", "{call:append(rec, " + b + ") | call:append(rec, slicelit(" + a + ")) | slicelit()}"}
	}
	stock := both(newPart(en), enUn)
	namedList := "{call:append(rec, " + enNamed + ") | slicelit()}"
	var anyStock, noStock []string
	for _, s := range stock {
		anyStock = append(anyStock, some(s))
		noStock = append(noStock, empty(s))
	}
	someStock, nonStock := strings.Join(anyStock, " OR "), strings.Join(noStock, " OR ")
	_ = nonStock
	for _, ret := range returns(det) {
		if len(ret.Results) != 2 {
			continue
		}
		for _, ch := range p.choices(facts, ret.Results[0], root, Site{ret, root}) {
			site := Site{ret, root}
			if ch.Text == "nil" {
				continue
			}
			req := func(what string, conds ...string) {
				known[what] = true
				p.reachedOnly(r, "select", what, facts, site, ch.Known, conds)
			}
			switch t := ch.Text; {
			case t == "slicelit("+newPart(n0)+")":
				known["new"] = true
				base := []string{one}
				p.reachedOnly(r, "select", "new part", facts, site, ch.Known,
					append(base, alias, empty(named), empty(taken), empty(un)),
					append(base, noAlias, empty(named), empty(un), empty(ali)),
					append(base, noAlias, empty(named), empty(un), dot))
			case t == named:
				req("existing alias", one, noAlias, some(named), empty(ali)+" OR "+dot)
			case t == un:
				req("existing unnamed parts", one, noAlias, empty(named), some(un), empty(ali)+" OR "+dot)
			case t == "call:append(slicelit(), slicelit("+newPart(en)+"))":
				req("new group", many, alias, someStock)
			case glob("call:append(slicelit(), slicelit(elem("+namedList+")))", t):
				req("group of named parts", many)
			case globAny(t, "call:append(slicelit(), slicelit(elem("+stock[0]+")))", "call:append(slicelit(), slicelit(elem("+stock[1]+")))"):
				req("group of stock parts", many)
			case t == "slicelit()":
			default:
				r.at("select", "parts", ret, false, "refers to "+trim(t, 300))
			}
		}
	}
	for _, k := range []string{"new", "existing alias", "existing unnamed parts", "new group", "group of named parts", "group of stock parts"} {
		r.ob("select", k+" exists", p.pos(det.Pos())+" ["+fname(det)+"]", known[k], "this case is gone")
	}
	// every group result: names are distinct and kinds are not mixed
	p.refusal(r, "select", det, "a name listed twice", many, "T:lk(new:map[string]…(), "+en+") OR T:hit(new:map[string]…(), "+en+")")
	p.refusal(r, "select", det, "an alias for an existing alias", one, alias, some(named))
	p.refusal(r, "select", det, "an alias already taken", one, alias, some(taken))
	p.refusal(r, "select", det, "named and stock instruments in a group", many, some(namedList), someStock)
	for _, e := range p.effects(root) {
		t := norm(e.Target)
		switch {
		case glob("new:map[string]…()[…]", t):
			known["seen"] = true
			r.at("select", "names seen", e.I, strings.HasSuffix(t, "["+en+"]") && in(text(e.Val), "true", "…"), "remembers "+t)
			why, at := p.unexcused(facts, e.Site, nil, []string{many})
			r.at("select", "every name is remembered", e.I, at == nil, "a name is not remembered when "+trim(why, 300))
		case glob("new:map[*model.Part]…()[…]", t):
		}
	}
	var members []Site
	defer func() {
		for _, s := range members {
			why, at := p.unexcused(facts, s, members, []string{many})
			r.at("select", "every member is looked up", s.I, at == nil, "a name of a group is passed over when "+trim(why, 300))
		}
	}()
	p.sites(root, func(s Site) {
		call, ok := s.I.(*ssa.Call)
		if !ok || calleeName(call.Common()) != "append" {
			return
		}
		v := p.expr(call, s.C)
		t := text(v)
		gs := p.guards(facts, s)
		facing := strings.Join(gs, " & ")
		switch {
		case glob("call:append(…, "+enNamed+")", t):
			known["m-named"] = true
			members = append(members, s)
			r.at("select", "members named", call, knows(gs, some(enNamed)), "known: "+trim(facing, 300))
		case glob("call:append(…, "+enUn+")", t):
			known["m-un"] = true
			members = append(members, s)
			r.at("select", "members unnamed", call, knows(gs, some(enUn)) && knows(gs, empty(enNamed)), "known: "+trim(facing, 300))
		case glob("call:append(…, slicelit("+newPart(en)+"))", t):
			if knows(gs, empty(enUn)) {
				members = append(members, s)
			}
			r.at("select", "members new", call, knows(gs, empty(enUn)) && knows(gs, empty(enNamed)) || knows(gs, someStock) && knows(gs, alias), "known: "+trim(facing, 300))
		case glob("call:append(…, slicelit(elem({…", t):
			known["set"] = true
			ok := false
			for _, g := range gs {
				ok = ok || glob("F:hit(new:map[*model.Part]…(), elem(…", g) || glob("F:lk(new:map[*model.Part]…(), elem(…", g) || glob("F:any(…", g)
			}
			r.at("select", "each part once", call, ok, "a part reached twice is added twice; known: "+trim(facing, 300))
			p.skippedOnly(r, "select", "no part is left out", facts, s, nil, []string{"T:hit(new:map[*model.Part]…(), elem(…) OR T:lk(new:map[*model.Part]…(), elem(…) OR T:any(…"}, []string{one}, []string{alias, someStock})
		}
	})
	r.ob("select", "group members", p.pos(det.Pos())+" ["+fname(det)+"]", known["m-named"] && known["m-un"] && known["set"] && known["seen"], fmt.Sprint(known))
}

func (p *Prog) partLookups(r *Report) {
	where := func(f *ssa.Function) string { return p.pos(f.Pos()) + " [" + fname(f) + "]" }
	name := func(x string) []string {
		return []string{"T:(call:inv:Name(" + x + ".StockInstrument) == {\"N/A\" | call:inv:Name(lk(model.stockInstruments, arg0))})",
			"T:({\"N/A\" | call:inv:Name(lk(model.stockInstruments, arg0))} == call:inv:Name(" + x + ".StockInstrument))",
			"T:(call:inv:Name(" + x + ".StockInstrument) == call:inv:Name(lk(model.stockInstruments, arg0)))"}
	}
	type lk struct {
		fn, res string
		when    []string
		loops   string
	}
	one := "val(recv.Aliases)"
	for _, l := range []lk{
		{"(*model.Score).UnnamedParts", "elem(recv.Parts)", []string{strings.Join(name("elem(recv.Parts)"), " OR "), "F:any(recv.Aliases, val(recv.Aliases): T:(elem(recv.Parts) == elem(val(recv.Aliases)))) OR F:any(recv.Aliases, val(recv.Aliases): T:(elem(val(recv.Aliases)) == elem(recv.Parts)))"}, "recv.Parts"},
		{"(*model.Score).AliasedStockInstruments", "ix(" + one + ", 0)", []string{strings.Join(name("ix("+one+", 0)"), " OR "), "T:(1 == call:len(" + one + "))"}, "recv.Aliases"},
		{"(*model.Score).AliasesFor", "key(recv.Aliases)", []string{"T:(1 == call:len(" + one + "))", "T:(arg0 == ix(" + one + ", 0)) OR T:(ix(" + one + ", 0) == arg0)"}, "recv.Aliases"},
	} {
		f := p.fn(l.fn)
		if f == nil {
			r.ob("lookup", l.fn, "", false, "gone")
			continue
		}
		facts := p.newFacts(nil)
		got := p.returned(f, 0)
		r.ob("lookup", l.fn+" result", where(f), globAny(got, "{call:append(rec, slicelit("+l.res+")) | slicelit()}", "{call:append(rec, slicelit("+l.res+")) | nil}"), "returns "+trim(got, 300))
		n := 0
		p.sites(rootCtx(f), func(s Site) {
			call, ok := s.I.(*ssa.Call)
			if !ok || calleeName(call.Common()) != "append" || s.C.Parent != nil {
				return
			}
			n++
			gs := p.guards(facts, s)
			for _, w := range l.when {
				r.at("lookup", l.fn+" only", call, knows(gs, w), "not only when "+trim(w, 120)+"; known: "+trim(strings.Join(gs, " & "), 400))
			}
			ls := p.enclosing(s)
			r.at("lookup", l.fn+" all", call, len(ls) == 1 && overText(ls[0]) == l.loops && p.earlyExit(ls[0].L, ls[0].C) == nil, "not every entry is looked at")
			why, at := p.unexcusedIn(facts, s, l.when)
			r.at("lookup", l.fn+" none left out", call, at == nil, "an entry is left out when "+trim(why, 300))
		})
		r.ob("lookup", l.fn+" collects", where(f), n == 1, "")
	}
	if f := p.fn("(*model.Score).NamedParts"); f != nil {
		p.returnSpec(r, "lookup", fname(f), 0, "lk(recv.Aliases, arg0)")
	}
	// the aliases are written by part declarations (and by voices, which keep them pointing at the current part) only
	for _, e := range p.mapWriters("Score", "Aliases") {
		ok := globAny(fname(e.Parent()), "(*model.Score).SetAlias", "(model.PartDeclaration).UpdateScore", "model.NewScore") || strings.Contains(strings.ToLower(fname(e.Parent())), "voice") || p.onlyFrom(e.Parent(), "(model.PartDeclaration).UpdateScore", "(model.VoiceGroupEndMarker).UpdateScore", "(model.VoiceMarker).UpdateScore")
		r.at("tables", "aliases", e, ok, "the aliases are also changed here")
	}
}

// onlyFrom: every call chain to f starts at one of the named functions.
func (p *Prog) onlyFrom(f *ssa.Function, names ...string) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		if seen[g] {
			return true
		}
		seen[g] = true
		if in(fname(g), names...) {
			return true
		}
		if g.Parent() != nil {
			return rec(g.Parent())
		}
		if p.isAddrTaken(g) {
			return false
		}
		cs := p.callers(g)
		if len(cs) == 0 {
			return false
		}
		for _, c := range cs {
			if !rec(c.Parent()) {
				return false
			}
		}
		return true
	}
	return rec(f)
}

// mapWriters lists the instructions that store into (or replace) a map field.
func (p *Prog) mapWriters(typ, field string) (out []ssa.Instruction) {
	isField := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		return ok && strings.HasSuffix(typeName(derefType(fa.X.Type())), "."+typ) && fieldName(fa) == field
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					if isField(i.Addr) {
						out = append(out, i)
					}
				case *ssa.MapUpdate:
					if u, ok := i.Map.(*ssa.UnOp); ok && isField(u.X) {
						out = append(out, i)
					}
				case *ssa.Call:
					if calleeName(i.Common()) == "delete" {
						if u, ok := i.Common().Args[0].(*ssa.UnOp); ok && isField(u.X) {
							out = append(out, i)
						}
					}
				}
			}
		}
	}
	return
}

func (p *Prog) newPart(r *Report) {
	f := p.fn("(*model.Score).NewPart")
	if f == nil {
		r.ob("new-part", "NewPart", "", false, "gone")
		return
	}
	root := rootCtx(f)
	wants := map[string][]string{
		"Name": {"arg0"}, "StockInstrument": {"lk(model.stockInstruments, arg0)"}, "TempoRole": {"0"}, "CurrentOffset": {"0"}, "LastOffset": {"-1"}, "Octave": {"4"},
		"Tempo": {"120"}, "Volume": {`lk(model.DynamicVolumes, "mf")`}, "TrackVolume": {"0.7874015748031497", "0.787401574803149…"}, "Panning": {"0.5"},
		"MidiChannel": {"-1"}, "HasExplicitMidiChannel": {"false"}, "Quantization": {"0.9"}, "TimeScale": {"1"}, "Transposition": {"0"}, "ReferencePitch": {"440"},
		"Duration": {"Duration{Components=[NoteLength{Denominator=4}]}"}, "score": {"recv"}, "currentRepetition": {"0"}, "voiceTemplate": {"nil", "zero"},
	}
	n := 0
	for _, ret := range returns(f) {
		if failing(ret, 0) || isNilConst(ret.Results[0]) {
			continue
		}
		e := p.expr(ret.Results[0], root)
		for _, a := range e.alts() {
			if a.Op != "new" {
				continue
			}
			n++
			for _, k := range sortedKeys(wants) {
				got := p.shape(p.fieldOf(a, k))
				if got == "zero" && in("0", wants[k]...) || got == "zero" && in("false", wants[k]...) {
					got = wants[k][0]
				}
				r.at("new-part", k, ret, globAny(got, wants[k]...), "starts as "+trim(got, 200)+", not "+wants[k][0])
			}
			for _, k := range []string{"TempoValues", "voices", "KeySignature"} {
				got := p.shape(p.fieldOf(a, k))
				r.at("new-part", k, ret, !in(got, "nil", "zero") && (strings.HasPrefix(got, "new:") || strings.HasPrefix(got, "Voices{") || strings.HasPrefix(got, "KeySig")), "starts as "+trim(got, 200))
			}
			o := p.fieldOf(a, "origin")
			r.at("new-part", "origin", ret, o.String() == a.String(), "a new part is not its own origin but "+trim(o.String(), 100))
		}
	}
	r.ob("new-part", "result", p.pos(f.Pos())+" ["+fname(f)+"]", n == 1, "")
	p.refusal(r, "new-part", f, "an unknown instrument", "F:hit(model.stockInstruments, arg0)")
}

// strings listed in the composite literal a package-level variable starts as.
func (p *Prog) literalRows(rel string, has string) (name string, rows [][]string) {
	pk := p.Pkgs[rel]
	if pk == nil {
		return
	}
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok || len(vs.Values) != 1 {
					continue
				}
				cl, ok := vs.Values[0].(*ast.CompositeLit)
				if !ok {
					continue
				}
				var out [][]string
				found := false
				for _, el := range cl.Elts {
					var row []string
					ast.Inspect(el, func(n ast.Node) bool {
						if x, ok := n.(ast.Expr); ok {
							if tv, ok := pk.TypesInfo.Types[x]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
								row = append(row, constant.StringVal(tv.Value))
								return false
							}
						}
						return true
					})
					for _, w := range row {
						found = found || w == has
					}
					out = append(out, row)
				}
				if found {
					return vs.Names[0].Name, out
				}
			}
		}
	}
	return
}

func (p *Prog) instrumentTable(r *Report) {
	check := func(gm string, perc bool) {
		rows := strings.Split(strings.TrimSpace(gm), "\n")
		first := strings.Fields(rows[0])[0]
		v, got := p.literalRows("model", first)
		r.ob("instruments", "table of "+first, "", len(got) == len(rows), fmt.Sprintf("%d instruments, not %d", len(got), len(rows)))
		seen := map[string]int{}
		for i, row := range rows {
			wantNames := strings.Fields(row)
			if i >= len(got) {
				break
			}
			r.ob("instruments", "program "+strconv.Itoa(i)+" "+wantNames[0], "client/model/instruments.go ["+v+"]", len(got[i]) > 0 && got[i][0] == wantNames[0], fmt.Sprint("is ", got[i]))
			have := map[string]bool{}
			for _, n := range got[i] {
				have[n] = true
				if o, dup := seen[n]; dup {
					r.ob("instruments", "name "+n, "client/model/instruments.go ["+v+"]", false, fmt.Sprintf("names both program %d and %d", o, i))
				}
				seen[n] = i
			}
			for _, n := range wantNames {
				r.ob("instruments", "name "+n, "client/model/instruments.go ["+v+"]", have[n], "is no longer a name of "+wantNames[0])
			}
		}
		_ = perc
	}
	check(gmPrograms, false)
	check("midi-percussion percussion", true)
	// how the table is built: name and every alias map to the instrument at its index
	np, _ := p.literalRows("model", "midi-acoustic-grand-piano")
	pv, _ := p.literalRows("model", "midi-percussion")
	table := p.pkg("model").Members["stockInstruments"]
	if table == nil {
		r.ob("instruments", "stockInstruments", "", false, "gone")
		return
	}
	n := map[string]int{}
	for _, w := range p.globalWriters("model", "stockInstruments") {
		mu, ok := w.(*ssa.MapUpdate)
		if !ok {
			continue
		}
		root := p.rootOf(w.Parent())
		p.sites(root, func(s Site) {
			if s.I != w {
				return
			}
			k, v := text(p.expr(mu.Key, s.C)), p.shape(p.expr(mu.Value, s.C))
			src := np
			if strings.Contains(k, pv) {
				src = pv
			}
			el := "elem(model." + src + ")"
			okK := in(k, el+".name", "elem("+el+".aliases)") || in(k, "elem(model."+np+").name", "elem(elem(model."+np+").aliases)")
			okV := v == "MidiInstrument{NameImpl="+el+".name, PatchNumber=conv:int32(idx)}" || glob("MidiInstrument{NameImpl="+el+".name, PatchNumber=…ind:…}", v)
			if src == pv {
				okV = v == "MidiInstrument{NameImpl="+el+".name, IsPercussion=true}"
			}
			r.at("instruments", "entry "+k, w, okK && okV, "maps "+k+" to "+trim(v, 200))
			n[src+strings.Replace(k, el, "", 1)]++
			facts := p.newFacts(nil)
			why, at := p.unexcused(facts, s, nil, nil)
			r.at("instruments", "every "+k, w, at == nil, "left out when "+trim(why, 200))
			for _, l := range p.enclosing(s) {
				r.at("instruments", "whole table", w, globAny(overText(l), "model."+src, el+".aliases") && p.earlyExit(l.L, l.C) == nil, "the table is not walked to its end")
			}
		})
	}
	r.ob("instruments", "entries", "client/model/instruments.go", n[np+".name"] == 1 && n[pv+".name"] == 1 && n[np+"elem(.aliases)"] == 1 && n[pv+"elem(.aliases)"] == 1, fmt.Sprint(n))
	for _, v := range []string{np, pv} {
		r.ob("tables", v, "client/model/instruments.go", len(p.globalWriters("model", v)) <= 1, "changed after it is defined")
	}
	for _, t := range p.implementers("model", "Instrument") {
		if m := p.method(t, "Name"); m != nil {
			p.returnSpec(r, "instruments", fname(m), 0, "recv.NameImpl")
		}
	}
}

// rootOf: the context to look at f from: f itself unless it is a closure.
func (p *Prog) rootOf(f *ssa.Function) *Ctx {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return rootCtx(f)
}

const gmPrograms = `
midi-acoustic-grand-piano midi-piano piano
midi-bright-acoustic-piano
midi-electric-grand-piano
midi-honky-tonk-piano
midi-electric-piano-1
midi-electric-piano-2
midi-harpsichord harpsichord
midi-clavi midi-clavinet clavinet
midi-celesta celesta celeste midi-celeste
midi-glockenspiel glockenspiel
midi-music-box music-box
midi-vibraphone vibraphone vibes midi-vibes
midi-marimba marimba
midi-xylophone xylophone
midi-tubular-bells tubular-bells
midi-dulcimer dulcimer
midi-drawbar-organ
midi-percussive-organ
midi-rock-organ
midi-church-organ organ
midi-reed-organ
midi-accordion accordion
midi-harmonica harmonica
midi-tango-accordion
midi-acoustic-guitar-nylon midi-acoustic-guitar acoustic-guitar guitar
midi-acoustic-guitar-steel
midi-electric-guitar-jazz
midi-electric-guitar-clean electric-guitar-clean
midi-electric-guitar-palm-muted
midi-electric-guitar-overdrive electric-guitar-overdrive
midi-electric-guitar-distorted electric-guitar-distorted
midi-electric-guitar-harmonics electric-guitar-harmonics
midi-acoustic-bass acoustic-bass upright-bass
midi-electric-bass-finger electric-bass-finger electric-bass
midi-electric-bass-pick electric-bass-pick
midi-fretless-bass fretless-bass
midi-bass-slap
midi-bass-pop
midi-synth-bass-1
midi-synth-bass-2
midi-violin violin
midi-viola viola
midi-cello cello
midi-contrabass string-bass arco-bass double-bass contrabass midi-string-bass midi-arco-bass midi-double-bass
midi-tremolo-strings
midi-pizzicato-strings
midi-orchestral-harp harp orchestral-harp midi-harp
midi-timpani timpani
midi-string-ensemble-1
midi-string-ensemble-2
midi-synth-strings-1
midi-synth-strings-2
midi-choir-aahs
midi-voice-oohs
midi-synth-voice
midi-orchestra-hit
midi-trumpet trumpet
midi-trombone trombone
midi-tuba tuba
midi-muted-trumpet
midi-french-horn french-horn
midi-brass-section
midi-synth-brass-1
midi-synth-brass-2
midi-soprano-saxophone midi-soprano-sax soprano-saxophone soprano-sax
midi-alto-saxophone midi-alto-sax alto-saxophone alto-sax
midi-tenor-saxophone midi-tenor-sax tenor-saxophone tenor-sax
midi-baritone-saxophone midi-baritone-sax midi-bari-sax baritone-saxophone baritone-sax bari-sax
midi-oboe oboe
midi-english-horn english-horn
midi-bassoon bassoon
midi-clarinet clarinet
midi-piccolo piccolo
midi-flute flute
midi-recorder recorder
midi-pan-flute pan-flute
midi-bottle bottle
midi-shakuhachi shakuhachi
midi-whistle whistle
midi-ocarina ocarina
midi-square-lead square square-wave square-lead midi-square midi-square-wave
midi-saw-wave sawtooth saw-wave saw-lead midi-sawtooth midi-saw-lead
midi-calliope-lead calliope-lead calliope midi-calliope
midi-chiffer-lead chiffer-lead chiffer chiff midi-chiffer midi-chiff
midi-charang charang
midi-solo-vox
midi-fifths midi-sawtooth-fifths
midi-bass-and-lead midi-bass+lead
midi-synth-pad-new-age midi-pad-new-age midi-new-age-pad
midi-synth-pad-warm midi-pad-warm midi-warm-pad
midi-synth-pad-polysynth midi-pad-polysynth midi-polysynth-pad
midi-synth-pad-choir midi-pad-choir midi-choir-pad
midi-synth-pad-bowed midi-pad-bowed midi-bowed-pad midi-pad-bowed-glass midi-bowed-glass-pad
midi-synth-pad-metallic midi-pad-metallic midi-metallic-pad midi-pad-metal midi-metal-pad
midi-synth-pad-halo midi-pad-halo midi-halo-pad
midi-synth-pad-sweep midi-pad-sweep midi-sweep-pad
midi-fx-rain midi-fx-ice-rain midi-rain midi-ice-rain
midi-fx-soundtrack midi-soundtrack
midi-fx-crystal midi-crystal
midi-fx-atmosphere midi-atmosphere
midi-fx-brightness midi-brightness
midi-fx-goblins midi-fx-goblin midi-goblins midi-goblin
midi-fx-echoes midi-fx-echo-drops midi-echoes midi-echo-drops
midi-fx-sci-fi midi-sci-fi
midi-sitar sitar
midi-banjo banjo
midi-shamisen shamisen
midi-koto koto
midi-kalimba kalimba
midi-bagpipes bagpipes
midi-fiddle
midi-shehnai shehnai shahnai shenai shanai midi-shahnai midi-shenai midi-shanai
midi-tinkle-bell midi-tinker-bell
midi-agogo
midi-steel-drums midi-steel-drum steel-drums steel-drum
midi-woodblock
midi-taiko-drum
midi-melodic-tom
midi-synth-drum
midi-reverse-cymbal
midi-guitar-fret-noise
midi-breath-noise
midi-seashore
midi-bird-tweet
midi-telephone-ring
midi-helicopter
midi-applause
midi-gunshot midi-gun-shot
`
