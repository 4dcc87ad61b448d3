package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = checkRepl }

// replies: the events "NAME" that send a map with this content (and the id and
// session of the request, when it has them) to where the request came from.
func replies(name, status string, body map[string]string) (out [][2]string) {
	hit := func(k string) string { return `hit(REQ.msg, "` + k + `")` }
	for _, id := range []bool{false, true} {
		for _, se := range []bool{false, true} {
			m := map[string]string{"status": status}
			for k, v := range body {
				m[k] = v
			}
			var given []string
			for k, has := range map[string]bool{"id": id, "session": se} {
				if has {
					m[k] = `lk(REQ.msg, "` + k + `")`
					given = append(given, "T:"+hit(k))
				} else {
					given = append(given, "F:"+hit(k))
				}
			}
			sort.Strings(given)
			var parts []string
			for _, k := range sortedKeys(m) {
				parts = append(parts, `"`+k+`": `+m[k])
			}
			out = append(out, [2]string{name, "call:github.com/jackpal/bencode-go.Marshal(REQ.conn, map{" + strings.Join(parts, ", ") + "}) if " + strings.Join(given, " ")})
		}
	}
	return
}

func replied(name string, body map[string]string) [][2]string {
	return replies(name, `["done"]`, body)
}

func refused(name, problem string) [][2]string {
	return replies(name, `["done", "error"]`, map[string]string{"problems": "[" + problem + "]"})
}

// evaluated: the events of evaluating CODE in a session with this score, the
// events so far being the first INDEX.
func evaluated(code, score, text, index string, opts ...string) (out, conds [][2]string) {
	ast := "call:parser.ParseString(" + code + ")"
	ups := "call:(parser.ASTNode).Updates(" + ast + ")"
	up := "call:(*model.Score).Update(" + score + ", " + ups + ")"
	from := append([]string{"call:transmitter.TransmitFromIndex(" + index + ")", "call:transmitter.SyncOffsets(call:(*model.Score).PartOffsets(" + score + "))"}, opts...)
	after := score + "'"
	send := "call:(transmitter.OSCTransmitter).TransmitScore(transmitter.OSCTransmitter{Port=recv.player.Port}, " + after + ", [" + strings.Join(from, ", ") + "])"
	if len(opts) == 1 && strings.HasPrefix(opts[0], "append:") {
		send = strings.Replace(send, ", "+opts[0]+"]", "]", 1)
	}
	out = append(out, [2]string{"parse", ast}, [2]string{"updates", ups}, [2]string{"update", up},
		[2]string{"text", "recv.input := (" + text + " + call:strings.TrimSpace(" + code + ") + \"\\n\")"},
		[2]string{"index", "recv.eventIndex := call:len(" + after + ".Events)"},
		[2]string{"play", send})
	out = append(out, refused("not-parsed", "call:inv:Error("+strings.Replace(ast, "call:", "call#1:", 1)+")")...)
	out = append(out, refused("no-updates", "call:inv:Error("+strings.Replace(ups, "call:", "call#1:", 1)+")")...)
	out = append(out, refused("not-updated", "call:inv:Error("+up+")")...)
	out = append(out, refused("not-played", "call:inv:Error("+send+")")...)
	conds = [][2]string{noErr("parse", strings.Replace(ast, "call:", "call#1:", 1)), noErr("updates", strings.Replace(ups, "call:", "call#1:", 1)), noErr("update", up), noErr("play", send)}
	return
}

// checkRepl decides C15: what the server does with each request.
func checkRepl(p *Prog, r *Report) {
	r.rule("answer", "For each operation: on every path through handling one request, in every order, the effects are exactly those of the reference: one answer, with the status, the id and session of the request and what the operation is to tell; and the changes of the session")
	r.rule("request", "A request without an operation, or with one that is not a string or not known, gets one answer saying so and has no other effect")
	r.rule("session", "Nothing but the operations changes the session, and requests are taken from the queue one at a time")
	r.rule("player", "Requests that need a player process wait for one and use that one; starting afresh shuts the one in use down, if there is one")
	abbreviated([][2]string{{"recv:0(recv.requestQueue)", "REQ"}}, func() { replOps(p, r) })
	replSession(p, r)
	replPlayers(p, r)
}

// replSession: who may change a session, and how requests come in.
func replSession(p *Prog, r *Report) {
	own := map[string]bool{"input": true, "score": true, "eventIndex": true}
	server := func(v ssa.Value) (string, bool) {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return "", false
		}
		pt, ok := fa.X.Type().Underlying().(*types.Pointer)
		if !ok || typeName(pt.Elem()) != "repl.Server" {
			return "", false
		}
		return pt.Elem().Underlying().(*types.Struct).Field(fa.Field).Name(), true
	}
	// the goroutines of the server, and what takes requests from the queue
	var started []*ssa.Function
	var consumers []string
	handlers := 0
	for _, f := range p.Funcs {
		if !strings.HasPrefix(fname(f), "repl.") && !strings.Contains(fname(f), "repl.") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Go:
					g := x.Call.StaticCallee()
					if g == nil {
						if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
							g, _ = mc.Fn.(*ssa.Function)
						}
					}
					if g == nil {
						continue
					}
					if fname(g) == "(*repl.Server).handleRequests" {
						handlers++
						r.at("session", "requests are handled in one goroutine", x, !looped(f, b), "it is started again and again")
						continue
					}
					started = append(started, g)
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						if u, ok := x.X.(*ssa.UnOp); ok {
							if n, ok := server(u.X); ok && n == "requestQueue" {
								consumers = append(consumers, fname(f))
							}
						}
					}
				}
			}
		}
	}
	sort.Strings(consumers)
	h := p.fn("(*repl.Server).handleRequests")
	if h == nil {
		return
	}
	r.ob("session", "requests are handled in one goroutine", p.pos(h.Pos())+" ["+fname(h)+"]", handlers == 1, fmt.Sprintf("it is started in %d places", handlers))
	r.ob("session", "requests are taken from the queue in one place", p.pos(h.Pos())+" ["+fname(h)+"]", len(consumers) == 1 && consumers[0] == fname(h), "requests are taken by "+strings.Join(consumers, ", "))
	for _, g := range started {
		bad := ""
		for f := range p.reachable(g) {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Store:
						if n, ok := server(x.Addr); ok && own[n] {
							bad = fname(f) + " sets Server." + n
						}
					case *ssa.Call:
						if c := x.Call.StaticCallee(); c != nil && fname(c) == "(*model.Score).Update" && strings.Contains(fname(f), "repl.") {
							bad = fname(f) + " changes the score"
						}
					}
				}
			}
		}
		r.ob("session", "what runs besides the requests leaves the session alone: "+fname(g), p.pos(g.Pos())+" ["+fname(g)+"]", bad == "", "at the same time as requests are handled, "+bad)
	}

	// what comes in over a connection
	conn := "call:inv:Accept(arg0)"
	// one reader for all of it: what it has read ahead is the next message
	reader := "call:bufio.NewReader(" + conn + ")"
	dec := "call:github.com/jackpal/bencode-go.Decode(" + reader + ")"
	dec1 := hashOf(dec)
	msg := "as:map[string]interface{}(" + dec + ")"
	in := func(eof bool) traceSpec {
		s := traceSpec{Turn: true, GoInline: true, Pure: []string{"fmt.Printf"},
			Assume: map[string]bool{"(" + dec1 + " == io.EOF)": eof},
			Events: [][2]string{{"accept", conn}, {"go", "go"}, {"reader", reader}, {"read", dec}, {"close", "call:inv:Close(" + conn + ")"},
				{"text", msg + "[key(" + msg + ")] := conv:string(as:[]byte(val(" + msg + ")))"},
				{"queue", "send recv.requestQueue := repl.nREPLRequest{conn=" + conn + ", msg=" + msg + "}"}},
			Conds: [][2]string{noErr("accepted", "call#1:inv:Accept(arg0)"), noErr("read", dec1), {"map", "is:map[string]interface{}(" + dec + ")"}, {"more", "more(" + msg + ")"}, {"bytes", "is:[]byte(val(" + msg + "))"}}}
		if eof {
			s.Assume["("+dec1+" == nil)"] = false
		}
		return s
	}
	l := p.fn("(*repl.Server).listen")
	p.behaves(r, "session", "a connection that stays open", l, in(false), "accept (accepted- again | accepted+ go reader (read read+ (map- | map+ (more+ (bytes+ text | bytes-))* more- queue))* (read read- close again))")
	p.behaves(r, "session", "a connection that ends", l, in(true), "accept (accepted- again | accepted+ go reader read close again)")

	// the list of operations
	var lists *ssa.Function
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mu, ok := ins.(*ssa.MapUpdate); ok {
					if u, ok := mu.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok && g.Name() == "describeResponse" && f.Synthetic == "" {
							lists = f
						}
					}
				}
			}
		}
	}
	p.behaves(r, "session", "the operations that are described", lists, traceSpec{Events: [][2]string{{"all", `repl.describeResponse["ops"] := map{key(repl.ops): map{}}`}, {"none", `repl.describeResponse["ops"] := map{}`}, {"ret", "ret "}},
		Conds: [][2]string{{"more", "more(repl.ops)"}}}, "more- none ret | more+ more+* more- all ret")

	// players
	osc := "transmitter.OSCTransmitter{Port=recv.player.Port}"
	shut := "call:(transmitter.OSCTransmitter).TransmitShutdownMessage(" + osc + ", 0)"
	p.behaves(r, "player", "starting afresh", p.fn("(*repl.Server).resetState"), traceSpec{Closed: []string{"(transmitter.OSCTransmitter).…", "model.NewScore"}, Pure: []string{"model.NewScore"},
		Commute: [][]string{{"text", "score", "index"}},
		Events:  [][2]string{{"shutdown", shut}, {"unused", "recv.player := zero"}, {"text", `recv.input := ""`}, {"score", "recv.score := call:model.NewScore()"}, {"index", "recv.eventIndex := 0"}, {"ret-err", "ret " + shut}, {"ret", "ret nil"}},
		Conds:   [][2]string{{"none", "(0 == recv.player.Port)"}, noErr("shutdown", shut)}},
		"(none+ | none- shutdown shutdown+ unused) {text score index} ret | none- shutdown shutdown- ret-err")
	p.behaves(r, "player", "sending to the player", p.fn("(*repl.Server).withTransmitter"), traceSpec{Closed: []string{"(transmitter.OSCTransmitter).…"}, Volatile: []string{"recv.player…"},
		Events: [][2]string{{"send", "call:dyn(arg0, " + osc + ")"}, {"ret", "ret call:dyn(arg0, " + osc + ")"}, {"ret-none", `ret call:fmt.Errorf("no player process is available", nil)`}},
		Conds:  [][2]string{{"none", "(0 == recv.player.Port)"}}},
		"none+* (none- send ret | none+ ret-none)")
}

func replOps(p *Prog, r *Report) {
	f := p.fn("(*repl.Server).handleRequests")
	oscT := "transmitter.OSCTransmitter{Port=recv.player.Port}"
	noPlayer := refused("no-player", `call:fmt.Errorf("no player process is available", nil)`)
	for i := range noPlayer {
		noPlayer[i][1] = strings.Replace(noPlayer[i][1], "[call:fmt", "[call:inv:Error(call:fmt", 1)
		noPlayer[i][1] = strings.Replace(noPlayer[i][1], "nil)]", "nil))]", 1)
	}
	base := func() traceSpec {
		return traceSpec{
			Turn:     true,
			Closed:   []string{"(*model.Score).Update", "(*model.Score).PartOffsets", "parser.ParseString", "(parser.ASTNode).Updates", "(transmitter.OSCTransmitter).…", "transmitter.TransmitFrom", "transmitter.TransmitTo", "transmitter.LoadOnly", "transmitter.TransmitFromIndex", "transmitter.SyncOffsets", "model.NewScore", "model.InstrumentsList", "(model.….JSON", "(*model.….JSON", "(parser.ASTNode).JSON", "json.…", "inv:JSON"},
			Pure:     []string{"transmitter.…", "(*model.Score).PartOffsets", "model.NewScore", "model.InstrumentsList", "(model.….JSON", "(*model.….JSON", "(parser.ASTNode).JSON", "json.Array", "inv:JSON", "github.com/google/uuid…", "(github.com/google/uuid…", "math/rand.…", "(*github.com/Jeffail/gabs/v2.Container).String"},
			Mut:      map[string][]int{"(*model.Score).Update": {0}},
			Volatile: []string{"recv.player…"},
			Commute:  [][]string{{"empty-text", "empty-score", "from-start"}, {"text", "index"}, {"text-back", "score-back", "index-back"}, {"close", "remove"}},
			Given:    []string{`hit(REQ.msg, "id")`, `hit(REQ.msg, "session")`},
			GivenAt:  []string{"call:github.com/jackpal/bencode-go.Marshal…"},
			Assume:   map[string]bool{"recv:1(recv.requestQueue)": true, `hit(REQ.msg, "op")`: true, "(call:reflect.TypeOf(…) == repl.typeString)": true},
			Subst:    map[string]*E{},
			Events: append(noPlayer, [2]string{"shutdown", "call:(transmitter.OSCTransmitter).TransmitShutdownMessage(" + oscT + ", 0)"},
				[2]string{"no-longer-used", "recv.player := zero"},
				[2]string{"empty-text", `recv.input := ""`}, [2]string{"empty-score", "recv.score := call:model.NewScore()"}, [2]string{"from-start", "recv.eventIndex := 0"},
				[2]string{"text-back", "recv.input := recv.input"}, [2]string{"score-back", "recv.score := recv.score"}, [2]string{"index-back", "recv.eventIndex := recv.eventIndex"}),
			Conds: [][2]string{noErr("shutdown", "call:(transmitter.OSCTransmitter).TransmitShutdownMessage("+oscT+", 0)")},
		}
	}
	shutErr := refused("not-shut", "call:inv:Error(call:(transmitter.OSCTransmitter).TransmitShutdownMessage("+oscT+", 0))")
	// one request with this operation
	op := func(name string, ref string, with func(s *traceSpec)) {
		s := base()
		s.Subst[`lk(REQ.msg, "op")`] = &E{Op: "const", S: `"` + name + `"`, T: types.Typ[types.String]}
		with(&s)
		p.behaves(r, "answer", name, f, s, "("+ref+") again")
	}
	add := func(s *traceSpec, ev ...[][2]string) {
		for _, e := range ev {
			s.Events = append(s.Events, e...)
		}
	}

	// requests
	s := base()
	s.Assume[`hit(REQ.msg, "op")`] = false
	add(&s, refused("missing", `"Request field missing: op"`))
	p.behaves(r, "request", "no operation", f, s, "missing again")
	s = base()
	s.Assume["(call:reflect.TypeOf(…) == repl.typeString)"] = false
	add(&s, refused("mistyped", `call:fmt.Sprintf(…, ["op", repl.typeString, call:reflect.TypeOf(lk(REQ.msg, "op"))])`))
	p.behaves(r, "request", "operation is not a string", f, s, "mistyped again")
	s = base()
	s.Subst[`lk(REQ.msg, "op")`] = &E{Op: "const", S: `"no such operation"`, T: types.Typ[types.String]}
	add(&s, replies("unknown", `["done", "error", "unknown-op"]`, nil))
	p.behaves(r, "request", "operation is not known", f, s, "unknown again")
	s = base()
	s.Assume = map[string]bool{"recv:1(recv.requestQueue)": false}
	s.Events = [][2]string{{"ret", "ret "}}
	p.behaves(r, "request", "no more requests", f, s, "ret")

	// operations
	op("clone", "done", func(s *traceSpec) {
		add(s, replied("done", map[string]string{"new-session": "call:(github.com/google/uuid.UUID).String(call:github.com/google/uuid.New())"}))
	})
	op("describe", "done", func(s *traceSpec) {
		add(s, replied("done", map[string]string{"ops": `lk(repl.describeResponse, "ops")`, "versions": `lk(repl.describeResponse, "versions")`}))
	})
	op("eval", "done", func(s *traceSpec) {
		add(s, replied("done", map[string]string{"value": `"¯\\_(ツ)_/¯"`}))
	})
	op("instruments", "done", func(s *traceSpec) {
		add(s, replied("done", map[string]string{"instruments": "call:model.InstrumentsList()"}))
	})
	op("score-text", "done", func(s *traceSpec) { add(s, replied("done", map[string]string{"text": "recv.input"})) })
	op("score-data", "done", func(s *traceSpec) {
		add(s, replied("done", map[string]string{"data": "call:(*github.com/Jeffail/gabs/v2.Container).String(call:(*model.Score).JSON(recv.score))"}))
	})
	parsed := func(s *traceSpec) {
		ast := "call:parser.ParseString(recv.input)"
		ups := "call:(parser.ASTNode).Updates(" + ast + ")"
		s.Events = append(s.Events, [2]string{"parse", ast}, [2]string{"updates", ups})
		add(s, refused("not-parsed", "call:inv:Error(call#1:parser.ParseString(recv.input))"), refused("no-updates", "call:inv:Error(call#1:(parser.ASTNode).Updates("+ast+"))"))
		s.Conds = append(s.Conds, noErr("parse", "call#1:parser.ParseString(recv.input)"), noErr("updates", "call#1:(parser.ASTNode).Updates("+ast+")"), [2]string{"more", "(… < call:len(" + ups + "))"})
	}
	op("score-ast", "parse (parse- not-parsed | parse+ done)", func(s *traceSpec) {
		parsed(s)
		add(s, replied("done", map[string]string{"ast": "call:(*github.com/Jeffail/gabs/v2.Container).String(call:(parser.ASTNode).JSON(call:parser.ParseString(recv.input)))"}))
	})
	op("score-events", "parse (parse- not-parsed | parse+ updates (updates- no-updates | updates+ (more+ each)* more- done))", func(s *traceSpec) {
		parsed(s)
		s.Events = append(s.Events, [2]string{"each", "call:(*github.com/Jeffail/gabs/v2.Container).ArrayAppend(call:json.Array(nil), call:inv:JSON(elem(call:(parser.ASTNode).Updates(call:parser.ParseString(recv.input)))), …)"})
		add(s, replied("done", map[string]string{"events": "call:(*github.com/Jeffail/gabs/v2.Container).String(call:json.Array(nil))"}))
	})
	op("stop", "no-player | stop (stop- not-stopped | stop+ done)", func(s *traceSpec) {
		stop := "call:(transmitter.OSCTransmitter).TransmitStopMessage(" + oscT + ")"
		s.Events = append(s.Events, [2]string{"stop", stop})
		s.Conds = append(s.Conds, noErr("stop", stop))
		add(s, refused("not-stopped", "call:inv:Error("+stop+")"), replied("done", nil))
	})
	reset := "(shutdown (shutdown- not-shut | shutdown+ no-longer-used REST) | REST)"
	fresh := "{empty-text empty-score from-start}"
	op("new-score", "no-player | "+strings.ReplaceAll(reset, "REST", fresh+" done"), func(s *traceSpec) { add(s, shutErr, replied("done", nil)) })

	code := `lk(REQ.msg, "code")`
	isString := `(call:reflect.TypeOf(` + code + `) == repl.typeString)`
	needsCode := func(s *traceSpec) {
		s.Assume[isString] = true
		add(s, refused("no-code", `"Request field missing: code"`), refused("code-type", `call:fmt.Sprintf(…, ["code", repl.typeString, call:reflect.TypeOf(`+code+`)])`))
		delete(s.Assume, "(call:reflect.TypeOf(…) == repl.typeString)")
		s.Assume["(call:reflect.TypeOf(\"…\") == repl.typeString)"] = true
		delete(s.Assume, isString)
		s.Conds = append(s.Conds, [2]string{"has-code", `hit(REQ.msg, "code")`}, [2]string{"string", isString})
	}
	steps := "parse (parse- not-parsedBACK | parse+ updates (updates- no-updatesBACK | updates+ update (update- not-updatedBACK | update+ {text index} SEND)))"
	play := "play (play- not-playedBACK | play+ THEN)"
	back := func(s, b string) string {
		for _, n := range []string{"not-parsed", "no-updates", "not-updated", "not-played", "not-moved", "no-player"} {
			s = strings.ReplaceAll(s, n+"BACK", b+" "+n)
		}
		return s
	}
	needs := "(has-code- no-code | has-code+ string- code-type | has-code+ string+ (REST))"
	op("eval-and-play", strings.Replace(needs, "REST", "no-player | "+back(strings.Replace(steps, "SEND", strings.Replace(play, "THEN", "done", 1), 1), ""), 1), func(s *traceSpec) {
		needsCode(s)
		ev, conds := evaluated("as:string("+code+")", "recv.score", "recv.input", "recv.eventIndex")
		add(s, ev, replied("done", nil))
		s.Conds = append(s.Conds, conds...)
	})
	// what a failed evaluation leaves of the score
	{
		q := base()
		q.Subst[`lk(REQ.msg, "op")`] = &E{Op: "const", S: `"eval-and-play"`, T: types.Typ[types.String]}
		needsCode(&q)
		_, conds := evaluated("as:string("+code+")", "recv.score", "recv.input", "recv.eventIndex")
		q.Conds = append(q.Conds, conds...)
		t := p.traces(f, q)
		r.ob("answer", "eval-and-play: the score when the new events cannot be applied", p.pos(f.Pos())+" ["+fname(f)+"]", !t.g.without("update-", "again", "«recv.score := "), "a part of them stays in the score although the evaluation failed")
	}
	again := "call:model.NewScore()"
	replay := "no-player | " + strings.ReplaceAll(reset, "REST", fresh+" ("+back("no-playerBACK | "+strings.Replace(steps, "SEND", strings.Replace(play, "THEN", "done", 1), 1), "{text-back score-back index-back}")+")")
	for _, x := range []struct {
		name     string
		from, to int // 0: not given, 1: a string, 2: something else
		opts     []string
	}{
		{"replay", 0, 0, nil},
		{"replay from", 1, 0, []string{`call:transmitter.TransmitFrom(as:string(lk(REQ.msg, "from")))`}},
		{"replay to", 0, 1, []string{`call:transmitter.TransmitTo(as:string(lk(REQ.msg, "to")))`}},
		{"replay from and to", 1, 1, []string{`call:transmitter.TransmitFrom(as:string(lk(REQ.msg, "from")))`, `call:transmitter.TransmitTo(as:string(lk(REQ.msg, "to")))`}},
		{"replay from and to mistyped", 2, 2, nil},
	} {
		s := base()
		s.Subst[`lk(REQ.msg, "op")`] = &E{Op: "const", S: `"replay"`, T: types.Typ[types.String]}
		for k, v := range map[string]int{"from": x.from, "to": x.to} {
			s.Assume[`hit(REQ.msg, "`+k+`")`] = v > 0
			s.Assume[`is:string(lk(REQ.msg, "`+k+`"))`] = v == 1
		}
		ev, conds := evaluated("recv.input", again, `""`, "0", x.opts...)
		add(&s, ev, replied("done", nil), shutErr)
		s.Conds = append(s.Conds, conds...)
		p.behaves(r, "answer", x.name, f, s, "("+replay+") again")
	}
	offset := func(s *traceSpec) {
		mv := "call:(transmitter.OSCTransmitter).TransmitOffsetMessage(" + oscT + ", …)"
		s.Events = append(s.Events, [2]string{"move", mv})
		s.Conds = append(s.Conds, noErr("move", mv))
		add(s, refused("not-moved", "call:inv:Error("+mv+")"))
	}
	moved := "move (move- not-movedBACK | move+ THEN)"
	load := func(then string) string {
		return strings.Replace(strings.Replace(steps, "SEND", strings.Replace(play, "THEN", moved, 1), 1), "THEN", then, 1)
	}
	op("load", strings.Replace(needs, "REST", "no-player | "+strings.ReplaceAll(reset, "REST", fresh+" (no-player | "+back(load("done"), "")+")"), 1), func(s *traceSpec) {
		needsCode(s)
		ev, conds := evaluated("as:string("+code+")", again, `""`, "0", "call:transmitter.LoadOnly()")
		add(s, ev, replied("done", nil), shutErr)
		s.Conds = append(s.Conds, conds...)
		offset(s)
	})
	// export
	{
		var file, dir string
		x := base()
		x.Subst[`lk(REQ.msg, "op")`] = &E{Op: "const", S: `"export"`, T: types.Typ[types.String]}
		for _, es := range p.traces(f, x).g.edges {
			for _, e := range es {
				if a := "«call:(transmitter.OSCTransmitter).TransmitMidiExportMessage(" + oscT + ", "; strings.HasPrefix(e.label, a) {
					file = strings.TrimSuffix(strings.TrimPrefix(e.label, a), ")»")
				}
				if a := "«call:os.MkdirTemp("; strings.HasPrefix(e.label, a) {
					dir = strings.TrimSuffix(strings.TrimPrefix(e.label, "«"), "»")
				}
			}
		}
		r.ob("answer", "export: where the file goes", p.pos(f.Pos())+" ["+fname(f)+"]", dir != "" && glob("call:path/filepath.Join(["+dir+", …])", file), "the file is not asked for in a directory made for it")
		all := "{text-back score-back index-back}"
		opened := "open open+ read {close remove} (read- not-read | read+ done)"
		rest := "dir (dir- no-dir | dir+ (remove no-player | ask (ask- remove not-asked | ask+ (open open-)* (open open- remove not-opened | " + opened + "))))"
		op("export", "no-player | "+strings.ReplaceAll(reset, "REST", fresh+" ("+back("no-playerBACK | "+load(rest), all)+")"), func(s *traceSpec) {
			ev, conds := evaluated("recv.input", again, `""`, "0", "call:transmitter.LoadOnly()")
			opens, ask := "call:os.Open("+file+")", "call:(transmitter.OSCTransmitter).TransmitMidiExportMessage("+oscT+", "+file+")"
			hash := func(s string) string { return "call#1:" + strings.TrimPrefix(s, "call:") }
			add(s, ev, shutErr, [][2]string{{"dir", dir}, {"ask", ask}, {"open", opens}, {"read", "call:io.ReadAll(" + opens + ")"}, {"close", "call:(*os.File).Close(" + opens + ")"}, {"remove", "call:os.RemoveAll(" + dir + ")"}},
				refused("no-dir", "call:inv:Error("+hash(dir)+")"), refused("not-asked", "call:inv:Error("+ask+")"), refused("not-opened", "call:inv:Error("+hash(opens)+")"),
				refused("not-read", "call:inv:Error("+hash("call:io.ReadAll("+opens+")")+")"), replied("done", map[string]string{"binary-data": "call:io.ReadAll(" + opens + ")"}))
			s.Conds = append(s.Conds, conds...)
			s.Conds = append(s.Conds, noErr("dir", hash(dir)), noErr("ask", ask), noErr("open", hash(opens)), noErr("read", hash("call:io.ReadAll("+opens+")")))
			offset(s)
		})
	}
	abbreviated([][2]string{{"conv:int32(call:math.Round(val(new:map[*model.Part]float64())))", "END"}}, func() {
		l := p.fn("(*repl.Server).load")
		if l == nil {
			return
		}
		n := p.chosen(r, "answer", "load: where the score ends", rootCtx(l), "{0 | END}", map[string]string{"0": "", "{0 | END}": "F:({0 | END} < END) OR F:({0 | END} <= END) OR T:(END <= {0 | END}) OR T:(END < {0 | END})",
			"END": "T:({0 | END} < END) OR T:({0 | END} <= END) OR F:(END <= {0 | END}) OR F:(END < {0 | END})"})
		for _, e := range p.acts(l) {
			if in(e.Target, "call:math.Max", "call:max") && strings.Contains(text(e.Val), "val(new:map[*model.Part]float64())") {
				n++
			}
		}
		r.ob("answer", "load: where the score ends", p.pos(l.Pos())+" ["+fname(l)+"]", n > 0, "nothing finds where the part that ends last ends")
	})
}

// noErr: the condition that a call gave no error.
func noErr(name, call string) [2]string {
	if call < "nil" {
		return [2]string{name, "(" + call + " == nil)"}
	}
	return [2]string{name, "(nil == " + call + ")"}
}

// replPlayers: what one turn of looking after the player process does.
func replPlayers(p *Prog, r *Report) {
	f := p.fn("(*repl.Server).managePlayers")
	if f == nil {
		r.ob("player", "looking after the player", "", false, "(*repl.Server).managePlayers is gone")
		return
	}
	avail := "call:system.FindAvailablePlayer()"
	p.behaves(r, "player", "finding a player", p.fn("repl.findAvailablePlayer"), traceSpec{Closed: []string{"system.…"}, Events: [][2]string{{"find", avail}, {"ret", "ret " + avail + ", nil"}, {"ret-none", "ret zero, call#1:system.FindAvailablePlayer()"}},
		Conds: [][2]string{noErr("found", "call#1:system.FindAvailablePlayer()")}}, "(find found-)* find (found+ ret | found- ret-none)")
	known, found := "call:system.FindPlayerByID(recv.player.ID)", "call:repl.findAvailablePlayer()"
	ping := func(port string) string {
		return "call:(transmitter.OSCTransmitter).TransmitPingMessage(transmitter.OSCTransmitter{Port=" + port + ".Port})"
	}
	hash := func(s string) string { return "call#1:" + strings.TrimPrefix(s, "call:") }
	s := traceSpec{Turn: true, AnyTurn: true, Closed: []string{"system.…", "repl.findAvailablePlayer", "(transmitter.OSCTransmitter).…"},
		Commute: [][]string{{"filled", "pinged"}},
		Events: [][2]string{{"fill", "call:system.FillPlayerPool()"}, {"refresh", known}, {"update", "recv.player := " + known}, {"forget", "recv.player := zero"}, {"find", found}, {"take", "recv.player := " + found},
			{"ping", ping("recv.player")}, {"ping", ping(known)}, {"ping", ping(found)}},
		Conds: [][2]string{noErr("known", hash(known)), noErr("found", hash(found)),
			noErr("pong", ping("recv.player")), noErr("pong", ping(known)), noErr("pong", ping(found)), {"gone", `call:strings.HasPrefix(call:inv:Error(` + hash(known) + `), "No player was found")`}}}
	times := map[string]bool{}
	for c := range p.traces(f, s).conds {
		if i := strings.Index(c, "loop:"); i >= 0 && glob("(… < call:…ime…(…loop:…))", c) {
			times[c[i:strings.LastIndex(c, "()")+2]] = true
		}
	}
	// one turn, in each case: the pool is to be filled, the player is to be asked,
	// there is no player, the one refreshed is none, the one found is none
	turn := func(n int) (string, map[string]bool) {
		fill, ask, none, gone, bad := n&1 != 0, n&2 != 0, n&4 != 0, n&8 != 0, n&16 != 0
		end, pinged := "", "pinged"
		if fill {
			end, pinged = "filled", "{filled pinged}"
		}
		asking := end
		if ask {
			asking = "ping (pong- ping)* (pong+ " + pinged + " | pong- forget " + pinged + ")"
		}
		or := func(c bool, a, b string) string {
			if c {
				return a
			}
			return b
		}
		look := "find (found- END | found+ take " + or(bad, "END", "(ASK)") + ")"
		w := or(none, look, "refresh (known+ update "+or(gone, look, "(ASK)")+" | known- (gone+ forget "+look+" | gone- ASK))")
		w = strings.ReplaceAll(strings.ReplaceAll(w, "END", end), "ASK", asking)
		return or(fill, "fill ", "") + w + " again", map[string]bool{"(0 == recv.player.Port)": none, "(0 == " + known + ".Port)": gone, "(0 == " + found + ".Port)": bad}
	}
	vs := sortedKeys(times)
	if len(vs) == 2 {
		// which of the two times is which
		for i := 0; i < 2; i++ {
			var specs []traceSpec
			var refs []string
			a, b := vs[i], vs[1-i]
			all := true
			for n := 0; n < 32; n++ {
				q := s
				var ref string
				ref, q.Assume = turn(n)
				q.Assume["(… < call:…ime…(…"+a+"))"] = n&1 != 0
				q.Assume["(… < call:…ime…(…"+b+"))"] = n&2 != 0
				q.Events = append(append([][2]string{}, s.Events...), [2]string{"filled", "next " + a + " := call:time.Now()"}, [2]string{"pinged", "next " + b + " := call:time.Now()"})
				specs, refs = append(specs, q), append(refs, ref)
				_, _, same, _ := differ(p.traces(f, q).g, parseTraces(ref))
				all = all && same
			}
			if all || i == 1 {
				for n := range specs {
					p.behaves(r, "player", fmt.Sprintf("looking after the player, case %05b", n), f, specs[n], refs[n])
				}
				return
			}
		}
	}
	r.ob("player", "looking after the player", p.pos(f.Pos())+" ["+fname(f)+"]", false, "the times since the pool was filled and since the player answered are not what the steps depend on")
}

// looped: whether this block is in a loop.
func looped(f *ssa.Function, b *ssa.BasicBlock) bool {
	for _, l := range loopsOf(f) {
		if l.Body[b] {
			return true
		}
	}
	return false
}
