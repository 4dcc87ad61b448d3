package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = checkReplClient }

func checkReplClient(p *Prog, r *Report) {
	r.rule("requests", "A request is sent once, with an id of its own and the session; its answer is the one with that id, within half a minute; after a failure the connection is not used anymore")
	r.rule("session", "A session is only started with an Alda server that can evaluate code; the connection is closed in the end")
	r.rule("problems", "An answer with the status error is an error, with all of the problems; no other is")
	r.rule("commands", "Each command asks for what it says, with the arguments it was given, and nothing when they are wrong; a file is only written with what the server has answered")
	r.rule("prompt", "Each line is a command or code, and is handled once; the session ends at quit, exit, bye, the end of the input or an interrupted empty line, and only then")
	clientRequests(p, r)
	clientSession(p, r)
	clientProblems(p, r)
	clientCommands(p, r)
	clientPrompt(p, r)
}

const (
	clientSend  = "call:(*repl.Client).sendRequest"
	clientSplit = "call:github.com/google/shlex.Split(arg1)"
)

func clientRequests(p *Prog, r *Report) {
	id := "call:(github.com/google/uuid.UUID).String(call:github.com/google/uuid.New())"
	conn := "recv.serverConn"
	connect := "call:(*repl.Client).connect(recv)"
	write := "call:github.com/jackpal/bencode-go.Marshal(" + conn + ", arg0)"
	read := "call:github.com/jackpal/bencode-go.Decode(" + conn + ")"
	res := "as:map[string]interface{}(" + read + ")"
	body := func(print string) string {
		return "(has-session+ {session id} | has-session- id) (connected- connect connect- unconnected | (connected+ | connected- connect connect+) write (write- drop unwritten | write+ limit read (read- drop unread | read+ (map- drop refused | map+ (same- drop refused | same+ " + print + " answer)))))"
	}
	p.behaves(r, "requests", "sending one", p.fn("(*repl.Client).sendRequest"), traceSpec{
		Closed:   []string{"(*repl.Client).connect", "(*repl.Client).Disconnect", "repl.printResponseErrors", "repl.ResponseErrors"},
		Impure:   []string{"inv:SetReadDeadline", "(*github.com/google/uuid…", "github.com/google/uuid…"},
		Pure:     []string{"(github.com/google/uuid.UUID).String"},
		Volatile: []string{conn},
		Mut:      map[string][]int{"dyn…": {1}},
		Commute:  [][]string{{"session", "id"}},
		Events: [][2]string{{"option", "call:dyn(elem(arg1), …"}, {"session", `arg0["session"] := recv.sessionID`}, {"-", "call:github.com/google/uuid.New()"}, {"id", `arg0["id"] := ` + id},
			{"connect", connect}, {"unconnected", "ret nil, " + connect}, {"write", write}, {"limit", "call:inv:SetReadDeadline(" + conn + ", call:(time.Time).Add(call:time.Now(), 30000000000))"},
			{"read", read}, {"drop", "call:(*repl.Client).Disconnect(recv)"}, {"unwritten", "ret nil, " + write}, {"unread", "ret nil, " + hashOf(read)}, {"refused", "ret nil, call:fmt.Errorf(…"},
			{"print", "call:repl.printResponseErrors(" + res + ")"}, {"answer", "ret " + res + ", nil"}},
		Conds: [][2]string{{"has-session", "(0 < call:len(recv.sessionID))"}, {"-", "(… < call:len(arg1))"}, {"!connected", isNil(conn)}, noErr("connect", connect), noErr("write", write), noErr("read", hashOf(read)),
			{"map", "is:map[string]interface{}(" + read + ")"}, {"same", `(` + id + ` == lk(` + res + `, "id"))`}, {"quiet", "….suppressErrorPrinting"}},
	}, "("+body("print")+" | option option* ("+body("(quiet+ | quiet- print)")+"))")
}

func clientSession(p *Prog, r *Report) {
	dial := `call:net.DialTCP("tcp", nil, recv.serverAddr)`
	p.behaves(r, "requests", "connecting", p.fn("(*repl.Client).connect"), traceSpec{Closed: []string{"(*repl.Client).Disconnect"},
		Events: [][2]string{{"drop", "call:(*repl.Client).Disconnect(recv)"}, {"dial", dial}, {"keep", "recv.serverConn := " + dial}, {"ret", "ret nil"}, {"ret-err", "ret help.UserFacingError{…"}, {"-", "call:inv:…(color.Aurora, …"}},
		Conds:  [][2]string{noErr("dial", hashOf(dial))}},
		"drop dial (dial- dial)* (dial+ keep ret | dial- ret-err)")
	p.behaves(r, "requests", "leaving a connection", p.fn("(*repl.Client).Disconnect"), traceSpec{
		Events: [][2]string{{"close", "call:inv:Close(recv.serverConn)"}, {"none", "recv.serverConn := nil"}, {"ret", "ret "}},
		Conds:  [][2]string{{"!connected", "(nil == recv.serverConn)"}}},
		"connected- ret | connected+ close none ret")

	addr := `call:net.ResolveTCPAddr("tcp", call:fmt.Sprintf("%s:%d", [arg0, arg1]))`
	client := "repl.Client{running=true, serverAddr=" + addr + "}"
	on := "call:(*repl.Client).connect(" + client + ")"
	p.behaves(r, "session", "a new client", p.fn("repl.NewClient"), traceSpec{Closed: []string{"(*repl.Client).connect"},
		Events: [][2]string{{"resolve", addr}, {"connect", on}, {"ret", "ret " + client + ", nil"}, {"unresolved", "ret nil, " + hashOf(addr)}, {"unconnected", "ret nil, " + on}},
		Conds:  [][2]string{noErr("resolve", hashOf(addr)), noErr("connect", on)}},
		"resolve (resolve- unresolved | resolve+ connect (connect- unconnected | connect+ ret))")
	ask := func(op string) string { return clientSend + `(recv, map{"op": "` + op + `"}, nil)` }
	clone, describe := ask("clone"), ask("describe")
	alda := "as:map[string]interface{}(lk(" + describe + `, "versions"))`
	ops := "as:map[string]interface{}(lk(" + describe + `, "ops"))`
	p.behaves(r, "session", "starting one", p.fn("(*repl.Client).StartSession"), traceSpec{Closed: []string{"(*repl.Client).sendRequest"},
		Assume: map[string]bool{isNil("repl.errNotAnAldaServer"): false},
		Events: [][2]string{{"clone", clone}, {"describe", describe}, {"session", "recv.sessionID := as:string(lk(" + clone + `, "new-session"))`},
			{"not-cloned", "ret nil, " + hashOf(clone)}, {"not-described", "ret nil, " + hashOf(describe)}, {"other-server", "ret nil, repl.errNotAnAldaServer"}, {"no-evaluation", "ret nil, repl.errEvalAndPlayNotSupported"}, {"ret", "ret " + describe + ", nil"}},
		Conds: [][2]string{noErr("cloned", hashOf(clone)), noErr("described", hashOf(describe)), {"given", "is:string(lk(" + clone + `, "new-session"))`}, {"versions", "is:map[string]interface{}(lk(" + describe + `, "versions"))`},
			{"alda", "is:map[string]interface{}(lk(" + alda + `, "alda"))`}, {"ops", "is:map[string]interface{}(lk(" + describe + `, "ops"))`}, {"evaluates", "hit(" + ops + `, "eval-and-play")`}}},
		"clone (cloned- not-cloned | cloned+ (given+ session | given-) describe (described- not-described | described+ (versions- other-server | versions+ (alda- other-server | alda+ (ops- no-evaluation | ops+ (evaluates- no-evaluation | evaluates+ ret))))))")
	made := "call:repl.NewClient(arg0, arg1)"
	start := "call:(*repl.Client).StartSession(" + made + ")"
	sent := clientSend + "(" + made + ", arg2, [repl.suppressErrorPrinting$1])"
	closed := "call:(*repl.Client).Disconnect(" + made + ")"
	p.behaves(r, "session", "one message", p.fn("repl.SendMessage"), traceSpec{Closed: []string{"(*repl.Client).…", "repl.NewClient"},
		Events: [][2]string{{"new", made}, {"start", start}, {"send", sent}, {"close", closed}, {"not-made", "ret nil, " + hashOf(made)}, {"not-started", "ret nil, " + hashOf(start)}, {"ret", "ret " + sent + ", " + hashOf(sent)}},
		Conds:  [][2]string{noErr("new", hashOf(made)), noErr("start", hashOf(start))}},
		"new (new- not-made | new+ start (start- close not-started | start+ send close ret))")
}

func clientProblems(p *Prog, r *Report) {
	statuses, problems := `as:[]interface{}(lk(arg0, "status"))`, `as:[]interface{}(lk(arg0, "problems"))`
	whole := `ret [call:fmt.Sprintf("%#v", [arg0])]`
	told := "(problems- whole | problems+ (some- whole | some+ (is-text+ text | is-text- other)* ret))"
	p.behaves(r, "problems", "those of an answer", p.fn("repl.ResponseErrors"), traceSpec{Builds: []string{"string"}, Maybe: "statuses+ error-* error+ (error+ | error-)* " + told,
		Events: [][2]string{{"whole", whole}, {"none", "ret nil"}, {"text", "add as:string(elem(" + problems + "))"}, {"other", `add call:fmt.Sprintf("%#v", [elem(` + problems + `)])`}, {"ret", "ret …"}},
		Conds: [][2]string{{"statuses", `is:[]interface{}(lk(arg0, "status"))`}, {"-", "(… < call:len(" + statuses + "))"}, {"error", `("error" == elem(` + statuses + "))"},
			{"problems", `is:[]interface{}(lk(arg0, "problems"))`}, {"some", "(0 < call:len(" + problems + "))"}, {"-", "(… < call:len(" + problems + "))"}, {"is-text", "is:string(elem(" + problems + "))"}}},
		"statuses- whole | statuses+ error-* (none | error+ "+told+")")
	of := "call:repl.ResponseErrors(arg0)"
	p.behaves(r, "problems", "telling of them", p.fn("repl.printResponseErrors"), traceSpec{Closed: []string{"repl.ResponseErrors"},
		Events: [][2]string{{"get", of}, {"one", `call:fmt.Fprintf(os.Stderr, "ERROR: %s\n", [ix(` + of + ", 0)])"}, {"title", `call:fmt.Fprintln(os.Stderr, ["ERRORS:"])`}, {"each", "call:fmt.Fprintln(os.Stderr, [elem(" + of + ")])"}, {"ret", "ret "}},
		Conds:  [][2]string{{"one", "(1 == call:len(" + of + "))"}, {"some", "(0 < call:len(" + of + "))"}, {"-", "(… < call:len(" + of + "))"}}},
		"get (some- ret | some+ (one+ one ret | one- title each* ret))")
}

// clientRuns: what each of the commands runs, by its name: the entries of the
// table that a command is looked up in.
func clientRuns(p *Prog) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, f := range p.funcsIn("repl") {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				mu, ok := ins.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k, isK := mu.Key.(*ssa.Const)
				u, isU := mu.Value.(*ssa.UnOp)
				if !isK || !isU || u.X.Referrers() == nil {
					continue
				}
				for _, ref := range *u.X.Referrers() {
					fa, ok := ref.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					for _, use := range *fa.Referrers() {
						st, ok := use.(*ssa.Store)
						if !ok {
							continue
						}
						if fn := funcOf(st.Val); fn != nil && fn.Signature.Params().Len() == 2 && strings.HasSuffix(fn.Signature.Params().At(0).Type().String(), "repl.Client") {
							out[strings.Trim(constStr(k), `"`)] = fn
						}
					}
				}
			}
		}
	}
	return out
}

func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		fn, _ := x.Fn.(*ssa.Function)
		return fn
	case *ssa.ChangeType:
		return funcOf(x.X)
	}
	return nil
}

const sendPart = "send (send- failed | send+ "

// sendError: the error of the request that is sent.
func sendError(s traceSpec) string {
	for _, e := range s.Events {
		if e[0] == "failed" {
			return strings.TrimPrefix(e[1], "ret ")
		}
	}
	return ""
}

// asks: the request with this operation, as a command sends it.
func asks(op string, with ...string) string {
	m := []string{`"op": "` + op + `"`}
	for i := 0; i < len(with); i += 2 {
		m = append(m, `"`+with[i]+`": `+with[i+1])
	}
	sort.Strings(m)
	return clientSend + "(arg0, map{" + strings.Join(m, ", ") + "}, nil)"
}

func clientCommands(p *Prog, r *Report) {
	p.behaves(r, "commands", "looking one up", p.fn("(*repl.Client).handleCommand"), traceSpec{
		Events: [][2]string{{"run", "call:dyn(lk(repl.replCommands, arg0).run, recv, arg1)"}, {"ret", "ret call:dyn(lk(repl.replCommands, arg0).run, recv, arg1)"}, {"unknown", "ret call:fmt.Errorf(…"}},
		Conds:  [][2]string{{"known", "hit(repl.replCommands, arg0)"}}},
		"known- unknown | known+ run ret")
	runs := clientRuns(p)
	list := func(vs ...string) *E {
		e := &E{Op: "slicelit"}
		for _, v := range vs {
			e.A = append(e.A, &E{Op: "const", S: `"` + v + `"`, T: types.Typ[types.String]})
		}
		return e
	}
	printed := []string{"parser.HumanReadableAST", "repl.printPartsInfo", "repl.printScoreInfo"}
	run := func(key, name string, args []string, s traceSpec, ref string) {
		s.Closed = append([]string{"(*repl.Client).sendRequest", "json.…", "(*json.…"}, printed...)
		s.Assume = merged(map[string]bool{isNil(hashOf(clientSplit)): args != nil, isNil("repl.errNotAnAldaServer"): false}, s.Assume)
		s.Pure = append(s.Pure, "github.com/google/shlex.Split")
		if args != nil {
			s.Subst = map[string]*E{clientSplit: list(args...)}
		}
		s.Events = append(s.Events, [2]string{"ret", "ret nil"}, [2]string{"refused", "ret call:fmt.Errorf(…"}, [2]string{"unread", "ret " + hashOf(clientSplit)})
		what := ":" + name
		if key != "" {
			what += " (" + key + ")"
		}
		if s.Conds == nil || !strings.Contains(ref, sendPart) {
			p.behaves(r, "commands", what, runs[name], s, ref)
			return
		}
		// whether or not the request fails
		from := strings.Index(ref, sendPart)
		body := ref[from+len(sendPart):]
		depth, n := 1, 0
		for ; depth > 0; n++ {
			depth += map[byte]int{'(': 1, ')': -1}[body[n]]
		}
		fails := isNil(sendError(s))
		for ok, to := range map[bool]string{true: "send " + body[:n-1], false: "send failed"} {
			c := s
			c.Assume = merged(s.Assume, map[string]bool{fails: ok})
			p.behaves(r, "commands", what+map[bool]string{true: "", false: ", the request failing"}[ok], runs[name], c, ref[:from]+to+body[n:])
		}
	}
	// each command that takes arguments refuses what cannot be split, and too many
	for name, max := range map[string]int{"export": 1, "load": 1, "save": 1, "score": 1} {
		run("what cannot be read", name, nil, traceSpec{}, "unread")
		run("too many", name, []string{"a", "b", "c"}[:max+1], traceSpec{}, "refused")
	}
	run("what cannot be read", "play", nil, traceSpec{}, "unread")
	run("what cannot be read", "help", nil, traceSpec{}, "unread")
	// sends: what is sent, and what is done with the answer
	sends := func(req string, s traceSpec, body string) (traceSpec, string) {
		s.Events = append(s.Events, [2]string{"send", req}, [2]string{"failed", "ret " + hashOf(req)})
		s.Conds = append(s.Conds, noErr("send", hashOf(req)))
		return s, sendPart + body + ")"
	}
	for name, op := range map[string]string{"new": "new-score", "stop": "stop"} {
		s, ref := sends(asks(op), traceSpec{}, "ret")
		run("", name, []string{}, s, ref)
	}
	for _, args := range [][]string{{}, {"from", "A"}, {"to", "B"}, {"from", "A", "to", "B"}, {"to", "B", "from", "A"}, {"from"}, {"to"}, {"from", "A", "to"}, {"from", "A", "from", "B"}, {"to", "A", "to", "B"}, {"A"}, {"A", "B"}, {"from", "A", "B"}, {"from", "to"}} {
		var with []string
		bad := len(args)%2 == 1
		for i := 0; i+1 < len(args); i += 2 {
			bad = bad || !in(args[i], "from", "to") || in(args[i], with...)
			with = append(with, args[i], `"`+args[i+1]+`"`)
		}
		if bad {
			run(strings.Join(args, " "), "play", args, traceSpec{}, "refused")
			continue
		}
		s, ref := sends(asks("replay", with...), traceSpec{}, "ret")
		run(strings.Join(args, " "), "play", args, s, ref)
	}
	run("", "quit", []string{}, traceSpec{Events: [][2]string{{"quit", "arg0.running := false"}}}, "quit ret")

	// files
	data := `as:string(lk(` + asks("export") + `, "binary-data"))`
	write := `call:os.WriteFile("a", conv:[]byte(` + data + "), 420)"
	s, ref := sends(asks("export"), traceSpec{Events: [][2]string{{"write", write}, {"written", "ret " + write}}, Conds: [][2]string{{"data", "is:string(lk(" + asks("export") + `, "binary-data"))`}}}, "(data- refused | data+ write written)")
	run("a file", "export", []string{"a"}, s, ref)
	run("no file", "export", []string{}, traceSpec{}, "refused")
	for _, c := range []struct {
		key  string
		args []string
		path string
		note string
		cond string
	}{{"a file", []string{"a"}, `"a"`, "note ", ""}, {"the same file", []string{}, "arg0.inputFilepath", "", "known+ "}} {
		none := ""
		if c.cond != "" {
			none = "known- refused | "
		}
		base := traceSpec{Events: [][2]string{{"note", "arg0.inputFilepath := " + c.path}}, Conds: [][2]string{{"known", "(0 < call:len(arg0.inputFilepath))"}}}
		read := "call:os.ReadFile(" + c.path + ")"
		l := base
		l.Events = append([][2]string{{"read", read}, {"no-file", "ret " + hashOf(read)}}, l.Events...)
		l.Conds = append([][2]string{noErr("read", hashOf(read))}, l.Conds...)
		l, ref := sends(asks("load", "code", "conv:string("+read+")"), l, "ret")
		run(c.key, "load", c.args, l, none+c.cond+c.note+"read (read- no-file | read+ "+ref+")")
		text := `as:string(lk(` + asks("score-text") + `, "text"))`
		write := "call:os.WriteFile(" + c.path + ", conv:[]byte(" + text + "), 420)"
		w := base
		w.Events = append([][2]string{{"write", write}, {"written", "ret " + write}}, w.Events...)
		w.Conds = append([][2]string{{"text", "is:string(lk(" + asks("score-text") + `, "text"))`}}, w.Conds...)
		w, ref = sends(asks("score-text"), w, "(text- refused | text+ write written)")
		run(c.key, "save", c.args, w, none+c.cond+c.note+ref)
	}

	// the score
	shows := func(op, field string, show func(data string) string) (traceSpec, string) {
		res := asks(op)
		text := "as:string(lk(" + res + `, "` + field + `"))`
		data := "call:json.ParseJSON(conv:[]byte(" + text + "))"
		s, ref := traceSpec{Conds: [][2]string{{"given", "is:string(lk(" + res + `, "` + field + `"))`}}}, ""
		if field == "text" {
			s.Events = [][2]string{{"show", "call:fmt.Println([" + text + "])"}}
			ref = "(given- refused | given+ show ret)"
		} else {
			s.Events = [][2]string{{"parse", data}, {"show", "call:fmt.Println([" + show(data) + "])"}, {"-", show(data)}, {"unparsed", "ret " + hashOf(data)}}
			s.Conds = append(s.Conds, noErr("parse", hashOf(data)))
			ref = "(given- refused | given+ parse (parse- unparsed | parse+ show ret))"
		}
		return sends(res, s, ref)
	}
	indented := func(d string) string {
		return "call:(*github.com/Jeffail/gabs/v2.Container).StringIndent(" + d + `, "", "  ")`
	}
	for _, c := range []struct {
		args      []string
		op, field string
		show      func(string) string
	}{{[]string{}, "score-text", "text", nil}, {[]string{"text"}, "score-text", "text", nil}, {[]string{"data"}, "score-data", "data", indented}, {[]string{"events"}, "score-events", "events", indented},
		{[]string{"ast"}, "score-ast", "ast", func(d string) string { return "call:parser.HumanReadableAST(" + d + ")" }}} {
		s, ref := shows(c.op, c.field, c.show)
		run(strings.Join(c.args, " "), "score", c.args, s, ref)
	}
	run("anything else", "score", []string{"else"}, traceSpec{}, "refused")
	scoreData := "call:json.ParseJSON(conv:[]byte(as:string(lk(" + asks("score-data") + `, "data"))))`
	for _, c := range []struct {
		name, how string
		args      []string
	}{{"score", "call:repl.printScoreInfo(" + scoreData + ")", []string{"info"}}, {"parts", `call:repl.printPartsInfo(call:(*github.com/Jeffail/gabs/v2.Container).Search(` + scoreData + `, ["parts"]))`, []string{}}} {
		s, ref := sends(asks("score-data"), traceSpec{Events: [][2]string{{"parse", scoreData}, {"unparsed", "ret " + hashOf(scoreData)}, {"show", c.how}, {"shown", "ret " + c.how}, {"-", "call:fmt.Println(nil)"}, {"-", "call:(*github.com/Jeffail…"}},
			Conds: [][2]string{{"given", "is:string(lk(" + asks("score-data") + `, "data"))`}, noErr("parse", hashOf(scoreData)), {"!parts", "(call:(*github.com/Jeffail/gabs/v2.Container).Data(…) == nil)"}}},
			"(given- refused | given+ parse (parse- unparsed | parse+ "+map[string]string{"score": "show shown", "parts": "(parts- refused | parts+ show ret)"}[c.name]+"))")
		run(strings.Join(c.args, " "), c.name, c.args, s, ref)
	}
	names := "as:[]interface{}(lk(" + asks("instruments") + `, "instruments"))`
	s, ref = sends(asks("instruments"), traceSpec{Events: [][2]string{{"each", "call:fmt.Println([elem(" + names + ")])"}}, Conds: [][2]string{{"given", "is:[]interface{}(lk(" + asks("instruments") + `, "instruments"))`}, {"-", "(… < call:len(" + names + "))"}}}, "(given- refused | given+ each* ret)")
	run("", "instruments", []string{}, s, ref)
	versions := "as:map[string]interface{}(lk(" + asks("describe") + `, "versions"))`
	alda := "as:map[string]interface{}(lk(" + versions + `, "alda"))`
	s, ref = sends(asks("describe"), traceSpec{Events: [][2]string{{"client", `call:fmt.Printf("Client version: %s\n", …`}, {"server", `call:fmt.Printf("Server version: %s\n", [as:string(lk(` + alda + `, "version-string"))])`}, {"other-server", "ret repl.errNotAnAldaServer"}},
		Conds: [][2]string{{"versions", "is:map[string]interface{}(lk(" + asks("describe") + `, "versions"))`}, {"alda", "is:map[string]interface{}(lk(" + versions + `, "alda"))`}, {"given", "is:string(lk(" + alda + `, "version-string"))`}}},
		"(versions- other-server | versions+ (alda- other-server | alda+ (given- refused | given+ server ret)))")
	run("", "version", []string{}, s, "client "+ref)
	entry := `lk(repl.replCommands, "play")`
	run("a command", "help", []string{"play"}, traceSpec{Events: [][2]string{{"summary", "call:fmt.Println([(" + entry + ".helpSummary + …"}, {"details", "call:fmt.Println([(" + entry + ".helpDetails + …"}},
		Subst: nil, Conds: [][2]string{{"known", `hit(repl.replCommands, "play")`}, {"details", "(0 < call:len(" + entry + ".helpDetails))"}}}, "known- refused | known+ summary (details+ details ret | details- ret)")
}

func clientPrompt(p *Prog, r *Report) {
	made := "call:repl.NewClient(arg0, arg1)"
	start := "call:(*repl.Client).StartSession(" + made + ")"
	dir := "call:os.MkdirAll(call:path/filepath.Dir(repl.replHistoryFilepath), …"
	console := "call:github.com/chzyer/readline.NewEx(…"
	line := "call:(*github.com/chzyer/readline.Instance).Readline(" + console
	input := "call:strings.TrimSpace(" + line + ")"
	parts := "call:(*regexp.Regexp).FindStringSubmatch(call:regexp.MustCompile(…), " + input + ")"
	command := "call:(*repl.Client).handleCommand(" + made + ", ix(" + parts + ", 1), ix(" + parts + ", 2))"
	code := clientSend + "(" + made + `, map{"code": ` + input + `, "op": "eval-and-play"}, nil)`
	word := func(w string) string { return `("` + w + `" == ` + input + ")" }
	cond := func(e string) string { return "(" + hashOf(line) + " == " + e + ")" }
	end := "close-console close ret"
	evaluate := "code (done+ again | done- error again)"
	for i := 0; i < 3; i++ {
		evaluate = "(word+ quit again | word- " + evaluate + ")"
	}
	for _, c := range []struct {
		key            string
		interrupt, eof bool
		ref            string
	}{{"a line", false, false, "(some- again | some+ (colon- " + evaluate + " | colon+ (more- " + evaluate + " | more+ (matched- error again | matched+ command (done+ again | done- error again)))))"},
		{"an interrupt", true, false, "(some+ again | some- " + end + ")"}, {"the end of the input", false, true, end}} {
		p.behaves(r, "prompt", c.key, p.fn("repl.RunClient"), traceSpec{Turn: true,
			Closed:   []string{"repl.NewClient", "(*repl.Client).…", "repl.serverVersion", "system.StartingPlayerProcesses"},
			Volatile: []string{made + ".running"},
			Assume:   map[string]bool{isNil("call#1:repl.serverVersion(…"): true, cond("github.com/chzyer/readline.ErrInterrupt"): c.interrupt, cond("io.EOF"): c.eof},
			Events: [][2]string{{"new", made}, {"start", start}, {"version", "call:repl.serverVersion(…"}, {"dir", dir}, {"console", console}, {"read", line}, {"command", command}, {"code", code}, {"quit", made + ".running := false"},
				{"error", `call:fmt.Printf("ERROR: %s\n", [call…`}, {"error", "call:fmt.Println([\"ERROR…"}, {"close-console", "call:(*github.com/chzyer/readline.Instance).Close(…"}, {"close", "call:(*repl.Client).Disconnect(" + made + ")"},
				{"ret", "ret nil"}, {"ret-err", "ret …"}, {"again", "again"}, {"-", "…"}},
			Conds: [][2]string{noErr("new", hashOf(made)), noErr("start", hashOf(start)), noErr("dir", dir), noErr("console", hashOf(console)), {"running", made + ".running"},
				{"some", "(0 < call:len(" + line + "))"},
				{"colon", "call:strings.HasPrefix(" + input + `, ":")`}, {"more", "(1 < call:len(" + input + "))"}, {"!matched", "(call:len(" + parts + ") < 3)"}, noErr("done", command), noErr("done", hashOf(code)),
				{"word", word("quit")}, {"word", word("exit")}, {"word", word("bye")}}},
			"new (new- ret-err | new+ start (start- close ret-err | start+ version dir (dir- close ret-err | dir+ console (console- close ret-err | console+ (running- "+end+" | running+ read "+c.ref+")))))")
	}
	n := 0
	for g := range p.reachable(p.fn("repl.RunClient")) {
		if relPkg(g) != "repl" {
			continue
		}
		for c, pats := range p.patterns(g) {
			for _, pat := range pats {
				n++
				ok, why := sameMatches(pat, commandLine)
				r.at("prompt", "what a command looks like: "+fname(g), c, ok, "it differs from "+commandLine+" for "+why)
			}
		}
	}
	r.ob("prompt", "what a command looks like", "", n > 0, "there is no pattern for it any more")
}

const commandLine = `^:([^ ]+) ?(.*)$`
