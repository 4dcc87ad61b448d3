package main

import (
	"fmt"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C24"] = checkServer }

func checkServer(p *Prog, r *Report) {
	r.rule("start", "A server that can't listen is an error and leaves nothing; any other writes its files, keeps its state up to date, and handles what it is sent")
	r.rule("files", "The files of a server say what it is and where: the port in the current directory, and its state, which is written once and then kept fresh")
	r.rule("end", "A server that ends leaves no files behind")
	r.rule("command", "alda repl starts what it was asked for, both without being asked, on the port named or on a free one, and closes the server when it ends or is interrupted")
	r.rule("message", "alda repl --message sends one message, which must be an object with an op, prints the answer, and fails when the answer is an error")
	serverStart(p, r)
	serverFiles(p, r)
	serverCommand(p, r)
	serverMessage(p, r)
	r.floor("start", 2)
	r.floor("files", 6)
	r.floor("command", 12)
	r.floor("message", 2)
}

func serverStart(p *Prog, r *Report) {
	made := "call:repl.NewServer(arg0)"
	{
		port := made + ".Port"
		listen := `call:net.Listen("tcp", ("127.0.0.1:" + call:strconv.Itoa(` + port + `)))`
		ports := func(pre string) [][2]string {
			return [][2]string{{"listen", pre + listen}, {"listen", pre + strings.ReplaceAll(listen, port, "arg0")}, {"listen", pre + `call:net.Listen("tcp", call:fmt.Sprintf("127.0.0.1:%d", [` + port + `]))`}, {"listen", pre + `call:net.Listen("tcp", call:net.JoinHostPort("127.0.0.1", call:strconv.Itoa(` + port + `)))`}}
		}
		go1 := func(name, m, rest string) [2]string {
			return [2]string{name, "go (*repl.Server)." + m + "(" + made + rest + ")"}
		}
		ev := append(ports(""), [][2]string{{"new", made}, {"port", `call:(*repl.Server).writePortFile(` + made + ")"}, go1("state", "manageStateFile", ""), go1("players", "managePlayers", ""), go1("serving", "listen", ", call:net.Listen(…)"), go1("handling", "handleRequests", ""),
			{"ret", "ret " + made + ", nil"}, {"ret-err", "ret nil, call#1:net.Listen(…)"}}...)
		p.behaves(r, "start", "starting a server", p.fn("repl.RunServer"), traceSpec{Closed: []string{"repl.NewServer", "(*repl.Server).writePortFile"}, Events: ev,
			Conds:   [][2]string{noErr("listening", "call#1:net.Listen(…)")},
			Commute: [][]string{{"port", "state", "players", "serving", "handling"}},
		}, "new listen (listening- ret-err | listening+ handling players port serving state ret)")
	}
	id := "call:repl.generateId()"
	p.behaves(r, "start", "a new server", p.fn("repl.NewServer"), traceSpec{Closed: []string{"repl.generateId", "(*repl.Server).resetState"}, Events: [][2]string{{"id", id}, {"reset", "call:(*repl.Server).resetState(…)"},
		{"ret", "ret repl.Server{…id=" + id + "…}"}, {"ret", "ret new:repl.Server(…)"}, {"-", "call:…"}}}, "id reset ret")
}

func serverFiles(p *Prog, r *Report) {
	file := `call:path/filepath.Join([system.CacheDir, "state", "repl-servers", (recv.id + ".json")])`
	p.behaves(r, "files", "where the state is", p.fn("(*repl.Server).stateFile"), traceSpec{Events: [][2]string{{"ret", "ret " + file}}}, "ret")
	state := "call:encoding/json.Marshal(system.REPLServerState{ID=recv.id, PID=call:os.Getpid(), Port=recv.Port})"
	p.behaves(r, "files", "writing the state", p.fn("(*repl.Server).writeStateFile"), traceSpec{Events: [][2]string{{"-", "call:os.Getpid()"}, {"state", state}, {"dir", "call:os.MkdirAll(call:path/filepath.Dir(" + file + "), …)"}, {"write", "call:os.WriteFile(" + file + ", " + state + ", …)"}, {"ret", "ret "}},
		Conds: [][2]string{noErr("known", hashOf(state))}}, "state (known- ret | known+ dir write ret)")
	p.behaves(r, "files", "keeping the state fresh", p.fn("(*repl.Server).touchStateFile"), traceSpec{Events: [][2]string{{"touch", "call:os.Chtimes(" + file + ", call:time.Now(), call:time.Now())"}, {"ret", "ret "}}}, "touch ret")
	p.behaves(r, "files", "looking after the state", p.fn("(*repl.Server).manageStateFile"), traceSpec{Turn: true, Closed: []string{"(*repl.Server).writeStateFile", "(*repl.Server).touchStateFile"}, Impure: []string{"time.Sleep"},
		Events: [][2]string{{"write", "call:(*repl.Server).writeStateFile(recv)"}, {"touch", "call:(*repl.Server).touchStateFile(recv)"}, {"-", "call:time.Sleep(…)"}, {"again", "again"}}}, "write touch again")
	manage, fresh := p.fn("(*repl.Server).manageStateFile"), false
	if manage != nil {
		for _, b := range manage.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || !looped(manage, b) {
					continue
				}
				for g := range p.reachable(c.Call.StaticCallee()) {
					fresh = fresh || g == p.fn("(*repl.Server).touchStateFile")
				}
				if calleeName(&c.Call) != "time.Sleep" {
					continue
				}
				if k, ok := c.Call.Args[0].(*ssa.Const); ok {
					r.at("files", "how long the state is left alone", c, k.Int64() <= int64(time.Minute), "files that have not been touched for two minutes are deleted")
				}
			}
		}
	}
	r.ob("files", "the state is kept fresh", "", fresh, "it is not touched again and again")
	port := "call:strconv.Itoa(recv.Port)"
	p.behaves(r, "files", "writing the port", p.fn("(*repl.Server).writePortFile"), traceSpec{Events: [][2]string{{"write", `call:os.WriteFile(".alda-nrepl-port", conv:[]byte(` + port + "), …)"}, {"write", `call:os.WriteFile(".alda-nrepl-port", conv:[]byte(call:fmt.Sprint…([recv.Port])), …)`}, {"ret", "ret "}}}, "write ret")
	p.behaves(r, "end", "closing a server", p.fn("(*repl.Server).Close"), traceSpec{Events: [][2]string{{"port", `call:os.Remove(".alda-nrepl-port")`}, {"state", "call:os.Remove(" + file + ")"}, {"ret", "ret "}}, Commute: [][]string{{"port", "state"}}}, "port state ret")
}

func serverCommand(p *Prog, r *Report) {
	cs := p.commands()
	p.flagsOf(cs)
	c := cs["repl"]
	if c == nil || c.run["RunE"] == nil {
		r.ob("command", "alda repl", "", false, "there is no such command anymore")
		return
	}
	v := func(f string) string { return c.flags[f].variable }
	host, port, client, server, message := v("host"), v("port"), v("client"), v("server"), v("message")
	for m := 0; m < 16; m++ {
		msg, cl, sv, named := m&8 != 0, m&4 != 0, m&2 != 0, m&1 != 0
		as := map[string]bool{client: cl, server: sv}
		for _, x := range []string{`("" == ` + message + ")", "(" + message + ` == "")`, "(call:len(" + message + ") == 0)", "(0 == call:len(" + message + "))"} {
			as[x] = !msg
		}
		as["(0 < call:len("+message+"))"] = msg
		for _, x := range []string{"(-1 == " + port + ")", "(" + port + " == -1)"} {
			as[x] = !named
		}
		free := "call:system.FindOpenPort()"
		at := port
		if !named {
			at = free
		}
		if !cl && !sv {
			cl, sv = true, true
		}
		// the port that is found is not -1
		as["(-1 == "+free+")"], as["("+free+" == -1)"] = false, false
		run := "call:repl.RunServer(" + at + ")"
		closing := "call:(*repl.Server).Close(" + run + ")"
		ev := [][2]string{{"free", free}, {"run", run}, {"notify", "call:os/signal.Notify(new:chan os.Signal(…), [2, 15])"}, {"notify", "call:os/signal.Notify(new:chan os.Signal(…), [15, 2])"}, {"close", closing}, {"wait", "recv new:chan os.Signal(…)"},
			{"client", "call:repl.RunClient(" + host + ", " + at + ")"}, {"ret-client", "ret call:repl.RunClient(" + host + ", " + at + ")"}, {"send", "call:cmd.sendREPLMessage(" + host + ", " + port + ", " + message + ")"}, {"ret-send", "ret call:cmd.sendREPLMessage(…)"},
			{"ret-port", "ret cmd.errREPLServerPortUnspecified"}, {"ret-free", "ret " + hashOf(free)}, {"ret-run", "ret " + hashOf(run)}, {"ret", "ret nil"}, {"-", "go"}, {"-", client + " := …"}, {"-", server + " := …"}, {"-", port + " := …"}}
		conds := [][2]string{noErr("found", hashOf(free)), noErr("running", hashOf(run))}
		key, ref := "alda repl", ""
		for _, x := range []struct {
			on   bool
			name string
		}{{m&4 != 0, " --client"}, {m&2 != 0, " --server"}, {named, " --port"}, {msg, " --message"}} {
			if x.on {
				key += x.name
			}
		}
		switch {
		case msg && named:
			ref = "send ret-send"
		case msg:
			ref = "ret-port"
		case !sv && !named:
			ref = "ret-port"
		case !sv:
			ref = "client ret-client"
		default:
			rest := "notify wait close close ret" // closing twice does no harm
			if cl {
				rest = "notify wait close client close ret-client"
			}
			ref = "run (running- ret-run | running+ " + rest + ")"
			if !named {
				ref = "free (found- ret-free | found+ " + ref + ")"
			}
		}
		p.behaves(r, "command", key, c.run["RunE"], traceSpec{Assume: as, Recvs: true, GoInline: true, Closed: []string{"repl.RunServer", "repl.RunClient", "(*repl.Server).Close", "system.FindOpenPort", "cmd.sendREPLMessage"}, Events: ev, Conds: conds}, ref)
	}
	l := `call:net.Listen("tcp", "…:0")`
	addr := "call:inv:String(call:inv:Addr(" + l + "))"
	digits := "slice(" + addr + `, (1 + call:strings.LastIndex(` + addr + `, ":")), _)`
	n := "call:strconv.ParseInt(" + digits + ", 10, …)"
	a := "call:strconv.Atoi(" + digits + ")"
	ev := [][2]string{{"listen", l}, {"close", "call:inv:Close(" + l + ")"}, {"ret", "ret conv:int(" + n + "), nil"}, {"ret", "ret " + a + ", nil"}, {"ret-err", "ret 0, …"}}
	p.behaves(r, "command", "a free port is free afterwards", p.fn("system.FindOpenPort"), traceSpec{Pure: []string{"inv:Addr", "inv:String"}, Events: ev, Conds: [][2]string{noErr("open", hashOf(l))}}, "listen (open- ret-err | open+ close (ret | ret-err))")
	ev[1][0] = "-"
	p.behaves(r, "command", "a free port", p.fn("system.FindOpenPort"), traceSpec{Pure: []string{"inv:Addr", "inv:String"}, Events: ev, Conds: [][2]string{noErr("open", hashOf(l)), noErr("number", hashOf(n)), noErr("number", hashOf(a))}},
		"listen (open- ret-err | open+ (number- ret-err | number+ ret))")
}

func serverMessage(p *Prog, r *Report) {
	parsed := "call:json.ParseJSON(conv:[]byte(arg2))"
	data := "call:" + gabs + "Data(" + parsed + ")"
	msg := "as:map[string]interface{}(" + data + ")"
	sent := "call:repl.SendMessage(arg0, arg1, " + msg + ")"
	errs := "call:repl.ResponseErrors(" + sent + ")"
	p.behaves(r, "message", "sending a message", p.fn("cmd.sendREPLMessage"), traceSpec{Closed: []string{"json.ParseJSON", "repl.SendMessage", "repl.ResponseErrors", "cmd.errInvalid…"}, Pure: []string{"json.ParseJSON", "(*github.com/Jeffail…", "github.com/Jeffail…", "repl.ResponseErrors", "cmd.errInvalid…"},
		Events: [][2]string{{"send", sent}, {"print", "call:fmt.Println([call:github.com/Jeffail/gabs/v2.Wrap(" + sent + ")])"}, {"ret-bad", "ret call:cmd.errInvalid…(arg2)"}, {"ret-send", "ret " + hashOf(sent)}, {"ret-err", "ret help.UserFacingError{…"}, {"ret", "ret nil"}, {"-", "call:" + parsed[5:]}},
		Conds:  [][2]string{noErr("json", hashOf(parsed)), {"object", "is:map[string]interface{}(" + data + ")"}, {"object", "ok:…(" + data + ")"}, {"op", "hit(" + msg + `, "op")`}, noErr("sent", hashOf(sent)), {"problems", "(0 < call:len(" + errs + "))"}},
	}, "(json- ret-bad | json+ (object- ret-bad | object+ (op- ret-bad | op+ send (sent- ret-send | sent+ print (problems+ ret-err | problems- ret)))))")
	new1 := "call:repl.NewClient(arg0, arg1)"
	start, ask, end := "call:(*repl.Client).StartSession("+new1+")", "call:(*repl.Client).sendRequest("+new1+", arg2, …)", "call:(*repl.Client).Disconnect("+new1+")"
	p.behaves(r, "message", "one message", p.fn("repl.SendMessage"), traceSpec{Closed: []string{"repl.NewClient", "(*repl.Client).…"}, Events: [][2]string{{"new", new1}, {"start", start}, {"ask", ask}, {"end", end}, {"ret-err", "ret nil, call#1:repl.NewClient(…)"}, {"ret-err", "ret nil, " + hashOf(start)}, {"ret", "ret " + ask + ", " + hashOf(ask)}, {"-", fmt.Sprint("call:(*repl.Client).Close(…")}},
		Conds: [][2]string{noErr("made", hashOf(new1)), noErr("started", hashOf(start))}}, "new (made- ret-err | made+ start (started- end ret-err | started+ ask end ret))")
}
