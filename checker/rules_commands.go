package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = checkCommands }

// A command of the command line: the functions it runs, by field.
type command struct {
	name, global string
	run          map[string]*ssa.Function
	flags        map[string]flagOf
}

type flagOf struct{ variable, kind, short, def string }

// commands finds the commands where their fields are set, by the first word of
// how they are used.
func (p *Prog) commands() map[string]*command {
	out := map[string]*command{}
	at := map[ssa.Value]*command{}
	of := func(v ssa.Value) *command {
		if at[v] == nil {
			at[v] = &command{run: map[string]*ssa.Function{}, flags: map[string]flagOf{}}
		}
		return at[v]
	}
	p.inits(func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if g, ok := st.Addr.(*ssa.Global); ok && isCommand(st.Val) {
					of(st.Val).global = g.Pkg.Pkg.Name() + "." + g.Name()
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isCommand(fa.X) {
					continue
				}
				switch v := unwrapFn(st.Val).(type) {
				case *ssa.Const:
					if fieldName(fa) == "Use" && v.Value != nil {
						of(fa.X).name, _, _ = strings.Cut(constant.StringVal(v.Value), " ")
					}
				case *ssa.Function:
					of(fa.X).run[fieldName(fa)] = v
				case *ssa.MakeClosure:
					of(fa.X).run[fieldName(fa)] = v.Fn.(*ssa.Function)
				}
			}
		}
	})
	for _, c := range at {
		if c.name != "" {
			out[c.name] = c
		}
	}
	return out
}

func isCommand(v ssa.Value) bool {
	return strings.HasSuffix(typeName(derefType(v.Type())), "cobra.Command")
}

// inits: the functions that run before main does, and what they call of theirs.
func (p *Prog) inits(f func(*ssa.Function)) {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if seen[g] || g.Pkg == nil || len(g.Blocks) == 0 {
			return
		}
		seen[g] = true
		f(g)
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok {
					if h := c.Call.StaticCallee(); h != nil && h.Pkg == g.Pkg {
						visit(h)
					}
				}
			}
		}
	}
	for _, q := range p.SSA.AllPackages() {
		if q.Pkg.Path() == "alda.io/client/cmd" {
			visit(q.Func("init"))
		}
	}
}

// flagsOf reads the flags, as they are bound before main runs.
func (p *Prog) flagsOf(cs map[string]*command) (known map[string]bool) {
	known = map[string]bool{}
	byGlobal := map[string]*command{}
	for _, c := range cs {
		byGlobal[c.global] = c
	}
	p.inits(func(f *ssa.Function) {
		if f.Name() == "init" || f.Signature.Recv() != nil || !strings.HasPrefix(f.Name(), "init#") {
			return
		}
		t := p.traces(f, traceSpec{})
		for _, es := range t.g.edges {
			for _, e := range es {
				l := strings.TrimSuffix(strings.TrimPrefix(e.label, "«"), "»")
				if a, ok := strings.CutPrefix(l, "call:(*github.com/spf13/cobra.Command).AddCommand("); ok {
					for g := range byGlobal {
						for _, x := range strings.FieldsFunc(a, func(c rune) bool { return strings.ContainsRune("[](), ", c) }) {
							if x == g {
								known[byGlobal[g].name] = true
							}
						}
					}
				}
				a, ok := strings.CutPrefix(l, "call:(*github.com/spf13/pflag.FlagSet).")
				if !ok {
					continue
				}
				kind, a, _ := strings.Cut(a, "(")
				set, a, _ := strings.Cut(a, "), ")
				i := strings.LastIndex(set, "(")
				c := byGlobal[set[i+1:]]
				args := splitArgs(strings.TrimSuffix(a, ")"))
				if c == nil || len(args) < 4 {
					continue
				}
				fl := flagOf{variable: args[0], kind: strings.TrimSuffix(kind, "P")}
				rest := args[2:]
				if strings.HasSuffix(kind, "P") {
					fl.short = strings.Trim(args[2], `"`)
					rest = args[3:]
				}
				fl.def = rest[0]
				c.flags[strings.Trim(args[1], `"`)] = fl
			}
		}
	})
	return
}

// splitArgs: the arguments of a printed call, separated by commas outside of
// brackets and strings.
func splitArgs(s string) (out []string) {
	depth, from, quoted := 0, 0, false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case quoted && c == '\\':
			i++
		case c == '"':
			quoted = !quoted
		case quoted:
		case strings.IndexByte("([{", c) >= 0:
			depth++
		case strings.IndexByte(")]}", c) >= 0:
			depth--
		case c == ',' && depth == 0:
			out = append(out, strings.TrimSpace(s[from:i]))
			from = i + 1
		}
	}
	return append(out, strings.TrimSpace(s[from:]))
}

// checkCommands decides C17: what the commands of the command line do.
func checkCommands(p *Prog, r *Report) {
	r.rule("flags", "Every command is known to the program; each of its flags has its name, letter and default and a variable of its own, and a variable that several commands share has the same default in all of them")
	r.rule("input", "The source is the file, or else the code, or else what is piped in; without any of them that is said, and so is what is wrong with it; then nothing is sent to any player")
	r.rule("targets", "A message goes to exactly the players meant: the one at the port, or the one with the ID, or else those the command is for; a player that cannot be told does not keep stop and shutdown from telling the others, and keeps play from saying that it plays")
	r.rule("export", "Exporting: the whole score is sent to a player, to load only, then the player is asked for the file; done is said once the file is there; the player is shut down and the temporary files are removed whatever happens")
	r.rule("show", "ps lists every player and REPL server; parse prints what was asked for")
	r.rule("run", "Before a command, the level of the log is set, or refused; the pool is filled unless the command is ps, shutdown or doctor; the program's exit code is 1 exactly if the command failed, and the failure is shown")
	cs := p.commands()
	known := p.flagsOf(cs)

	// the flags
	want := map[string]string{
		"alda":      `verbosity v IntVar 1`,
		"doctor":    `no-audio - BoolVar false`,
		"export":    `file f StringVar "", code c StringVar "", from F StringVar "", to T StringVar "", output o StringVar "", output-format O StringVar "midi"`,
		"format":    `file f StringVar "", overwrite o BoolVar false, wrap w IntVar 0, indent i StringVar ""`,
		"import":    `file f StringVar "", code c StringVar "", output o StringVar "", import-format i StringVar ""`,
		"parse":     `file f StringVar "", code c StringVar "", output o StringVar "data"`,
		"play":      `file f StringVar "", code c StringVar "", from F StringVar "", to T StringVar "", player-id i StringVar "", port p IntVar -1`,
		"repl":      `host H StringVar "127.0.0.1", port p IntVar -1, client c BoolVar false, server s BoolVar false, message m StringVar ""`,
		"shutdown":  `player-id i StringVar "", port p IntVar -1`,
		"stop":      `player-id i StringVar "", port p IntVar -1`,
		"telemetry": `status - BoolVar false, enable - BoolVar false, disable - BoolVar false`,
		"update":    `yes y BoolVar false, version - StringVar ""`, "ps": "", "version": "", "instruments": "",
	}
	defaults := map[string]map[string][]string{}
	for _, n := range sortedKeys(want) {
		c := cs[n]
		if c == nil {
			r.ob("flags", n, "", false, "there is no such command any more")
			continue
		}
		r.ob("flags", n+" is known", c.global, n == "alda" || known[n], "the command is not added to the program")
		vars, shorts := map[string]string{}, map[string]string{}
		for _, k := range sortedKeys(c.flags) {
			fl := c.flags[k]
			if o := vars[fl.variable]; o != "" {
				r.ob("flags", n+" --"+k+" has a variable of its own", c.global, false, "it shares "+fl.variable+" with --"+o)
			}
			if o := shorts[fl.short]; o != "" && fl.short != "" {
				r.ob("flags", n+" --"+k+" has a letter of its own", c.global, false, "it shares -"+fl.short+" with --"+o)
			}
			vars[fl.variable], shorts[fl.short] = k, k
			if defaults[fl.variable] == nil {
				defaults[fl.variable] = map[string][]string{}
			}
			defaults[fl.variable][fl.def] = append(defaults[fl.variable][fl.def], n)
		}
		if want[n] == "" {
			continue
		}
		for _, w := range strings.Split(want[n], ", ") {
			f := strings.SplitN(w, " ", 4)
			fl, ok := c.flags[f[0]]
			got := fmt.Sprintf("%s %s %s %s", f[0], map[bool]string{true: "-", false: fl.short}[fl.short == ""], fl.kind, fl.def)
			why := "it is " + got
			if !ok {
				why = "there is no such flag any more"
			}
			r.ob("flags", n+" --"+f[0], c.global, got == w, why)
		}
	}
	for _, v := range sortedKeys(defaults) {
		why := ""
		if len(defaults[v]) > 1 {
			for _, d := range sortedKeys(defaults[v]) {
				why += fmt.Sprintf("%s in %s; ", d, strings.Join(defaults[v][d], ", "))
			}
		}
		r.ob("flags", "the default of "+v, "", why == "", "what is set last is the default of all: "+why)
	}
	commandInput(p, r, cs)
}

// A way of giving the source code to a command, and how far it gets.
type sourceCase struct {
	name          string
	assume        map[string]bool
	steps         string // what happens: words of src.events
	failed        bool
	events, conds [][2]string
}

func hashOf(s string) string { return "call#1:" + strings.TrimPrefix(s, "call:") }

// isNil: a condition in its printed form.
func isNil(s string) string { return noErr("", s)[1] }

// sourceCases: every source and every stage that can fail, with whether it is
// an error of the source code. Each is one path: what is done, and returned.
func sourceCases(file, code string, stages int, wrap bool) (out []sourceCase) {
	read := "call:system.ReadStdin()"
	for i, src := range []struct{ name, parse string }{
		{"a file", "call:parser.ParseFile(" + file + ")"},
		{"code", "call:parser.ParseString(" + code + ")"},
		{"input", "call:parser.ParseString(conv:string(" + read + "))"},
	} {
		updates := "call:(parser.ASTNode).Updates(" + src.parse + ")"
		score := "call:(*model.Score).Update(call:model.NewScore(), " + updates + ")"
		errs := []string{hashOf(read), hashOf(src.parse), hashOf(updates), score}
		names := []string{"read", "parse", "updates", "new score"}
		for stage := 0; stage <= stages; stage++ { // the stage that fails, or none
			if stage == 0 && i < 2 {
				continue
			}
			for _, source := range []bool{true, false} {
				if source && (stage == 0 || stage == stages) {
					continue
				}
				c := sourceCase{assume: map[string]bool{"(0 < call:len(" + file + "))": i == 0, "(0 < call:len(arg1))": false, "(… == system.ErrNoInputSupplied)": false, "(system.ErrNoInputSupplied == …)": false},
					events: [][2]string{{"read", read}, {"parse", src.parse}, {"updates", updates}, {"new", "call:model.NewScore()"}, {"score", score}}}
				if i > 0 { // with a file, the code does not matter
					c.assume["(0 < call:len("+code+"))"] = i == 1
				}
				var did []string
				from := 1
				if i == 2 {
					from = 0
				}
				for k := from; k < stages && k <= stage; k++ {
					c.assume[isNil(errs[k])] = k != stage
					c.assume["is:*model.AldaSourceError("+errs[k]+")"] = k == stage && source
					did = append(did, names[k])
				}
				c.name = src.name
				if stage < stages {
					c.failed = true
					c.name += fmt.Sprintf(", with an error at %q", names[stage])
					did = append(did, "failed")
					ret := "ret " + errs[stage]
					if source && wrap {
						ret = "ret help.UserFacingError{Err=" + errs[stage] + "}"
					}
					if source {
						c.name += " in the source"
					}
					c.events = append(c.events, [2]string{"failed", ret})
				}
				c.steps = strings.Join(did, " ")
				out = append(out, c)
			}
		}
	}
	return
}

var commandClosed = []string{"parser.Parse…", "(parser.ASTNode).…", "(*model.Score).Update", "(*model.Score).JSON", "model.NewScore", "system.Read…", "system.Find…", "system.StartingPlayerProcesses", "(transmitter.…", "transmitter.Transmit…", "transmitter.OneOff", "transmitter.LoadOnly", "help.…"}

var commandColours = []string{"inv:Bold", "inv:Bright…", "transmitter.Transmit…", "transmitter.OneOff", "transmitter.LoadOnly"}

func permuted(xs []string) (out []string) {
	if len(xs) < 2 {
		return []string{strings.Join(xs, ", ")}
	}
	for i := range xs {
		rest := append(append([]string{}, xs[:i]...), xs[i+1:]...)
		for _, s := range permuted(rest) {
			out = append(out, xs[i]+", "+s)
		}
	}
	return
}

func merged(ms ...map[string]bool) map[string]bool {
	out := map[string]bool{}
	for _, m := range ms {
		for k, v := range m {
			out[k] = v
		}
	}
	return out
}

func commandInput(p *Prog, r *Report, cs map[string]*command) {
	v := func(cmd, flag string) string {
		if cs[cmd] == nil {
			return "?"
		}
		return cs[cmd].flags[flag].variable
	}
	run := func(cmd string) *ssa.Function {
		if cs[cmd] == nil {
			return nil
		}
		return cs[cmd].run["RunE"]
	}
	read := "call:system.ReadStdin()"

	// play
	port, id := v("play", "port"), v("play", "player-id")
	osc := func(port string) string { return "transmitter.OSCTransmitter{Port=" + port + "}" }
	scoreTo := func(port string, opts ...string) (out [][2]string) {
		for _, o := range permuted(opts) {
			out = append(out, [2]string{"send", "call:(transmitter.OSCTransmitter).TransmitScore(" + osc(port) + ", call:model.NewScore(), [" + o + "])"})
		}
		return
	}
	from, to := "call:transmitter.TransmitFrom("+v("play", "from")+")", "call:transmitter.TransmitTo("+v("play", "to")+")"
	avail := "call:system.FindAvailablePlayer()"
	find := "call:system.FindPlayerByID(" + id + ")"
	say := [2]string{"say", "call:fmt.Fprint…(os.Stderr, …)"}
	for _, c := range sourceCases(v("play", "file"), v("play", "code"), 4, true) {
		if c.failed {
			p.behaves(r, "input", "play: "+c.name, run("play"), traceSpec{Closed: commandClosed, Pure: commandColours, Assume: c.assume, Events: c.events}, c.steps)
			continue
		}
		for _, t := range []struct {
			name, port, ref string
			assume          map[string]bool
		}{
			{"the port", port, "SEND", map[string]bool{"(-1 == " + port + ")": false}},
			{"the ID", find + ".Port", "find SEND", map[string]bool{"(-1 == " + port + ")": true, "(0 < call:len(" + id + "))": true, isNil(hashOf(find)): true}},
			{"the ID, which nobody has", find + ".Port", "find ret-find", map[string]bool{"(-1 == " + port + ")": true, "(0 < call:len(" + id + "))": true, isNil(hashOf(find)): false}},
			{"any player", avail + ".Port", "starting avail SEND", map[string]bool{"(-1 == " + port + ")": true, "(0 < call:len(" + id + "))": false, isNil(hashOf(avail)): true}},
			{"any player, and there is none", avail + ".Port", "starting avail avail* ret-avail", map[string]bool{"(-1 == " + port + ")": true, "(0 < call:len(" + id + "))": false, isNil(hashOf(avail)): false}},
		} {
			ev := append(append([][2]string{say, {"starting", "call:system.StartingPlayerProcesses()"}, {"find", find}, {"avail", avail}, {"ret", "ret nil"}, {"ret-find", "ret " + hashOf(find)}, {"ret-avail", "ret " + hashOf(avail)}, {"ret-send", "ret call:(transmitter.OSCTransmitter).TransmitScore(…)"}}, scoreTo(t.port, from, to, "call:transmitter.OneOff()")...), c.events...)
			p.behaves(r, "targets", "play "+c.name+" to "+t.name, run("play"), traceSpec{Closed: commandClosed, Pure: commandColours, Assume: merged(c.assume, t.assume), Events: ev, Conds: [][2]string{{"sent", "(call:(transmitter.OSCTransmitter).TransmitScore(…) == nil)"}}},
				c.steps+" "+strings.ReplaceAll(t.ref, "SEND", "send (sent+ say ret | sent- ret-send)"))
		}
	}

	// players take their time to start
	for _, f := range p.funcsIn("cmd") {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok && calleeName(c.Common()) == "util.Await" {
					k, is := c.Call.Args[1].(*ssa.Const)
					if is {
						r.at("targets", "waiting in "+fname(f), c, k.Int64() >= 5e9, fmt.Sprintf("it waits for %d ns only", k.Int64()))
					}
				}
			}
		}
	}

	// play, without anything to play
	noSource := func(cmd string) map[string]bool {
		return map[string]bool{"(0 < call:len(" + v(cmd, "file") + "))": false, "(0 < call:len(" + v(cmd, "code") + "))": false, "(0 < call:len(arg1))": false,
			isNil(hashOf(read)): false, "(" + hashOf(read) + " == system.ErrNoInputSupplied)": true, "(call:(*model.Score).Update(call:model.NewScore(), nil) == nil)": true, "is:*model.AldaSourceError(…)": false}
	}
	states := "call:system.ReadPlayerStates()"
	told := func(to string, msg string) (out [][2]string) {
		return [][2]string{{"send", "call:(transmitter.OSCTransmitter).Transmit" + msg + "(" + strings.TrimSuffix(osc(to)+", 0", map[bool]string{true: "", false: ", 0"}[msg == "ShutdownMessage"]) + ")"},
			{"ret-send", "ret call:(transmitter.OSCTransmitter).Transmit" + msg + "(…)"}}
	}
	nothing := [][2]string{{"read", read}, {"-", "call:model.NewScore()"}, {"-", "call:(*model.Score).Update(call:model.NewScore(), nil)"}}
	for _, t := range []struct {
		name, port, ref string
		assume          map[string]bool
	}{
		{"the port", port, "send (sent+ say ret | sent- ret-send)", map[string]bool{"(-1 == " + port + ")": false}},
		{"the ID", find + ".Port", "find send (sent+ say ret | sent- ret-send)", map[string]bool{"(-1 == " + port + ")": true, "(0 < call:len(" + id + "))": true, isNil(hashOf(find)): true}},
		{"the ID, which nobody has", find + ".Port", "find ret-find", map[string]bool{"(-1 == " + port + ")": true, "(0 < call:len(" + id + "))": true, isNil(hashOf(find)): false}},
		{"the players, of which this one plays", "elem(loop:…())", "states (states- ret-states | states+ (more- say ret | more+ add (more+ add)* more- (next+ send sent+)* (next+ send sent- ret-send | next- say ret)))", map[string]bool{"(-1 == " + port + ")": true, "(0 < call:len(" + id + "))": false, `("active" == elem(` + states + ").State)": true}},
		{"the players, of which this one does not play", "elem(loop:…())", "states (states- ret-states | states+ more+* more- say ret)", map[string]bool{"(-1 == " + port + ")": true, "(0 < call:len(" + id + "))": false, `("active" == elem(` + states + ").State)": false}},
	} {
		to := t.port
		if to == "elem(loop:…())" {
			to += ".Port"
		}
		ev := append(append([][2]string{say, {"find", find}, {"states", states}, {"add", "add elem(" + states + ")"}, {"ret", "ret nil"}, {"ret-find", "ret " + hashOf(find)}, {"ret-states", "ret " + hashOf(states)}}, nothing...), told(to, "PlayMessage")...)
		p.behaves(r, "targets", "going on playing, to "+t.name, run("play"), traceSpec{Closed: commandClosed, Pure: commandColours, Builds: []string{"system.PlayerState"}, Assume: merged(noSource("play"), t.assume), Events: ev,
			Conds: [][2]string{{"sent", "(call:(transmitter.OSCTransmitter).TransmitPlayMessage(…) == nil)"}, noErr("states", hashOf(states)), {"more", "(… < call:len(" + states + "))"}, {"next", "(… < call:len(loop:…()))"}}}, "read "+t.ref)
	}
	p.behaves(r, "input", "play: a file without -f", run("play"), traceSpec{Closed: commandClosed, Pure: commandColours, Assume: map[string]bool{"(0 < call:len(arg1))": true}, Events: [][2]string{{"explain", "call:help.UserFacingErrorf(…)"}, {"ret", "ret call:help.UserFacingErrorf(…)"}}}, "explain ret")

	// stop and shutdown
	for _, cmd := range []string{"stop", "shutdown"} {
		port, id := v(cmd, "port"), v(cmd, "player-id")
		find := "call:system.FindPlayerByID(" + id + ")"
		msg := map[string]string{"stop": "StopMessage", "shutdown": "ShutdownMessage"}[cmd]
		for _, t := range []struct {
			name, port, ref string
			assume          map[string]bool
		}{
			{"the port", port, "say send ret", map[string]bool{"(-1 == " + port + ")": false}},
			{"the ID", find + ".Port", "say find send ret", map[string]bool{"(-1 == " + port + ")": true, "(0 < call:len(" + id + "))": true, isNil(hashOf(find)): true}},
			{"the ID, which nobody has", find + ".Port", "say find ret-find", map[string]bool{"(-1 == " + port + ")": true, "(0 < call:len(" + id + "))": true, isNil(hashOf(find)): false}},
			{"every player", "elem(" + states + ").Port", "say states (states- ret-states | states+ (next+ send)* next- ret)", map[string]bool{"(-1 == " + port + ")": true, "(0 < call:len(" + id + "))": false}},
		} {
			ev := append([][2]string{say, {"find", find}, {"states", states}, {"ret", "ret nil"}, {"ret-find", "ret " + hashOf(find)}, {"ret-states", "ret " + hashOf(states)}}, told(t.port, msg)...)
			ev = append(ev, told(strings.Replace(t.port, states, "call:append([], "+states+")", 1), msg)...)
			p.behaves(r, "targets", cmd+" "+t.name, run(cmd), traceSpec{Closed: commandClosed, Assume: t.assume, Events: ev, Conds: [][2]string{noErr("states", hashOf(states)), {"next", "(… < call:len(…))"}}}, t.ref)
		}
	}

	// parse
	kind := v("parse", "output")
	kinds := []string{"ast", "ast-human", "events", "data"}
	isKind := func(k string) map[string]bool {
		out := map[string]bool{}
		for _, x := range kinds {
			out[`("`+x+`" == `+kind+")"] = x == k
		}
		return out
	}
	explain := [][2]string{{"explain", "call:help.UserFacingErrorf(…)"}, {"ret", "ret call:help.UserFacingErrorf(…)"}}
	p.behaves(r, "show", "parse into something there is not", run("parse"), traceSpec{Closed: commandClosed, Pure: commandColours, Assume: isKind(""), Events: explain}, "explain ret")
	for i, k := range kinds {
		p.behaves(r, "show", "parse nothing into "+k, run("parse"), traceSpec{Closed: commandClosed, Pure: commandColours, Assume: merged(isKind(k), noSource("parse")), Events: append(explain, [2]string{"read", read})}, "read explain ret")
		for _, c := range sourceCases(v("parse", "file"), v("parse", "code"), []int{2, 2, 3, 4}[i], true) {
			updates := c.events[2][1]
			text := func(x string) string { return "call:(*github.com/Jeffail/gabs/v2.Container).String(" + x + ")" }
			ast, data, one := "call:(parser.ASTNode).JSON("+c.events[1][1]+")", "call:(*model.Score).JSON(call:model.NewScore())", "call:inv:JSON(elem("+updates+"))"
			again := "call:json.ParseJSON(conv:[]byte(" + text(ast) + "))"
			ref := []string{"ast print ret", "ast again (again- ret-again | again+ human print ret)", "list (more+ one add)* more- print ret", "data print ret"}[i]
			shown := []string{text(ast), "call:parser.HumanReadableAST(" + again + ")", text("call:json.Array(nil)"), text(data)}[i]
			if c.failed {
				ref = ""
			}
			p.behaves(r, "show", "parse into "+k+": "+c.name, run("parse"), traceSpec{Closed: append([]string{"json.…", "parser.HumanReadableAST"}, commandClosed...), Pure: commandColours, Assume: merged(isKind(k), c.assume),
				Events: append([][2]string{{"ast", ast}, {"again", again}, {"human", "call:parser.HumanReadableAST(" + again + ")"}, {"-", text("…")}, {"list", "call:json.Array(nil)"}, {"one", one}, {"add", "call:(*github.com/Jeffail/gabs/v2.Container).ArrayAppend(call:json.Array(nil), " + one + ", nil)"}, {"data", data},
					{"print", "call:fmt.Println([" + shown + "])"}, {"ret", "ret nil"}, {"ret-again", "ret " + hashOf(again)}}, c.events...),
				Conds: [][2]string{noErr("again", hashOf(again)), {"more", "(… < call:len(" + updates + "))"}}}, c.steps+" "+ref)
		}
	}

	// ps
	servers := "call:system.ReadREPLServerStates()"
	line := func(of, rest string) string {
		e := "elem(" + of + ")"
		return strings.ReplaceAll("call:fmt.Printf(\"%s\\t%d\\t%s\\t%s\\t%s\\t%d\\n\", [E.ID, E.Port, "+rest+", E.PID])", "E.", e+".")
	}
	expiry := "call:github.com/dustin/go-humanize.Time(call:time.Unix((elem(" + states + ").Expiry / 1000), 0))"
	p.behaves(r, "show", "ps", run("ps"), traceSpec{Closed: commandClosed,
		Events: [][2]string{{"states", states}, {"servers", servers}, {"head", `call:fmt.Println(["id\tport\tstate\texpiry\ttype\tpid"])`}, {"-", expiry}, {"player", line(states, "E.State, "+expiry+`, "player"`)}, {"server", line(servers, `"-", "-", "repl-server"`)},
			{"ret-states", "ret " + hashOf(states)}, {"ret-servers", "ret " + hashOf(servers)}, {"ret", "ret nil"}},
		Conds: [][2]string{noErr("states", hashOf(states)), noErr("servers", hashOf(servers)), {"more", "(… < call:len(" + states + "))"}, {"next", "(… < call:len(" + servers + "))"}}},
		"states (states- ret-states | states+ servers (servers- ret-servers | servers+ head (more+ player)* more- (next+ server)* next- ret))")

	commandRun(p, r, cs["alda"])
	commandExport(p, r, run("export"), v, scoreTo, noSource("export"))
}

func commandExport(p *Prog, r *Report, f *ssa.Function, v func(string, string) string, scoreTo func(string, ...string) [][2]string, noSource map[string]bool) {
	format := v("export", "output-format")
	read, avail := "call:system.ReadStdin()", "call:system.FindAvailablePlayer()"
	midi := func(yes bool) map[string]bool { return map[string]bool{`("midi" == ` + format + ")": yes} }
	explain := [][2]string{{"explain", "call:help.UserFacingErrorf(…)"}, {"ret-explained", "ret call:help.UserFacingErrorf(…)"}}
	spec := func(ev, conds [][2]string, as ...map[string]bool) traceSpec {
		return traceSpec{Closed: commandClosed, Pure: commandColours, Assume: merged(as...), Events: ev, Conds: conds}
	}
	p.behaves(r, "input", "export: a format there is not", f, spec(explain, nil, midi(false)), "explain ret-explained")
	p.behaves(r, "input", "export: nothing to export", f, spec(append(explain, [2]string{"read", read}), nil, midi(true), noSource), "read explain ret-explained")
	for _, c := range sourceCases(v("export", "file"), v("export", "code"), 4, false) {
		if c.failed {
			p.behaves(r, "input", "export: "+c.name, f, spec(c.events, nil, c.assume, midi(true)), c.steps)
			continue
		}
		out := v("export", "output")
		abs, tmp := "call:path/filepath.Abs("+out+")", "call:os.MkdirTemp(…)"
		osc := "transmitter.OSCTransmitter{Port=" + avail + ".Port}"
		from, to := "call:transmitter.TransmitFrom("+v("export", "from")+")", "call:transmitter.TransmitTo("+v("export", "to")+")"
		events := func(target string) [][2]string {
			ask := "call:(transmitter.OSCTransmitter).TransmitMidiExportMessage(" + osc + ", " + target + ")"
			open := "call:os.Open(" + target + ")"
			return append(append([][2]string{{"-", abs}, {"-", tmp}, {"-", "call:math/rand…"}, {"-", "call:(time.Time).…"}, {"starting", "call:system.StartingPlayerProcesses()"}, {"avail", avail}, {"ask", ask}, {"open", open}, {"shutdown", "call:(transmitter.OSCTransmitter).TransmitShutdownMessage(" + osc + ", 0)"},
				{"remove", "call:os.RemoveAll(" + tmp + ")"}, {"close", "call:(*os.File).Close(" + open + ")"}, {"copy", "call:io.Copy(os.Stdout, " + open + ")"},
				{"done", `call:fmt.Fprintf(os.Stderr, "…%s…", [` + out + "])"}, {"tell", "call:fmt.Fprint…(os.Stderr, …)"},
				{"ret", "ret nil"}, {"ret-avail", "ret " + hashOf(avail)}, {"ret-send", "ret call:(transmitter.OSCTransmitter).TransmitScore(…)"}, {"ret-ask", "ret " + ask}, {"ret-open", "ret " + hashOf(open)}, {"ret-abs", "ret " + hashOf(abs)}, {"ret-tmp", "ret " + hashOf(tmp)}, {"ret-copy", "ret call#1:io.Copy(…)"}},
				scoreTo(avail+".Port", from, to, "call:transmitter.LoadOnly()")...), c.events...)
		}
		for _, t := range []struct {
			name, ref                              string
			file, player, target, opened, isTarget bool
		}{
			{"", "done close shutdown ret", true, true, true, true, true},
			{", and the file is not written", "open* shutdown ret-open", true, true, true, false, true},
			{", and the place cannot be found", "shutdown ret-abs", true, true, false, true, false},
			{" to the output", "copy (copied+ close remove shutdown ret | copied- close remove shutdown ret-copy)", false, true, true, true, true},
			{" to the output, and nothing is written", "open* remove shutdown ret-open", false, true, true, false, true},
			{" to the output, and there is no place for a file", "shutdown ret-tmp", false, true, false, true, false},
			{", and there is no player", "avail* ret-avail", true, false, true, true, true},
		} {
			target := abs
			if !t.file {
				target = "call:path/filepath.Join([" + tmp + ", …])"
			}
			ref := "starting avail "
			switch {
			case !t.player:
				ref += t.ref
			case !t.isTarget:
				ref += "send (sent- ret-send | sent+ " + t.ref + ")"
			default:
				end := "shutdown ret-ask"
				if !t.file {
					end = "remove shutdown ret-ask"
				}
				ref += "send (sent- ret-send | sent+ ask (asked- " + end + " | asked+ tell open " + t.ref + "))"
			}
			s := spec(events(target), [][2]string{{"sent", "(call:(transmitter.OSCTransmitter).TransmitScore(…) == nil)"}, {"asked", "(call:(transmitter.OSCTransmitter).TransmitMidiExportMessage(…) == nil)"}, {"copied", "(call#1:io.Copy(…) == nil)"}}, c.assume, midi(true),
				map[string]bool{"(0 < call:len(" + out + "))": t.file, isNil(hashOf(avail)): t.player, isNil(hashOf(abs)): t.target, isNil(hashOf(tmp)): t.target, isNil(hashOf("call:os.Open(" + target + ")")): t.opened})
			s.Commute = [][]string{{"close", "remove", "shutdown"}}
			if t.file && !t.isTarget { // this can be found out at any time
				s.Events = append([][2]string{{"ret-abs", "ret " + hashOf(abs)}, {"ask", "call:(transmitter.OSCTransmitter).TransmitMidi…"}, {"ret", "ret …"}, {"-", "…"}}, c.events...)
				s.Conds, ref = nil, "ret-abs"
				s.Assume["(call:(transmitter.OSCTransmitter).TransmitScore(…) == nil)"] = true
				p.behaves(r, "export", "export "+c.name+t.name, f, s, ref)
				continue
			}
			p.behaves(r, "export", "export "+c.name+t.name, f, s, c.steps+" "+ref)
		}
	}
}

func commandRun(p *Prog, r *Report, alda *command) {
	if alda == nil {
		return
	}
	f := alda.run["PersistentPreRunE"]
	level := alda.flags["verbosity"].variable
	spec := func(ev [][2]string, conds [][2]string, as ...map[string]bool) traceSpec {
		return traceSpec{GoInline: true, Impure: []string{"logging.SetGlobalLevel"}, Closed: []string{"system.…", "logging.…", "(*net/http…"}, Events: ev, Conds: conds, Assume: merged(as...)}
	}
	levels := func(n int) map[string]bool {
		out := map[string]bool{}
		for k := 0; k < 4; k++ {
			out[fmt.Sprintf("(%d == %s)", k, level)] = n == k
		}
		return out
	}
	pool, find := "call:system.FillPlayerPool()", "call:system.FindRenamedExecutables()"
	no := map[string]bool{`("yes" == call:os.Getenv("ALDA_DISABLE_TELEMETRY"))`: true}
	for _, g := range p.onceTrue("cmd") {
		no[g] = false
	}
	named := func(n string) map[string]bool {
		out := map[string]bool{}
		for _, c := range []string{"alda", "ps", "shutdown", "doctor"} {
			out[`("`+c+`" == call:(*github.com/spf13/cobra.Command).Name(arg0))`] = c == n
		}
		return out
	}
	set := "call:logging.SetGlobalLevel(\"%s\")"
	rest := [][2]string{{"refused", "ret help.UsageError{…Cmd=arg0…}"}, {"ret", "ret nil"}, {"-", "…"}}
	p.behaves(r, "run", "before a command: a level there is not", f, spec([][2]string{{"warn", fmt.Sprintf(set, "warn")}, {"refused", "ret help.UsageError{…Cmd=arg0…}"}}, nil, levels(-1)), "warn refused")
	for n, l := range []string{"error", "warn", "info", "debug"} {
		p.behaves(r, "run", "before a command: the level "+l, f, spec(append([][2]string{{"level", fmt.Sprintf(set, l)}, {"another-level", fmt.Sprintf(set, "…")}}, rest...), nil, levels(n), no), "level ret")
	}
	for _, n := range []string{"ps", "shutdown", "doctor", "alda", "?"} {
		ref := "fill ret"
		if n == "ps" || n == "shutdown" || n == "doctor" {
			ref = "ret"
		}
		p.behaves(r, "run", "before a command: filling the pool, "+n, f, spec(append([][2]string{{"fill", pool}}, rest...), nil, levels(1), no, named(n)), ref)
	}
	p.behaves(r, "run", "before a command: what an update left behind", f, spec(append([][2]string{{"find", find}, {"remove", "call:os.Remove(elem(" + find + "))"}, {"remove-another", "call:os.Remove…"}}, rest...), [][2]string{noErr("found", hashOf(find)), {"more", "(… < call:len(" + find + "))"}}, levels(1), no, named("?")), "find (found- ret | found+ (more+ remove)* more- ret)")

	// what goes on in the background
	for _, g := range p.funcsIn("cmd") {
		given := false // something to do
		for _, x := range g.Params {
			sig, is := x.Type().Underlying().(*types.Signature)
			given = given || is && sig.Params().Len() == 0 && sig.Results().Len() == 0
		}
		for _, b := range g.Blocks {
			if !given {
				break
			}
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.Go); ok {
					p.behaves(r, "run", "an activity in the background", g, traceSpec{GoInline: true, Events: [][2]string{{"remember", "cmd.… := call:append(cmd.…, [cmd.…{…=new:chan bool()…}])"}, {"-", "go"}, {"do", "call:dyn(arg1)"}, {"done", "send new:chan bool() := true"}, {"ret", "ret "}}}, "remember do done ret")
				}
			}
		}
	}
	p.behaves(r, "run", "waiting for what goes on in the background", p.fn("cmd.AwaitBackgroundActivities"), traceSpec{Recvs: true, Events: [][2]string{{"wait", "recv elem(cmd.…).…"}, {"ret", "ret "}}, Conds: [][2]string{{"more", "(… < call:len(cmd.…))"}}}, "(more+ wait)* more- ret")

	// the program
	exec := "call:cmd.Execute()"
	p.behaves(r, "run", "the program", p.fn(modPath+".main"), traceSpec{Closed: []string{"cmd.…", "help.…"}, Events: [][2]string{{"run", exec}, {"show", "call:help.PresentError(" + exec + ")"}, {"wait", "call:cmd.AwaitBackgroundActivities()"}, {"exit-0", "call:os.Exit(0)"}, {"exit-1", "call:os.Exit(1)"}, {"-", "ret "}},
		Conds: [][2]string{noErr("ok", exec)}, Commute: [][]string{{"show", "wait"}}}, "run (ok+ wait exit-0 | ok- show wait exit-1)")
	cobra := "call:(*github.com/spf13/cobra.Command).Execute(" + alda.global + ")"
	p.behaves(r, "run", "running a command", p.fn("cmd.Execute"), traceSpec{Events: [][2]string{{"run", cobra}, {"usage", "ret help.UsageError{Cmd=" + alda.global + ", Err=" + cobra + "}"}, {"ret", "ret " + cobra}, {"ret-nil", "ret nil"}},
		Conds: [][2]string{noErr("ok", cobra), {"unknown", "call:strings.HasPrefix(call:inv:Error(" + cobra + `), "unknown command")`}}}, "run (ok+ ret-nil | ok- (unknown+ usage | unknown- ret))")
	p.behaves(r, "run", "showing an error", p.fn("help.PresentError"), traceSpec{Pure: []string{"inv:Bg…", "inv:Underline"}, Events: [][2]string{{"plain", "call:fmt.Fprintln(os.Stderr, [arg0])"}, {"oops", "call:fmt.Fprintf(os.Stderr, …arg0…)"}, {"ret", "ret "}},
		Conds: [][2]string{{"facing", "is:*help.UserFacingError(arg0)"}, {"usage", "is:*help.UsageError(arg0)"}}}, "(facing+ plain ret | facing- (usage+ plain ret | usage- oops ret))")
}

// onceTrue: the variables of a package that are false at first and only ever
// become true.
func (p *Prog) onceTrue(pkg string) (out []string) {
	ok := map[string]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, is := ins.(*ssa.Store)
				if !is {
					continue
				}
				g, is := st.Addr.(*ssa.Global)
				if !is || g.Pkg.Pkg.Name() != pkg || typeName(st.Val.Type()) != "bool" {
					continue
				}
				n := pkg + "." + g.Name()
				c, is := st.Val.(*ssa.Const)
				is = is && constant.BoolVal(c.Value) == (f.Name() != "init")
				if _, seen := ok[n]; !seen {
					ok[n] = true
				}
				ok[n] = ok[n] && is
			}
		}
	}
	for _, n := range sortedKeys(ok) {
		if ok[n] {
			out = append(out, n)
		}
	}
	return
}
