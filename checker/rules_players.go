package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C16"] = checkPlayers }

// constStr: the value of a string constant of the module.
func (p *Prog) constStr(pkg, name string) string {
	for _, q := range p.SSA.AllPackages() {
		if q.Pkg.Name() == pkg && strings.HasPrefix(q.Pkg.Path(), "alda.io/client") {
			if c, ok := q.Pkg.Scope().Lookup(name).(*types.Const); ok && c.Val().Kind() == constant.String {
				return constant.StringVal(c.Val())
			}
		}
	}
	return ""
}

// passedTo: the functions given to a callee as its i-th argument, and where.
func (p *Prog) passedTo(callee string, i int, fs map[*ssa.Function]bool) (out []*ssa.Function) {
	for _, f := range p.Funcs {
		if !fs[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || calleeName(c.Common()) != callee || i >= len(c.Call.Args) {
					continue
				}
				switch a := unwrapFn(c.Call.Args[i]).(type) {
				case *ssa.Function:
					out = append(out, a)
				case *ssa.MakeClosure:
					out = append(out, a.Fn.(*ssa.Function))
				}
			}
		}
	}
	return
}

func unwrapFn(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.ChangeType)
		if !ok {
			return v
		}
		v = c.X
	}
}

// checkPlayers decides C16: the player processes and the files they are known by.
func checkPlayers(p *Prog, r *Report) {
	r.rule("states", "Reading the state files: every way through it lists exactly the files that can be read, are not empty and hold a state, each with the name of its file as ID, and reports only that the directory cannot be made or listed")
	r.rule("stale", "Only files that were last changed more than two minutes ago are deleted; what is gone already is no failure; failing to clean up does not keep the states from being read")
	r.rule("find", "The player found is the first that is ready and answers; one that does not answer loses its state file, the pool is filled and the search starts again; without one, that is the error")
	r.rule("pool", "As many players are started as are missing from three that are ready or starting; none when spawning is disabled; what goes wrong is reported")
	version := p.constStr("generated", "ClientVersion")
	path := func(s string) string { return "call:path/filepath.Join([system.CacheDir, " + s + "])" }
	states := []string{"system.ReadPlayerStates", "system.AldaPlayerPath", "system.DeletePlayerStateFile", "system.PingPlayer", "system.FillPlayerPool", "help.…"}
	hash := func(s string) string { return "call#1:" + strings.TrimPrefix(s, "call:") }
	quiet := []string{"inv:Name", "inv:IsDir", "inv:ModTime", "inv:Type", "os.Stat", "fmt.Fprint…"}
	colours := []string{"inv:Bold", "inv:Bright…"}

	// the states
	for _, k := range []struct{ fn, typ, dir string }{
		{"system.ReadPlayerStates", "system.PlayerState", path(`"state", "players", "` + version + `"`)},
		{"system.ReadREPLServerStates", "system.REPLServerState", path(`"state", "repl-servers"`)},
	} {
		f := p.fn(k.fn)
		list := "call:os.ReadDir(" + k.dir + ")"
		name := "call:inv:Name(elem(" + list + "))"
		read := "call:os.ReadFile(call:path/filepath.Join([" + k.dir + ", " + name + "]))"
		id := func(s string) [2]string {
			return [2]string{"add", "add " + k.typ + "{*=by:encoding/json.Unmarshal(" + read + ", …), ID=" + s + "}"}
		}
		clean := func(kind string) string {
			return "call:path/filepath.WalkDir(" + path(`"state", "`+kind+`"`) + ", …)"
		}
		all := func(kind string) string { return "(" + clean(kind) + " == nil)" }
		for n := 0; n < 16; n++ {
			full, ok, players, servers := n&1 != 0, n&2 != 0, n&4 != 0, n&8 != 0
			file := "read"
			if full && ok {
				file = "read json (json- | json+ add)"
			}
			ref := "mkdir (mkdir- ret-mkdir | mkdir+ list (list- ret-list | list+ (more+ " + file + ")* more- ret))"
			key := fmt.Sprintf("%s: a file that is %s and can%s be read", k.typ, map[bool]string{true: "not empty", false: "empty"}[full], map[bool]string{true: "", false: "not"}[ok])
			if k.typ == "system.PlayerState" {
				switch {
				case players:
					ref = "clean-players clean-servers " + ref
				case !servers:
					ref = "clean-players " + ref // the rest may wait
				default:
					continue
				}
				key += fmt.Sprintf(" (cleaning up: %v, %v)", players, servers)
			} else if n > 3 {
				break
			}
			s := traceSpec{Pure: quiet, Mut: map[string][]int{"encoding/json.Unmarshal": {1}}, Builds: []string{k.typ},
				Assume: map[string]bool{"(0 < call:len(" + read + "))": full, "(call:len(" + read + ") == 0)": !full, "(0 == call:len(" + read + "))": !full, "(" + hash(read) + " == nil)": ok, all("players"): players, all("repl-servers"): servers},
				Events: [][2]string{{"clean-players", clean("players")}, {"clean-servers", clean("repl-servers")}, {"mkdir", "call:os.MkdirAll(" + k.dir + ", …)"}, {"list", list}, {"read", read}, {"json", "call:encoding/json.Unmarshal(" + read + ", " + k.typ + "{})"},
					id("call:strings.Replace(" + name + `, ".json", "", 1)`), id("call:strings.TrimSuffix(" + name + `, ".json")`),
					{"ret-mkdir", "ret …, call:os.MkdirAll(" + k.dir + ", …)"}, {"ret-list", "ret …, " + hash(list)}, {"ret-nothing", "ret nil, nil"}, {"ret", "ret …, nil"}},
				Conds: [][2]string{noErr("mkdir", "call:os.MkdirAll("+k.dir+", …)"), noErr("list", hash(list)), {"more", "(… < call:len(" + list + "))"}, noErr("json", "call:encoding/json.Unmarshal("+read+", …)")}}
			p.behaves(r, "states", key, f, s, ref)
		}
	}

	// stale files
	reader := p.fn("system.ReadPlayerStates")
	walkers := p.passedTo("path/filepath.WalkDir", 1, p.reachable(reader))
	if len(walkers) == 0 {
		r.ob("stale", "what is deleted", p.pos(reader.Pos())+" ["+fname(reader)+"]", false, "the directories of the state files are not walked")
	}
	for _, w := range walkers {
		is := func(s string) string { return "call:errors.Is(" + s + ", os.ErrNotExist)" }
		stat := "call#1:os.Stat(arg0)"
		cases := []struct {
			name                                   string
			visitGone, visitOk, dir, gone, ok, old bool
			ref                                    string
		}{
			{"a file that is gone when it is visited", true, false, false, false, false, false, "ret"},
			{"a file that cannot be visited", false, false, false, false, false, false, "ret-visit"},
			{"a directory", false, true, true, false, true, true, "ret"},
			{"a file that is gone when it is looked at", false, true, false, true, false, false, "ret"},
			{"a file that cannot be looked at", false, true, false, false, false, false, "ret-stat"},
			{"a file that was changed lately", false, true, false, false, true, false, "ret"},
			{"a file that was not changed lately", false, true, false, false, true, true, ""},
		}
		rm := "call:os.Remove(arg0)"
		for _, c := range cases {
			for _, out := range []string{"is deleted", "is gone meanwhile", "cannot be deleted"} {
				name, ref := c.name, map[bool]string{true: "remove ret-remove", false: "remove ret"}[out == "cannot be deleted"]
				if c.old && c.ref == "" {
					name += " and " + out
				} else if ref = c.ref; out != "is deleted" {
					continue
				}
				p.behaves(r, "stale", name, w, traceSpec{Pure: quiet, Args: []string{"arg0", "arg1", "arg2"}, Assume: map[string]bool{is("arg2"): c.visitGone, "(arg2 == nil)": c.visitOk, "call:inv:IsDir(arg1)": c.dir, is(stat): c.gone, "(" + stat + " == nil)": c.ok,
					"(120000000000 <… call:time.Since(call:inv:ModTime(call:os.Stat(arg0))))": c.old, "(" + rm + " == nil)": out == "is deleted", is(rm): out == "is gone meanwhile"},
					Events: [][2]string{{"remove", rm}, {"ret-visit", "ret arg2"}, {"ret-stat", "ret " + stat}, {"ret-remove", "ret " + rm}, {"ret", "ret nil"}}}, ref)
			}
		}
	}
	file := path(`"state", "players", "` + version + `", (arg0 + ".json")`)
	rm := "call:os.Remove(" + file + ")"
	for _, out := range []string{"", " that is gone", " that cannot be deleted"} {
		p.behaves(r, "find", "deleting a state file"+out, p.fn("system.DeletePlayerStateFile"), traceSpec{Args: []string{"arg0"}, Assume: map[string]bool{"(" + rm + " == nil)": out == "", "call:errors.Is(" + rm + ", os.ErrNotExist)": out == " that is gone"},
			Events: [][2]string{{"remove", rm}, {"ret-remove", "ret " + rm}, {"ret", "ret nil"}}}, map[bool]string{true: "remove ret-remove", false: "remove ret"}[out == " that cannot be deleted"])
	}

	// finding
	read := "call:system.ReadPlayerStates()"
	one := "elem(" + read + ")"
	more := [2]string{"more", "(… < call:len(" + read + "))"}
	ping, del, fill := "call:system.PingPlayer("+one+".Port)", "call:system.DeletePlayerStateFile("+one+".ID)", "call:system.FillPlayerPool()"
	p.behaves(r, "find", "finding a player that is available", p.fn("system.FindAvailablePlayer"), traceSpec{Closed: states,
		Events: [][2]string{{"read", read}, {"ping", ping}, {"delete", del}, {"fill", fill}, {"found", "ret " + one + ", nil"}, {"ret-read", "ret …, " + hash(read)}, {"ret-delete", "ret …, " + del}, {"ret-fill", "ret …, " + fill}, {"none", "ret …, system.ErrNoPlayersAvailable"}},
		Conds:  [][2]string{noErr("read", hash(read)), more, {"ready", `("ready" == ` + one + ".State)"}, noErr("pong", hash(ping)), noErr("deleted", del), noErr("filled", fill)}},
		"(read read+ (more+ ready-)* more+ ready+ ping pong- delete deleted+ fill filled+)* read (read- ret-read | read+ (more+ ready-)* (more- none | more+ ready+ ping (pong+ found | pong- delete (deleted- ret-delete | deleted+ fill filled- ret-fill))))")
	p.behaves(r, "find", "finding a player by its ID", p.fn("system.FindPlayerByID"), traceSpec{Closed: states, Pure: colours, Args: []string{"arg0"},
		Events: [][2]string{{"read", read}, {"found", "ret " + one + ", nil"}, {"ret-read", "ret …, " + hash(read)}, {"-", `call:help.UserFacingErrorf("No player was found…)`}, {"none", `ret …, call:help.UserFacingErrorf("No player was found…)`}},
		Conds:  [][2]string{noErr("read", hash(read)), more, {"same", "(arg0 == " + one + ".ID)"}}},
		"read (read- ret-read | read+ (more+ same-)* (more- none | more+ same+ found))")
	client := `call:github.com/daveyarwood/go-osc/osc.NewClient("127.0.0.1", arg0, [call:github.com/daveyarwood/go-osc/osc.ClientProtocol(1)])`
	send := "call:(*github.com/daveyarwood/go-osc/osc.Client).Send(" + client + `, call:github.com/daveyarwood/go-osc/osc.NewMessage("/ping", nil))`
	waits := func(test, limit string) (ev, conds [][2]string) {
		return [][2]string{{"test", test}, {"wait", "call:time.Sleep(…)"}},
			[][2]string{noErr("good", test), {"late", "(0 == ext:0(select:…{recv call:time.After(" + limit + "), default}))"}, {"late", "(" + limit + " < call:time.Since(…))"}, {"!late", "(call:time.Since(…) < " + limit + ")"}}
	}
	ev, conds := waits(send, "20000000000")
	p.behaves(r, "find", "asking a player to answer", p.fn("system.PingPlayer"), traceSpec{Args: []string{"arg0"}, Impure: []string{"time.Sleep"}, Pure: []string{"github.com/daveyarwood/go-osc/osc.New…", "github.com/daveyarwood/go-osc/osc.ClientProtocol"},
		Events: append(ev, [][2]string{{"ret", "ret " + client + ", nil"}, {"ret-late", "ret …, " + send}}...), Conds: conds},
		"(test good- late- wait)* test (good+ ret | good- late+ ret-late)")
	ev, conds = waits("call:dyn(arg0)", "arg1")
	p.behaves(r, "find", "trying for some time", p.fn("util.Await"), traceSpec{Args: []string{"arg0", "arg1"}, Impure: []string{"time.Sleep"}, Events: append(ev, [][2]string{{"ret", "ret nil"}, {"ret-late", "ret call:dyn(arg0)"}}...), Conds: conds},
		"(test good- late- wait)* test (good+ ret | good- late+ ret-late)")
	p.behaves(r, "find", "telling that players are being started", p.fn("system.StartingPlayerProcesses"), traceSpec{Closed: append([]string{"system.FindAvailablePlayer"}, states...), Events: [][2]string{{"find", "call:system.FindAvailablePlayer()"}, {"tell", `call:fmt.Fprintln(os.Stderr, …)`}, {"ret", "ret "}},
		Conds: [][2]string{{"none", "(call#1:system.FindAvailablePlayer() == system.ErrNoPlayersAvailable)"}}}, "find (none+ tell ret | none- ret)")

	// the pool
	look := `call:os/exec.LookPath("alda-player")`
	command := "call:os/exec.Command(" + look + `, ["info"])`
	out := "call:(*os/exec.Cmd).Output(" + command + ")"
	p.behaves(r, "pool", "the program of the players", p.fn("system.AldaPlayerPath"), traceSpec{
		Events: [][2]string{{"look", look}, {"-", command}, {"-", command + ".Stdout := nil"}, {"-", command + ".Stderr := nil"}, {"info", out}, {"ret-none", "ret …, …, system.ErrAldaPlayerNotFoundOnPath"}, {"ret-info", "ret …, …, " + hash(out)}, {"ret-odd", "ret …, …, call:fmt.Errorf(…)"}, {"ret", "ret " + look + `, ("` + version + `" == ix(call:(*regexp.Regexp).FindStringSubmatch(call:regexp.MustCompile("alda-player (…)"), conv:string(` + out + ")), 1)), nil"}},
		Conds:  [][2]string{noErr("found", hash(look)), noErr("info", hash(out)), {"odd", "(call:len(call:(*regexp.Regexp).FindStringSubmatch(…)) < 2)"}}},
		"look (found- ret-none | found+ info (info- ret-info | info+ (odd+ ret-odd | odd- ret)))")
	// the order in which the program is looked for and the states are read is free
	prog := "call:system.AldaPlayerPath()"
	run := "call:os/exec.Command(" + prog + `, ["run"])`
	start := "call:(*os/exec.Cmd).Start(" + run + ")"
	for _, c := range []struct {
		name            string
		ready, starting bool
	}{{"ready", true, false}, {"starting", false, true}, {"neither ready nor starting", false, false}} {
		spawn := "run start (start+ hand-none | start- hand)"
		ref := "more+* more- " + strings.Repeat(spawn+" ", 3) + "END"
		if c.ready || c.starting {
			ref = "(more- " + strings.Repeat(spawn+" ", 3) + "END | more+ count (more+ count)* more- (want- ret | want+ " + spawn + " (want+ " + spawn + ")* want- END))"
		}
		ref = "program (program- ret-program | program+ read (read- ret-read | read+ " + strings.ReplaceAll(ref, "END", "(ret | ret-start)") + "))"
		s := traceSpec{Closed: states, GoInline: true, Steps: true, Given: []string{"(" + start + " == nil)"}, GivenAt: []string{"send …"}, Assume: map[string]bool{`("yes" == call:os.Getenv("ALDA_DISABLE_SPAWNING"))`: false, `("ready" == ` + one + ".State)": c.ready, `("starting" == ` + one + ".State)": c.starting},
			Events: [][2]string{{"-", `call:os.Getenv("ALDA_DISABLE_SPAWNING")`}, {"-", "go"}, {"program", prog}, {"read", read}, {"run", run}, {"start", start}, {"hand", "send new:chan error() := " + start + " if F:…"}, {"hand-none", "send new:chan error() := " + start + " if T:…"}, {"hand-none", "send new:chan error() := nil if T:…"}, {"count", "step … := 1"}, {"count", "step … := (1 + loop:…())"},
				{"ret-program", "ret call#2:system.AldaPlayerPath()"}, {"ret-read", "ret " + hash(read)}, {"ret-start", "ret recv:0(…)"}, {"ret", "ret nil"}},
			Conds: [][2]string{noErr("read", hash(read)), noErr("program", "call#2:system.AldaPlayerPath()"), more, noErr("start", start), {"want", "(… < (3 - loop:…()))"}, {"!want", "((3 - loop:…()) < …)"}}}
		p.behaves(r, "pool", "filling the pool, players "+c.name, p.fn("system.FillPlayerPool"), s, ref)
	}
	p.behaves(r, "pool", "spawning is disabled", p.fn("system.FillPlayerPool"), traceSpec{Closed: states, Assume: map[string]bool{`("yes" == call:os.Getenv("ALDA_DISABLE_SPAWNING"))`: true}, Events: [][2]string{{"-", `call:os.Getenv("ALDA_DISABLE_SPAWNING")`}, {"ret", "ret nil"}}}, "ret")
}
