package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C19"] = checkTelemetry }

// netCalls: what says who is to be talked to, or listened to, and which of the
// arguments that is.
var netCalls = map[string]int{
	"net.Dial": 1, "net.DialTimeout": 1, "net.ResolveTCPAddr": 1, "net.ResolveUDPAddr": 1, "net.ResolveIPAddr": 1, "net.ResolveUnixAddr": 1, "(*net.Dialer).Dial": 2, "(*net.Dialer).DialContext": 3,
	"net.Listen": 1, "net.ListenPacket": 1, "net.LookupHost": 0, "net.LookupIP": 0, "net.LookupAddr": 0,
	"net/http.Get": 0, "net/http.Head": 0, "net/http.Post": 0, "net/http.PostForm": 0, "net/http.NewRequest": 1, "net/http.NewRequestWithContext": 2, "net/http.ListenAndServe": 0, "net/http.ListenAndServeTLS": 0,
	"(*net/http.Client).Get": 1, "(*net/http.Client).Head": 1, "(*net/http.Client).Post": 1, "(*net/http.Client).PostForm": 1,
	"github.com/daveyarwood/go-osc/osc.NewClient": 0, "github.com/daveyarwood/go-osc/osc.NewServer": 0,
}

// netFixed: these take what has been made by one of those.
var netFixed = map[string]bool{"net.DialTCP": true, "net.DialUDP": true, "net.ListenTCP": true, "net.ListenUDP": true, "(*net/http.Client).Do": true, "net.JoinHostPort": true, "net.SplitHostPort": true}

func checkTelemetry(p *Prog, r *Report) {
	r.rule("destinations", "Nothing is talked to but the API of Alda, the places that it names for a release, players and REPL servers on this machine, and the server that the user has named")
	r.rule("status", "Whether usage is reported is what the user has said: disabled is disabled; the file says so from one moment to the next")
	r.rule("notice", "Nothing is reported before the user has been told that it is, and how to disable it")
	r.rule("report", "What is reported is the system, the architecture, the version and the name of the command, and nothing else; nothing at all if it is disabled, if it is not known whether it is, or for alda without a command")
	cs := p.commands()
	p.flagsOf(cs)
	netDestinations(p, r, cs)
	if cs["alda"] == nil || cs["alda"].run["PersistentPreRunE"] == nil || cs["telemetry"] == nil || cs["telemetry"].run["RunE"] == nil {
		r.ob("status", "alda, alda telemetry", "", false, "there is no such command any more")
		return
	}
	telemetrySent(p, r, cs["alda"])
	telemetryTold(p, r)
	telemetryCommand(p, r, cs["telemetry"])
}

func netDestinations(p *Prog, r *Report, cs map[string]*command) {
	host := ""
	if cs["repl"] != nil {
		host = "the variable " + cs["repl"].flags["host"].variable
	}
	api := `the text "https://api.alda.io`
	allowed := func(name, o string) bool {
		if before, f, ok := strings.Cut(o, ":%"); ok && len(f) == 2 { // a port that is formatted
			o = before + `:"`
		}
		switch {
		case strings.Contains(name, "net/http"):
			return o == api+`"` || strings.HasPrefix(o, api+"/") || o == "an entry of map[string]interface{}" && name == "(*net/http.Client).Get"
		case strings.Contains(name, "Listen"):
			return in(o, `the text "127.0.0.1:"`, `the text "127.0.0.1:0"`, `the text ":0"`) // the last is only to find a port
		case name == "net.ResolveTCPAddr":
			return in(o, `the text "127.0.0.1"`, `the text "localhost"`, `the text "127.0.0.1:"`, `the text "localhost:"`, host)
		}
		return in(o, `the text "127.0.0.1"`, `the text "localhost"`) || strings.HasPrefix(o, `the text "127.0.0.1:`) || strings.HasPrefix(o, `the text "localhost:`)
	}
	n := 0
	for _, f := range p.Funcs {
		if strings.HasPrefix(relPkg(f), "dev/") || strings.HasPrefix(relPkg(f), "gen/") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := calleeName(c.Common())
				i, ok := netCalls[name]
				if !ok {
					short := name[strings.LastIndex(name, ".")+1:]
					if (strings.HasPrefix(name, "net.") || strings.HasPrefix(name, "net/") || strings.HasPrefix(name, "(*net")) && !netFixed[name] && (strings.HasPrefix(short, "Dial") || strings.HasPrefix(short, "Listen") || strings.HasPrefix(short, "Send")) && !strings.Contains(name, "Listener)") {
						r.at("destinations", name+" in "+fname(f), c, false, "this is not followed")
					}
					continue
				}
				n++
				for _, o := range p.origins(c.Common().Args[i]) {
					r.at("destinations", name+" in "+fname(f), c, allowed(name, o), "it is "+o)
				}
			}
		}
	}
	r.ob("destinations", fmt.Sprintf("what is talked to: %d calls", n), "", n > 0, "nothing is")
}

// A telemetryState is what the environment and the file say.
type telemetryState struct {
	name   string
	assume map[string]bool
	told   bool // whether the user has to be told
	send   bool
}

const telemetryPath = `call:path/filepath.Join([system.ConfigDir, "telemetry-status"])`

func telemetryStates() []telemetryState {
	off := `("yes" == call:os.Getenv("ALDA_DISABLE_TELEMETRY"))`
	missing := hashOf("call:os.Stat(" + telemetryPath + ")")
	read := "call:os.ReadFile(" + telemetryPath + ")"
	is := func(s string) string { return `("` + s + `" == conv:string(` + read + "))" }
	gone := func(b bool) map[string]bool {
		return map[string]bool{off: false, "(0 < call:len(" + telemetryPath + "))": true, isNil(missing): !b, "call:errors.Is(" + missing + "…": b, "call:os.IsNotExist(" + missing + ")": b}
	}
	says := func(readable, enabled, disabled bool) map[string]bool {
		return merged(gone(false), map[string]bool{isNil(hashOf(read)): readable, is("enabled"): enabled, is("disabled"): disabled})
	}
	return []telemetryState{
		{"disabled for this run", map[string]bool{off: true}, false, false},
		{"never asked", gone(true), true, true},
		{"enabled", says(true, true, false), false, true},
		{"disabled", says(true, false, true), false, false},
		{"not to be understood", says(true, false, false), true, false},
		{"not to be read", says(false, false, false), true, false},
	}
}

// telemetryWriting: what changes the status, in one step.
func telemetryWriting(status string) ([][2]string, [][2]string, string) {
	dir := "call:os.MkdirAll(call:path/filepath.Dir(" + telemetryPath + "), …)"
	tmp := "call:fmt.Sprintf(…[" + telemetryPath + ", …])"
	write, rename := "call:os.WriteFile("+tmp+`, conv:[]byte("`+status+`"), …)`, "call:os.Rename("+tmp+", "+telemetryPath+")"
	return [][2]string{{"dir", dir}, {"write", write}, {"rename", rename}},
		[][2]string{noErr("dir", dir), noErr("write", write), noErr("renamed", rename)}, "dir (dir- %s | dir+ write (write- %s | write+ rename %s))"
}

var telemetryClosed = []string{"system.FillPlayerPool", "system.FindRenamedExecutables", "logging.…"}

// telemetrySent: before any command.
func telemetrySent(p *Prog, r *Report, alda *command) {
	f := alda.run["PersistentPreRunE"]
	level := alda.flags["verbosity"].variable
	levels := map[string]bool{}
	for k := 0; k < 4; k++ {
		levels[fmt.Sprintf("(%d == %s)", k, level)] = k == 1
	}
	name := "call:(*github.com/spf13/cobra.Command).Name(arg0)"
	version := p.constStr("generated", "ClientVersion")
	payload := fmt.Sprintf(`map{"arch": "amd64", "command": %s, "os": "linux", "version": "%s"}`, name, version)
	writing, failing, how := telemetryWriting("enabled")
	ev := append([][2]string{{"tell", "call:fmt.Fprint…(os.Stderr, …"}, {"report", `call:(*net/http.Client).Post(net/http.Client{Timeout=…}, "https://api.alda.io/telemetry", "application/json", call:bytes.New…(call:encoding/json.Marshal(` + payload + ")))"}}, writing...)
	ev = append(append(ev, [2]string{"ret", "ret nil"}, [2]string{"-", "call:os.Remove(elem(call:system.FindRenamedExecutables()))"}), otherEffects...)
	marshal := isNil(hashOf("call:encoding/json.Marshal(" + payload + ")"))
	for _, st := range telemetryStates() {
		for _, n := range []string{"alda", "play", "ps"} {
			assume := merged(levels, st.assume, map[string]bool{marshal: true})
			for _, c := range []string{"alda", "play", "ps"} {
				assume[`("`+c+`" == `+name+")"] = c == n
			}
			ref, rest := "ret", ""
			if st.send && n != "alda" {
				ref = "report ret"
			}
			if st.told {
				rest = "tell " + fmt.Sprintf(how, ref, ref, ref)
				ref = ""
			}
			p.behaves(r, "report", "before "+n+", when telemetry is "+st.name, f, traceSpec{GoInline: true, Closed: telemetryClosed, Assume: assume, Events: ev, Conds: append(append([][2]string{}, failing[:2]...), [2]string{"-", "…"})}, rest+ref)
		}
	}
	for _, g := range p.Funcs {
		if relPkg(g) != "cmd" {
			continue
		}
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok && calleeName(c.Common()) == "(*net/http.Client).Post" {
					filePlatform(p, r, "report", "what is reported is this", g)
				}
			}
		}
	}
}

// telemetryTold: alda without a command, or with a wrong one.
func telemetryTold(p *Prog, r *Report) {
	inits := map[*ssa.Function]bool{}
	p.inits(func(f *ssa.Function) { inits[f] = true })
	writing, failing, how := telemetryWriting("enabled")
	for _, h := range []struct{ name, by, own string }{
		{"usage", "(*github.com/spf13/cobra.Command).SetUsageFunc", "call:dyn(…, arg0)"},
		{"help", "(*github.com/spf13/cobra.Command).SetHelpFunc", "call:dyn(…, arg0, arg1)"},
	} {
		fs := p.passedTo(h.by, 1, inits)
		r.ob("notice", "what prints the "+h.name, "", len(fs) == 1, "there is none, or more than one")
		for _, f := range fs {
			ev := append([][2]string{{"tell", "call:fmt.Fprint…(os.Stderr, …"}, {"print", h.own}}, writing...)
			ev = append(append(ev, [2]string{"ret", "ret " + h.own}, [2]string{"ret", "ret "}), otherEffects...)
			for _, st := range telemetryStates() {
				end := "print ret"
				ref := end
				if st.told {
					ref = "tell " + fmt.Sprintf(how, end, end, end)
				}
				p.behaves(r, "notice", "before the "+h.name+", when telemetry is "+st.name, f, traceSpec{GoInline: true, Closed: telemetryClosed, Assume: st.assume, Events: ev, Conds: append(append([][2]string{}, failing[:2]...), [2]string{"-", "…"})}, ref)
			}
		}
	}
}

// telemetryCommand: what the user says.
func telemetryCommand(p *Prog, r *Report, c *command) {
	f := c.run["RunE"]
	enable, disable := c.flags["enable"].variable, c.flags["disable"].variable
	for _, w := range []string{"enabled", "disabled"} {
		writing, failing, how := telemetryWriting(w)
		var ev [][2]string
		for _, e := range writing {
			ev = append(ev, [2]string{"failed", "ret " + e[1]}, e)
		}
		ev = append(ev, [2]string{"say", `call:fmt.Print…call:inv:Bold(color.Aurora, "` + w + `")…`}, [2]string{"say-otherwise", "call:fmt.Print…"}, [2]string{"ret", "ret nil"})
		p.behaves(r, "status", "alda telemetry, to be "+w, f, traceSpec{Closed: []string{"logging.…"}, Assume: map[string]bool{enable: w == "enabled", disable: w == "disabled"}, Events: append(ev, otherEffects...), Conds: failing},
			fmt.Sprintf(how, "failed", "failed", "(renamed- failed | renamed+ say ret)"))
	}
	p.behaves(r, "status", "alda telemetry, to be both", f, traceSpec{Closed: []string{"logging.…"}, Assume: map[string]bool{enable: true, disable: true}, Events: append([][2]string{{"refused", "ret help.UserFacingError{…"}}, otherEffects...), Conds: nil}, "refused")
	writing, failing, how := telemetryWriting("enabled")
	for _, st := range telemetryStates() {
		ev := append([][2]string{{"tell", "call:fmt.Fprint…(os.Stderr, …"}, {"enabled", `call:fmt.Print…call:inv:Bold(color.Aurora, "enabled")…`}, {"disabled", `call:fmt.Print…call:inv:Bold(color.Aurora, "disabled")…`}, {"ret", "ret nil"}, {"failed", "ret " + hashOf("call:os.ReadFile("+telemetryPath+")")}, {"failed", "ret call:fmt.Errorf(…"}}, writing...)
		ref := "enabled ret"
		switch st.name {
		case "disabled for this run", "disabled":
			ref = "disabled ret"
		case "never asked":
			ref = "tell " + fmt.Sprintf(how, ref, ref, ref)
		case "not to be understood", "not to be read":
			ref = "failed"
		}
		p.behaves(r, "status", "alda telemetry, when it is "+st.name, f, traceSpec{Closed: []string{"logging.…"}, Assume: merged(st.assume, map[string]bool{enable: false, disable: false}), Events: append(ev, otherEffects...), Conds: append(append([][2]string{}, failing[:2]...), [2]string{"-", "…"})}, ref)
	}
}
