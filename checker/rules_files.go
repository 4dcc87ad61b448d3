package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = checkFiles }

// fileCalls: what changes the file system, and which of the arguments are paths.
var fileCalls = map[string][]int{
	"os.WriteFile": {0}, "os.Create": {0}, "os.OpenFile": {0}, "os.Rename": {0, 1}, "os.Remove": {0}, "os.RemoveAll": {0},
	"os.Mkdir": {0}, "os.MkdirAll": {0}, "os.Chmod": {0}, "os.Chown": {0}, "os.Chtimes": {0}, "os.Truncate": {0}, "os.Symlink": {0, 1}, "os.Link": {0, 1},
	"os.MkdirTemp": {0}, "os.CreateTemp": {0}, "io/ioutil.WriteFile": {0}, "io/ioutil.TempDir": {0}, "io/ioutil.TempFile": {0},
}

// filePlaces: where each of them may be: what is written, what is deleted.
var fileKept = map[string]bool{"the variable system.CacheDir": true, "the variable system.ConfigDir": true, "os.MkdirTemp": true, "os.Executable": true, `the text ".alda-nrepl-port"`: true, "github.com/google/shlex.Split": true}

var fileGone = map[string]bool{"the variable system.CacheDir": true, "os.MkdirTemp": true, "os.Executable": true, `the text ".alda-nrepl-port"`: true}

func checkFiles(p *Prog, r *Report) {
	r.rule("places", "Whatever changes the file system does so in a place of its own: the cache, the configuration, the directory of the program, a new temporary directory, or a file that the user has named for writing; nothing that the user has named is deleted, and whole directories only if they are temporary; the only program that is started is alda-player")
	r.rule("results", "format and import: a file is written only once, with the whole result, after everything that can fail; without a file to write the result is printed; what is refused or fails is said, and nothing is written")
	r.rule("update", "update: nothing is installed unless it is confirmed, for this release and system, and all of it has been downloaded; what is installed replaces the program in one go, or else the old one is put back; what was downloaded is removed")
	r.rule("left behind", "Only the programs that an update has renamed are removed, and only where it puts them")
	cs := p.commands()
	p.flagsOf(cs)
	filePlaces(p, r, cs)
	fileResults(p, r, cs)
	fileUpdate(p, r, cs)
	fileLeft(p, r)
	fileAsked(p, r)
}

func filePlaces(p *Prog, r *Report, cs map[string]*command) {
	named := map[string]string{}
	for c, fl := range map[string]string{"format": "file", "import": "output"} {
		if cs[c] != nil {
			named["the variable "+cs[c].flags[fl].variable] = "alda " + c + " --" + fl
		}
	}
	for _, f := range p.Funcs {
		if strings.HasPrefix(relPkg(f), "gen/") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				name := calleeName(c.Common())
				switch name {
				case "os/exec.Command", "os/exec.CommandContext":
					from := p.origins(c.Common().Args[len(c.Common().Args)-2])
					r.at("places", "the program that is started in "+fname(f), c, fmt.Sprint(from) == "[os/exec.LookPath]", "it is "+strings.Join(from, " or "))
				case "os/exec.LookPath":
					from := p.origins(c.Common().Args[0])
					r.at("places", "the program that is looked for in "+fname(f), c, fmt.Sprint(from) == `[the text "alda-player"]`, "it is "+strings.Join(from, " or "))
				}
				places := map[string]bool{}
				for _, i := range fileCalls[name] {
					for _, o := range p.origins(c.Common().Args[i]) {
						places[o] = true
						ok := fileKept[o] || named[o] != "" && strings.HasSuffix(name, ".WriteFile")
						switch name {
						case "os.Remove":
							ok = fileGone[o]
						case "os.RemoveAll":
							ok = o == "os.MkdirTemp"
						case "os.MkdirTemp", "os.CreateTemp", "io/ioutil.TempDir", "io/ioutil.TempFile":
							ok = o == `the text ""` || o == "os.MkdirTemp" || o == "os.TempDir"
						}
						r.at("places", fmt.Sprintf("%s in %s, argument %d", name, fname(f), i+1), c, ok, "the path is that of "+o)
					}
				}
				if strings.HasSuffix(name, ".Rename") {
					r.at("places", name+" in "+fname(f)+", from and to", c, len(places) == 1, "it moves a file from one place to another")
				}
			}
		}
	}
}

// otherEffects: what changes a file, sends something or starts something, and
// is not mentioned.
var otherEffects = [][2]string{
	{"writes", "call:os.WriteFile…"}, {"writes", "call:os.Create…"}, {"writes", "call:os.OpenFile…"}, {"renames", "call:os.Rename…"},
	{"removes", "call:os.Remove…"}, {"makes", "call:os.Mkdir…"}, {"chmods", "call:os.Chmod…"}, {"sends", "call:(*net/http.Client)…"}, {"sends", "call:net/http.…"}, {"starts", "call:os/exec…"},
	{"copies", "call:io.Copy…"}, {"exits", "call:os.Exit…"}, {"returns", "ret …"}, {"-", "…"},
}

func fileResults(p *Prog, r *Report, cs map[string]*command) {
	for _, n := range []string{"format", "import"} {
		if cs[n] == nil || cs[n].run["RunE"] == nil {
			r.ob("results", n, "", false, "there is no such command any more")
			return
		}
	}
	flag := func(c, f string) string { return cs[c].flags[f].variable }
	closed := []string{"parser.ParseFile", "parser.Generate…", "parser.Format…", "parser.Configure…", "…ImportMusicXML", "system.ReadStdin", "logging.…"}
	buf := "call:(*bytes.Buffer).Bytes(bytes.Buffer{})"
	str := "call:(*bytes.Buffer).String(bytes.Buffer{})"
	stdout := [][2]string{{"print", "call:(*os.File).Write(os.Stdout, " + buf + ")"}, {"print", "call:(*os.File).WriteString(os.Stdout, " + str + ")"}, {"print", "call:fmt.Print([" + str + "])"}, {"print", "call:fmt.Fprint(os.Stdout, [" + str + "])"}, {"print", "call:(*bytes.Buffer).WriteTo(bytes.Buffer{}, os.Stdout)"}}
	printed := []string{"call#1:(*os.File).Write(os.Stdout, …", "call#1:(*os.File).WriteString(os.Stdout, …", "call#1:fmt.…rint(…", "call#1:(*bytes.Buffer).WriteTo(…"}

	// format
	file, wrap, indent, over := flag("format", "file"), flag("format", "wrap"), flag("format", "indent"), flag("format", "overwrite")
	parse := "call:parser.ParseFile(" + file + ")"
	f := cs["format"].run["RunE"]
	for _, w := range []int{-1, 0, 1} {
		for _, ind := range []bool{false, true} {
			opts := []string{}
			if w > 0 {
				opts = append(opts, "call:parser.ConfigureSoftWrapLen("+wrap+")")
			}
			if ind {
				opts = append(opts, "call:parser.ConfigureIndentText("+indent+")")
			}
			var forms []string
			for _, l := range strings.Split(strings.Join(permutedOf(opts), "\n"), "\n") {
				if l == "" {
					forms = append(forms, "nil", "[]")
				} else {
					forms = append(forms, "["+l+"]")
				}
			}
			for _, o := range []bool{false, true} {
				name := fmt.Sprintf("format, wrapping %s, indent %v, overwriting %v", map[int]string{-1: "negative", 0: "by default", 1: "given"}[w], ind, o)
				assume := map[string]bool{"(" + wrap + " < 0)": w < 0, "(0 < " + wrap + ")": w > 0, "(0 == " + wrap + ")": w == 0, "(0 < call:len(" + indent + "))": ind, over: o}
				var ev, conds [][2]string
				for _, l := range forms {
					form := "call:parser.FormatASTToCode(" + parse + ", bytes.Buffer{}, " + l + ")"
					ev = append(ev, [2]string{"format", form}, [2]string{"not-formatted", "ret …" + form + "…"})
					conds = append(conds, noErr("formatted", form))
				}
				write := "call:os.WriteFile(" + file + ", " + buf + ", …)"
				ev = append(ev, [2]string{"format-otherwise", "call:parser.FormatASTToCode(…"}, [2]string{"not-parsed", "ret …" + hashOf(parse) + "…"}, [2]string{"write", write}, [2]string{"not-written", "ret …" + write + "…"})
				ev = append(append(ev, stdout...), [2]string{"refused", "ret help.UserFacingError{…" + wrap + "…"}, [2]string{"ret", "ret nil"})
				conds = append(conds, noErr("parsed", hashOf(parse)), noErr("written", write))
				for _, x := range printed { // whether that could be done
					ev = append(ev, [2]string{"ret", "ret " + x})
				}
				ref := "(parsed- not-parsed | parsed+ format (formatted- not-formatted | formatted+ "
				switch {
				case w < 0: // whatever is found first
					assume[isNil(hashOf(parse))] = true
					ref = "refused"
				case o:
					ref += "write (written- not-written | written+ ret)))"
				default:
					ref += "print ret))"
				}
				p.behaves(r, "results", name, f, traceSpec{Closed: closed, Assume: assume, Events: append(ev, otherEffects...), Conds: conds}, ref)
			}
		}
	}

	// import
	file, code, out, kind := flag("import", "file"), flag("import", "code"), flag("import", "output"), flag("import", "import-format")
	f = cs["import"].run["RunE"]
	known := `("musicxml" == ` + kind + ")"
	p.behaves(r, "results", "import of another kind", f, traceSpec{Closed: closed, Assume: map[string]bool{known: false}, Events: append([][2]string{{"refused", "ret help.UserFacingError{…" + kind + "…"}}, otherEffects...)}, "refused")
	for i, src := range []struct{ name, read, data string }{
		{"a file", "call:os.ReadFile(" + file + ")", "call:os.ReadFile(" + file + ")"},
		{"code", "", "conv:[]byte(" + code + ")"},
		{"input", "call:system.ReadStdin()", "call:system.ReadStdin()"},
	} {
		for _, o := range []bool{false, true} {
			assume := map[string]bool{known: true, "(0 < call:len(" + file + "))": i == 0, "(0 < call:len(" + out + "))": o}
			if i > 0 {
				assume["(0 < call:len("+code+"))"] = i == 1
			}
			imp := "call:interop/musicxml/importer.ImportMusicXML(" + src.data + ")"
			gen := "call:parser.GenerateASTFromScoreUpdates(" + imp + ")"
			to := "os.Stdout"
			if o {
				to = "bytes.Buffer{}"
			}
			form := "call:parser.FormatASTToCode(" + gen + ", " + to + ", …)"
			write := "call:os.WriteFile(" + out + ", " + buf + ", …)"
			ev := [][2]string{{"import", imp}, {"import-otherwise", "call:interop/musicxml/importer.ImportMusicXML(…"}, {"generate", gen}, {"format", form}, {"format-otherwise", "call:parser.FormatASTToCode(…"}, {"write", write},
				{"not-imported", "ret …" + hashOf(imp) + "…"}, {"not-generated", "ret …" + hashOf(gen) + "…"}, {"not-formatted", "ret …" + form + "…"}, {"not-written", "ret …" + write + "…"}, {"ret", "ret nil"}}
			conds := [][2]string{noErr("imported", hashOf(imp)), noErr("generated", hashOf(gen)), noErr("formatted", form), noErr("written", write)}
			ref := "import (imported- not-imported | imported+ generate (generated- not-generated | generated+ format (formatted- not-formatted | formatted+ "
			if o {
				ref += "write (written- not-written | written+ ret))))"
			} else {
				ref += "ret)))"
			}
			if src.read != "" {
				ev = append([][2]string{{"read", src.read}, {"not-read", "ret …" + hashOf(src.read) + "…"}}, ev...)
				conds = append(conds, noErr("read", hashOf(src.read)))
				ref = "read (read- not-read | read+ " + ref + ")"
			}
			p.behaves(r, "results", fmt.Sprintf("import from %s, to a file %v", src.name, o), f, traceSpec{Closed: closed, Assume: assume, Events: append(ev, otherEffects...), Conds: conds}, ref)
		}
	}

	// the formatted code is written once, and whole
	write := "call:inv:Write(arg1, …)"
	p.behaves(r, "results", "writing formatted code", p.fn("parser.FormatASTToCode"), traceSpec{Closed: []string{"parser.new…", "(*parser.formatter).…"}, Events: append([][2]string{{"format", "call:(*parser.formatter).formatTopLevel(…, arg0)"}, {"write", "call:inv:Write(arg1, " + buf + ")"}, {"write-else", write}, {"not-formatted", "ret call:(*parser.formatter).format…"}, {"ret", "ret call#1:inv:Write(arg1, …)"}, {"ret", "ret nil"}}, otherEffects...),
		Conds: [][2]string{noErr("formatted", "call:(*parser.formatter).format…")}}, "format (formatted- not-formatted | formatted+ write ret)")
}

func permutedOf(xs []string) []string {
	if len(xs) == 0 {
		return []string{""}
	}
	return permuted(xs)
}

// inPackage: the function of this name, or else the only one of this type.
func (p *Prog) inPackage(pkg, name string, like func(sig *types.Signature) bool) *ssa.Function {
	if f := p.fn(pkg + "." + name); f != nil && like(f.Signature) {
		return f
	}
	var found []*ssa.Function
	for _, f := range p.funcsIn(pkg) {
		if f.Parent() == nil && f.Signature.Recv() == nil && like(f.Signature) {
			found = append(found, f)
		}
	}
	if len(found) != 1 {
		return nil
	}
	return found[0]
}

// sigOf: a type of a function, by what it takes and gives.
func sigOf(params, results string) func(*types.Signature) bool {
	text := func(t *types.Tuple) string {
		var out []string
		for i := 0; i < t.Len(); i++ {
			out = append(out, typeName(t.At(i).Type()))
		}
		return strings.Join(out, ", ")
	}
	return func(s *types.Signature) bool {
		return glob(params, text(s.Params())) && glob(results, text(s.Results()))
	}
}

func fileUpdate(p *Prog, r *Report, cs map[string]*command) {
	if cs["update"] == nil || cs["update"].run["RunE"] == nil {
		r.ob("update", "update", "", false, "there is no such command any more")
		return
	}
	assetsOf := p.inPackage("cmd", "versionAssets", sigOf("*…Container", "[]cmd.…, error"))
	download := p.inPackage("cmd", "downloadAssets", sigOf("[]cmd.…", "string, error"))
	install := p.inPackage("cmd", "installAsset", sigOf("string, cmd.…", "error"))
	if assetsOf == nil || download == nil || install == nil {
		r.ob("update", "the assets of a release, downloading and installing them", "", false, "there is no such function any more")
		return
	}

	// installing one
	exe, real := "call:os.Executable()", "call:path/filepath.EvalSymlinks(call:os.Executable())"
	to := "call:path/filepath.Join([call:path/filepath.Dir(" + real + "), arg1.…])"
	from := "call:path/filepath.Join([arg0, arg1.…])"
	old := `call:fmt.Sprintf("%s.%d.%d.old", [` + to + ", …])"
	away, open, create := "call:os.Rename("+to+", "+old+")", "call:os.Open("+from+")", "call:os.Create("+to+")"
	copied := "call:io.Copy(" + create + ", " + open + ")"
	stat := "call:(*os.File).Stat(" + create + ")"
	runs := "call:os.Chmod(" + to + ", (73 | …"
	ev := [][2]string{{"exe", exe}, {"real", real}, {"away", away}, {"open", open}, {"create", create}, {"copy", copied}, {"-", "call:os.Remove(" + from + ")"}, {"runs", runs}, {"runs", "call:os.Chmod(" + to + ", (… | 73))"},
		{"clear", "call:os.Remove(" + to + ")"}, {"back", "call:os.Rename(" + old + ", " + to + ")"},
		{"refused", "ret call:fmt.Errorf(…arg1.…"}, {"failed", "ret " + hashOf(exe)}, {"failed", "ret " + hashOf(real)}, {"failed", "ret " + away}, {"failed", "ret " + hashOf(open)}, {"failed", "ret " + hashOf(create)}, {"failed", "ret " + hashOf(copied)}, {"failed", "ret " + runs}, {"ret", "ret nil"}}
	for _, was := range []bool{true, false} {
		fail := "failed"
		if was {
			fail = "clear back failed"
		}
		ref := "(exe- failed | exe+ real (real- failed | real+ away "
		rest := "open (open- FAIL | open+ create (create- FAIL | create+ copy (copy- FAIL | copy+ runs (runs- FAIL | runs+ ret))))"
		assume := map[string]bool{`("executable" == arg1.…)`: true, isNil(away): was, isNil(hashOf(stat)): true}
		name := "installing what was there"
		if !was {
			name = "installing what was not there, or cannot be moved"
			ref += "(missing- failed | missing+ " + rest + ")))"
		} else {
			ref += rest + "))"
		}
		ref = "exe " + strings.ReplaceAll(ref, "FAIL", fail)
		p.behaves(r, "update", name, install, traceSpec{Closed: []string{"logging.…"}, Assume: assume, Events: append(append([][2]string{}, ev...), otherEffects...),
			Conds: [][2]string{noErr("exe", hashOf(exe)), noErr("real", hashOf(real)), noErr("open", hashOf(open)), noErr("create", hashOf(create)), noErr("copy", hashOf(copied)), noErr("runs", runs), {"missing", "call:errors.Is(" + away + ", …)"}}}, ref)
	}
	p.behaves(r, "update", "installing anything else", install, traceSpec{Closed: []string{"logging.…"}, Assume: map[string]bool{`("executable" == arg1.…)`: false}, Events: append(append([][2]string{}, ev...), otherEffects...)}, "refused")

	// downloading them
	dir := "call:os.MkdirTemp(…)"
	get := "call:(*net/http.Client).Get(net/http.Client{Timeout=…}, elem(arg0).…)"
	make1 := "call:os.Create(call:path/filepath.Join([" + dir + ", elem(arg0).…]))"
	cp := "call:io.Copy(" + make1 + ", …" + get + "…"
	p.behaves(r, "update", "downloading", download, traceSpec{Turn: true, Quiet: true, GoInline: true, Maybe: "temporary made+ wait remove failed", Closed: []string{"…mpb/v6…", "logging.…"}, Events: append([][2]string{{"temporary", dir}, {"get", get}, {"create", make1}, {"copy", cp}, {"abort", "call:(*github.com/vbauerster/mpb/v6.Bar).Abort…"}, {"wait", "call:(*github.com/vbauerster/mpb/v6.Progress).Wait…"},
		{"remove", "call:os.RemoveAll(" + dir + ")"}, {"ret", "ret " + dir + ", nil"}, {"failed", `ret "", …`}}, otherEffects...),
		Conds: [][2]string{noErr("made", hashOf(dir)), noErr("got", hashOf(get)), noErr("created", hashOf(make1)), noErr("copied", hashOf(cp)), {"good", "(200 == …)"}}}, "temporary (made- failed | made+ (get (got- remove failed | got+ (good- remove failed | good+ create (created- remove failed | created+ copy (copied+ again | copied- abort again)))) | wait ret))")
	fileAssets(p, r, assetsOf)
	filePlatform(p, r, "update", "the assets are those for this", assetsOf)
	fileNoted(p, r, download)
	filePlayer(p, r, assetsOf, download, install)

	// what is installed, and when
	desired, yes := cs["update"].flags["version"].variable, cs["update"].flags["yes"].variable
	version := p.constStr("generated", "ClientVersion")
	found := "call:" + fname(assetsOf)
	fetched, installed := "call:"+fname(download)+"("+found+"(…))", "call:"+fname(install)+"("
	do := "assets (found- failed | found+ download (downloaded- failed | downloaded+ (more+ install installed+)* (more- remove ret | more+ install installed- remove failed)))"
	ask := "(yes+ " + do + " | yes- (confirmed+ " + do + " | confirmed- ret))"
	for _, c := range []struct {
		name, url string
		desired   bool
		n         int // how many there are
		what      string
	}{
		{"a version", `("https://api.alda.io…/release/" + ` + desired + ")", true, -1, "%s"},
		{"the latest version: none", `"https://api.alda.io/releases/latest?from-version=` + version + `"`, false, 0, ""},
		{"the latest version: one", `"https://api.alda.io/releases/latest?from-version=` + version + `"`, false, 1, "ix(call:(*github.com/Jeffail/gabs/v2.Container).Children(call:(*github.com/Jeffail/gabs/v2.Container).Search(%s, [\"releases\"])), 0)"},
		{"the latest version: a choice", `"https://api.alda.io/releases/latest?from-version=` + version + `"`, false, 2, "lk(…)"},
	} {
		get := "call:(*net/http.Client).Get(net/http.Client{Timeout=…}, " + c.url + ")"
		json := "call:json.ParseJSONBuffer(" + get + ".Body)"
		what := c.what
		if strings.Contains(what, "%s") {
			what = fmt.Sprintf(what, json)
		}
		list := "call:(*github.com/Jeffail/gabs/v2.Container).Search(" + json + `, ["releases"])`
		kids := "call:(*github.com/Jeffail/gabs/v2.Container).Children(" + list + ")"
		assume := map[string]bool{"(0 < call:len(" + desired + "))": c.desired, "is:string(…": true, isNil(list): false, isNil(kids): false}
		assume["(0 < call:len("+kids+"))"] = c.n > 0
		for k := 0; k < 3; k++ {
			assume[fmt.Sprintf("(%d == call:len(%s))", k, kids)] = c.n == k
			assume[fmt.Sprintf("(%d < call:len(%s))", k, kids)] = c.n > k
		}
		ref, bad := ask, "unexpected"
		if c.desired {
			bad = "(gone+ no-such | gone- unexpected)"
		}
		choose := "call:github.com/AlecAivazis/survey/v2.AskOne(…)"
		switch c.n {
		case 0:
			ref = "ret"
		case 2:
			ref = "choose (chosen- failed | chosen+ " + ask + ")"
		}
		p.behaves(r, "update", "updating to "+c.name, cs["update"].run["RunE"], traceSpec{Closed: []string{"logging.…", "text.…", fname(assetsOf), fname(download), fname(install)}, Assume: assume,
			Events: append([][2]string{{"get", get}, {"json", json}, {"choose", choose}, {"assets", found + "(" + what + ")"}, {"assets", found + "(nil)"}, {"download", fetched}, {"install", installed + fetched + ", elem(" + found + "(…)))"}, {"remove", "call:os.RemoveAll(" + fetched + ")"},
				{"failed", "ret " + hashOf(get)}, {"failed", "ret " + hashOf(json)}, {"failed", "ret " + choose}, {"failed", "ret " + hashOf(found) + "(…"}, {"failed", "ret " + hashOf(fetched)}, {"failed", "ret " + installed + "…"}, {"no-such", "ret help.UserFacingError{…"}, {"unexpected", "ret call:fmt.Errorf(…"}, {"ret", "ret nil"}}, otherEffects...),
			Conds: [][2]string{noErr("got", hashOf(get)), noErr("json", hashOf(json)), {"ok", "(200 == …)"}, {"gone", "(404 == …)"}, {"yes", yes}, {"confirmed", "call:text.PromptForConfirmation(…, …)"}, noErr("chosen", choose), noErr("found", hashOf(found)+"(…"), noErr("downloaded", hashOf(fetched)), noErr("installed", installed+"…"), {"more", "(… < call:len(" + found + "(…)))"}}}, "get (got- failed | got+ (ok+ json (json- failed | json+ "+ref+") | ok- "+bad+"))")
	}
}

// fileAssets: what there is to be downloaded.
func fileAssets(p *Prog, r *Report, f *ssa.Function) {
	search := "call:(*github.com/Jeffail/gabs/v2.Container).Search(arg0, "
	list := "call:(*github.com/Jeffail/gabs/v2.Container).Data(" + search + `["assets", call:fmt.Sprintf("%s-%s", ["linux", "amd64"])]))`
	each := "elem(as:[]interface{}(" + list + "))"
	var conds [][2]string
	var fields []string
	for _, k := range []string{"name", "type", "url"} {
		at := "lk(as:map[string]interface{}(" + each + `), "` + k + `")`
		conds = append(conds, [2]string{k, "is:string(" + at + ")"})
		fields = append(fields, "…=as:string("+at+")")
	}
	conds = append(conds, [2]string{"some", "is:[]interface{}(" + list + ")"}, [2]string{"map", "is:map[string]interface{}(" + each + ")"}, [2]string{"-", "…"})
	var shape []string
	named := map[string]string{}
	for i, k := range []string{"Name", "Type", "Url"} {
		named["asset"+k] = fields[i]
	}
	for _, k := range sortedKeys(named) {
		shape = append(shape, named[k])
	}
	bad := "unexpected"
	ref := "(some- none | some+ (map+ name+ type+ url+ add)* (ret | (map- | map+ (name- | name+ (type- | type+ url-))) " + bad + "))"
	p.behaves(r, "update", "the assets", f, traceSpec{Builds: []string{"cmd.releaseAsset"}, Events: append([][2]string{{"add", "add cmd.releaseAsset{" + strings.Join(shape, ", ") + "}"}, {"added", "add …"},
		{"unexpected", "ret nil, call:fmt.Errorf(…[" + each + "…"}, {"none", "ret nil, call:fmt.Errorf(…[…, call:fmt.Sprintf(" + `"%s-%s", ["linux", "amd64"])…`}, {"ret", "ret loop:…, nil"}, {"ret", "ret [], nil"}}, otherEffects...), Conds: conds}, ref)
}

// filePlatform: the assets are those for where the program runs, not just
// where it is compiled by whoever checks it.
func filePlatform(p *Prog, r *Report, rule, what string, f *ssa.Function) {
	fs := p.reachable(f)
	used := map[string]bool{}
	for _, pkg := range p.Pkgs {
		for id, obj := range pkg.TypesInfo.Uses {
			if obj.Pkg() == nil || obj.Pkg().Path() != "runtime" {
				continue
			}
			for g := range fs {
				if n := g.Syntax(); n != nil && n.Pos() <= id.Pos() && id.Pos() < n.End() {
					used[obj.Name()] = true
				}
			}
		}
	}
	for _, n := range []string{"GOOS", "GOARCH"} {
		r.ob(rule, what+" runtime."+n, p.pos(f.Pos()), used[n], fname(f)+" does not use it")
	}
}

// fileNoted: what goes wrong while copying, in the background, is what is
// returned.
func fileNoted(p *Prog, r *Report, f *ssa.Function) {
	fs := p.reachable(f)
	n := 0
	for _, g := range p.Funcs {
		if !fs[g] || relPkg(g) != relPkg(f) {
			continue
		}
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || !strings.HasPrefix(calleeName(c.Common()), "io.Copy") {
					continue
				}
				n++
				ok = false
				for _, u := range *c.Referrers() {
					if e, isIt := u.(*ssa.Extract); isIt && e.Index == 1 {
						ok = ok || p.givenBack(e, f, fs)
					}
				}
				r.at("update", "what goes wrong while copying in "+fname(g), c, ok, "it does not get into what "+fname(f)+" returns")
			}
		}
	}
	r.ob("update", "copying what is downloaded", "", n > 0, "nothing is copied")
}

// renamedName: the names that an update gives to the programs that it
// replaces.
const renamedName = `^alda(-player)?(\.exe)?\.[0-9]+\.[0-9]+\.old$`

func fileLeft(p *Prog, r *Report) {
	f := p.inPackage("system", "FindRenamedExecutables", sigOf("", "[]string, error"))
	exe := "call:os.Executable()"
	real := "call:path/filepath.EvalSymlinks(" + exe + ")"
	dir := "call:path/filepath.Dir(" + real + ")"
	read := "call:os.ReadDir(" + dir + ")"
	each := "elem(" + read + ")"
	name := "call:inv:Name(" + each + ")"
	p.behaves(r, "left behind", "what is found", f, traceSpec{Turn: true, Quiet: true, Builds: []string{"string"}, Events: append([][2]string{{"exe", exe}, {"real", real}, {"read", read}, {"-", "call:inv:…"}, {"again", "again"},
		{"add", "add call:path/filepath.Join([" + dir + ", " + name + "])"}, {"other", "add …"},
		{"failed", "ret nil, " + hashOf(exe)}, {"failed", "ret nil, " + hashOf(real)}, {"failed", "ret nil, " + hashOf(read)}, {"ret", "ret loop:…, nil"}, {"ret", "ret [], nil"}, {"ret", "ret nil, nil"}}, otherEffects...),
		Conds: [][2]string{noErr("exe", hashOf(exe)), noErr("real", hashOf(real)), noErr("read", hashOf(read)), {"dir", "call:inv:IsDir(" + each + ")"}, {"renamed", "call:(*regexp.Regexp).MatchString(…, " + name + ")"}, {"renamed", "call:regexp.MatchString(…, " + name + ")"}, {"-", "…"}}},
		"exe (exe- failed | exe+ real (real- failed | real+ read (read- failed | read+ (ret | (dir+ | dir- renamed-) again | dir- renamed+ add again))))")
	if f == nil {
		return
	}
	n := 0
	fs := p.reachable(f)
	for _, g := range p.Funcs {
		if !fs[g] {
			continue
		}
		for c, pats := range p.patterns(g) {
			for _, pat := range pats {
				n++
				ok, why := sameMatches(pat, renamedName)
				r.at("left behind", "the names that are looked for in "+fname(g), c, ok, "it differs from "+renamedName+" for "+why)
			}
		}
	}
	r.ob("left behind", "the names that are looked for", "", n > 0, "there are none")
}

func fileAsked(p *Prog, r *Report) {
	f := p.inPackage("text", "PromptForConfirmation", sigOf("string, bool", "bool"))
	read := "call:(*bufio.Reader).ReadString(call:bufio.NewReader(os.Stdin), 10)"
	answer := "call:strings.ToLower(call:strings.TrimSpace(" + read + "))"
	eq := func(s string) string { return `("` + s + `" == ` + answer + ")" }
	answers := []struct{ text, ret string }{{"", "default"}, {"y", "yes"}, {"yes", "yes"}, {"n", "no"}, {"no", "no"}, {"anything else", "again"}}
	for _, a := range answers {
		assume := map[string]bool{isNil(hashOf(read)): true, "(0 < call:len(" + answer + "))": a.text != ""}
		for _, b := range answers {
			assume[eq(b.text)] = b.text == a.text
		}
		p.behaves(r, "update", "a confirmation is asked for, and the answer is: "+a.text, f, traceSpec{Turn: true, Assume: assume, Events: asked(read)}, "read "+a.ret)
	}
	p.behaves(r, "update", "a confirmation is asked for, and there is no answer", f, traceSpec{Turn: true, Assume: map[string]bool{isNil(hashOf(read)): false}, Events: asked(read)}, "read no")
}

func asked(read string) [][2]string {
	return [][2]string{{"read", read}, {"yes", "ret true"}, {"no", "ret false"}, {"default", "ret arg1"}, {"-", "call:fmt.…"}, {"-", "call:bufio.NewReader(os.Stdin)"}}
}

// filePlayer: what alda doctor installs.
func filePlayer(p *Prog, r *Report, assetsOf, download, install *ssa.Function) {
	var f *ssa.Function
	for _, c := range p.callers(assetsOf) {
		if g := c.Parent(); sigOf("", "error")(g.Signature) {
			f = g
		}
	}
	version := p.constStr("generated", "ClientVersion")
	get := `call:(*net/http.Client).Get(net/http.Client{Timeout=…}, "https://api.alda.io/release/` + version + `")`
	json := "call:json.ParseJSONBuffer(" + get + ".Body)"
	assets := "call:" + fname(assetsOf) + "(" + json + ")"
	fetched := "call:" + fname(download) + "("
	installed := "call:" + fname(install) + "("
	each := "elem(" + assets + ")"
	for _, it := range []string{"alda-player", "alda-player.exe", "something else"} {
		ref := "missing"
		if it != "something else" {
			ref = "(missing | download (downloaded- failed | downloaded+ install (installed- remove failed | installed+ remove ret)))"
		}
		assume := map[string]bool{isNil(hashOf(get)): true, "(200 == …)": true, isNil(hashOf(json)): true, "(0 < call:len(" + each + ".assetName))": true}
		for _, n := range []string{"alda-player", "alda-player.exe"} {
			assume[`("`+n+`" == `+each+".assetName)"] = n == it
		}
		p.behaves(r, "update", "doctor: of all assets, when each is "+it, f, traceSpec{Closed: []string{"logging.…", fname(assetsOf), fname(download), fname(install)}, Assume: assume,
			Events: append([][2]string{{"get", get}, {"json", json}, {"assets", assets}, {"download", fetched + "[" + each + "])"}, {"install", installed + fetched + "[" + each + "]), " + each + ")"}, {"remove", "call:os.RemoveAll(" + fetched + "…"},
				{"otherwise", fetched + "…"}, {"otherwise", installed + "…"}, {"ret", "ret nil"}, {"failed", "ret " + hashOf(assets)}, {"failed", "ret " + hashOf(fetched) + "…"}, {"failed", "ret " + installed + "…"}, {"missing", "ret call:fmt.Errorf(…"}}, otherEffects...),
			Conds: [][2]string{noErr("found", hashOf(assets)), noErr("downloaded", hashOf(fetched)+"…"), noErr("installed", installed+"…"), {"-", "…"}}}, "get json assets (found- failed | found+ "+ref+")")
	}
	if f == nil {
		return
	}
	n := 0
	for _, c := range p.callers(f) {
		n++
		g := c.Parent()
		p.behaves(r, "update", "doctor: no, the player is not to be installed, at "+p.atCall(c), g, traceSpec{Closed: []string{fname(f), "logging.…", "system.…"}, Assume: map[string]bool{"call:text.PromptForConfirmation(…)": false},
			Events: [][2]string{{"install", "call:" + fname(f) + "(…"}, {"install", "call:" + fname(install) + "…"}, {"install", "call:" + fname(download) + "…"}, {"ret", "ret …"}, {"-", "…"}}, Conds: [][2]string{{"-", "…"}}}, "ret")
	}
	r.ob("update", "doctor: where the player is installed", "", n > 0, "it is not any more")
}

// atCall: a call, by what it is the how-manieth of.
func (p *Prog) atCall(c ssa.CallInstruction) string {
	n := 1
	for _, d := range p.callers(c.Common().StaticCallee()) {
		if d.Pos() < c.Pos() {
			n++
		}
	}
	return fmt.Sprintf("call %d", n)
}
