package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type check func(p *Prog, r *Report)

var checks = map[string]check{}

func main() {
	prop := flag.String("property", "", "property id, comma separated list or all")
	repo := flag.String("repo", "/repo", "alda repository")
	verif := flag.String("verif", "", "verification directory")
	dumpFn := flag.String("dump", "", "development aid: dump a function")
	raw := flag.String("raw", "", "development aid: SSA of a function")
	flag.Parse()
	if *verif == "" {
		d, _ := os.Getwd()
		*verif = d
	}
	*verif, _ = filepath.Abs(*verif)
	start := time.Now()
	debug.SetGCPercent(400)
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else if *prop != "" {
		ids = strings.Split(*prop, ",")
	}
	p, err := load(*repo, "", "")
	if err != nil {
		// The tree does not type-check: nothing can be decided, which is a failure of every property asked for.
		fmt.Println("load:", err)
		for _, id := range ids {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, *repo)
		}
		os.Exit(1)
	}
	if *dumpFn == "shapes" {
		dumpShapes(p)
		return
	}
	if *dumpFn == "builtins" {
		dumpBuiltins(p)
		return
	}
	if o := os.Getenv("CHK_OPAQUE"); o != "" {
		p.opaque(strings.Split(o, ",")...)
	}
	if *dumpFn == "globals" {
		dumpGlobals(p)
		return
	}
	if *dumpFn == "mapranges" {
		dumpMapRanges(p)
		return
	}
	if strings.HasPrefix(*dumpFn, "panics:") {
		devPanics(p, (*dumpFn)[7:])
		return
	}
	if strings.HasPrefix(*dumpFn, "table:") {
		dumpTable(p, (*dumpFn)[6:])
		return
	}
	if strings.HasPrefix(*dumpFn, "rets:") {
		p.keepCtx = os.Getenv("CHK_CTX") != ""
		dumpReturns(p, (*dumpFn)[5:])
		return
	}
	if strings.HasPrefix(*dumpFn, "effg:") {
		p.opaque(modelOpaque...)
		dumpEffG(p, (*dumpFn)[5:])
		return
	}
	if strings.HasPrefix(*dumpFn, "trace:") {
		dumpTrace(p, (*dumpFn)[6:])
		return
	}
	if strings.HasPrefix(*dumpFn, "acts:") {
		p.opaque(modelOpaque...)
		for _, n := range strings.Split((*dumpFn)[5:], ",") {
			dumpActs(p, n)
		}
		return
	}
	if strings.HasPrefix(*dumpFn, "eff:") {
		p.opaque(modelOpaque...)
		for _, n := range strings.Split((*dumpFn)[4:], ",") {
			dumpEffects(p, n)
		}
		return
	}
	if *dumpFn != "" {
		dump(p, *dumpFn)
		return
	}
	if *raw != "" {
		for _, f := range p.Funcs {
			if strings.Contains(fname(f), *raw) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	p.opaque(modelOpaque...)
	code := 0
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		r := newReport(id, p)
		if len(ids) > 1 {
			start = time.Now()
		}
		runGuarded(c, p, r)
		if r.finish(*verif, tier(), start) != 0 {
			code = 1
		}
	}
	os.Exit(code)
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// runGuarded: a checker that cannot finish its analysis has not shown that the
// property holds.
func runGuarded(c check, p *Prog, r *Report) {
	defer func() {
		if e := recover(); e != nil {
			r.rule("analysis", "the analysis completes on the current tree")
			st := string(debug.Stack())
			r.ob("analysis", "panic", "", false, fmt.Sprint(e)+"\n"+st)
		}
	}()
	c(p, r)
}
