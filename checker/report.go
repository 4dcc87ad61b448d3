package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one decided instance of one rule.
type Obligation struct {
	Rule   string `json:"rule"`
	Key    string `json:"construct"`
	Where  string `json:"at"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
}

// Report collects the obligations of one property check.
type Report struct {
	Prop  string
	p     *Prog
	Obs   []Obligation
	Rules map[string]string // rule -> what it demands
	order []string
	Extra map[string]int
	seen  map[string]int
}

func newReport(prop string, p *Prog) *Report {
	return &Report{Prop: prop, p: p, Rules: map[string]string{}, Extra: map[string]int{}, seen: map[string]int{}}
}

func (r *Report) rule(id, text string) {
	if _, ok := r.Rules[id]; !ok {
		r.order = append(r.order, id)
	}
	r.Rules[id] = text
}

func (r *Report) ob(rule, key, where string, ok bool, detail string) {
	if _, known := r.Rules[rule]; !known {
		panic("undeclared rule " + rule)
	}
	r.Obs = append(r.Obs, Obligation{rule, key, where, ok, detail})
}

func (r *Report) at(rule, key string, i ssa.Instruction, ok bool, detail string) {
	r.ob(rule, key, r.p.ipos(i)+" ["+fname(i.Parent())+"]", ok, detail)
}

func (r *Report) count(rule string) int {
	n := 0
	for _, o := range r.Obs {
		if o.Rule == rule {
			n++
		}
	}
	return n
}

// floor: the rule must have found at least n instances; a rule that matches
// nothing any more has lost its subject and must not pass vacuously.
func (r *Report) floor(rule string, n int) {
	if c := r.count(rule); c < n {
		r.ob(rule, "instances", "", false, fmt.Sprintf("only %d instances of this construct are left in the source (at least %d expected): what the rule protects is gone", c, n))
	}
}

type known struct{ prop, key, text string }

func readKnown(path string) (out []known) {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		parts := strings.SplitN(l, " :: ", 3)
		if len(parts) != 3 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(parts[0], "property="), parts[1], parts[2]})
	}
	return
}

// finish prints the verdict, writes evidence, returns the exit code.
func (r *Report) finish(verif, tier string, start time.Time) int {
	kn := readKnown(filepath.Join(verif, "known-findings.txt"))
	used := map[string]bool{}
	var bad []Obligation
	discharged := 0
	perRule := map[string]map[string]int{}
	for _, o := range r.Obs {
		if perRule[o.Rule] == nil {
			perRule[o.Rule] = map[string]int{}
		}
		perRule[o.Rule]["instances"]++
		if o.OK {
			discharged++
			perRule[o.Rule]["held"]++
			continue
		}
		k := o.Rule + "|" + o.Key
		isKnown := false
		for _, x := range kn {
			if x.prop == r.Prop && x.key == k {
				isKnown = true
				if !used[k] {
					used[k] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.Prop, x.text, o.Where)
				}
			}
		}
		if isKnown {
			perRule[o.Rule]["known_findings"]++
			continue
		}
		perRule[o.Rule]["violations"]++
		bad = append(bad, o)
	}
	var expl []string
	for _, id := range r.order {
		n := 0
		if perRule[id] != nil {
			n = perRule[id]["instances"]
		}
		expl = append(expl, fmt.Sprintf("%s (%d instances): %s", id, n, r.Rules[id]))
	}
	var samples []Obligation
	seenRule := map[string]int{}
	for _, o := range r.Obs {
		if seenRule[o.Rule] < 3 {
			seenRule[o.Rule]++
			samples = append(samples, o)
		}
	}
	var fnNames []string
	seenFn := map[string]bool{}
	for _, o := range r.Obs {
		if a := strings.Index(o.Where, "["); a >= 0 {
			n := strings.TrimSuffix(o.Where[a+1:], "]")
			if !seenFn[n] {
				seenFn[n] = true
				fnNames = append(fnNames, n)
			}
		}
	}
	sort.Strings(fnNames)
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	cov := map[string]any{
		"explanation":                "Static analysis of /repo/client's type-checked SSA (and the Kotlin sources where named), rebuilt from the working tree on this run. Rules: " + strings.Join(expl, " || "),
		"obligations":                len(r.Obs),
		"discharged":                 discharged,
		"per_rule":                   perRule,
		"functions_loaded":           len(r.p.Funcs),
		"functions_with_obligations": fnNames,
		"samples":                    samples,
		"known_findings_seen":        len(used),
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	ev := map[string]any{"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(bad),
		"assumptions": []string{
			"go/types and go/ssa represent the program the real build compiles (GOOS/GOARCH of this machine; client/generated/version.go is overlaid)",
			"no unsafe, no cgo, no reflection-driven mutation of the analysed structures",
		}}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0644)
	if len(bad) == 0 {
		fmt.Printf("OK property=%s: %d obligations over %d rules, %d functions analysed\n", r.Prop, len(r.Obs), len(r.order), len(r.p.Funcs))
		return 0
	}
	rp := filepath.Join(dir, "replay-"+r.Prop+".txt")
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "rule %s: %s\n  construct: %s\n  at: %s\n  %s\n\n", o.Rule, r.Rules[o.Rule], o.Key, o.Where, o.Detail)
	}
	os.WriteFile(rp, []byte(sb.String()), 0644)
	for i, o := range bad {
		if i == 40 {
			fmt.Printf("… %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("%s: %s [%s|%s] %s\n", r.Prop, o.Where, o.Rule, o.Key, o.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	return 1
}
