package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect is a write to state that outlives the function: a store through a
// field, element or map, or an append assigned to one (an append shows as the
// stored value).
type Effect struct {
	Site
	Target string // canonical expression of the location
	Base   *E     // owner of the field
	Field  string
	Val    *E
}

// effects lists the stores of the virtually inlined program rooted at root to
// locations that are not freshly allocated in it.
func (p *Prog) effects(root *Ctx) (out []Effect) {
	p.sites(root, func(s Site) {
		switch i := s.I.(type) {
		case *ssa.Store:
			switch a := i.Addr.(type) {
			case *ssa.FieldAddr:
				base := p.expr(a.X, s.C)
				f := fieldName(a)
				out = append(out, Effect{s, base.String() + "." + f, base, f, p.expr(i.Val, s.C)})
			case *ssa.IndexAddr:
				base := p.expr(a.X, s.C)
				if _, ok := a.X.(*ssa.Alloc); ok {
					return
				}
				t := p.indexExpr(base, a.Index, s.C)
				out = append(out, Effect{s, t.String(), base, "[]", p.expr(i.Val, s.C)})
			case *ssa.Global:
				out = append(out, Effect{s, p.expr(a, s.C).String(), p.expr(a, s.C), "", p.expr(i.Val, s.C)})
			}
		case *ssa.MapUpdate:
			base := p.expr(i.Map, s.C)
			out = append(out, Effect{s, base.String() + "[" + p.expr(i.Key, s.C).String() + "]", base, "[]", p.expr(i.Value, s.C)})
		}
	})
	return
}

func fieldName(a *ssa.FieldAddr) string {
	return structOf(a.X.Type()).Field(a.Field).Name()
}

var indRe = regexp.MustCompile(`#\d+\(\)`)

// norm hides analysis-internal identities in an expression text.
func norm(s string) string {
	s = indRe.ReplaceAllString(s, "")
	for _, a := range abbrevs {
		s = strings.ReplaceAll(s, a[0], a[1])
	}
	return s
}

// abbrevs are applied to every expression text in turn, to keep the patterns
// of a rule readable.
var abbrevs [][2]string

func abbreviated(as [][2]string, f func()) {
	old := abbrevs
	abbrevs = as
	defer func() { abbrevs = old }()
	f()
}

func isFresh(e *E) bool {
	for _, a := range e.alts() {
		if a.Op != "new" {
			return false
		}
	}
	return true
}

func dumpEffects(p *Prog, name string) {
	f := p.fn(name)
	if f == nil {
		fmt.Println("no", name)
		return
	}
	var ls []string
	seen := map[string]bool{}
	for _, e := range p.effects(rootCtx(f)) {
		if isFresh(e.Base) {
			continue
		}
		l := fmt.Sprintf("%s := %s", trim(norm(e.Target), 300), trim(norm(e.Val.String()), 700))
		if !seen[l] {
			seen[l] = true
			ls = append(ls, p.ipos(e.I)+" "+l)
		}
	}
	sort.Strings(ls)
	fmt.Println("== ", name)
	fmt.Println(strings.Join(ls, "\n"))
}
