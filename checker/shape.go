package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shape prints a value with the structs it is built from spelled out:
// T{Field=…, …}, zero fields omitted.
func (p *Prog) shape(e *E) string { return p.shapeN(e, 6) }

func (p *Prog) shapeN(e *E, n int) string {
	if n == 0 {
		return text(e)
	}
	alts := dropZero(e).alts()
	var out []string
	seen := map[string]bool{}
	for _, a := range alts {
		s := p.shape1(a, n)
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Strings(out)
	return "{" + strings.Join(out, " | ") + "}"
}

func (p *Prog) shape1(a *E, n int) string {
	switch {
	case a.Op == "slicelit" || a.Op == "call" && a.S == "append":
		var xs []string
		for _, x := range a.A {
			xs = append(xs, p.shapeN(x, n-1))
		}
		if a.Op == "call" {
			return "append(" + strings.Join(xs, ", ") + ")"
		}
		return "[" + strings.Join(xs, ", ") + "]"
	}
	if a.T == nil {
		return p.deepText(a, n)
	}
	st := structOf(a.T)
	if st == nil || a.Op != "new" && a.Op != "zero" && !(a.Op == "const" && a.S == "zero") {
		return p.deepText(a, n)
	}
	if _, isPtr := a.T.Underlying().(*types.Pointer); isPtr && a.Op != "new" {
		return "nil"
	}
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		v := p.fieldOf(a, st.Field(i).Name())
		s := p.shapeN(v, n-1)
		_, isIface := st.Field(i).Type().Underlying().(*types.Interface)
		if isIface && strings.HasSuffix(s, "{}") {
			fs = append(fs, st.Field(i).Name()+"="+s)
			continue
		}
		if in(s, "zero", "nil", "0", `""`, "false") || strings.HasSuffix(s, "{}") && (v.Op == "zero" || v.Op == "const") {
			continue
		}
		if st.Field(i).Name() == "SourceContext" && !p.keepCtx {
			continue
		}
		fs = append(fs, st.Field(i).Name()+"="+s)
	}
	return strings.TrimPrefix(typeName(derefType(a.T)), "model.") + "{" + strings.Join(fs, ", ") + "}"
}

// outcome is one way a function returns without an error.
type outcome struct {
	shape  string
	e      *E
	guards []string
	site   Site
}

func (p *Prog) outcomes(f *ssa.Function, c *Ctx, facts *Facts) (out []outcome) {
	for _, r := range returns(f) {
		if len(r.Results) == 0 || isNilConst(r.Results[0]) {
			continue
		}
		if failing(r, 0) {
			continue
		}
		e := p.expr(r.Results[0], c)
		out = append(out, outcome{p.shape(e), e, p.guards(facts, Site{r, c}), Site{r, c}})
	}
	return
}

// deepText is the text of an expression with the structs built inside it
// spelled out.
func (p *Prog) deepText(e *E, n int) string {
	if n <= 1 || !hasNew(e, 0) {
		return text(e)
	}
	return text(p.spell(e, n))
}

func (p *Prog) spell(e *E, n int) *E {
	if e.Op == "new" && e.T != nil && structOf(e.T) != nil {
		return mk("const", p.shapeN(e, n-1))
	}
	if len(e.A) == 0 {
		return e
	}
	c := *e
	c.A = nil
	for _, a := range e.A {
		c.A = append(c.A, p.spell(a, n))
	}
	return &c
}

func hasNew(e *E, d int) bool {
	if d > 0 && e.Op == "new" && e.T != nil && structOf(e.T) != nil {
		return true
	}
	for _, a := range e.A {
		if hasNew(a, d+1) {
			return true
		}
	}
	return false
}
