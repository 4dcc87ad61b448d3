package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Builtin is one signature of a function registered in the Lisp environment.
type Builtin struct {
	Names []string // "" when computed
	Types []string // argument types; "…T" for variadic T
	Impl  *ssa.Function
	Ctx   *Ctx // context in which the implementation runs
	At    ssa.Instruction
	Attr  bool
}

// builtins resolves every registration call reachable in the package
// initialisers of model to its names, argument types and implementation.
func (p *Prog) builtins() (out []Builtin) {
	for _, f := range p.Funcs {
		if relPkg(f) != "model" || f.Parent() != nil || !strings.HasPrefix(f.Name(), "init") {
			continue
		}
		p.sites(rootCtx(f), func(s Site) {
			c, ok := s.I.(ssa.CallInstruction)
			if !ok {
				return
			}
			n := calleeName(c.Common())
			if n != "model.defn" && n != "model.defattribute" || s.C.Fn.Name() == "defattribute" {
				return
			}
			args := c.Common().Args
			var names []string
			ne := p.expr(args[0], s.C)
			if n == "model.defn" {
				names = []string{strings.Trim(ne.String(), `"`)}
			} else {
				for _, a := range ne.A {
					names = append(names, strings.Trim(a.String(), `"`))
				}
			}
			for _, sig := range p.expr(args[1], s.C).A {
				tf, imf := "argumentTypes", "implementation"
				if n == "model.defn" {
					tf, imf = "ArgumentTypes", "Implementation"
				}
				b := Builtin{Names: names, At: s.I, Attr: n == "model.defattribute"}
				for _, t := range p.fieldOf(sig, tf).A {
					b.Types = append(b.Types, lispType(p, t))
				}
				im := p.fieldOf(sig, imf)
				switch im.Op {
				case "closure":
					m := im.V.(*ssa.MakeClosure)
					b.Impl = m.Fn.(*ssa.Function)
					b.Ctx = &Ctx{Fn: b.Impl, Closure: m, CloCtx: im.C, key: "impl:" + fname(b.Impl) + "|" + im.C.key}
				case "fn":
					b.Impl = im.V.(*ssa.Function)
					b.Ctx = rootCtx(b.Impl)
				}
				out = append(out, b)
			}
		})
	}
	sort.SliceStable(out, func(i, j int) bool { return strings.Join(out[i].Names, ",") < strings.Join(out[j].Names, ",") })
	return
}

func lispType(p *Prog, e *E) string {
	t := strings.TrimPrefix(typeName(e.T), "model.")
	if e.Op == "new" {
		t = strings.TrimPrefix(e.S, "model.")
	}
	if e.Op == "const" && e.T != nil {
		t = strings.TrimPrefix(typeName(e.T), "model.")
	}
	if t == "LispVariadic" {
		return "…" + lispType(p, p.fieldOf(e, "Type"))
	}
	return t
}
