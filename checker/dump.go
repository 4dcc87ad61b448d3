package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

// dump prints canonical stores / calls with facts (development aid).
func dump(p *Prog, name string) {
	f := p.fn(name)
	if f == nil {
		fmt.Println("no function", name)
		for _, g := range p.Funcs {
			fmt.Println(" ", fname(g))
		}
		return
	}
	facts := p.newFacts(nil)
	p.sites(rootCtx(f), func(s Site) {
		switch i := s.I.(type) {
		case *ssa.Store:
			fmt.Printf("%s [%s] STORE %s := %s\n", p.ipos(i), fname(s.C.Fn), p.expr(i.Addr, s.C), p.expr(i.Val, s.C))
		case *ssa.Call:
			fmt.Printf("%s [%s] CALL %s\n", p.ipos(i), fname(s.C.Fn), p.expr(i, s.C))
		case *ssa.Return:
			fmt.Printf("%s [%s] RETURN", p.ipos(i), fname(s.C.Fn))
			for _, r := range i.Results {
				fmt.Printf(" %s;", p.expr(r, s.C))
			}
			fmt.Println()
		default:
			return
		}
		for _, a := range facts.At(s.I, s.C).sorted() {
			fmt.Println("      ", a)
		}
	})
}

func dumpBuiltins(p *Prog) {
	for _, b := range p.builtins() {
		fmt.Println(b.Names, b.Types, b.Impl != nil)
		if b.Impl == nil {
			continue
		}
		facts := p.newFacts(nil)
		for _, r := range returns(b.Impl) {
			e := p.expr(r.Results[0], b.Ctx)
			if isNilConst(r.Results[0]) {
				continue
			}
			fmt.Println("   ", trim(text(e), 200), p.guards(facts, Site{r, b.Ctx}))
			for _, a := range e.alts() {
				if st := structOf(a.T); st != nil {
					for i := 0; i < st.NumFields(); i++ {
						fmt.Println("       ", st.Field(i).Name(), "=", trim(text(p.fieldOf(a, st.Field(i).Name())), 300))
					}
				} else {
					fmt.Println("        T", a.T, a.Op)
				}
			}
		}
	}
}

func dumpShapes(p *Prog) {
	seen := map[string]bool{}
	for _, b := range p.builtins() {
		if b.Impl == nil {
			continue
		}
		facts := p.newFacts(nil)
		for _, o := range p.outcomes(b.Impl, b.Ctx, facts) {
			s := fmt.Sprint(b.Names, b.Types, "\n    ", o.shape, "\n    ", o.guards)
			if !seen[s] {
				seen[s] = true
				fmt.Println(s)
			}
		}
	}
}

func dumpActs(p *Prog, n string) {
	p.fresh = os.Getenv("CHK_FRESH") != ""
	f := p.fn(n)
	if f == nil {
		fmt.Println("no", n)
		return
	}
	facts := p.newFacts(nil)
	fmt.Println("==", n)
	for _, e := range p.acts(f) {
		var ls []string
		for _, l := range p.enclosing(e.Site) {
			ls = append(ls, overText(l))
		}
		fmt.Println(p.ipos(e.I), trim(toP(e.Target), 300), ":=", trim(partText(e.Val), 500))
		fmt.Println("      loops", ls)
		for _, g := range p.guards(facts, e.Site) {
			fmt.Println("      ", trim(g, 300))
		}
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		fmt.Println("   result", i, trim(p.returned(f, i), 800))
	}
}

func dumpTable(p *Prog, n string) {
	f := p.fn(n)
	if f == nil {
		fmt.Println("no", n)
		return
	}
	for _, r := range p.decision(f, rootCtx(f)) {
		fmt.Println(r.Conds, "=>", r.Res, r.Err)
	}
}

func dumpReturns(p *Prog, n string) {
	f := p.fn(n)
	if f == nil {
		fmt.Println("no", n)
		return
	}
	facts := p.newFacts(nil)
	for _, r := range returns(f) {
		var rs []string
		for _, v := range r.Results {
			rs = append(rs, trim(p.shape(p.expr(v, rootCtx(f))), 300))
		}
		fmt.Println(p.ipos(r), rs)
		for _, g := range p.guards(facts, Site{r, rootCtx(f)}) {
			fmt.Println("      ", trim(g, 300))
		}
	}
}

func dumpEffG(p *Prog, n string) {
	f := p.fn(n)
	facts := p.newFacts(nil)
	for _, e := range p.effects(rootCtx(f)) {
		var ls []string
		for _, l := range p.enclosing(e.Site) {
			ls = append(ls, overText(l))
		}
		fmt.Println(p.ipos(e.I), trim(toP(e.Target), 200), ":=", trim(p.shape(e.Val), 300), "LOOPS", ls)
		for _, g := range p.guards(facts, e.Site) {
			fmt.Println("      ", trim(g, 200))
		}
	}
}
