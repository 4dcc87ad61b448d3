package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
)

// dumpTrace prints the shortest words of a function's effects (development aid).
func dumpTrace(p *Prog, name string) {
	f := p.fn(name)
	if f == nil {
		fmt.Println("no function")
		return
	}
	spec := traceSpec{Closed: strings.Split(os.Getenv("CHK_CLOSED"), ","), Pure: strings.Split(os.Getenv("CHK_PURE"), ",")}
	if c := os.Getenv("CHK_CONDS"); c != "" {
		for _, x := range strings.Split(c, ";") {
			spec.Conds = append(spec.Conds, [2]string{x, x})
		}
	}
	spec.AnyTurn = os.Getenv("CHK_TURN") == "2"
	spec.Turn = os.Getenv("CHK_TURN") != ""
	if op := os.Getenv("CHK_OP"); op != "" {
		spec.Subst = map[string]*E{`lk(recv:0(recv.requestQueue).msg, "op")`: {Op: "const", S: `"` + op + `"`, T: types.Typ[types.String]}}
		spec.Assume = map[string]bool{`hit(recv:0(recv.requestQueue).msg, "op")`: true, "(call:reflect.TypeOf(…) == repl.typeString)": true}
	}
	t := p.traces(f, spec)
	fmt.Println("points", len(t.nodes), "steps", t.steps, "full", t.full)
	t.g.words(60)
}

// words prints the shortest words.
func (g *nfa) words(most int) {
	type at struct {
		s map[int]bool
		w []string
	}
	u := g.useful()
	queue := []at{{g.closure(map[int]bool{0: true}), nil}}
	n := 0
	seen := map[string]int{}
	for len(queue) > 0 && n < most {
		q := queue[0]
		queue = queue[1:]
		moves := map[string]map[int]bool{}
		acc := false
		for i := range q.s {
			acc = acc || g.accept[i]
			for _, e := range g.edges[i] {
				if e.label != "" && u[e.to] {
					if moves[e.label] == nil {
						moves[e.label] = map[int]bool{}
					}
					moves[e.label][e.to] = true
				}
			}
		}
		if acc {
			n++
			fmt.Println("----")
			for _, l := range q.w {
				fmt.Println("  ", trim(l, 300))
			}
		}
		for l, m := range moves {
			c := g.closure(m)
			k := setKey(c)
			if seen[k]++; seen[k] > 20 {
				continue
			}
			queue = append(queue, at{c, append(append([]string{}, q.w...), l)})
		}
	}
}
