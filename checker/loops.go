package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop of a function.
type Loop struct {
	Head *ssa.BasicBlock
	Body map[*ssa.BasicBlock]bool
}

func loopsOf(f *ssa.Function) []*Loop {
	byHead := map[*ssa.BasicBlock]*Loop{}
	var out []*Loop
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &Loop{Head: s, Body: map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				out = append(out, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.Body[x] {
					continue
				}
				l.Body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

// over is the collection a loop walks from its first to its last element (or
// all the keys of), nil when it is some other loop.
func (p *Prog) over(l *Loop, c *Ctx) *E {
	// range over map/string: header (or its body) holds Next
	for b := range l.Body {
		for _, i := range b.Instrs {
			if n, ok := i.(*ssa.Next); ok {
				if r, ok := n.Iter.(*ssa.Range); ok && !l.Body[r.Block()] {
					return p.expr(r.X, c)
				}
			}
		}
	}
	for b := range l.Body {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		leaves := false
		for _, s := range b.Succs {
			if !l.Body[s] {
				leaves = true
			}
		}
		if !leaves {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.LSS && bo.Op != token.NEQ {
			continue
		}
		start, step, ok := induction(bo.X)
		if !ok || step != 1 || start < 0 {
			continue
		}
		if call, ok := bo.Y.(*ssa.Call); ok && calleeName(call.Common()) == "len" {
			x := p.expr(call.Common().Args[0], c)
			if start > 0 {
				return tail(x, start)
			}
			return x
		}
		if start != 0 {
			continue
		}
		if !ok {
			continue
		}
		e := p.expr(bo.Y, c)
		if e.Op == "call" && e.S == "len" && len(e.A) == 1 {
			return e.A[0]
		}
		return mk("upto", "", e)
	}
	return nil
}

type LoopAt struct {
	L    *Loop
	C    *Ctx
	Over *E
}

// enclosing lists the loops around a site, innermost first, through the call
// chain up to the root.
func (p *Prog) enclosing(s Site) (out []LoopAt) {
	i, c := s.I, s.C
	for c != nil {
		if i != nil {
			var ls []*Loop
			for _, l := range loopsOf(c.Fn) {
				if l.Body[i.Block()] {
					ls = append(ls, l)
				}
			}
			// innermost = smallest body
			for len(ls) > 0 {
				m := 0
				for k := range ls {
					if len(ls[k].Body) < len(ls[m].Body) {
						m = k
					}
				}
				out = append(out, LoopAt{ls[m], c, p.over(ls[m], c)})
				ls = append(ls[:m], ls[m+1:]...)
			}
		}
		if c.Call != nil {
			i = c.Call
		} else if c.Closure != nil {
			i = c.Closure
		} else {
			i = nil
		}
		c = c.Parent
	}
	return
}

func overText(l LoopAt) string {
	if l.Over == nil {
		return "?"
	}
	return text(l.Over)
}
