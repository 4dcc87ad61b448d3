package main

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errorLost explains how the error a call returns can fail to become an error
// of the function that made the call; "" when it cannot. It follows every path
// on which the error is not nil.
func (p *Prog) errorLost(c *ssa.Call) string {
	f := c.Parent()
	sig := f.Signature.Results()
	var ev ssa.Value
	switch n := c.Common().Signature().Results().Len(); {
	case n == 0:
		return ""
	case n == 1:
		ev = c
	default:
		for _, ref := range *c.Referrers() {
			if x, ok := ref.(*ssa.Extract); ok && x.Index == n-1 {
				ev = x
			}
		}
	}
	if ev == nil || ev.Referrers() == nil || len(*ev.Referrers()) == 0 {
		return "its error is dropped"
	}
	idx := sig.Len() - 1
	if idx < 0 || typeName(sig.At(idx).Type()) != "error" {
		return ""
	}
	w := &errWalk{p: p, call: c, idx: idx, seen: map[string]bool{}}
	at := -1
	for k, i := range c.Block().Instrs {
		if i == ssa.Instruction(c) {
			at = k
		}
	}
	return w.walk(c.Block(), at+1, map[ssa.Value]bool{ev: true})
}

type errWalk struct {
	p    *Prog
	call *ssa.Call
	idx  int
	seen map[string]bool
}

func (w *errWalk) walk(b *ssa.BasicBlock, from int, held map[ssa.Value]bool) string {
	var key []string
	for v := range held {
		key = append(key, v.Name())
	}
	sort.Strings(key)
	k := b.String() + ":" + strings.Join(key, ",")
	if from == 0 {
		if w.seen[k] {
			return ""
		}
		w.seen[k] = true
	}
	for _, i := range b.Instrs[from:] {
		switch x := i.(type) {
		case *ssa.Call:
			if x == w.call {
				return "after an error it goes on with the next one"
			}
			for _, a := range x.Call.Args {
				if holds(a, held, 0) {
					held = with(held, x)
				}
			}
		case *ssa.Extract:
			if held[x.Tuple] {
				held = with(held, x)
			}
		case *ssa.Store:
			if holds(x.Val, held, 0) {
				held = with(held, x.Addr)
				// parts of a composite make the whole
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					held = with(held, a.X)
				case *ssa.IndexAddr:
					held = with(held, a.X)
				}
			}
		case *ssa.Panic:
			return ""
		case *ssa.Return:
			if len(x.Results) > w.idx && (holds(x.Results[w.idx], held, 0) || definitelyNonNil(x.Results[w.idx])) {
				return ""
			}
			if len(x.Results) > w.idx {
				if c, ok := x.Results[w.idx].(*ssa.Call); ok && madeError(c) {
					return ""
				}
			}
			return "after an error it can return normally at " + w.p.ipos(x)
		case *ssa.If:
			if t, ok := errTest(x.Cond, held); ok {
				s := b.Succs[1]
				if t {
					s = b.Succs[0]
				}
				return w.enter(b, s, held)
			}
		}
	}
	for _, s := range b.Succs {
		if why := w.enter(b, s, held); why != "" {
			return why
		}
	}
	return ""
}

func (w *errWalk) enter(b, s *ssa.BasicBlock, held map[ssa.Value]bool) string {
	n := -1
	for i, q := range s.Preds {
		if q == b {
			n = i
		}
	}
	for _, i := range s.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if n >= 0 && held[ph.Edges[n]] {
			held = with(held, ph)
		} else if held[ph] {
			o := map[ssa.Value]bool{}
			for v := range held {
				if v != ssa.Value(ph) {
					o[v] = true
				}
			}
			held = o
		}
	}
	return w.walk(s, 0, held)
}

// errTest: the condition tests a held error against nil; the truth value it
// has when the error is there.
func errTest(v ssa.Value, held map[ssa.Value]bool) (bool, bool) {
	switch x := v.(type) {
	case *ssa.BinOp:
		if (held[x.X] && isNilConst(x.Y) || held[x.Y] && isNilConst(x.X)) && (x.Op == token.EQL || x.Op == token.NEQ) {
			return x.Op == token.NEQ, true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			t, ok := errTest(x.X, held)
			return !t, ok
		}
	}
	return false, false
}

// holds: the value is, or is built from, a held error.
func holds(v ssa.Value, held map[ssa.Value]bool, d int) bool {
	if held[v] {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return holds(x.X, held, d+1)
	case *ssa.ChangeInterface:
		return holds(x.X, held, d+1)
	case *ssa.UnOp:
		return holds(x.X, held, d+1)
	case *ssa.Slice:
		return holds(x.X, held, d+1)
	}
	return false
}

func with(m map[ssa.Value]bool, v ssa.Value) map[ssa.Value]bool {
	o := map[ssa.Value]bool{v: true}
	for k := range m {
		o[k] = true
	}
	return o
}

// madeError: calls that always return an error.
func madeError(c *ssa.Call) bool {
	return in(calleeName(c.Common()), "fmt.Errorf", "errors.New", "help.UserFacingErrorf")
}
