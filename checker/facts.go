package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A fact is an atom (canonical boolean expression with polarity, or an event)
// that holds on every path to a program point. Facts are a must-analysis:
// the meet is intersection and loops start from "everything".
type FactSet map[string]bool

func (a FactSet) clone() FactSet {
	b := FactSet{}
	for k := range a {
		b[k] = true
	}
	return b
}

func (a FactSet) sorted() []string {
	var s []string
	for k := range a {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

func meet(a, b FactSet) FactSet {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	o := FactSet{}
	for k := range a {
		if b[k] {
			o[k] = true
		}
	}
	return o
}

// Gen adds rule-specific events at an instruction.
type Gen func(p *Prog, i ssa.Instruction, c *Ctx) []string

type ctxFacts struct {
	open bool // still being worked out
	in   map[*ssa.BasicBlock]FactSet
}

type Facts struct {
	p      *Prog
	gen    Gen
	id     string
	kill   func(i ssa.Instruction) []string
	memo   map[string]*ctxFacts
	ret    map[string]FactSet
	busy   map[string]bool
	active map[query]bool
	// optional: difference constraints implied by comparisons
	num *Bounds
	// kill facts about fields a called function may store to
	killCalls bool
	// summary: callee facts computed without anything known at the call. What
	// a caller learns from a call comes from here, so that it does not depend
	// on the caller's own unfinished fixpoint.
	sum       *Facts
	isSummary bool
}

func (f *Facts) summary() *Facts {
	if f.isSummary {
		return f
	}
	if f.sum == nil {
		f.sum = &Facts{p: f.p, gen: f.gen, kill: f.kill, num: f.num, killCalls: f.killCalls, isSummary: true,
			memo: map[string]*ctxFacts{}, ret: map[string]FactSet{}, busy: map[string]bool{}}
	}
	return f.sum
}

func (p *Prog) newFacts(gen Gen) *Facts {
	return &Facts{p: p, gen: gen, memo: map[string]*ctxFacts{}, ret: map[string]FactSet{}, busy: map[string]bool{}}
}

// atoms of "e is truth".
func atom(e *E, truth bool) string {
	for e.Op == "un" && e.S == "!" {
		e = e.A[0]
		truth = !truth
	}
	if e.Op == "bin" && !truth {
		switch e.S {
		case "<":
			return "T:" + mk("bin", "<=", e.A[1], e.A[0]).String()
		case "<=":
			return "T:" + mk("bin", "<", e.A[1], e.A[0]).String()
		}
	}
	if truth {
		return "T:" + e.String()
	}
	return "F:" + e.String()
}

// implied returns the facts that follow from "v evaluates to truth".
func (f *Facts) implied(v ssa.Value, truth bool, c *Ctx, depth int) FactSet {
	p := f.p
	out := FactSet{}
	if depth > 12 {
		return out
	}
	if done, again := f.enter(v, c, truth, false); again {
		return out
	} else {
		defer done()
	}
	if f.num != nil {
		for _, a := range f.num.numAtoms(v, truth, c) {
			out[a] = true
		}
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return f.implied(x.X, !truth, c, depth+1)
		}
	case *ssa.Const:
		return out
	case *ssa.Phi:
		var acc FactSet
		first := true
		for i, e := range x.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil {
				if (k.Value.ExactString() == "true") != truth {
					continue
				}
			}
			pred := x.Block().Preds[i]
			fs := f.edge(pred, x.Block(), c).clone()
			for a := range f.implied(e, truth, c, depth+1) {
				fs[a] = true
			}
			if first {
				acc, first = fs, false
			} else {
				acc = meet(acc, fs)
			}
		}
		if acc != nil {
			for a := range acc {
				out[a] = true
			}
		}
	case *ssa.Call:
		if fs := f.summary().returnImplies(x, 0, c, func(r ssa.Value, cc *Ctx) (bool, FactSet) {
			if k, ok := r.(*ssa.Const); ok && k.Value != nil {
				return (k.Value.ExactString() == "true") == truth, nil
			}
			return true, f.summary().implied(r, truth, cc, depth+1)
		}); fs != nil {
			for a := range fs {
				out[a] = true
			}
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if fs := f.summary().returnImplies(call, x.Index, c, func(r ssa.Value, cc *Ctx) (bool, FactSet) {
				if k, ok := r.(*ssa.Const); ok && k.Value != nil {
					return (k.Value.ExactString() == "true") == truth, nil
				}
				return true, f.summary().implied(r, truth, cc, depth+1)
			}); fs != nil {
				for a := range fs {
					out[a] = true
				}
			}
		}
	case *ssa.BinOp:
		// err == nil / err != nil over a module call
		if x.Op == token.EQL || x.Op == token.NEQ {
			isNil := (x.Op == token.EQL) == truth
			var o ssa.Value
			if isNilConst(x.Y) {
				o = x.X
			} else if isNilConst(x.X) {
				o = x.Y
			}
			if o != nil {
				for a := range f.nilImplied(o, isNil, c, depth+1) {
					out[a] = true
				}
			}
			// bool == const
			if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && (k.Value.ExactString() == "true" || k.Value.ExactString() == "false") {
				t := (x.Op == token.EQL) == truth
				if k.Value.ExactString() == "false" {
					t = !t
				}
				return f.implied(x.X, t, c, depth+1)
			}
		}
	}
	if q, ok := f.exists(v, c); ok {
		if truth {
			out["T:"+q] = true
		} else {
			out["F:"+q] = true
		}
		return out
	}
	if f.spelledOut(v, truth, c, out, depth) {
		return out
	}
	out[atom(p.expr(v, c), truth)] = true
	return out
}

// spelledOut: the facts already say all there is to say about a merged boolean,
// because wherever it is set to the opposite one of them is known not to hold.
func (f *Facts) spelledOut(v ssa.Value, truth bool, c *Ctx, known FactSet, depth int) bool {
	contradicted := func(at FactSet) bool {
		for a := range known {
			if len(a) > 2 && a[1] == ':' && (a[0] == 'T' || a[0] == 'F') && at[negAtom(a)] {
				return true
			}
		}
		return false
	}
	leaf := func(e ssa.Value, at FactSet, cc *Ctx) (constant, ok bool) {
		if val, isK := constBool(e); isK {
			return true, val == truth || contradicted(at)
		}
		for a := range f.implied(e, truth, cc, depth+1) {
			if !known[a] && !at[a] {
				return false, false
			}
		}
		return false, true
	}
	someConst := false
	switch x := v.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			if e == v {
				return false
			}
			k, ok := leaf(e, f.edge(x.Block().Preds[i], x.Block(), c), c)
			someConst = someConst || k
			if !ok {
				return false
			}
		}
	case *ssa.Call:
		cc := f.p.callee(x, c)
		if cc == nil || f.p.Opaque[calleeName(x.Common())] || x.Common().Signature().Results().Len() != 1 {
			return false
		}
		for _, r := range returns(cc.Fn) {
			k, ok := leaf(r.Results[0], f.summary().At(r, cc), cc)
			someConst = someConst || k
			if !ok {
				return false
			}
		}
	default:
		return false
	}
	return someConst
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil && !isStruct(k.Type())
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

type query struct {
	v     ssa.Value
	c     *Ctx
	t, nl bool
}

// enter cuts recursion through cyclic merges: a query met again while it is
// being answered yields no facts.
func (f *Facts) enter(v ssa.Value, c *Ctx, t, nl bool) (func(), bool) {
	if _, ok := v.(*ssa.Phi); !ok {
		return func() {}, false
	}
	q := query{v, c, t, nl}
	if f.active[q] {
		return nil, true
	}
	if f.active == nil {
		f.active = map[query]bool{}
	}
	f.active[q] = true
	return func() { delete(f.active, q) }, false
}

// nilImplied: facts implied by "v is nil" (or non-nil) where v comes from a call.
func (f *Facts) nilImplied(v ssa.Value, isNil bool, c *Ctx, depth int) FactSet {
	if depth > 12 {
		return nil
	}
	if done, again := f.enter(v, c, isNil, true); again {
		return nil
	} else {
		defer done()
	}
	pickIn := func(g *Facts) func(r ssa.Value, cc *Ctx) (bool, FactSet) {
		return func(r ssa.Value, cc *Ctx) (bool, FactSet) {
			if isNilConst(r) {
				return isNil, nil
			}
			if definitelyNonNil(r) {
				return !isNil, nil
			}
			fs := FactSet{}
			for a := range g.nilImplied(r, isNil, cc, depth+1) {
				fs[a] = true
			}
			fs[atom(binExpr(token.EQL, g.p.expr(r, cc), mk("const", "nil"), types.Typ[types.Bool]), isNil)] = true
			return true, fs
		}
	}
	pick, sumPick := pickIn(f), pickIn(f.summary())
	switch x := v.(type) {
	case *ssa.Call:
		return f.summary().returnImplies(x, 0, c, sumPick)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return f.summary().returnImplies(call, x.Index, c, sumPick)
		}
	case *ssa.Phi:
		var acc FactSet
		first := true
		for i, e := range x.Edges {
			may, fs := pick(e, c)
			if !may {
				continue
			}
			s := f.edge(x.Block().Preds[i], x.Block(), c).clone()
			for a := range fs {
				s[a] = true
			}
			if first {
				acc, first = s, false
			} else {
				acc = meet(acc, s)
			}
		}
		return acc
	}
	return nil
}

func definitelyNonNil(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Function:
		return true
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "fmt.Errorf", "errors.New", "help.UserFacingErrorf":
			return true
		}
		if f := x.Common().StaticCallee(); f != nil && f.Blocks != nil {
			rs := returns(f)
			if len(rs) == 0 {
				return false
			}
			for _, r := range rs {
				if len(r.Results) != 1 {
					return false
				}
				if c2, ok := r.Results[0].(*ssa.Call); ok && c2.Common().StaticCallee() == f {
					return false
				}
				if !definitelyNonNil(r.Results[0]) {
					return false
				}
			}
			return true
		}
	case *ssa.ChangeInterface:
		return definitelyNonNil(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e == v || !definitelyNonNil(e) {
				return false
			}
		}
		return true
	}
	return false
}

// returnImplies intersects the facts of the callee's returns that can yield
// the wanted result.
func (f *Facts) returnImplies(call *ssa.Call, idx int, c *Ctx, pick func(ssa.Value, *Ctx) (bool, FactSet)) FactSet {
	cc := f.p.callee(call, c)
	if cc == nil || f.p.Opaque[calleeName(call.Common())] {
		return nil
	}
	var acc FactSet
	first := true
	for _, r := range returns(cc.Fn) {
		if idx >= len(r.Results) {
			return nil
		}
		may, fs := pick(r.Results[idx], cc)
		if !may {
			continue
		}
		s := f.At(r, cc).clone()
		contra := false
		for a := range fs {
			if len(a) > 2 && a[1] == ':' && (a[0] == 'T' || a[0] == 'F') && s[negAtom(a)] {
				contra = true
			}
			s[a] = true
		}
		if contra {
			continue // this return cannot give the wanted result
		}
		if first {
			acc, first = s, false
		} else {
			acc = meet(acc, s)
		}
	}
	return acc
}

// edge: facts on the CFG edge pred->succ.
func (f *Facts) edge(pred, succ *ssa.BasicBlock, c *Ctx) FactSet {
	cf := f.ctx(c)
	in := cf.in[pred]
	if in == nil {
		return nil
	}
	out := f.through(pred, in, nil, c)
	if ifi, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok && len(pred.Succs) == 2 && pred.Succs[0] != pred.Succs[1] {
		t := pred.Succs[0] == succ
		for a := range f.implied(ifi.Cond, t, c, 0) {
			out[a] = true
		}
	}
	return out
}

// through applies the block's transfer up to (not including) stop.
func (f *Facts) through(b *ssa.BasicBlock, in FactSet, stop ssa.Instruction, c *Ctx) FactSet {
	out := in.clone()
	for _, i := range b.Instrs {
		if i == stop {
			break
		}
		f.step(i, c, out)
	}
	return out
}

func (f *Facts) step(i ssa.Instruction, c *Ctx, out FactSet) {
	if st, ok := i.(*ssa.Store); ok {
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			if _, isLocal := fa.X.(*ssa.Alloc); !isLocal {
				name := derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
				for a := range out {
					if !strings.HasPrefix(a, "E:") && mentionsField(a, name) {
						delete(out, a)
					}
				}
			}
		}
	}
	if f.kill != nil {
		for _, a := range f.kill(i) {
			delete(out, a)
		}
	}
	if ci, ok := i.(ssa.CallInstruction); ok && f.killCalls {
		f.killCall(ci, c, out)
	}
	if call, ok := i.(*ssa.Call); ok && f.gen != nil && !f.p.Opaque[calleeName(call.Common())] {
		if cc := f.p.callee(call, c); cc != nil {
			for a := range f.summary().retFacts(cc) {
				if strings.HasPrefix(a, "E:") {
					out[a] = true
				}
			}
		}
	}
	if f.gen != nil {
		for _, a := range f.gen(f.p, i, c) {
			out["E:"+a] = true
		}
	}
}

func mentionsField(atom, f string) bool {
	idx := 0
	for {
		i := strings.Index(atom[idx:], "."+f)
		if i < 0 {
			return false
		}
		j := idx + i + 1 + len(f)
		if j >= len(atom) || !isIdent(atom[j]) {
			return true
		}
		idx = j
	}
}

func isIdent(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

// retFacts: facts on every normal return of cc.
func (f *Facts) retFacts(cc *Ctx) FactSet {
	if r, ok := f.ret[cc.key]; ok {
		return r
	}
	if f.busy[cc.key] {
		return nil
	}
	f.busy[cc.key] = true
	var acc FactSet
	first := true
	for _, r := range returns(cc.Fn) {
		s := f.At(r, cc)
		if s == nil {
			continue
		}
		if first {
			acc, first = s, false
		} else {
			acc = meet(acc, s)
		}
	}
	delete(f.busy, cc.key)
	f.ret[cc.key] = acc
	return acc
}

func (f *Facts) ctx(c *Ctx) *ctxFacts {
	key := fmt.Sprintf("%p", c)
	if m := f.memo[key]; m != nil {
		return m
	}
	if !f.isSummary {
		// while a caller is still being worked out, what it knows at the call
		// is not settled: rely on nothing from there
		for o := c.Parent; o != nil; o = o.Parent {
			if pm := f.memo[fmt.Sprintf("%p", o)]; pm != nil && pm.open {
				return f.summary().ctx(c)
			}
		}
	}
	m := &ctxFacts{in: map[*ssa.BasicBlock]FactSet{}, open: true}
	defer func() { m.open = false }()
	f.memo[key] = m
	if len(c.Fn.Blocks) == 0 {
		return m
	}
	entry := FactSet{}
	if c.Parent != nil && c.Call != nil && !f.isSummary {
		if s := f.At(c.Call, c.Parent); s != nil {
			entry = s.clone()
		}
	}
	m.in[c.Fn.Blocks[0]] = entry
	changed := true
	for n := 0; changed && n < 50; n++ {
		changed = false
		for _, b := range c.Fn.Blocks {
			if b == c.Fn.Blocks[0] {
				continue
			}
			var acc FactSet
			first := true
			for _, pr := range b.Preds {
				s := f.edge(pr, b, c)
				if s == nil {
					continue // not reached yet: everything
				}
				if first {
					acc, first = s, false
				} else {
					acc = meet(acc, s)
				}
			}
			if first {
				continue
			}
			old := m.in[b]
			if old == nil || len(old) != len(acc) || !sameSet(old, acc) {
				m.in[b] = acc
				changed = true
			}
		}
	}
	f.exhausted(c, m)
	if c.Fn.Recover != nil && m.in[c.Fn.Recover] == nil {
		m.in[c.Fn.Recover] = entry
	}
	return m
}

var eqLast = regexp.MustCompile(`^([TF]):\((.*) == (-?\d+)\)$`)

// exhausted: after a loop over a few listed values went on past each of them,
// what made it go on is known of them all.
func (f *Facts) exhausted(c *Ctx, m *ctxFacts) {
	for _, b := range c.Fn.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && !isAlloc(fa.X) {
					return
				}
			}
		}
	}
	for _, l := range loopsOf(c.Fn) {
		over, tb := f.p.over(l, c), testBlock(l)
		if over == nil || tb == nil || over.Op != "slicelit" || len(over.A) == 0 || len(over.A) > 8 {
			continue
		}
		var all FactSet
		first := true
		for _, pr := range l.Head.Preds {
			if l.Body[pr] {
				if k := f.edge(pr, l.Head, c); first {
					all, first = k, false
				} else {
					all = meet(all, k)
				}
			}
		}
		known := FactSet{}
		el := "elem(" + norm(over.String()) + ")"
		for a := range all {
			if !strings.Contains(a, el) || a[1] != ':' {
				continue
			}
			for _, x := range over.A {
				k := strings.ReplaceAll(a, el, text(x))
				if mm := eqLast.FindStringSubmatch(k); mm != nil {
					k = mm[1] + ":(" + mm[3] + " == " + mm[2] + ")"
				}
				known[k] = true
			}
		}
		for _, s := range tb.Succs {
			if l.Body[s] || len(s.Preds) != 1 {
				continue
			}
			for b, in := range m.in {
				if in != nil && s.Dominates(b) {
					for k := range known {
						in[k] = true
					}
				}
			}
		}
	}
}

func isAlloc(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

func sameSet(a, b FactSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// At returns the facts holding just before instruction i.
func (f *Facts) At(i ssa.Instruction, c *Ctx) FactSet {
	m := f.ctx(c)
	in := m.in[i.Block()]
	if in == nil {
		return nil
	}
	return f.through(i.Block(), in, i, c)
}

// Site is an instruction in the inlined program.
type Site struct {
	I ssa.Instruction
	C *Ctx
}

// sites walks root and every module function inlined from it (static calls,
// known closures, and functions handed to any call as an argument).
func (p *Prog) sites(root *Ctx, visit func(Site)) {
	p.walk(root, map[string]bool{}, visit)
}

func (p *Prog) walk(c *Ctx, seen map[string]bool, visit func(Site)) {
	id := fmt.Sprintf("%p", c)
	if seen[id] {
		return
	}
	seen[id] = true
	for _, b := range c.Fn.Blocks {
		for _, i := range b.Instrs {
			visit(Site{i, c})
			call, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if p.Opaque[calleeName(call.Common())] {
				continue
			}
			cc := p.callee(call, c)
			if cc != nil {
				p.walk(cc, seen, visit)
				continue
			}
			// closures handed to external or dynamic calls
			for _, a := range call.Common().Args {
				if _, isF := a.Type().Underlying().(*types.Signature); !isF {
					continue
				}
				e := p.expr(a, c)
				for _, x := range e.alts() {
					if m, ok := x.V.(*ssa.MakeClosure); ok && x.Op == "closure" {
						fn := m.Fn.(*ssa.Function)
						if c.has(fn) || c.depth >= maxDepth {
							continue
						}
						nc := p.internCtx(&Ctx{Fn: fn, Parent: c, Closure: m, CloCtx: x.C, depth: c.depth + 1,
							key: fmt.Sprintf("%s>%p~%s", c.key, call, fname(fn)), Call: nil})
						p.walk(nc, seen, visit)
					}
				}
			}
		}
	}
}

// killCall removes facts that mention a field the callee may store to.
func (f *Facts) killCall(ci ssa.CallInstruction, c *Ctx, out FactSet) {
	com := ci.Common()
	var targets []*ssa.Function
	if com.IsInvoke() {
		f.p.calleesOf(ci.Parent())
		targets = f.p.methodsByName[com.Method.Name()]
	} else if g := com.StaticCallee(); g != nil {
		if f.p.inModule(g) {
			targets = []*ssa.Function{g}
		}
	} else if _, isB := com.Value.(*ssa.Builtin); !isB {
		f.p.calleesOf(ci.Parent())
		targets = f.p.addrTaken[com.Value.Type().Underlying().(*types.Signature).String()]
	}
	for _, g := range targets {
		for name := range f.p.modFields(g) {
			for a := range out {
				if !strings.HasPrefix(a, "E:") && mentionsField(a, name) {
					delete(out, a)
				}
			}
		}
	}
}
