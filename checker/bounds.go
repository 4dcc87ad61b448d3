package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- linear terms -------------------------------------------------------

// Lin is base+off; base "" is the constant zero.
type Lin struct {
	base string
	off  int64
}

func (l Lin) add(k int64) Lin { return Lin{l.base, l.off + k} }

// Bounds proves difference constraints between integer terms.
type Bounds struct {
	p      *Prog
	facts  *Facts
	axioms map[string]bool // constraints "A|B|c": A-B<=c
	seen   map[string]bool
	depth  int
}

func cons(a, b Lin, c int64) string { // a - b <= c
	return fmt.Sprintf("N:%s|%s|%d", a.base, b.base, c-a.off+b.off)
}

func parseCons(s string) (a, b string, c int64, ok bool) {
	if !strings.HasPrefix(s, "N:") {
		return
	}
	parts := strings.Split(s[2:], "|")
	if len(parts) < 3 {
		return
	}
	// bases contain no '|' (replaced by ¦)
	fmt.Sscan(parts[2], &c)
	return parts[0], parts[1], c, true
}

func termKey(s string) string { return strings.ReplaceAll(s, "|", "¦") }

func (p *Prog) valKey(v ssa.Value, c *Ctx) string {
	e := p.expr(v, c)
	if e.has(func(x *E) bool {
		return x.Op == "phi" || x.Op == "rec" || x.Op == "ind" || x.Op == "opaque" || x.Op == "recv"
	}) {
		return fmt.Sprintf("v#%d", indIDv(v, c))
	}
	return termKey(e.String())
}

func indIDv(v ssa.Value, c *Ctx) int {
	k := fmt.Sprintf("%p|%s", v, c.key)
	if n, ok := indIDs[k]; ok {
		return n
	}
	indIDs[k] = len(indIDs) + 1
	return len(indIDs)
}

// resolve follows parameters, free variables and pure conversions to the value they stand for in c.
func (p *Prog) resolve(v ssa.Value, c *Ctx) (ssa.Value, *Ctx) {
	for n := 0; n < 20; n++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			if c.ArgsAt == nil && c.Call != nil && c.Parent != nil && x.Parent() == c.Fn && !c.Call.Common().IsInvoke() {
				moved := false
				for i, q := range c.Fn.Params {
					if q == x && i < len(c.Call.Common().Args) {
						v, c = c.Call.Common().Args[i], c.Parent
						moved = true
						break
					}
				}
				if moved {
					continue
				}
			}
			return v, c
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Convert:
			if isInt(x.Type()) && isInt(x.X.Type()) {
				v = x.X
				continue
			}
			return v, c
		case *ssa.UnOp:
			if x.Op == token.MUL {
				// single-assignment captured variables
				addr := x.X
				ac := c
				if fv, ok := addr.(*ssa.FreeVar); ok && c.Closure != nil {
					for i, f := range c.Fn.FreeVars {
						if f == fv && i < len(c.Closure.Bindings) {
							addr, ac = c.Closure.Bindings[i], c.CloCtx
						}
					}
				}
				if al, ok := addr.(*ssa.Alloc); ok {
					vals, esc := p.allocStores(al, ac, 0)
					if !esc && len(vals) == 1 {
						v, c = vals[0].V, vals[0].C
						continue
					}
				}
			}
			return v, c
		default:
			return v, c
		}
	}
	return v, c
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (b *Bounds) axiom(a, x Lin, c int64) { b.axioms[cons(a, x, c)] = true }

func (b *Bounds) lin(v ssa.Value, c *Ctx) Lin {
	v, c = b.p.resolve(v, c)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(x.Value); ok {
				return Lin{"", n}
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			l, r := b.lin(x.X, c), b.lin(x.Y, c)
			if r.base == "" {
				return l.add(r.off)
			}
			if l.base == "" {
				return r.add(l.off)
			}
			t := Lin{termKey("(" + l.base + "+" + r.base + ")"), l.off + r.off}
			b.define(t.base, func() {
				s := Lin{t.base, 0}
				// both non-negative: sum >= each
				if b.proveAx(Lin{}, Lin{l.base, 0}, 0) {
					b.axiom(Lin{r.base, 0}, s, 0)
				}
				if b.proveAx(Lin{}, Lin{r.base, 0}, 0) {
					b.axiom(Lin{l.base, 0}, s, 0)
				}
			})
			return t
		case token.SUB:
			l, r := b.lin(x.X, c), b.lin(x.Y, c)
			if r.base == "" {
				return l.add(-r.off)
			}
			if l.base == r.base {
				return Lin{"", l.off - r.off}
			}
			t := Lin{termKey("(" + l.base + "-" + r.base + ")"), l.off - r.off}
			b.define(t.base, func() {
				if b.proveAx(Lin{}, Lin{r.base, 0}, 0) { // r>=0: t<=l
					b.axiom(Lin{t.base, 0}, Lin{l.base, 0}, 0)
				}
			})
			return t
		case token.REM:
			r := b.lin(x.Y, c)
			t := Lin{"v" + fmt.Sprint(indIDv(x, c)), 0}
			b.define(t.base, func() {
				if r.base == "" && r.off > 0 {
					b.axiom(t, Lin{}, r.off-1)
					if b.proveAx(Lin{}, b.lin(x.X, c), 0) {
						b.axiom(Lin{}, t, 0)
					}
				}
			})
			return t
		case token.QUO:
			t := Lin{"v" + fmt.Sprint(indIDv(x, c)), 0}
			b.define(t.base, func() {
				l := b.lin(x.X, c)
				if b.proveAx(Lin{}, l, 0) {
					b.axiom(Lin{}, t, 0)
					b.axiom(t, l, 0)
				}
			})
			return t
		}
	case *ssa.Phi:
		t := Lin{fmt.Sprintf("phi#%d", indIDv(x, c)), 0}
		b.define(t.base, func() {
			haveLow, low := true, int64(1<<40)
			haveHigh, high := true, int64(-1<<40)
			for _, e := range x.Edges {
				ev, ec := b.p.resolve(e, c)
				if ev == ssa.Value(x) {
					continue
				}
				if bo, ok := ev.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) && bo.X == ssa.Value(x) {
					k := b.lin(bo.Y, ec)
					if k.base == "" {
						st := k.off
						if bo.Op == token.SUB {
							st = -st
						}
						if st < 0 {
							haveLow = false
						}
						if st > 0 {
							haveHigh = false
						}
						continue
					}
				}
				if k, ok := b.lowConst(ev, ec); ok {
					if k < low {
						low = k
					}
				} else {
					haveLow = false
				}
				if l := b.lin(ev, ec); l.base == "" {
					if l.off > high {
						high = l.off
					}
				} else {
					haveHigh = false
				}
			}
			if haveLow && low < 1<<40 {
				b.axiom(Lin{"", low}, t, 0)
			}
			if haveHigh && high > -1<<40 {
				b.axiom(t, Lin{"", high}, 0)
			}
		})
		return t
	case *ssa.Call:
		switch calleeName(x.Common()) {
		case "len":
			return b.lenOf(x.Common().Args[0], c)
		case "min":
			t := Lin{"v" + fmt.Sprint(indIDv(x, c)), 0}
			b.define(t.base, func() {
				for _, a := range x.Common().Args {
					b.axiom(t, b.lin(a, c), 0)
				}
			})
			return t
		}
		e := b.p.expr(x, c)
		if e.Op == "call" && e.S == "len" {
			if cv, ok := e.V.(*ssa.Call); ok && cv != x {
				return b.lin(cv, e.C)
			}
		}
		switch calleeName(x.Common()) {
		case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex":
			t := Lin{"v" + fmt.Sprint(indIDv(x, c)), 0}
			b.define(t.base, func() {
				b.axiom(Lin{"", -1}, t, 0)
				b.axiom(t, b.lenOf(x.Common().Args[0], c), -0)
			})
			return t
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok && nx.IsString && x.Index == 1 {
			t := Lin{"v" + fmt.Sprint(indIDv(x, c)), 0}
			b.define(t.base, func() {
				b.axiom(Lin{}, t, 0)
				b.axiom(t, b.lenOf(nx.Iter.(*ssa.Range).X, c), -1)
			})
			return t
		}
	}
	t := Lin{b.p.valKey(v, c), 0}
	if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 {
		b.define(t.base, func() { b.axiom(Lin{}, t, 0) })
	}
	return t
}

// lowConst: a constant lower bound provable from the value's definition alone.
func (b *Bounds) lowConst(v ssa.Value, c *Ctx) (int64, bool) {
	l := b.lin(v, c)
	if l.base == "" {
		return l.off, true
	}
	for _, k := range []int64{1, 0, -1} {
		if b.proveAx(Lin{"", k}, l, 0) {
			return k, true
		}
	}
	return 0, false
}

func (b *Bounds) define(key string, f func()) {
	if b.seen[key] {
		return
	}
	b.seen[key] = true
	f()
}

func (b *Bounds) lenOf(v ssa.Value, c *Ctx) Lin {
	v, c = b.p.resolve(v, c)
	if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			return Lin{"", at.Len()}
		}
	}
	if at, ok := v.Type().Underlying().(*types.Array); ok {
		return Lin{"", at.Len()}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return Lin{"", 0}
		}
		if x.Value.Kind() == constant.String {
			return Lin{"", int64(len(constant.StringVal(x.Value)))}
		}
	case *ssa.Slice:
		lo := Lin{}
		if x.Low != nil {
			lo = b.lin(x.Low, c)
		}
		hi := Lin{}
		if x.High != nil {
			hi = b.lin(x.High, c)
		} else {
			hi = b.lenOf(x.X, c)
		}
		if lo.base == "" {
			if hi.base == "" {
				return Lin{"", hi.off - lo.off}
			}
			t := hi.add(-lo.off)
			return t
		}
		if lo.base == hi.base {
			return Lin{"", hi.off - lo.off}
		}
	case *ssa.MakeSlice:
		return b.lin(x.Len, c)
	case *ssa.Convert:
		if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			if k, ok := x.X.(*ssa.Const); ok && k.Value != nil {
				return Lin{"", int64(len([]rune(constant.StringVal(k.Value))))}
			}
		}
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			// string(bytes)
			if st, ok := x.X.Type().Underlying().(*types.Slice); ok {
				if bb, ok := st.Elem().Underlying().(*types.Basic); ok && bb.Kind() == types.Uint8 {
					return b.lenOf(x.X, c)
				}
			}
		}
	case *ssa.Call:
		com := x.Common()
		switch calleeName(com) {
		case "append":
			base := b.lenOf(com.Args[0], c)
			add := b.lenOf(com.Args[1], c)
			if add.base == "" {
				return base.add(add.off)
			}
			t := Lin{fmt.Sprintf("len#%d", indIDv(x, c)), 0}
			b.define(t.base, func() { b.axiom(Lin{}, t, 0); b.axiom(base, t, 0); b.axiom(add, t, 0) })
			return t
		case "strings.Split":
			t := Lin{"len(" + b.p.valKey(x, c) + ")", 0}
			b.define(t.base, func() { b.axiom(Lin{}, t, 0); b.axiom(Lin{"", 1}, t, 0) })
			return t
		}
	case *ssa.Phi:
		t := Lin{fmt.Sprintf("lenphi#%d", indIDv(x, c)), 0}
		b.define(t.base, func() {
			b.axiom(Lin{}, t, 0)
			low, have := int64(1<<40), true
			for _, e := range x.Edges {
				ev, ec := b.p.resolve(e, c)
				if ev == ssa.Value(x) {
					continue
				}
				l := b.lenOf(ev, ec)
				if l.base == t.base && l.off >= 0 {
					continue
				}
				got := false
				for _, k := range []int64{3, 2, 1} {
					if b.proveAx(Lin{"", k}, l, 0) {
						if k < low {
							low = k
						}
						got = true
						break
					}
				}
				if !got {
					have = false
				}
			}
			if have && low < 1<<40 {
				b.axiom(Lin{"", low}, t, 0)
			}
		})
		return t
	}
	// a slice literal resolved through the canonical expression
	e := b.p.expr(v, c)
	if e.Op == "slicelit" {
		return Lin{"", int64(len(e.A))}
	}
	if e.Op == "const" && e.S == "nil" {
		return Lin{"", 0}
	}
	if e.Op == "call" && e.S == "(*regexp.Regexp).FindStringSubmatch" {
		// handled with the non-nil fact, see prove
	}
	t := Lin{"len(" + b.p.valKey(v, c) + ")", 0}
	b.define(t.base, func() { b.axiom(Lin{}, t, 0) })
	return t
}

// proveAx proves a - x <= c from axioms alone.
func (b *Bounds) proveAx(a, x Lin, c int64) bool { return b.solve(nil, a, x, c) }

// solve: shortest path from x.base to a.base over constraints A-B<=c (edge B->A weight c).
func (b *Bounds) solve(fs FactSet, a, x Lin, c int64) bool {
	goal := c - a.off + x.off
	type edge struct {
		to string
		w  int64
	}
	g := map[string][]edge{}
	add := func(s string) {
		A, B, w, ok := parseCons(s)
		if ok {
			g[B] = append(g[B], edge{A, w})
		}
	}
	for s := range b.axioms {
		add(s)
	}
	for s := range fs {
		add(s)
	}
	dist := map[string]int64{x.base: 0}
	work := []string{x.base}
	for n := 0; len(work) > 0 && n < 4000; n++ {
		u := work[0]
		work = work[1:]
		for _, e := range g[u] {
			d := dist[u] + e.w
			if old, ok := dist[e.to]; !ok || d < old {
				dist[e.to] = d
				work = append(work, e.to)
			}
		}
	}
	d, ok := dist[a.base]
	return ok && d <= goal
}

// numAtoms are the difference constraints implied by a comparison.
func (b *Bounds) numAtoms(v ssa.Value, truth bool, c *Ctx) (out []string) {
	x, ok := v.(*ssa.BinOp)
	if !ok {
		if call, isC := v.(*ssa.Call); isC && truth {
			if n := calleeName(call.Common()); n == "strings.HasPrefix" || n == "strings.HasSuffix" {
				l := b.lenOf(call.Common().Args[1], c)
				s := b.lenOf(call.Common().Args[0], c)
				return []string{cons(l, s, 0)}
			}
		}
		return nil
	}
	if bt, isB := x.X.Type().Underlying().(*types.Basic); isB && bt.Info()&types.IsString != 0 {
		if x.Op != token.EQL && x.Op != token.NEQ {
			return nil
		}
		eq := (x.Op == token.EQL) == truth
		var k *ssa.Const
		var o ssa.Value
		if kk, ok := x.Y.(*ssa.Const); ok {
			k, o = kk, x.X
		} else if kk, ok := x.X.(*ssa.Const); ok {
			k, o = kk, x.Y
		}
		if k == nil {
			return nil
		}
		n := int64(len(constant.StringVal(k.Value)))
		l := b.lenOf(o, c)
		if eq {
			return []string{cons(l, Lin{"", n}, 0), cons(Lin{"", n}, l, 0)}
		}
		if n == 0 {
			return []string{cons(Lin{"", 1}, l, 0)}
		}
		return nil
	}
	if isNilConst(x.Y) || isNilConst(x.X) {
		// FindStringSubmatch(...) != nil: 1 + number of groups elements
		nonNil := (x.Op == token.NEQ) == truth
		o := x.X
		if isNilConst(x.X) {
			o = x.Y
		}
		if nonNil {
			if _, ok := o.Type().Underlying().(*types.Slice); ok {
				if n := b.p.submatchLen(o, c); n > 0 {
					return []string{cons(Lin{"", int64(n)}, b.lenOf(o, c), 0)}
				}
			}
		}
		return nil
	}
	if !isInt(x.X.Type()) {
		return nil
	}
	l, r := b.lin(x.X, c), b.lin(x.Y, c)
	op := x.Op
	if !truth {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	switch op {
	case token.LSS:
		return []string{cons(l, r, -1)}
	case token.LEQ:
		return []string{cons(l, r, 0)}
	case token.GTR:
		return []string{cons(r, l, -1)}
	case token.GEQ:
		return []string{cons(r, l, 0)}
	case token.EQL:
		return []string{cons(l, r, 0), cons(r, l, 0)}
	case token.NEQ:
		if b.proveAx(r, l, 0) { // l>=r
			return []string{cons(r, l, -1)}
		}
		if b.proveAx(l, r, 0) {
			return []string{cons(l, r, -1)}
		}
	}
	return nil
}

// submatchLen: number of groups+1 when v is FindStringSubmatch of a constant regexp.
func (p *Prog) submatchLen(v ssa.Value, c *Ctx) int {
	v, c = p.resolve(v, c)
	call, ok := v.(*ssa.Call)
	if !ok || !strings.HasPrefix(calleeName(call.Common()), "(*regexp.Regexp).FindStringSubmatch") {
		return 0
	}
	src := p.regexpSource(call.Common().Args[0], c)
	re, err := regexp.Compile(src)
	if src == "" || err != nil {
		return 0
	}
	return re.NumSubexp() + 1
}

func (p *Prog) regexpSource(v ssa.Value, c *Ctx) string {
	v, c = p.resolve(v, c)
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			for _, f := range p.Funcs {
				if f.Name() != "init" || f.Pkg != g.Pkg {
					continue
				}
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if st, ok := i.(*ssa.Store); ok && st.Addr == g {
							return p.regexpSource(st.Val, rootCtx(f))
						}
					}
				}
			}
		}
	}
	if call, ok := v.(*ssa.Call); ok && strings.HasPrefix(calleeName(call.Common()), "regexp.MustCompile") {
		if k, ok := call.Common().Args[0].(*ssa.Const); ok && k.Value != nil {
			return constant.StringVal(k.Value)
		}
	}
	return ""
}

// ---- mod sets -----------------------------------------------------------

// modFields: names of struct fields a function may store to, transitively
// through static calls, closures and (by method name) interface calls.
func (p *Prog) modFields(f *ssa.Function) map[string]bool {
	if p.modMemo == nil {
		p.buildMods()
	}
	return p.modMemo[f]
}

func (p *Prog) buildMods() {
	p.modMemo = map[*ssa.Function]map[string]bool{}
	callees := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.Funcs {
		p.modMemo[f] = map[string]bool{}
		callees[f] = p.calleesOf(f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if al, isLocal := fa.X.(*ssa.Alloc); isLocal && !escapes(al) {
							continue
						}
						p.modMemo[f][derefType(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			for _, g := range callees[f] {
				for k := range p.modMemo[g] {
					if !p.modMemo[f][k] {
						p.modMemo[f][k] = true
						changed = true
					}
				}
			}
		}
	}
}

func escapes(a *ssa.Alloc) bool { return true }

// calleesOf over-approximates the module functions f may call or create.
func (p *Prog) calleesOf(f *ssa.Function) (out []*ssa.Function) {
	if p.methodsByName == nil {
		p.methodsByName = map[string][]*ssa.Function{}
		p.addrTaken = map[string][]*ssa.Function{}
		for _, g := range p.Funcs {
			if g.Signature.Recv() != nil {
				p.methodsByName[g.Name()] = append(p.methodsByName[g.Name()], g)
			}
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					var com *ssa.CallCommon
					if ci, ok := i.(ssa.CallInstruction); ok {
						com = ci.Common()
					}
					var ops []*ssa.Value
					for _, o := range i.Operands(ops) {
						if *o == nil {
							continue
						}
						if fn, ok := (*o).(*ssa.Function); ok && p.inModule(fn) {
							if com != nil && !com.IsInvoke() && com.Value == *o && !argUses(com, fn) {
								continue
							}
							k := fn.Signature.String()
							p.addrTaken[k] = append(p.addrTaken[k], fn)
						}
					}
					if m, ok := i.(*ssa.MakeClosure); ok {
						fn := m.Fn.(*ssa.Function)
						p.addrTaken[fn.Signature.String()] = append(p.addrTaken[fn.Signature.String()], fn)
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if m, ok := i.(*ssa.MakeClosure); ok {
				out = append(out, m.Fn.(*ssa.Function))
			}
			ci, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := ci.Common()
			if com.IsInvoke() {
				for _, g := range p.methodsByName[com.Method.Name()] {
					if types.Implements(g.Signature.Recv().Type(), com.Value.Type().Underlying().(*types.Interface)) ||
						types.Implements(types.NewPointer(g.Signature.Recv().Type()), com.Value.Type().Underlying().(*types.Interface)) {
						out = append(out, g)
					}
				}
				continue
			}
			if g := com.StaticCallee(); g != nil {
				if p.inModule(g) && g.Blocks != nil {
					out = append(out, g)
				}
				continue
			}
			if _, isB := com.Value.(*ssa.Builtin); !isB {
				out = append(out, p.addrTaken[com.Value.Type().Underlying().(*types.Signature).String()]...)
			}
		}
	}
	return
}

func argUses(com *ssa.CallCommon, f *ssa.Function) bool {
	for _, a := range com.Args {
		if a == ssa.Value(f) {
			return true
		}
	}
	return false
}

// callers lists static call sites per function.
func (p *Prog) callers(f *ssa.Function) []ssa.CallInstruction {
	if p.callerMemo == nil {
		p.callerMemo = map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if ci, ok := i.(ssa.CallInstruction); ok {
						if h := ci.Common().StaticCallee(); h != nil {
							p.callerMemo[h] = append(p.callerMemo[h], ci)
						}
					}
				}
			}
		}
	}
	return p.callerMemo[f]
}

// isAddrTaken: f may be called in ways callers() does not list.
func (p *Prog) isAddrTaken(f *ssa.Function) bool {
	p.calleesOf(f) // build index
	for _, l := range p.addrTaken {
		for _, g := range l {
			if g == f {
				return true
			}
		}
	}
	return false
}
