package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ctx is one calling context of the virtually inlined program: a function
// reached from a root through a chain of call sites. Parameters of an inlined
// function are resolved to the caller's arguments, so that extracting or
// inlining a helper does not change the expressions a rule sees.
type Ctx struct {
	Fn      *ssa.Function
	Parent  *Ctx
	Call    ssa.CallInstruction
	Closure *ssa.MakeClosure
	CloCtx  *Ctx // context in which Closure was made
	ArgsAt  []Val
	depth   int
	key     string
}

type Val struct {
	V ssa.Value
	C *Ctx
}

var roots = map[*ssa.Function]*Ctx{}

func rootCtx(f *ssa.Function) *Ctx {
	if c := roots[f]; c != nil {
		return c
	}
	roots[f] = &Ctx{Fn: f, key: fname(f)}
	return roots[f]
}

const maxDepth = 9

func (c *Ctx) has(f *ssa.Function) bool {
	for x := c; x != nil; x = x.Parent {
		if x.Fn == f {
			return true
		}
	}
	return false
}

// E is a canonical expression.
type E struct {
	Op  string
	S   string
	A   []*E
	T   types.Type
	V   ssa.Value
	C   *Ctx
	str string
}

type exprKey struct {
	v ssa.Value
	c *Ctx
}

func (e *E) String() string {
	if e.str != "" {
		return e.str
	}
	var s string
	switch e.Op {
	case "const", "par", "g", "fn", "rec", "zero", "opaque":
		s = e.S
	case "fld":
		s = e.A[0].String() + "." + e.S
	case "elem":
		s = "elem(" + e.A[0].String() + ")" + e.S
	case "bin":
		parts := make([]string, len(e.A))
		for i, a := range e.A {
			parts[i] = a.String()
		}
		s = "(" + strings.Join(parts, " "+e.S+" ") + ")"
	case "phi":
		parts := make([]string, len(e.A))
		for i, a := range e.A {
			parts[i] = a.String()
		}
		s = "{" + strings.Join(parts, " | ") + "}"
	default:
		parts := make([]string, len(e.A))
		for i, a := range e.A {
			parts[i] = a.String()
		}
		n := e.Op
		if e.S != "" {
			n += ":" + e.S
		}
		s = n + "(" + strings.Join(parts, ", ") + ")"
	}
	if len(s) > 6000 {
		h := fnv.New64a()
		h.Write([]byte(s))
		s = fmt.Sprintf("%s…%x", s[:6000], h.Sum64())
	}
	e.str = s
	return s
}

func mk(op, s string, a ...*E) *E { return &E{Op: op, S: s, A: a} }

// strip removes representation-only wrappers.
func (e *E) strip(ops ...string) *E {
	for {
		ok := false
		for _, o := range ops {
			if e.Op == o && len(e.A) == 1 {
				e = e.A[0]
				ok = true
				break
			}
		}
		if !ok {
			return e
		}
	}
}

// alts lists the alternatives of a (possibly nested) union.
func (e *E) alts() []*E {
	if e.Op != "phi" {
		return []*E{e}
	}
	var out []*E
	for _, a := range e.A {
		out = append(out, a.alts()...)
	}
	return out
}

func union(es []*E) *E {
	seen := map[string]*E{}
	var keys []string
	for _, e := range es {
		for _, a := range e.alts() {
			if a.Op == "rec" {
				if len(es) > 1 {
					continue
				}
			}
			k := a.String()
			if a.Op == "new" {
				k += fmt.Sprintf("@%p%p", a.V, a.C)
			}
			if seen[k] == nil {
				seen[k] = a
				keys = append(keys, k)
			}
		}
	}
	if len(keys) == 0 {
		return mk("rec", "rec")
	}
	sort.Strings(keys)
	if len(keys) == 1 {
		return seen[keys[0]]
	}
	e := &E{Op: "phi"}
	for _, k := range keys {
		e.A = append(e.A, seen[k])
	}
	return e
}

// contains reports whether sub-expression text s occurs as a node of e.
func (e *E) has(pred func(*E) bool) bool {
	if pred(e) {
		return true
	}
	for _, a := range e.A {
		if a.has(pred) {
			return true
		}
	}
	return false
}

var inProgress = map[exprKey]bool{}

func (p *Prog) expr(v ssa.Value, c *Ctx) *E {
	k := exprKey{v, c}
	if e := p.exprMemo[k]; e != nil {
		return e
	}
	if inProgress[k] {
		return &E{Op: "rec", S: "rec", T: v.Type()}
	}
	inProgress[k] = true
	e := p.expr0(v, c)
	delete(inProgress, k)
	if e.T == nil && e.Op != "rec" {
		e.T = v.Type()
		switch v.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
			e.T = derefType(v.Type()) // the location's own type
		}
	}
	if len(inProgress) == 0 || !e.has(func(x *E) bool { return x.Op == "rec" }) {
		p.exprMemo[k] = e
	}
	return e
}

func constStr(k *ssa.Const) string {
	if k.Value == nil {
		if _, ok := k.Type().Underlying().(*types.Struct); ok {
			return "zero"
		}
		return "nil"
	}
	if k.Value.Kind() == constant.Float || k.Value.Kind() == constant.Int {
		if f, ok := constant.Float64Val(k.Value); ok || true {
			if basic, isB := k.Type().Underlying().(*types.Basic); isB && basic.Info()&types.IsFloat != 0 {
				return fmt.Sprintf("%g", f)
			}
		}
	}
	return k.Value.ExactString()
}

func (p *Prog) expr0(v ssa.Value, c *Ctx) *E {
	switch v := v.(type) {
	case *ssa.Const:
		return mk("const", constStr(v))
	case *ssa.Function:
		return &E{Op: "fn", S: fname(v), V: v}
	case *ssa.Global:
		return mk("g", short(v.Pkg.Pkg.Path())+"."+v.Name())
	case *ssa.Builtin:
		return mk("g", "builtin."+v.Name())
	case *ssa.Parameter:
		return p.paramExpr(v, c)
	case *ssa.FreeVar:
		if c.Closure != nil {
			for i, fv := range c.Fn.FreeVars {
				if fv == v && i < len(c.Closure.Bindings) {
					return p.expr(c.Closure.Bindings[i], c.CloCtx)
				}
			}
		}
		return mk("par", "free:"+v.Name())
	case *ssa.Phi:
		return p.phiExpr(v, c)
	case *ssa.ChangeType:
		return p.expr(v.X, c)
	case *ssa.ChangeInterface:
		return p.expr(v.X, c)
	case *ssa.MakeInterface:
		return p.expr(v.X, c)
	case *ssa.Convert:
		x := p.expr(v.X, c)
		return &E{Op: "conv", S: typeName(v.Type()), A: []*E{x}}
	case *ssa.MultiConvert:
		return &E{Op: "conv", S: typeName(v.Type()), A: []*E{p.expr(v.X, c)}}
	case *ssa.SliceToArrayPointer:
		return p.expr(v.X, c)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return p.loadExpr(v.X, c)
		}
		if v.Op == token.ARROW {
			return mk("recv", "", p.expr(v.X, c))
		}
		x := p.expr(v.X, c)
		if v.Op == token.NOT {
			if x.Op == "un" && x.S == "!" {
				return x.A[0]
			}
		}
		return mk("un", v.Op.String(), x)
	case *ssa.BinOp:
		return binExpr(v.Op, p.expr(v.X, c), p.expr(v.Y, c), v.X.Type())
	case *ssa.FieldAddr:
		st := derefType(v.X.Type()).Underlying().(*types.Struct)
		return p.fieldOf(p.expr(v.X, c), st.Field(v.Field).Name())
	case *ssa.Field:
		st := v.X.Type().Underlying().(*types.Struct)
		return p.fieldOf(p.expr(v.X, c), st.Field(v.Field).Name())
	case *ssa.IndexAddr:
		return p.indexExpr(p.expr(v.X, c), v.Index, c)
	case *ssa.Index:
		return p.indexExpr(p.expr(v.X, c), v.Index, c)
	case *ssa.Lookup:
		b, k := p.expr(v.X, c), p.expr(v.Index, c)
		if k.Op == "key" && k.A[0].String() == b.String() {
			return mk("val", "", b) // the entry being looked at
		}
		return mk("lk", "", b, k)
	case *ssa.Slice:
		parts := []*E{p.expr(v.X, c)}
		if al, ok := v.X.(*ssa.Alloc); ok && v.Low == nil && v.High == nil {
			// slice literal / variadic pack: list the element stores
			return &E{Op: "slicelit", A: p.arrayStores(al, c), V: al, C: c}
		}
		if _, ok := v.X.(*ssa.Alloc); ok && v.Low == nil && v.High != nil {
			if k, ok := v.High.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "0" {
				return &E{Op: "slicelit", V: v, C: c}
			}
		}
		if v.Low == nil && v.High == nil {
			return parts[0]
		}
		for _, x := range []ssa.Value{v.Low, v.High} {
			if x == nil {
				parts = append(parts, mk("const", "_"))
			} else {
				parts = append(parts, p.expr(x, c))
			}
		}
		return mk("slice", "", parts...)
	case *ssa.Alloc:
		return p.allocExpr(v, c)
	case *ssa.MakeClosure:
		return &E{Op: "closure", S: fname(v.Fn.(*ssa.Function)), V: v, C: c}
	case *ssa.MakeMap:
		return &E{Op: "new", S: typeName(v.Type()), V: v, C: c}
	case *ssa.MakeSlice:
		if k, ok := v.Len.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "0" {
			return &E{Op: "slicelit", V: v, C: c}
		}
		return &E{Op: "new", S: typeName(v.Type()), V: v, C: c}
	case *ssa.MakeChan:
		return &E{Op: "new", S: typeName(v.Type()), V: v, C: c}
	case *ssa.TypeAssert:
		x := p.expr(v.X, c)
		if v.CommaOk {
			return &E{Op: "tassert", S: typeName(v.AssertedType), A: []*E{x}}
		}
		return asExpr(typeName(v.AssertedType), x)
	case *ssa.Extract:
		return p.extractExpr(v, c)
	case *ssa.Range:
		return mk("range", "", p.expr(v.X, c))
	case *ssa.Next:
		return mk("next", "", p.expr(v.Iter, c))
	case *ssa.Call:
		return p.callExpr(v, c, -1)
	case *ssa.Select:
		return &E{Op: "opaque", S: "select", V: v}
	}
	return &E{Op: "opaque", S: fmt.Sprintf("%T:%s", v, v.Name()), V: v}
}

// asExpr: x.(T); the assertion of a value whose static type is already T is the identity.
func asExpr(t string, x *E) *E {
	if x.T != nil && typeName(x.T) == t {
		return x
	}
	if x.Op == "as" && x.S == t {
		return x
	}
	if x.Op == "new" && x.S == t {
		return x
	}
	if x.Op == "phi" {
		var es []*E
		for _, a := range x.A {
			es = append(es, asExpr(t, a))
		}
		return union(es)
	}
	if x.T != nil && !types.IsInterface(x.T) && x.Op != "const" {
		return mk("rec", "rec") // impossible: the value has another concrete type
	}
	return &E{Op: "as", S: t, A: []*E{x}}
}

func (p *Prog) paramExpr(v *ssa.Parameter, c *Ctx) *E {
	idx := -1
	for i, q := range c.Fn.Params {
		if q == v {
			idx = i
		}
	}
	if c.Fn != v.Parent() {
		return mk("par", "?"+v.Name())
	}
	if c.ArgsAt != nil {
		if idx < len(c.ArgsAt) {
			return p.expr(c.ArgsAt[idx].V, c.ArgsAt[idx].C)
		}
		return mk("par", "?"+v.Name())
	}
	if c.Call != nil && c.Parent != nil {
		args := c.Call.Common().Args
		if c.Call.Common().IsInvoke() {
			if idx == 0 {
				return p.expr(c.Call.Common().Value, c.Parent)
			}
			idx--
		}
		if idx < len(args) {
			return p.expr(args[idx], c.Parent)
		}
	}
	name := fmt.Sprintf("arg%d", idx)
	if c.Fn.Signature.Recv() != nil {
		if idx == 0 {
			name = "recv"
		} else {
			name = fmt.Sprintf("arg%d", idx-1)
		}
	}
	return mk("par", name)
}

// induction: phi(const, phi+1); returns the starting constant.
func induction(v ssa.Value) (start int64, step int64, ok bool) {
	phi, isPhi := v.(*ssa.Phi)
	add := int64(0)
	if b, isB := v.(*ssa.BinOp); isB && b.Op == token.ADD {
		if k, isK := b.Y.(*ssa.Const); isK && k.Value != nil {
			if ph, isP := b.X.(*ssa.Phi); isP {
				phi, isPhi = ph, true
				add = k.Int64()
			}
		}
	}
	if !isPhi {
		return 0, 0, false
	}
	haveStart := false
	for _, e := range phi.Edges {
		if k, isK := e.(*ssa.Const); isK && k.Value != nil && k.Value.Kind() == constant.Int {
			if haveStart && start != k.Int64() {
				return 0, 0, false
			}
			start = k.Int64()
			haveStart = true
			continue
		}
		b, isB := e.(*ssa.BinOp)
		if !isB || (b.Op != token.ADD && b.Op != token.SUB) || b.X != ssa.Value(phi) {
			return 0, 0, false
		}
		k, isK := b.Y.(*ssa.Const)
		if !isK {
			return 0, 0, false
		}
		st := k.Int64()
		if b.Op == token.SUB {
			st = -st
		}
		if step != 0 && step != st {
			return 0, 0, false
		}
		step = st
	}
	if !haveStart || step == 0 {
		return 0, 0, false
	}
	return start + add, step, true
}

// tail is base[start:].
func tail(base *E, start int64) *E {
	return mk("slice", "", base, mk("const", fmt.Sprint(start)), mk("const", "_"))
}

func (p *Prog) indexExpr(base *E, idx ssa.Value, c *Ctx) *E {
	if start, step, ok := induction(idx); ok && step == 1 {
		if start == 0 {
			return mk("elem", "", base)
		}
		return mk("elem", "", tail(base, start))
	}
	i := p.expr(idx, c)
	if base.Op == "slicelit" && i.Op == "const" {
		var n int
		if _, err := fmt.Sscan(i.S, &n); err == nil && n < len(base.A) {
			return base.A[n]
		}
	}
	return mk("ix", "", base, i)
}

func (p *Prog) phiExpr(v *ssa.Phi, c *Ctx) *E {
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if start, step, ok := induction(v); ok {
			e := mk("ind", fmt.Sprintf("%d%+d#%d", start, step, indID(v, c)))
			e.V, e.C = v, c
			return e
		}
	}
	var es []*E
	for i, x := range v.Edges {
		if v.Block().Dominates(v.Block().Preds[i]) {
			for _, l := range phiLeaves(x, v) {
				es = append(es, carried(p.expr(l, c)))
			}
			continue
		}
		es = append(es, p.expr(x, c))
	}
	return union(es)
}

// phiLeaves: what a value on the way back to a loop is chosen from, the value
// it had before left out.
func phiLeaves(x ssa.Value, head *ssa.Phi) (out []ssa.Value) {
	seen := map[ssa.Value]bool{head: true}
	var walk func(x ssa.Value)
	walk = func(x ssa.Value) {
		if seen[x] {
			return
		}
		seen[x] = true
		if ph, ok := x.(*ssa.Phi); ok {
			if _, _, ind := induction(ph); !ind {
				for _, y := range ph.Edges {
					walk(y)
				}
				return
			}
		}
		out = append(out, x)
	}
	walk(x)
	return
}

// carried: a value left over from an earlier turn of a loop, unless it is
// worked out from the one before.
func carried(e *E) *E {
	var es []*E
	for _, a := range e.alts() {
		if a.Op != "prev" && a.has(func(x *E) bool { return x.Op == "elem" || x.Op == "ind" }) && !a.has(func(x *E) bool { return x.Op == "rec" || x.Op == "prev" }) {
			a = mk("prev", "", a)
		}
		es = append(es, a)
	}
	return union(es)
}

func commutes(op token.Token, t types.Type) bool {
	switch op {
	case token.MUL, token.EQL, token.NEQ, token.AND, token.OR, token.XOR:
		return true
	case token.ADD:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return false
		}
		return true
	}
	return false
}

func binExpr(op token.Token, x, y *E, t types.Type) *E {
	switch op {
	case token.GTR:
		return mk("bin", "<", y, x)
	case token.GEQ:
		return mk("bin", "<=", y, x)
	case token.NEQ:
		return mk("un", "!", binExpr(token.EQL, x, y, t))
	}
	if op == token.QUO {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			// x/y is x*(1/y): products of floats compare up to reassociation
			return binExpr(token.MUL, x, recip(y), t)
		}
	}
	args := []*E{x, y}
	if op == token.MUL || op == token.ADD {
		var flat []*E
		for _, a := range args {
			if a.Op == "bin" && a.S == op.String() {
				flat = append(flat, a.A...)
			} else {
				flat = append(flat, a)
			}
		}
		args = flat
	}
	if op == token.SUB {
		// x - y - z  =>  x - (y + z)
		if x.Op == "bin" && x.S == "-" {
			return mk("bin", "-", x.A[0], binExpr(token.ADD, x.A[1], y, t))
		}
	}
	if commutes(op, t) {
		sort.SliceStable(args, func(i, j int) bool { return args[i].String() < args[j].String() })
	}
	return mk("bin", op.String(), args...)
}

// loadExpr evaluates *addr.
func (p *Prog) loadExpr(addr ssa.Value, c *Ctx) *E {
	switch a := addr.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return p.expr(a, c)
	case *ssa.Alloc:
		return p.allocLoad(a, c)
	case *ssa.FreeVar:
		if c.Closure != nil {
			for i, fv := range c.Fn.FreeVars {
				if fv == a && i < len(c.Closure.Bindings) {
					return p.loadExpr(c.Closure.Bindings[i], c.CloCtx)
				}
			}
		}
		return mk("par", "free:"+a.Name())
	case *ssa.Parameter:
		// pointer parameter: resolve to the caller's address when inlined
		if c.Parent != nil && c.Call != nil && c.ArgsAt == nil && !c.Call.Common().IsInvoke() {
			for i, q := range c.Fn.Params {
				if q == a && i < len(c.Call.Common().Args) {
					return p.loadExpr(c.Call.Common().Args[i], c.Parent)
				}
			}
		}
	}
	return p.expr(addr, c)
}

// allocStores lists the values stored to the whole of a local variable, in the
// function that declares it and in the closures that capture it.
func (p *Prog) allocStores(a ssa.Value, c *Ctx, depth int) (vals []Val, escapes bool) {
	if depth > 4 || a.Referrers() == nil {
		return nil, true
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == a {
				vals = append(vals, Val{r.Val, c})
			}
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == a {
					cc := p.internCtx(&Ctx{Fn: fn, Parent: c, Closure: r, CloCtx: c, depth: c.depth + 1, key: c.key + ">" + fname(fn) + "~"})
					vs, _ := p.allocStores(fn.FreeVars[i], cc, depth+1)
					vals = append(vals, vs...)
				}
			}
		case *ssa.Call:
			escapes = true
		}
	}
	return vals, escapes
}

func (p *Prog) allocLoad(a *ssa.Alloc, c *Ctx) *E {
	et := a.Type().Underlying().(*types.Pointer).Elem()
	vals, _ := p.allocStores(a, c, 0)
	if len(vals) == 0 {
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			return &E{Op: "new", S: typeName(et), V: a, C: c, T: et}
		}
		return &E{Op: "opaque", S: "var " + a.Comment, V: a, C: c, T: et}
	}
	var es []*E
	for _, v := range vals {
		es = append(es, p.expr(v.V, v.C))
	}
	if _, ok := et.Underlying().(*types.Struct); ok && p.hasFieldStores(a) {
		es = append(es, &E{Op: "new", S: typeName(et), V: a, C: c, T: et})
	}
	e := union(es)
	return e
}

func (p *Prog) hasFieldStores(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok {
			for _, q := range *fa.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == fa {
					return true
				}
			}
		}
	}
	return false
}

func (p *Prog) allocExpr(a *ssa.Alloc, c *Ctx) *E {
	et := a.Type().Underlying().(*types.Pointer).Elem()
	return &E{Op: "new", S: typeName(et), V: a, C: c, T: a.Type()}
}

func (p *Prog) arrayStores(a *ssa.Alloc, c *Ctx) []*E {
	at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]*E, at.Len())
	for _, r := range *a.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				continue
			}
			for _, q := range *ia.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
					out[k.Int64()] = p.expr(st.Val, c)
				}
			}
			if out[k.Int64()] == nil {
				// nested composite written in place
				out[k.Int64()] = &E{Op: "inplace", V: ia, C: c}
			}
		}
	}
	for i := range out {
		if out[i] == nil {
			out[i] = mk("zero", "zero")
		}
	}
	return out
}

type fieldAsk struct {
	a *ssa.Alloc
	c *Ctx
	f string
}

var fieldBusy = map[fieldAsk]bool{}

// fieldOf evaluates x.f, resolving fields of locally built composites.
func (p *Prog) fieldOf(x *E, f string) *E {
	if x.Op == "phi" {
		var es []*E
		for _, a := range x.A {
			es = append(es, p.fieldOf(a, f))
		}
		return union(es)
	}
	if x.Op == "new" {
		if a, ok := x.V.(*ssa.Alloc); ok {
			k := fieldAsk{a, x.C, f}
			if fieldBusy[k] {
				return &E{Op: "rec", S: "rec"}
			}
			fieldBusy[k] = true
			defer delete(fieldBusy, k)
			if vals, any := p.fieldStores(a, f, x.C); any {
				var es []*E
				for _, v := range vals {
					es = append(es, p.expr(v.V, v.C))
				}
				// whole-struct stores too
				ws, _ := p.allocStores(a, x.C, 0)
				for _, w := range ws {
					we := p.expr(w.V, w.C)
					if we.Op == "new" && we.V == x.V {
						continue
					}
					if we.Op == "const" {
						continue // zero initialisation, overwritten
					}
					es = append(es, p.fieldOf(we, f))
				}
				if handedOut(a) {
					es = append(es, &E{Op: "fld", S: f, A: []*E{x}})
				}
				return union(es)
			}
			if handedOut(a) {
				return &E{Op: "fld", S: f, A: []*E{x}}
			}
			ws, _ := p.allocStores(a, x.C, 0)
			if len(ws) > 0 {
				var es []*E
				for _, w := range ws {
					we := p.expr(w.V, w.C)
					if we.Op == "new" && we.V == x.V {
						continue
					}
					es = append(es, p.fieldOf(we, f))
				}
				if len(es) > 0 {
					return union(es)
				}
			}
			if st, ok := derefType(a.Type()).Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == f {
						return &E{Op: "zero", S: "zero", T: st.Field(i).Type()}
					}
				}
			}
		}
	}
	if x.Op == "const" && x.S == "zero" || x.Op == "zero" {
		return mk("zero", "zero")
	}
	if x.Op == "inplace" {
		ia := x.V.(*ssa.IndexAddr)
		st := structOf(ia.Type())
		var es []*E
		for _, r := range *ia.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok && st != nil && st.Field(fa.Field).Name() == f {
				for _, q := range *fa.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == fa {
						es = append(es, p.expr(s.Val, x.C))
					}
				}
			}
		}
		if len(es) > 0 {
			return union(es)
		}
		return mk("zero", "zero")
	}
	if x.Op == "rec" {
		return x
	}
	return &E{Op: "fld", S: f, A: []*E{x}}
}

// handedOut: the composite is passed to a function that is not known.
func handedOut(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if call, ok := r.(ssa.CallInstruction); ok && calleeName(call.Common()) == "dyn" {
			return true
		}
	}
	return false
}

// fieldStores lists values stored into field f of the composite built at a.
func (p *Prog) fieldStores(a *ssa.Alloc, f string, c *Ctx) (vals []Val, any bool) {
	st, ok := derefType(a.Type()).Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for _, r := range *a.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || st.Field(fa.Field).Name() != f {
			continue
		}
		for _, q := range *fa.Referrers() {
			if s, ok := q.(*ssa.Store); ok && s.Addr == fa {
				vals = append(vals, Val{s.Val, c})
				any = true
			}
		}
	}
	return
}

func (p *Prog) extractExpr(v *ssa.Extract, c *Ctx) *E {
	switch t := v.Tuple.(type) {
	case *ssa.Call:
		return p.callExpr(t, c, v.Index)
	case *ssa.Lookup:
		b := mk("lk", "", p.expr(t.X, c), p.expr(t.Index, c))
		if v.Index == 0 {
			return b
		}
		return mk("hit", "", b.A...)
	case *ssa.TypeAssert:
		x := p.expr(t.X, c)
		if v.Index == 0 {
			return asExpr(typeName(t.AssertedType), x)
		}
		return &E{Op: "is", S: typeName(t.AssertedType), A: []*E{x}}
	case *ssa.Next:
		r := t.Iter.(*ssa.Range)
		x := p.expr(r.X, c)
		switch v.Index {
		case 0:
			return mk("more", "", x)
		case 1:
			return mk("key", "", x)
		default:
			if t.IsString {
				return mk("elem", "", x)
			}
			return mk("val", "", x)
		}
	case *ssa.UnOp: // channel receive
		return mk("recv", fmt.Sprint(v.Index), p.expr(t.X, c))
	}
	return &E{Op: "ext", S: fmt.Sprint(v.Index), A: []*E{p.expr(v.Tuple, c)}}
}

// callees resolves the module-internal targets of a call in context: the
// static callee, or the closure / function values that may be called.
func (p *Prog) callee(call ssa.CallInstruction, c *Ctx) *Ctx {
	com := call.Common()
	if com.IsInvoke() {
		return nil
	}
	mkctx := func(f *ssa.Function, clo *ssa.MakeClosure, cc *Ctx) *Ctx {
		if f == nil || f.Blocks == nil || p.closed[f] != "" || !p.inModule(f) || c.depth >= maxDepth || c.has(f) {
			return nil
		}
		key := fmt.Sprintf("%s>%p:%s", c.key, call, fname(f))
		return p.internCtx(&Ctx{Fn: f, Parent: c, Call: call, Closure: clo, CloCtx: cc, depth: c.depth + 1, key: key})
	}
	if f := com.StaticCallee(); f != nil {
		if m, ok := com.Value.(*ssa.MakeClosure); ok {
			return mkctx(f, m, c)
		}
		return mkctx(f, nil, nil)
	}
	e := p.expr(com.Value, c)
	if e.Op == "closure" {
		m := e.V.(*ssa.MakeClosure)
		return mkctx(m.Fn.(*ssa.Function), m, e.C)
	}
	if e.Op == "fn" {
		return mkctx(e.V.(*ssa.Function), nil, nil)
	}
	return nil
}

// closedName: the name given to the function called, if it is not to be looked
// into.
func (p *Prog) closedName(call ssa.CallInstruction, c *Ctx) string {
	com := call.Common()
	if len(p.closed) == 0 || com.IsInvoke() {
		return ""
	}
	if f := com.StaticCallee(); f != nil {
		return p.closed[f]
	}
	switch e := p.expr(com.Value, c); e.Op {
	case "closure":
		return p.closed[e.V.(*ssa.MakeClosure).Fn.(*ssa.Function)]
	case "fn":
		return p.closed[e.V.(*ssa.Function)]
	case "par":
		if !strings.HasPrefix(e.S, "free:") {
			return ""
		}
		// the function calling itself by the variable that holds it
		if f := call.Parent(); p.closed[f] != "" && types.Identical(f.Signature, com.Signature()) {
			return p.closed[f]
		}
	}
	return ""
}

var ctxIntern = map[string]*Ctx{}

func (p *Prog) internCtx(c *Ctx) *Ctx {
	k := c.key
	if c.Closure != nil && c.CloCtx != nil {
		k += "|" + c.CloCtx.key
	}
	if x := ctxIntern[k]; x != nil {
		return x
	}
	ctxIntern[k] = c
	return c
}

func calleeName(com *ssa.CallCommon) string {
	if com.IsInvoke() {
		return "inv:" + com.Method.Name()
	}
	if f := com.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		return fname(f)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "dyn"
}

func (p *Prog) callExpr(v *ssa.Call, c *Ctx, idx int) *E {
	com := v.Common()
	name := calleeName(com)
	if name == oscNew {
		return p.msgExpr(v, c)
	}
	if n := p.closedName(v, c); n != "" {
		name = n
	}
	if cc := p.callee(v, c); cc != nil && !p.Opaque[name] {
		var es []*E
		i := idx
		if i < 0 {
			i = 0
		}
		rets := returns(cc.Fn)
		for _, r := range rets {
			if i < len(r.Results) && !(len(rets) > 1 && failing(r, i)) {
				es = append(es, p.expr(r.Results[i], cc))
			}
		}
		if len(es) > 0 {
			return union(es)
		}
	}
	var args []*E
	if com.IsInvoke() {
		args = append(args, p.expr(com.Value, c))
	} else if name == "dyn" {
		args = append(args, p.expr(com.Value, c))
	}
	for _, a := range com.Args {
		args = append(args, p.expr(a, c))
	}
	e := &E{Op: "call", S: name, A: args, V: v, C: c}
	if idx > 0 {
		e.Op = fmt.Sprintf("call#%d", idx)
	}
	return e
}

func returns(f *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if f.Recover == b && len(r.Results) > 0 {
				continue
			}
			out = append(out, r)
		}
	}
	return out
}

var indIDs = map[string]int{}

func indID(v *ssa.Phi, c *Ctx) int {
	k := fmt.Sprintf("%p|%s", v, c.key)
	if n, ok := indIDs[k]; ok {
		return n
	}
	indIDs[k] = len(indIDs) + 1
	return len(indIDs)
}

func recip(y *E) *E {
	if y.Op == "bin" && y.S == "*" {
		var as []*E
		for _, a := range y.A {
			as = append(as, recip(a))
		}
		sort.SliceStable(as, func(i, j int) bool { return as[i].String() < as[j].String() })
		return mk("bin", "*", as...)
	}
	if y.Op == "recip" {
		return y.A[0]
	}
	return mk("recip", "", y)
}

// failing: result i of this return is a placeholder beside an error.
func failing(r *ssa.Return, i int) bool {
	n := len(r.Results) - 1
	if n < 1 || i == n || typeName(r.Results[n].Type()) != "error" || isNilConst(r.Results[n]) {
		return false
	}
	_, isC := r.Results[i].(*ssa.Const)
	return isC
}
