package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whether it makes a difference in which order the elements of something are
// taken. Looked at is what one turn of the loop does to what is there
// afterwards: entries under the element's own key, totals, greatest and least
// values, flags and lists that are sorted before they are used are the same in
// every order; nothing else is taken to be.

// oclass is what is known of a value within a turn.
type oclass struct {
	iter  bool // is another one for another element
	key   bool // no two elements give the same one
	own   bool // refers to what the element refers to
	fresh bool // refers to what this turn has made
	outer bool // refers to what has been there before
	acc   bool // depends on the turns before
}

func (a oclass) with(b oclass) oclass {
	return oclass{a.iter || b.iter, false, a.own || b.own, a.fresh || b.fresh, a.outer || b.outer, a.acc || b.acc}
}

type turnScope struct {
	o      *ordering
	f      *ssa.Function
	body   map[*ssa.BasicBlock]bool // nil: all of the function
	head   *ssa.BasicBlock
	elems  map[ssa.Value]oclass
	params map[ssa.Value]oclass // parameters and captured variables of a called function
	memo   map[ssa.Value]oclass
	busy   map[ssa.Value]bool
	accs   map[ssa.Value]bool
	up     *turnScope
	depth  int
}

type ordering struct {
	p      *Prog
	why    []string
	seen   map[string]bool
	ranged ssa.Value // what is walked, if it is a map
	early  string    // where the loop is left before its end
	kept   int       // what is left behind by a turn
	bags   map[ssa.Value]bool
	unique map[string][]string
	inside map[string]bool
	done   map[*ssa.If]bool // branches that are part of a greatest or least value
}

func (o *ordering) bad(i ssa.Instruction, f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if i != nil {
		s = o.p.ipos(i) + ": " + s
	}
	if !o.seen[s] {
		o.seen[s] = true
		o.why = append(o.why, s)
	}
}

// orderMatters lists why the result of walking a map depends on the order.
func (p *Prog) orderMatters(rng *ssa.Range) []string {
	o := &ordering{p: p, seen: map[string]bool{}, ranged: rng.X, bags: map[ssa.Value]bool{}, inside: map[string]bool{}, done: map[*ssa.If]bool{}}
	f := rng.Parent()
	var next *ssa.Next
	for _, ref := range *rng.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return nil
	}
	var loop *Loop
	for _, l := range loopsOf(f) {
		if l.Body[next.Block()] && (loop == nil || len(l.Body) < len(loop.Body)) {
			loop = l
		}
	}
	elems := map[ssa.Value]oclass{}
	for _, ref := range *next.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				elems[e] = oclass{iter: true, key: true, own: true}
			case 2:
				elems[e] = oclass{iter: true, own: true}
			}
		}
	}
	body := map[*ssa.BasicBlock]bool{}
	head := next.Block()
	if loop != nil && loop.Head == head {
		body = loop.Body
	} else { // it never takes a second element: which is the first?
		for ref := range elems {
			if len(*ref.Referrers()) > 0 {
				return []string{p.ipos(rng) + ": only the element that happens to be the first is looked at"}
			}
		}
		return nil
	}
	o.turn(f, body, head, elems)
	sort.Strings(o.why)
	return o.why
}

func (o *ordering) turn(f *ssa.Function, body map[*ssa.BasicBlock]bool, head *ssa.BasicBlock, elems map[ssa.Value]oclass) {
	s := &turnScope{o: o, f: f, body: body, head: head, elems: elems, memo: map[ssa.Value]oclass{}, busy: map[ssa.Value]bool{}, accs: map[ssa.Value]bool{}}
	for _, i := range head.Instrs {
		if phi, ok := i.(*ssa.Phi); ok && !counts(phi, body) {
			s.accs[phi] = true
		}
	}
	var bags []*ssa.Phi
	early, kept := o.early, o.kept
	o.early, o.kept = "", 0
	for _, i := range head.Instrs {
		if phi, ok := i.(*ssa.Phi); ok && s.accs[phi] {
			if s.accumulates(phi) {
				bags = append(bags, phi)
			}
		}
	}
	s.effects()
	if o.early != "" && o.kept > 0 {
		o.bad(nil, "%s: the loop ends before all elements are seen, and those seen have left something behind", o.early)
	}
	o.early, o.kept = early, kept
	// what is defined within and used afterwards
	for b := range body {
		for _, i := range b.Instrs {
			v, ok := i.(ssa.Value)
			if !ok || v.Referrers() == nil || s.accs[v] && b == head {
				continue
			}
			for _, ref := range *v.Referrers() {
				if body[ref.Block()] {
					continue
				}
				if _, ok := ref.(*ssa.DebugRef); ok {
					continue
				}
				if c := s.class(v); (c.iter || c.acc) && !s.inBag(v, bags) {
					o.bad(i, "what the last element seen gives is used after the loop (%s)", o.p.ipos(ref))
				}
			}
		}
	}
	for _, phi := range bags {
		o.bag(phi, s.elemOf(phi), func(i ssa.Instruction) bool { return body[i.Block()] }, 0)
	}
}

func (s *turnScope) inBag(v ssa.Value, bags []*ssa.Phi) bool {
	for _, b := range bags {
		if s.reaches(v, b, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

// counts: the variable counts the turns (the walk over a list).
func counts(phi *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	for _, e := range phi.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(phi) {
			if _, ok := b.Y.(*ssa.Const); ok {
				for _, ref := range *b.Referrers() {
					if c, ok := ref.(*ssa.BinOp); ok && c.Op == token.LSS {
						return true
					}
				}
				for _, ref := range *phi.Referrers() {
					if c, ok := ref.(*ssa.BinOp); ok && c.Op == token.LSS && c.X == ssa.Value(phi) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (s *turnScope) within(b *ssa.BasicBlock) bool { return s.body == nil || s.body[b] }

func (s *turnScope) class(v ssa.Value) oclass {
	if c, ok := s.elems[v]; ok {
		return c
	}
	if c, ok := s.params[v]; ok {
		return c
	}
	if c, ok := s.memo[v]; ok {
		return c
	}
	if s.busy[v] {
		return oclass{}
	}
	s.busy[v] = true
	c := s.class1(v)
	delete(s.busy, v)
	if len(s.busy) == 0 {
		s.memo[v] = c
	}
	return c
}

func (s *turnScope) class1(v ssa.Value) oclass {
	switch v.(type) {
	case nil, *ssa.Const, *ssa.Function, *ssa.Builtin:
		return oclass{}
	case *ssa.Global, *ssa.FreeVar, *ssa.Parameter:
		return oclass{outer: true}
	}
	ins, ok := v.(ssa.Instruction)
	if !ok || !s.within(ins.Block()) {
		if al, ok := v.(*ssa.Alloc); ok && s.body != nil && s.ofTurn(al) {
			return oclass{fresh: true}
		}
		return oclass{outer: true}
	}
	if s.accs[v] {
		return oclass{acc: true, outer: true}
	}
	union := func(vs ...ssa.Value) (c oclass) {
		for _, x := range vs {
			c = c.with(s.class(x))
		}
		return
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		return oclass{fresh: true}
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		return oclass{fresh: true}
	case *ssa.MakeClosure:
		c := union(v.Bindings...)
		c.fresh = true
		return c
	case *ssa.Convert:
		return s.class(v.X)
	case *ssa.ChangeType:
		return s.class(v.X)
	case *ssa.MakeInterface:
		return s.class(v.X)
	case *ssa.ChangeInterface:
		return s.class(v.X)
	case *ssa.TypeAssert:
		return s.class(v.X)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return union(v.X)
		}
		c := s.class(v.X)
		if c.fresh {
			return c.with(s.contents(base(v.X), map[ssa.Value]bool{}))
		}
		return c.with(oclass{})
	case *ssa.Lookup:
		c := union(v.X, v.Index)
		c.own = s.class(v.X).own
		return c
	case *ssa.BinOp:
		x, y := s.class(v.X), s.class(v.Y)
		c := x.with(y)
		if v.Op == token.ADD && (x.key && !y.iter && !y.acc || y.key && !x.iter && !x.acc) {
			c.key = true
		}
		return c
	case *ssa.Phi:
		return union(v.Edges...)
	case *ssa.Call:
		return s.callClass(v)
	}
	var c oclass
	for _, op := range ins.Operands(nil) {
		if *op != nil {
			c = c.with(s.class(*op))
		}
	}
	return c
}

// ofTurn: a variable that each turn sets before it does anything with it.
func (s *turnScope) ofTurn(al *ssa.Alloc) bool {
	var set *ssa.Store
	for _, ref := range *al.Referrers() {
		if !s.within(ref.Block()) {
			return false
		}
		if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			if set == nil || st.Block().Dominates(set.Block()) && st.Block() != set.Block() || st.Block() == set.Block() && indexIn(st) < indexIn(set) {
				set = st
			}
		}
	}
	if set == nil {
		return false
	}
	for _, ref := range *al.Referrers() {
		if ref != ssa.Instruction(set) && !(set.Block() == ref.Block() && indexIn(set) < indexIn(ref) || set.Block() != ref.Block() && set.Block().Dominates(ref.Block())) {
			return false
		}
	}
	return true
}

func base(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		default:
			return a
		}
	}
}

// contents: what is put into a place that this turn has made.
func (s *turnScope) contents(a ssa.Value, seen map[ssa.Value]bool) (c oclass) {
	if seen[a] || a.Referrers() == nil {
		return
	}
	seen[a] = true
	for _, ref := range *a.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			if ref.Addr == a {
				c = c.with(s.class(ref.Val))
			}
		case *ssa.FieldAddr:
			c = c.with(s.contents(ref, seen))
		case *ssa.IndexAddr:
			c = c.with(s.contents(ref, seen))
		case *ssa.Slice:
			c = c.with(s.contents(ref, seen))
		case *ssa.MapUpdate:
			if ref.Map == a {
				c = c.with(s.class(ref.Key)).with(s.class(ref.Value))
			}
		case ssa.CallInstruction:
			for _, x := range ref.Common().Args {
				if x != a {
					c = c.with(s.class(x))
				}
			}
		}
	}
	return
}

// keyed: two elements never give the same value here.
func (s *turnScope) keyed(v ssa.Value) bool {
	if s.class(v).key {
		return true
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return s.keyed(v.X)
	case *ssa.Convert:
		return s.keyed(v.X)
	case *ssa.Slice:
		for _, e := range s.o.p.sliceElems(v) {
			if s.keyed(e) {
				return true
			}
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		if al, ok := v.X.(*ssa.Alloc); ok { // a variable that is set once
			var val ssa.Value
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					if val != nil {
						return false
					}
					val = st.Val
				}
			}
			return val != nil && s.keyed(val)
		}
	case *ssa.Call:
		com := v.Common()
		switch calleeName(com) {
		case "fmt.Sprintf":
			k, ok := com.Args[0].(*ssa.Const)
			if !ok {
				return false
			}
			verbs := strings.Split(constant.StringVal(k.Value), "%")[1:]
			for i, e := range s.o.p.sliceElems(com.Args[1]) {
				if !s.keyed(e) && (s.class(e).iter || s.class(e).acc) {
					return false
				}
				if s.keyed(e) && (i >= len(verbs) || verbs[i] == "" || !strings.ContainsAny(verbs[i][:1], "sdvqx")) {
					return false // some verbs leave digits out
				}
			}
			return len(s.o.p.sliceElems(com.Args[1])) > 0 && s.class(v).iter
		case "strconv.Itoa", "strconv.FormatInt", "strconv.Quote":
			return s.keyed(com.Args[0])
		case "strconv.FormatFloat":
			prec, ok := com.Args[2].(*ssa.Const)
			return ok && prec.Int64() == -1 && s.keyed(com.Args[0])
		}
		// a name for each of the values of an enumeration
		if g := com.StaticCallee(); g != nil && s.o.p.inModule(g) && len(com.Args) == 1 && s.keyed(com.Args[0]) {
			names := map[string]bool{}
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					k, ok := ret.Results[0].(*ssa.Const)
					if !ok || k.Value == nil || names[k.Value.ExactString()] || len(b.Preds) > 1 {
						return false
					}
					names[k.Value.ExactString()] = true
				}
			}
			return len(names) > 0
		}
	}
	return false
}

// reaches: v is made from phi, by adding to it.
func (s *turnScope) reaches(v, phi ssa.Value, seen map[ssa.Value]bool) bool {
	if v == phi {
		return true
	}
	ins, ok := v.(ssa.Instruction)
	if !ok || seen[v] || !s.within(ins.Block()) {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if s.reaches(e, phi, seen) {
				return true
			}
		}
	case *ssa.BinOp:
		return s.reaches(v.X, phi, seen) || s.reaches(v.Y, phi, seen)
	case *ssa.Call:
		if n := calleeName(v.Common()); n == "append" || s.o.greatest(v) {
			for _, a := range v.Common().Args {
				if s.reaches(a, phi, seen) {
					return true
				}
			}
		}
	}
	return false
}

// accumulates checks what a turn makes of what the turns before have left; it
// says whether that is a list.
func (s *turnScope) accumulates(phi *ssa.Phi) (bag bool) {
	o := s.o
	kinds := map[string]bool{}
	consts := map[string]bool{}
	var chain func(v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool)
	chain = func(v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) {
		if v == ssa.Value(phi) || seen[v] {
			return
		}
		ins, ok := v.(ssa.Instruction)
		if !ok || !s.within(ins.Block()) {
			kinds["set"] = true
			consts[valueKey(v)] = true
			return
		}
		if !s.reaches(v, phi, map[ssa.Value]bool{}) {
			if p2, ok := v.(*ssa.Phi); ok && !s.class(v).iter {
				seen[v] = true
				for _, e := range p2.Edges {
					chain(e, p2, seen)
				}
				return
			}
			if !s.class(v).iter {
				kinds["set"] = true
				consts[valueKey(v)] = true
				return
			}
			if ph, ok := at.(*ssa.Phi); ok && (s.extreme(phi, v, ph) || s.withExtreme(phi, v, ph)) {
				kinds["extreme"] = true
				return
			}
			kinds["last"] = true
			o.bad(ins, "it keeps what the last element seen gives")
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				chain(e, v, seen)
			}
		case *ssa.BinOp:
			x, y := v.X, v.Y
			if !s.reaches(x, phi, map[ssa.Value]bool{}) {
				x, y = y, x
			}
			b, _ := v.Type().Underlying().(*types.Basic)
			exact := b != nil && b.Info()&(types.IsInteger|types.IsBoolean) != 0
			switch {
			case s.class(y).acc:
				o.bad(v, "what it adds up depends on the elements before")
			case exact && in(v.Op.String(), "+", "|", "&", "^"):
				kinds[v.Op.String()] = true
			case exact && v.Op == token.MUL:
				kinds["*"] = true
			case exact && v.Op == token.SUB && x == v.X:
				kinds["+"] = true
			default:
				o.bad(v, "%s of %s is not the same in every order", v.Op, v.Type())
			}
			chain(x, v, seen)
		case *ssa.Call:
			args := v.Common().Args
			switch calleeName(v.Common()) {
			case "append":
				kinds["list"] = true
				if s.class(args[1]).acc {
					o.bad(v, "what it lists depends on the elements before")
				}
				chain(args[0], v, seen)
			default:
				kinds["extreme"] = true
				for _, a := range args {
					if s.reaches(a, phi, map[ssa.Value]bool{}) {
						chain(a, v, seen)
					}
				}
			}
		default:
			o.bad(ins, "it is not understood what this makes of the elements before")
		}
	}
	for i, e := range phi.Edges {
		if s.body[s.head.Preds[i]] {
			chain(e, phi, map[ssa.Value]bool{})
		}
	}
	if len(kinds) > 0 {
		o.kept++
	}
	if len(kinds) > 1 {
		var ks []string
		for k := range kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		o.bad(phi, "a turn does several things with what the turns before have left (%s)", strings.Join(ks, ", "))
	}
	if len(consts) > 1 {
		o.bad(phi, "which of several values it is in the end depends on the order")
	}
	return kinds["list"]
}

func valueKey(v ssa.Value) string {
	if k, ok := v.(*ssa.Const); ok {
		if k.Value == nil {
			return "nil"
		}
		return k.Value.ExactString()
	}
	return fmt.Sprintf("%p", v)
}

// same: two values that are the same, both being worked out from the same.
func same(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch a := a.(type) {
	case *ssa.Const:
		b, ok := b.(*ssa.Const)
		return ok && valueKey(a) == valueKey(b)
	case *ssa.Call:
		b, ok := b.(*ssa.Call)
		if !ok || calleeName(a.Common()) != calleeName(b.Common()) || len(a.Common().Args) != len(b.Common().Args) {
			return false
		}
		for i, x := range a.Common().Args {
			if !same(x, b.Common().Args[i]) {
				return false
			}
		}
		return in(calleeName(a.Common()), "len", "math.Round", "math.Floor", "math.Ceil", "math.Abs")
	case *ssa.Convert:
		b, ok := b.(*ssa.Convert)
		return ok && types.Identical(a.Type(), b.Type()) && same(a.X, b.X)
	case *ssa.UnOp:
		b, ok := b.(*ssa.UnOp)
		return ok && a.Op == b.Op && same(a.X, b.X)
	case *ssa.Field:
		b, ok := b.(*ssa.Field)
		return ok && a.Field == b.Field && same(a.X, b.X)
	case *ssa.FieldAddr:
		b, ok := b.(*ssa.FieldAddr)
		return ok && a.Field == b.Field && same(a.X, b.X)
	case *ssa.Lookup:
		b, ok := b.(*ssa.Lookup)
		return ok && !a.CommaOk && !b.CommaOk && same(a.X, b.X) && same(a.Index, b.Index)
	case *ssa.BinOp:
		b, ok := b.(*ssa.BinOp)
		return ok && a.Op == b.Op && same(a.X, b.X) && same(a.Y, b.Y)
	}
	return false
}

// extreme: v takes the place of phi exactly if it is greater (or less), or if
// what belongs to it is, and what belongs to it belongs to nothing else.
func (s *turnScope) extreme(phi *ssa.Phi, v ssa.Value, at *ssa.Phi) bool {
	for b := range s.body {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := br.Cond.(*ssa.BinOp)
		if !ok || !in(c.Op.String(), "<", ">", "<=", ">=") {
			continue
		}
		x, y := c.X, c.Y
		if s.reaches(x, phi, map[ssa.Value]bool{}) || s.lookedUp(x, phi) {
			x, y = y, x
		}
		ok = (y == ssa.Value(phi) || s.carries(y, phi)) && same(x, v)
		if !ok && s.lookedUp(y, phi) && s.distinct() {
			// the value of this key is compared with that of the best one
			if lk, isLk := x.(*ssa.Lookup); isLk {
				ok = lk.Index == v && s.sameMap(lk.X)
			} else if e, isE := x.(*ssa.Extract); isE {
				_, isElem := s.elems[e]
				_, isKey := s.elems[v]
				ok = isElem && e.Index == 2 && isKey && s.elems[v].key
			}
		}
		if !ok {
			continue
		}
		for i, e := range at.Edges {
			if e == v {
				from := at.Block().Preds[i]
				for k, succ := range b.Succs {
					if succ == from && len(from.Preds) == 1 || from == b && succ == at.Block() || succ.Dominates(from) && len(succ.Preds) == 1 {
						_ = k
						s.o.done[br] = true
						return true
					}
				}
			}
		}
	}
	return false
}

// withExtreme: v is the key of the element whose value takes the place of the
// greatest (or least) one here, and no two elements have the same value.
func (s *turnScope) withExtreme(phi *ssa.Phi, v ssa.Value, at *ssa.Phi) bool {
	if !s.distinct() {
		return false
	}
	if _, isKey := s.elems[v]; !isKey || !s.elems[v].key {
		return false
	}
	for _, i := range at.Block().Instrs {
		at2, ok := i.(*ssa.Phi)
		if !ok || at2 == at {
			continue
		}
		for _, j := range phi.Block().Instrs {
			phi2, ok := j.(*ssa.Phi)
			if !ok || phi2 == phi {
				continue
			}
			together := true
			for k, e := range at.Edges {
				x, isE := at2.Edges[k].(*ssa.Extract)
				switch {
				case at.Block() == s.head && !s.body[at.Block().Preds[k]]:
				case e == v:
					together = together && isE && x.Index == 2 && s.extreme(phi2, x, at2)
					if isE {
						_, isElem := s.elems[x]
						together = together && isElem
					}
				case e == ssa.Value(phi):
					together = together && at2.Edges[k] == ssa.Value(phi2)
				default:
					together = false
				}
			}
			if together {
				return true
			}
		}
	}
	return false
}

// greatest: this gives the greatest, or the least, of what it is given.
func (o *ordering) greatest(c *ssa.Call) bool {
	if in(calleeName(c.Common()), "max", "min", "math.Max", "math.Min") {
		return true
	}
	f := c.Common().StaticCallee()
	if f == nil || len(f.Params) != 2 || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 {
		return false
	}
	// if a < b { return b }; return a
	br, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.If)
	if !ok || len(f.Blocks[0].Instrs) != 2 {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || !in(cmp.Op.String(), "<", ">", "<=", ">=") {
		return false
	}
	a, b := ssa.Value(f.Params[0]), ssa.Value(f.Params[1])
	if !(cmp.X == a && cmp.Y == b || cmp.X == b && cmp.Y == a) {
		return false
	}
	var given []ssa.Value
	for _, s := range f.Blocks[0].Succs {
		ret, ok := s.Instrs[0].(*ssa.Return)
		if !ok {
			return false
		}
		given = append(given, ret.Results[0])
	}
	return len(given) == 2 && (given[0] == a && given[1] == b || given[0] == b && given[1] == a)
}

func (s *turnScope) carries(v ssa.Value, phi *ssa.Phi) bool {
	p, ok := v.(*ssa.Phi)
	return ok && s.reaches(p, phi, map[ssa.Value]bool{})
}

func (s *turnScope) lookedUp(v ssa.Value, phi *ssa.Phi) bool {
	lk, ok := v.(*ssa.Lookup)
	return ok && lk.Index == ssa.Value(phi) && s.sameMap(lk.X)
}

func (s *turnScope) sameMap(v ssa.Value) bool {
	return s.o.ranged != nil && globalOf(v) != nil && globalOf(v) == globalOf(s.o.ranged)
}

func globalOf(v ssa.Value) *ssa.Global {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		g, _ := u.X.(*ssa.Global)
		return g
	}
	return nil
}

// distinct: no two entries of the map that is walked have the same value.
func (s *turnScope) distinct() bool {
	g := globalOf(s.o.ranged)
	if g == nil {
		return false
	}
	vals := map[string]bool{}
	for _, f := range s.o.p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				st, ok := i.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				mm, ok := st.Val.(*ssa.MakeMap)
				if !ok {
					return false
				}
				for _, ref := range *mm.Referrers() {
					if mu, ok := ref.(*ssa.MapUpdate); ok {
						k, ok := mu.Value.(*ssa.Const)
						if !ok || vals[k.Value.ExactString()] {
							return false
						}
						vals[k.Value.ExactString()] = true
					}
				}
			}
		}
	}
	return len(vals) > 0
}

// effects looks at everything that a turn does.
func (s *turnScope) effects() {
	o := s.o
	if s.body != nil { // the branches that give a greatest or least value are known by now
		for b := range s.body {
			if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && s.class(br.Cond).acc && !o.done[br] {
				o.bad(br, "what is done with an element depends on those before")
			}
		}
	}
	for _, b := range s.f.Blocks {
		if !s.within(b) {
			continue
		}
		if s.body != nil {
			for _, succ := range b.Succs {
				if !s.body[succ] && b != s.head {
					o.early = o.p.ipos(b.Instrs[len(b.Instrs)-1])
					for _, i := range succ.Instrs {
						if phi, ok := i.(*ssa.Phi); ok {
							for k, pr := range succ.Preds {
								if c := s.class(phi.Edges[k]); pr == b && (c.iter || c.acc) {
									o.bad(i, "which element ends the loop depends on the order")
								}
							}
						}
					}
				}
			}
		}
		for _, i := range b.Instrs {
			s.effect(i)
		}
	}
}

func (s *turnScope) effect(i ssa.Instruction) {
	o := s.o
	switch i := i.(type) {
	case *ssa.Store:
		a := s.class(i.Addr)
		if !a.outer {
			return
		}
		v := s.class(i.Val)
		if s.sole(i) {
			return
		}
		if v.acc {
			o.bad(i, "what is kept depends on the elements before")
			return
		}
		if ia, ok := i.Addr.(*ssa.IndexAddr); ok && s.keyed(ia.Index) {
			o.kept++
			return
		}
		if a.own && !v.iter {
			o.kept++
			return
		}
		if !v.iter && s.onlyThis(i) {
			o.kept++
			return
		}
		if s.addsTo(i.Addr, i.Val) {
			o.kept++
			return
		}
		if cell, ok := i.Addr.(*ssa.Alloc); ok && s.body != nil && s.listIn(cell, i) {
			o.kept++
			return
		}
		o.bad(i, "it writes to something that is not the element's own")
	case *ssa.MapUpdate:
		m := s.class(i.Map)
		if !m.outer {
			return
		}
		o.kept++
		k, v := s.class(i.Key), s.class(i.Value)
		if s.keyed(i.Key) && !v.acc || !v.iter && !v.acc && !k.acc || s.sole(i) {
			return
		}
		o.bad(i, "elements can write to the same entry of a map")
	case *ssa.Return:
		if s.body == nil {
			return
		}
		o.early = o.p.ipos(i)
		for _, v := range i.Results {
			if c := s.class(v); (c.iter || c.acc) && !s.sole(i) {
				o.bad(i, "which element it returns for depends on the order")
			}
		}
	case *ssa.Send:
		o.bad(i, "it sends something for each element")
	case *ssa.Go:
		o.bad(i, "it starts something for each element")
	case *ssa.Defer:
		o.bad(i, "it defers something for each element")
	case *ssa.Select:
		o.bad(i, "it waits for each element")
	case *ssa.Call:
		s.callEffect(i)
	}
}

// sole: this is done for one element at most, being guarded by an equation that
// holds for one element at most.
func (s *turnScope) sole(i ssa.Instruction) bool {
	for b := i.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil || !s.within(d) {
			continue
		}
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		onTrue := d.Succs[0] == b && len(b.Preds) == 1
		onFalse := d.Succs[1] == b && len(b.Preds) == 1
		eq, ok := br.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y := s.class(eq.X), s.class(eq.Y)
		unique := s.keyed(eq.X) && !y.iter && !y.acc || s.keyed(eq.Y) && !x.iter && !x.acc
		if unique && (eq.Op == token.EQL && onTrue || eq.Op == token.NEQ && onFalse) {
			return true
		}
	}
	return s.declaredUnique(i)
}

// uniqueFields: what tells the entries of a map of this type from each other.
var uniqueFields = map[string][]string{
	"interop/musicxml/importer.musicXMLPart": {"instruments", "alias"},
}

// declaredUnique: this is done only if all the fields that tell entries apart
// are equal to given ones.
func (s *turnScope) declaredUnique(i ssa.Instruction) bool {
	have := map[string]bool{}
	typ := ""
	note := func(v ssa.Value) {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || !s.class(fa.X).own {
			return
		}
		if _, isElem := s.elems[fa.X]; !isElem {
			return
		}
		t := derefType(fa.X.Type())
		typ = short(t.String())
		have[t.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
	}
	for b := i.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil || !s.within(d) {
			continue
		}
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 {
			continue
		}
		cond, want := br.Cond, d.Succs[0] == b
		if n, ok := cond.(*ssa.UnOp); ok && n.Op == token.NOT {
			cond, want = n.X, !want
		}
		switch c := cond.(type) {
		case *ssa.BinOp:
			if c.Op == token.EQL && want || c.Op == token.NEQ && !want {
				note(c.X)
				note(c.Y)
			}
		case *ssa.Call:
			if calleeName(c.Common()) == "reflect.DeepEqual" && want {
				note(c.Common().Args[0])
				note(c.Common().Args[1])
			}
		}
	}
	fs := uniqueFields[strings.TrimPrefix(typ, "*")]
	for _, f := range fs {
		if !have[f] {
			return false
		}
	}
	return len(fs) > 0
}

// onlyThis: all that is written there, within the loop, is this very value.
func (s *turnScope) onlyThis(st *ssa.Store) bool {
	for _, b := range s.f.Blocks {
		if !s.within(b) {
			continue
		}
		for _, i := range b.Instrs {
			if t, ok := i.(*ssa.Store); ok && t != st && s.class(t.Addr).outer {
				fa, ok1 := st.Addr.(*ssa.FieldAddr)
				fb, ok2 := t.Addr.(*ssa.FieldAddr)
				if (t.Addr == st.Addr || ok1 && ok2 && fa.Field == fb.Field && types.Identical(fa.X.Type(), fb.X.Type())) && valueKey(t.Val) != valueKey(st.Val) {
					return false
				}
			}
		}
	}
	return true
}

// addsTo: x = x + something whole.
func (s *turnScope) addsTo(a, v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || !in(b.Op.String(), "+", "|", "&", "^") {
		return false
	}
	t, _ := b.Type().Underlying().(*types.Basic)
	if t == nil || t.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return false
	}
	for _, x := range []ssa.Value{b.X, b.Y} {
		if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL && same(u.X, a) {
			return true
		}
	}
	return false
}

// listIn: a variable that closures share, to which the turn adds; it is
// followed from where it is read afterwards.
func (s *turnScope) listIn(cell *ssa.Alloc, st *ssa.Store) bool {
	c, ok := st.Val.(*ssa.Call)
	if !ok || calleeName(c.Common()) != "append" {
		return false
	}
	u, ok := c.Common().Args[0].(*ssa.UnOp)
	if !ok || u.X != ssa.Value(cell) {
		return false
	}
	el := s.elemClass(c)
	s.o.cell(cell, el, s.within, 0)
	return true
}

// cell follows a list that is in a variable: once it is sorted, it is in order
// wherever it is read afterwards.
func (o *ordering) cell(cell *ssa.Alloc, el elemKind, within func(*ssa.BasicBlock) bool, depth int) {
	var loads []*ssa.UnOp
	var sortedAt []ssa.Instruction
	for _, ref := range *cell.Referrers() {
		u, ok := ref.(*ssa.UnOp)
		if !ok || within(u.Block()) {
			continue
		}
		loads = append(loads, u)
		for _, use := range *u.Referrers() {
			if c := o.sorts(use); c != nil && (sorters[calleeName(c.Common())] || o.total(c, el)) {
				sortedAt = append(sortedAt, c)
			}
		}
	}
	for _, u := range loads {
		ok := false
		for _, st := range sortedAt {
			ok = ok || follows(u, st)
		}
		if !ok {
			o.bag(u, el, none, depth)
		}
	}
}

// sorts: the call that sorts a list, if this use of the list is that.
func (o *ordering) sorts(use ssa.Instruction) *ssa.Call {
	if mi, ok := use.(*ssa.MakeInterface); ok && len(*mi.Referrers()) == 1 {
		use = (*mi.Referrers())[0]
	}
	if c, ok := use.(*ssa.Call); ok && (sorters[calleeName(c.Common())] || sortersBy[calleeName(c.Common())]) {
		return c
	}
	return nil
}

// follows: u comes after st, whatever way is taken.
func follows(u, st ssa.Instruction) bool {
	return st.Block() == u.Block() && indexIn(st) < indexIn(u) || st.Block() != u.Block() && st.Block().Dominates(u.Block())
}

// ---- what is called ----

var orderFree = []string{
	"strings.…", "strconv.…", "unicode.…", "math.…", "unicode/utf8.…", "path/filepath.Join", "path/filepath.Base", "errors.New",
	"fmt.Sprintf", "fmt.Sprint", "fmt.Errorf", "reflect.TypeOf", "reflect.DeepEqual", "(reflect.…", "len", "cap", "real", "imag", "max", "min",
	"(*github.com/rs/zerolog.…", "(github.com/rs/zerolog.…", "alda.io/client/logging.…", "logging.…", "github.com/Jeffail/gabs/v2.New", "github.com/Jeffail/gabs/v2.Wrap",
	"(*github.com/Jeffail/gabs/v2.Container).Data", "(*github.com/Jeffail/gabs/v2.Container).Search", "(*github.com/Jeffail/gabs/v2.Container).String",
	"(time.…", "print", "println", "recover", "(*github.com/beevik/etree.Element).Select…", "(*github.com/beevik/etree.Element).Find…", "(*github.com/beevik/etree.Element).Text",
}

// namedBy: what these define is kept under the names that they are given.
var namedBy = map[string]int{"model.defattribute": 0, "model.defn": 0, "model.def": 0}

func loadedGlobal(v ssa.Value) *ssa.Global {
	if v == nil {
		return nil
	}
	return globalOf(v)
}

var logged = []string{"(*github.com/rs/zerolog.…", "(github.com/rs/zerolog.…", "logging.…"}

func refers(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Signature, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if refers(t.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (s *turnScope) callClass(v *ssa.Call) oclass {
	com := v.Common()
	var c oclass
	var vals []ssa.Value
	if com.IsInvoke() {
		vals = append(vals, com.Value)
	}
	vals = append(vals, com.Args...)
	for _, a := range vals {
		x := s.class(a)
		if sl, ok := a.(*ssa.Slice); ok && x.fresh {
			x = x.with(s.contents(base(sl), map[ssa.Value]bool{}))
		}
		c = c.with(x)
	}
	if !refers(v.Type()) {
		if _, ok := v.Type().(*types.Tuple); !ok {
			c.own, c.fresh, c.outer = false, false, false
		}
	}
	switch calleeName(com) {
	case "append":
		c.own = c.own || s.class(com.Args[0]).own
		first := s.class(com.Args[0])
		if !first.outer && !first.own {
			c.outer, c.own, c.fresh = false, false, true
		}
	case "github.com/Jeffail/gabs/v2.New", "github.com/Jeffail/gabs/v2.Wrap":
		c.own, c.outer, c.fresh = false, false, true
	default:
		if s.makes(v) {
			c.own, c.outer, c.fresh = false, false, true
		}
	}
	return c
}

// makes: what the call gives has been made by it.
func (s *turnScope) makes(v *ssa.Call) bool {
	fs := s.o.callees(v.Common())
	if len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		if !s.o.p.givesNew(f, map[*ssa.Function]bool{}) {
			return false
		}
	}
	return true
}

func (p *Prog) givesNew(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Blocks == nil {
		return false
	}
	var fresh func(v ssa.Value, d int) bool
	fresh = func(v ssa.Value, d int) bool {
		switch v := v.(type) {
		case *ssa.Const, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return true
		case *ssa.MakeInterface:
			return !refers(v.X.Type()) || fresh(v.X, d+1)
		case *ssa.Slice:
			return fresh(v.X, d+1)
		case *ssa.Phi:
			if d > 6 {
				return true
			}
			for _, e := range v.Edges {
				if !fresh(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Extract:
			return fresh(v.Tuple, d+1)
		case *ssa.Call:
			name := calleeName(v.Common())
			if in(name, "github.com/Jeffail/gabs/v2.New", "github.com/Jeffail/gabs/v2.Wrap") {
				return true
			}
			if name == "append" || name == "(*github.com/Jeffail/gabs/v2.Container).Search" {
				return fresh(v.Common().Args[0], d+1)
			}
			o := &ordering{p: p}
			fs := o.callees(v.Common())
			for _, g := range fs {
				if !p.givesNew(g, seen) {
					return false
				}
			}
			return len(fs) > 0
		}
		return !refers(v.Type())
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, r := range ret.Results {
				if !fresh(r, 0) {
					return false
				}
			}
		}
	}
	return true
}

// callees: the functions of the module that a call can reach.
func (o *ordering) callees(com *ssa.CallCommon) (out []*ssa.Function) {
	if com.IsInvoke() {
		o.p.calleesOf(o.p.Funcs[0])
		it, ok := com.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		for _, g := range o.p.methodsByName[com.Method.Name()] {
			if t := g.Signature.Recv().Type(); types.Implements(t, it) || types.Implements(types.NewPointer(t), it) {
				out = append(out, g)
			}
		}
		return out
	}
	if g := com.StaticCallee(); g != nil {
		if o.p.inModule(g) && g.Blocks != nil {
			return []*ssa.Function{g}
		}
		return nil
	}
	return nil
}

func (s *turnScope) callEffect(v *ssa.Call) {
	o := s.o
	com := v.Common()
	name := calleeName(com)
	arg := func(i int) oclass { return s.class(com.Args[i]) }
	switch name {
	case "append":
		// what the result is put into matters; an outer list with room to spare
		// is written to, but only its holder sees that
		return
	case "delete":
		if arg(0).outer {
			o.kept++
			if arg(1).acc {
				o.bad(v, "which entry is deleted depends on the elements before")
			}
		}
		return
	case "copy":
		if arg(0).outer {
			o.bad(v, "it copies into something that is not the element's own")
		}
		return
	case "(*github.com/Jeffail/gabs/v2.Container).Set":
		if arg(0).outer {
			o.kept++
			if !s.keyed(com.Args[2]) && (s.class(com.Args[1]).iter || s.pathIter(com.Args[2])) || s.class(com.Args[1]).acc {
				o.bad(v, "elements can set the same field of a JSON object")
			}
		}
		return
	}
	if g := loadedGlobal(com.Value); g != nil && g.Pkg.Pkg.Name() == "logging" {
		return
	}
	if names, ok := namedBy[name]; ok {
		o.kept++
		if !s.keyed(com.Args[names]) {
			o.bad(v, "elements can write under the same name (%s)", name)
		}
		return
	}
	if name == "(*github.com/Jeffail/gabs/v2.Container).ArrayAppend" {
		if arg(0).outer {
			o.bad(v, "it appends one element after the other to a JSON array")
		}
		return
	}
	if globAny(name, orderFree...) {
		if strings.HasPrefix(name, "(*strings.Builder)") && arg(0).outer || strings.HasPrefix(name, "(*bytes.Buffer)") && arg(0).outer {
			o.bad(v, "it writes one element after the other (%s)", name)
		}
		return
	}
	fs := o.callees(com)
	if fn := closureOf(com.Value); fn != nil && len(fs) == 0 {
		fs = []*ssa.Function{fn}
	}
	if len(fs) == 0 {
		// something else: as long as it is given nothing from outside
		var vals []ssa.Value
		if com.IsInvoke() || com.StaticCallee() == nil {
			vals = append(vals, com.Value)
		}
		for _, a := range append(vals, com.Args...) {
			if refers(a.Type()) && s.class(a).outer {
				o.bad(v, "%s is called for each element", name)
				return
			}
		}
		if strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "(*os.") || name == "dyn" {
			o.bad(v, "%s is called for each element", name)
		}
		return
	}
	if s.depth > 100 {
		o.bad(v, "%s calls too deep to be looked into", name)
		return
	}
	for _, g := range fs {
		if globAny(fname(g), logged...) {
			continue
		}
		sub := &turnScope{o: o, f: g, memo: map[ssa.Value]oclass{}, busy: map[ssa.Value]bool{}, accs: map[ssa.Value]bool{}, params: map[ssa.Value]oclass{}, up: s, depth: s.depth + 1}
		args := com.Args
		if com.IsInvoke() {
			args = append([]ssa.Value{com.Value}, args...)
		}
		sig := fname(g)
		for i, prm := range g.Params {
			if i < len(args) {
				c := s.class(args[i])
				c.key = s.keyed(args[i])
				if sl, ok := args[i].(*ssa.Slice); ok && c.fresh {
					x := s.contents(base(sl), map[ssa.Value]bool{})
					c.iter, c.acc = c.iter || x.iter, c.acc || x.acc
					// the list is new, and what is in it may not be
					c.own, c.outer = c.own || x.own, c.outer || x.outer
				}
				sub.params[prm] = c
				sig += fmt.Sprint(c)
			}
		}
		if mc, ok := com.Value.(*ssa.MakeClosure); ok && mc.Fn == g {
			for i, fv := range g.FreeVars {
				sub.params[fv] = s.class(mc.Bindings[i])
				sig += fmt.Sprint(sub.params[fv])
			}
		}
		if o.inside[sig] {
			continue
		}
		o.inside[sig] = true
		n := len(o.why)
		sub.effects()
		if len(o.why) > n && s.depth == 0 {
			for k := n; k < len(o.why); k++ {
				o.why[k] = fmt.Sprintf("%s: within %s: %s", o.p.ipos(v), fname(g), o.why[k])
			}
		}
	}
}

func closureOf(v ssa.Value) *ssa.Function {
	if mc, ok := v.(*ssa.MakeClosure); ok {
		f, _ := mc.Fn.(*ssa.Function)
		return f
	}
	return nil
}

func (s *turnScope) pathIter(v ssa.Value) bool {
	for _, e := range s.o.p.sliceElems(v) {
		if s.class(e).iter {
			return true
		}
	}
	return false
}

// ---- lists in no order ----

// elemKind is what is known of the elements of a list: that they differ, or
// which field of theirs does.
type elemKind struct {
	key    bool
	fields map[int]bool
	basic  bool
}

func (s *turnScope) elemOf(phi *ssa.Phi) (k elemKind) {
	first := true
	for b := range s.body {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.Call)
			if ok && calleeName(c.Common()) == "append" && s.reaches(c.Common().Args[0], phi, map[ssa.Value]bool{}) {
				e := s.elemClass(c)
				if !first { // several kinds of elements
					e.key, e.fields = false, nil
				}
				k, first = e, false
			}
		}
	}
	return
}

func (s *turnScope) elemClass(c *ssa.Call) (k elemKind) {
	sl, ok := c.Type().Underlying().(*types.Slice)
	if !ok {
		return
	}
	_, k.basic = sl.Elem().Underlying().(*types.Basic)
	es := s.o.p.sliceElems(c.Common().Args[1])
	if len(es) != 1 {
		return
	}
	k.key = s.keyed(es[0])
	// a value made of fields
	if u, ok := es[0].(*ssa.UnOp); ok && u.Op == token.MUL {
		if al, ok := u.X.(*ssa.Alloc); ok {
			k.fields = map[int]bool{}
			for _, ref := range *al.Referrers() {
				if fa, ok := ref.(*ssa.FieldAddr); ok {
					for _, r2 := range *fa.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) && s.keyed(st.Val) {
							k.fields[fa.Field] = true
						}
					}
				}
			}
		}
	}
	return
}

var sorters = map[string]bool{"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "slices.Sort": true}
var sortersBy = map[string]bool{"sort.Slice": true, "sort.SliceStable": true, "slices.SortFunc": true, "slices.SortStableFunc": true}

// bag follows a list whose elements are in no particular order.
func (o *ordering) bag(v ssa.Value, el elemKind, skip func(ssa.Instruction) bool, depth int) {
	if o.bags[v] {
		return
	}
	o.bags[v] = true
	if depth > 10 {
		o.bad(nil, "a list in no order is handed on too far to be followed")
		return
	}
	var sortedAt []ssa.Instruction
	refs := append([]ssa.Instruction{}, *v.Referrers()...)
	var uses []ssa.Instruction
	for _, ref := range refs {
		if skip(ref) {
			continue
		}
		if c := o.sorts(ref); c != nil {
			if sorters[calleeName(c.Common())] || o.total(c, el) {
				sortedAt = append(sortedAt, c)
			} else {
				o.bad(c, "elements that are sorted alike stay in no order")
			}
			continue
		}
		uses = append(uses, ref)
	}
	for _, u := range uses {
		ok := false
		for _, st := range sortedAt {
			ok = ok || follows(u, st)
		}
		if !ok {
			o.bagUse(v, u, el, depth)
		}
	}
}

func indexIn(i ssa.Instruction) int {
	for k, x := range i.Block().Instrs {
		if x == i {
			return k
		}
	}
	return -1
}

func none(ssa.Instruction) bool { return false }

func (o *ordering) bagUse(v ssa.Value, u ssa.Instruction, el elemKind, depth int) {
	switch u := u.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		o.bag(u, el, none, depth+1)
	case *ssa.ChangeType:
		o.bag(u, el, none, depth+1)
	case *ssa.BinOp: // compared with nil
	case *ssa.Call:
		com := u.Common()
		name := calleeName(com)
		switch name {
		case "len", "cap":
			return
		case "append":
			o.bag(u, elemKind{basic: el.basic}, none, depth+1)
			return
		}
		if globAny(name, logged...) {
			return
		}
		if g := com.StaticCallee(); g != nil && o.p.inModule(g) && g.Blocks != nil {
			for i, a := range com.Args {
				if a == v && i < len(g.Params) {
					o.bag(g.Params[i], el, none, depth+1)
				}
			}
			return
		}
		o.bad(u, "a list in no order is given to %s", name)
	case *ssa.Return:
		f := u.Parent()
		if o.p.isAddrTaken(f) {
			o.bad(u, "a list in no order is returned")
			return
		}
		for i, r := range u.Results {
			if r != v {
				continue
			}
			for _, c := range o.p.callers(f) {
				call, ok := c.(*ssa.Call)
				if !ok {
					continue
				}
				if len(u.Results) == 1 {
					o.bag(call, el, none, depth+1)
					continue
				}
				for _, ref := range *call.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && e.Index == i {
						o.bag(e, el, none, depth+1)
					}
				}
			}
		}
	case *ssa.MapUpdate:
		mm, ok := u.Map.(*ssa.MakeMap)
		if !ok {
			o.bad(u, "a list in no order is kept")
			return
		}
		for _, ref := range *mm.Referrers() {
			switch ref := ref.(type) {
			case *ssa.Lookup:
				if !ref.CommaOk {
					o.bag(ref, el, none, depth+1)
					continue
				}
				for _, r2 := range *ref.Referrers() {
					if e, ok := r2.(*ssa.Extract); ok && e.Index == 0 {
						o.bag(e, el, none, depth+1)
					}
				}
			case *ssa.MapUpdate:
			case *ssa.Call:
				if n := calleeName(ref.Common()); n != "len" && n != "delete" {
					o.bad(ref, "a list in no order is kept in a map that is given to %s", n)
				}
			case *ssa.Range:
				for _, r2 := range *ref.Referrers() {
					if n, ok := r2.(*ssa.Next); ok {
						for _, r3 := range *n.Referrers() {
							if e, ok := r3.(*ssa.Extract); ok && e.Index == 2 {
								o.bag(e, el, none, depth+1)
							}
						}
					}
				}
			default:
				o.bad(ref, "a list in no order is kept in a map that is used here")
			}
		}
	case *ssa.IndexAddr:
		o.walked(v, u, u.Index, el)
	case *ssa.Index:
		o.walked(v, u, u.Index, el)
	case *ssa.Store:
		if al, ok := u.Addr.(*ssa.Alloc); ok && u.Val == v {
			o.cell(al, el, func(*ssa.BasicBlock) bool { return false }, depth+1)
			return
		}
		o.bad(u, "a list in no order is kept")
	default:
		o.bad(u, "a list in no order is used (%T)", u)
	}
}

// walked: a list in no order is walked from its first to its last element.
func (o *ordering) walked(v ssa.Value, u ssa.Instruction, idx ssa.Value, el elemKind) {
	f := u.Parent()
	head := idx
	if b, ok := idx.(*ssa.BinOp); ok {
		head = b.X
	}
	for _, l := range loopsOf(f) {
		if ph, ok := head.(*ssa.Phi); !l.Body[u.Block()] || !ok || ph.Block() != l.Head {
			continue
		}
		if start, step, ok := induction(idx); !ok || step != 1 || start != 0 {
			continue
		}
		elems := map[ssa.Value]oclass{}
		for b := range l.Body {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.IndexAddr:
					if x.X == v {
						for _, ref := range *x.Referrers() {
							if ld, ok := ref.(*ssa.UnOp); ok {
								elems[ld] = oclass{iter: true, key: el.key, own: true}
							}
						}
					}
				case *ssa.Index:
					if x.X == v {
						elems[x] = oclass{iter: true, key: el.key, own: true}
					}
				}
			}
		}
		was := o.ranged
		o.ranged = nil
		o.turn(f, l.Body, l.Head, elems)
		o.ranged = was
		return
	}
	o.bad(u, "one element is picked from a list in no order")
}

// total: no two elements are sorted alike.
func (o *ordering) total(c *ssa.Call, el elemKind) bool {
	less := closureOf(c.Common().Args[1])
	if less == nil {
		less, _ = c.Common().Args[1].(*ssa.Function)
	}
	if less == nil {
		return false
	}
	// what a side of a comparison is: the element, or a field of it
	side := func(v ssa.Value) (int, bool) {
		for {
			switch x := v.(type) {
			case *ssa.UnOp:
				v = x.X
				continue
			case *ssa.FieldAddr:
				return x.Field, true
			case *ssa.Field:
				return x.Field, true
			case *ssa.IndexAddr, *ssa.Parameter:
				return -1, true
			}
			return 0, false
		}
	}
	unique := func(n int) bool { return n == -1 && (el.key || el.basic) || n >= 0 && el.fields[n] }
	found := false
	for _, b := range less.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.BinOp:
				a, ok1 := side(x.X)
				b2, ok2 := side(x.Y)
				if ok1 && ok2 && a == b2 && unique(a) && in(x.Op.String(), "<", ">") && settles(x) {
					found = true
				}
			case *ssa.Call:
				if in(calleeName(x.Common()), "strings.Compare", "cmp.Compare") && settles(x) {
					a, ok1 := side(x.Common().Args[0])
					b2, ok2 := side(x.Common().Args[1])
					if ok1 && ok2 && a == b2 && unique(a) {
						found = true
					}
				}
			}
		}
	}
	return found
}

// settles: this is what the function gives, at one of its ends, and at its
// other ends something has been found to differ.
func settles(v ssa.Value) bool {
	f := v.(ssa.Instruction).Parent()
	ok := false
	for _, b := range f.Blocks {
		ret, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isRet {
			continue
		}
		if ret.Results[0] == v {
			ok = true
			continue
		}
		if phi, isPhi := ret.Results[0].(*ssa.Phi); isPhi {
			for _, e := range phi.Edges {
				ok = ok || e == v
			}
			continue
		}
		differs := false
		for d := b.Idom(); d != nil; d = d.Idom() {
			if br, isIf := d.Instrs[len(d.Instrs)-1].(*ssa.If); isIf {
				if c, isB := br.Cond.(*ssa.BinOp); isB && in(c.Op.String(), "!=", "==", "<", ">") {
					differs = true
				}
			}
		}
		if !differs {
			return false
		}
	}
	return ok
}
