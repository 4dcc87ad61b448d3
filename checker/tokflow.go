package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Token-flow analysis of a recursive-descent parser: an abstract
// interpretation in which the token stream is known only by the sets of types
// the previous, current and next token can have. The consumptions of tokens
// and the calls of the grammar's recursive rules label the edges of an
// automaton, which is compared with that of a reference grammar. On the way,
// syntax nodes and lists of nodes are followed as linear values.

type tset = uint64

type tkind int

const (
	tOther tkind = iota
	tTok         // a token
	tField       // a field of a token (or of its literal)
	tNode        // a syntax node
	tNodeType
	tList // a list of nodes
	tBool
	tNil
	tNonNil
	tPos
	tLen
	tCtxOf  // the source context of a node
	tStruct // pointer to, or value of, a local struct
)

// tv is an abstract value.
type tv struct {
	k     tkind
	id    int    // token
	f     string // field path of a token
	types tset   // node types of a node, or of the elements of a list
	lin   string // linear item: the site it was made at
	src   string // list, or node taken from one: the site the list was made at
	b     bool
	full  bool // list known not to be empty
	fresh bool // list known to be empty
	elems []tv // slice literal under construction
	at    *ssa.Alloc
	c     *Ctx
}

type tkey struct {
	v ssa.Value
	c *Ctx
}

type tstate struct {
	env  map[tkey]tv
	fld  map[string]tv // fields of local structs
	toks map[int]tset
	lin  []string // pending items, oldest first
	dead []string // the first item nothing holds any more
	mark *tmark
}

type tmark struct {
	cur, next, prev tset
	first           tset
	moved           bool
	outer           bool // made by a caller
	lin, dead       []string
}

const (
	tCur  = 0
	tNext = 1
	tPrev = 2
)

func (s *tstate) clone() *tstate {
	o := &tstate{env: map[tkey]tv{}, fld: map[string]tv{}, toks: map[int]tset{}, lin: append([]string{}, s.lin...), dead: append([]string{}, s.dead...)}
	for k, v := range s.env {
		o.env[k] = v
	}
	for k, v := range s.fld {
		o.fld[k] = v
	}
	for k, v := range s.toks {
		o.toks[k] = v
	}
	if s.mark != nil {
		m := *s.mark
		o.mark = &m
	}
	return o
}

func (v tv) key(ren map[int]int) string {
	id := v.id
	if v.k == tTok || v.k == tField {
		if n, ok := ren[id]; ok {
			id = n
		}
	}
	s := fmt.Sprintf("%d,%d,%s,%x,%s,%s,%v,%v,%v", v.k, id, v.f, v.types, v.lin, v.src, v.b, v.full, v.fresh)
	for _, e := range v.elems {
		s += "(" + e.key(ren) + ")"
	}
	if v.at != nil {
		s += fmt.Sprintf("@%p%p", v.at, v.c)
	}
	return s
}

func (s *tstate) key() string {
	type kv struct{ k, v string }
	ren := map[int]int{}
	var ks []string
	ek := map[string]tv{}
	for k, v := range s.env {
		n := fmt.Sprintf("%p/%p", k.v, k.c)
		ks = append(ks, n)
		ek[n] = v
	}
	for k, v := range s.fld {
		ks = append(ks, k)
		ek[k] = v
	}
	sort.Strings(ks)
	var number func(v tv)
	number = func(v tv) {
		if (v.k == tTok || v.k == tField) && v.id > tPrev {
			if _, ok := ren[v.id]; !ok {
				ren[v.id] = 3 + len(ren)
			}
		}
		for _, e := range v.elems {
			number(e)
		}
	}
	var sb strings.Builder
	for _, k := range ks {
		number(ek[k])
		sb.WriteString(k + "=" + ek[k].key(ren) + ";")
	}
	var ids []int
	for i := range s.toks {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	var ts []string
	for _, i := range ids {
		if i <= tPrev {
			ts = append(ts, fmt.Sprintf("%d:%x", i, s.toks[i]))
		} else if n, ok := ren[i]; ok {
			ts = append(ts, fmt.Sprintf("%d:%x", n, s.toks[i]))
		}
	}
	sort.Strings(ts)
	sb.WriteString(strings.Join(ts, ","))
	sb.WriteString("|" + strings.Join(s.lin, ",") + "/" + strings.Join(s.dead, ","))
	if m := s.mark; m != nil {
		sb.WriteString(fmt.Sprintf("|%x,%x,%x,%x,%v,%v,%s/%s", m.cur, m.next, m.prev, m.first, m.moved, m.outer, strings.Join(m.lin, ","), strings.Join(m.dead, ",")))
	}
	return sb.String()
}

// consume moves to the next token.
func (s *tstate) consume(all tset) {
	if m := s.mark; m != nil && !m.moved {
		m.moved, m.first = true, s.toks[tCur]
	}
	old := 3
	for i := range s.toks {
		if i >= old {
			old = i + 1
		}
	}
	ren := map[int]int{tPrev: old, tCur: tPrev, tNext: tCur}
	var mv func(v tv) tv
	mv = func(v tv) tv {
		if v.k == tTok || v.k == tField {
			if n, ok := ren[v.id]; ok {
				v.id = n
			}
		}
		if len(v.elems) > 0 {
			es := make([]tv, len(v.elems))
			for i, e := range v.elems {
				es[i] = mv(e)
			}
			v.elems = es
		}
		return v
	}
	for k, v := range s.env {
		s.env[k] = mv(v)
		if k.c == nil && v.k == tField && s.env[k].id > tPrev {
			delete(s.env, k)
		}
	}
	for k, v := range s.fld {
		s.fld[k] = mv(v)
	}
	s.toks[old] = s.toks[tPrev]
	s.toks[tPrev] = s.toks[tCur]
	s.toks[tCur] = s.toks[tNext]
	s.toks[tNext] = all
	used := map[int]bool{}
	var use func(v tv)
	use = func(v tv) {
		if v.k == tTok || v.k == tField {
			used[v.id] = true
		}
		for _, e := range v.elems {
			use(e)
		}
	}
	for _, v := range s.env {
		use(v)
	}
	for _, v := range s.fld {
		use(v)
	}
	for i := range s.toks {
		if i > tPrev && !used[i] {
			delete(s.toks, i)
		}
	}
}

// nfa

type nedge struct {
	label string // "" is epsilon
	to    int
}

type nfa struct {
	edges  [][]nedge
	accept map[int]bool
	pos    []string
}

func newNFA() *nfa {
	return &nfa{edges: [][]nedge{nil, nil}, accept: map[int]bool{1: true}, pos: []string{"", ""}}
}

func (n *nfa) node() int {
	n.edges = append(n.edges, nil)
	n.pos = append(n.pos, "")
	return len(n.edges) - 1
}

func (n *nfa) edge(a int, label string, b int) {
	for _, e := range n.edges[a] {
		if e.label == label && e.to == b {
			return
		}
	}
	n.edges[a] = append(n.edges[a], nedge{label, b})
}

func (n *nfa) closure(s map[int]bool) map[int]bool {
	work := []int{}
	for i := range s {
		work = append(work, i)
	}
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		for _, e := range n.edges[i] {
			if e.label == "" && !s[e.to] {
				s[e.to] = true
				work = append(work, e.to)
			}
		}
	}
	return s
}

// useful: nodes from which acceptance can be reached.
func (n *nfa) useful() map[int]bool {
	rev := make([][]int, len(n.edges))
	for a, es := range n.edges {
		for _, e := range es {
			rev[e.to] = append(rev[e.to], a)
		}
	}
	out := map[int]bool{}
	var work []int
	for a := range n.accept {
		out[a] = true
		work = append(work, a)
	}
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		for _, a := range rev[i] {
			if !out[a] {
				out[a] = true
				work = append(work, a)
			}
		}
	}
	return out
}

func setKey(s map[int]bool) string {
	var is []int
	for i := range s {
		is = append(is, i)
	}
	sort.Ints(is)
	return fmt.Sprint(is)
}

// finish is a shortest way from these nodes to acceptance.
func (n *nfa) finish(from map[int]bool) []string {
	type at struct {
		i int
		w []string
	}
	seen := map[int]bool{}
	var queue []at
	for i := range from {
		queue = append(queue, at{i, nil})
	}
	sort.Slice(queue, func(i, j int) bool { return queue[i].i < queue[j].i })
	for len(queue) > 0 {
		q := queue[0]
		queue = queue[1:]
		if seen[q.i] {
			continue
		}
		seen[q.i] = true
		if n.accept[q.i] {
			return q.w
		}
		for _, e := range n.edges[q.i] {
			w := q.w
			if e.label != "" {
				w = append(append([]string{}, w...), e.label)
			}
			queue = append(queue, at{e.to, w})
		}
	}
	return nil
}

// differ compares the languages of two automata: "" or a shortest word that
// only one of them has, and which.
func differ(a, b *nfa) (word []string, inA bool, same bool, states int) {
	ua, ub := a.useful(), b.useful()
	keep := func(s map[int]bool, u map[int]bool) map[int]bool {
		for i := range s {
			if !u[i] {
				delete(s, i)
			}
		}
		return s
	}
	acc := func(n *nfa, s map[int]bool) bool {
		for i := range s {
			if n.accept[i] {
				return true
			}
		}
		return false
	}
	type pair struct {
		x, y map[int]bool
		w    []string
	}
	start := pair{keep(a.closure(map[int]bool{0: true}), ua), keep(b.closure(map[int]bool{0: true}), ub), nil}
	seen := map[string]bool{}
	queue := []pair{start}
	for len(queue) > 0 {
		q := queue[0]
		queue = queue[1:]
		k := setKey(q.x) + "/" + setKey(q.y)
		if seen[k] {
			continue
		}
		seen[k] = true
		if (len(q.x) == 0) != (len(q.y) == 0) || acc(a, q.x) != acc(b, q.y) {
			inA := len(q.y) == 0 || acc(a, q.x)
			if inA {
				return append(q.w, a.finish(q.x)...), inA, false, len(seen)
			}
			return append(q.w, b.finish(q.y)...), inA, false, len(seen)
		}
		moves := map[string][2]map[int]bool{}
		add := func(n *nfa, s map[int]bool, w int) {
			for i := range s {
				for _, e := range n.edges[i] {
					if e.label == "" {
						continue
					}
					m, ok := moves[e.label]
					if !ok {
						m = [2]map[int]bool{{}, {}}
						moves[e.label] = m
					}
					m[w][e.to] = true
				}
			}
		}
		add(a, q.x, 0)
		add(b, q.y, 1)
		var ls []string
		for l := range moves {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			m := moves[l]
			w := append(append([]string{}, q.w...), l)
			queue = append(queue, pair{keep(a.closure(m[0]), ua), keep(b.closure(m[1]), ub), w})
		}
	}
	return nil, false, true, len(seen)
}

// tokFlow runs the analysis.
type tokFlow struct {
	p        *Prog
	names    []string // token type names by value
	nodes    []string // node type names by value
	all, eof tset
	rules    map[string]bool // recursive rules, cut
	first    map[string]tset // what they can begin with
	g        *nfa
	steps    int
	split    tset // tokens for which the one after matters
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool

	// findings
	lost    map[string]string          // linear item -> where it was lost
	lits    map[string]map[string]bool // node type -> literal sources
	ctxs    map[string]map[string]bool // node type -> source contexts
	order   map[string]map[string]bool // list -> parts that come one after the other in it
	picks   map[string]map[string]bool // list -> lists that elements put into it were taken from
	into    map[string]map[string]bool // list -> lists whose elements it takes
	kinds   map[string]tset            // list -> types of nodes put into it
	asserts map[string]map[string]bool // field of token types -> asserted types
	sure    map[*ssa.Call]bool         // demands for a token that were met
	unsure  map[*ssa.Call]bool         // and ones that can fail
	made    map[int]bool               // node types
	where   map[string]ssa.Instruction
	fns     map[string]*tfn
	dummies map[int]*ssa.Const
	known   map[string]*ssa.Const
	broken  string
}

// enum lists the constants of a type by value.
func (p *Prog) enum(rel, typ string) (out []string) {
	for v, n := range p.constNames(rel, typ) {
		i := 0
		fmt.Sscan(v, &i)
		for i >= len(out) {
			out = append(out, "")
		}
		out[i] = n
	}
	return
}

func (p *Prog) newTokFlow(rules ...string) *tokFlow {
	t := &tokFlow{p: p, names: p.enum("parser", "TokenType"), nodes: p.enum("parser", "ASTNodeType"), rules: map[string]bool{}, first: map[string]tset{},
		lost: map[string]string{}, lits: map[string]map[string]bool{}, ctxs: map[string]map[string]bool{}, fns: map[string]*tfn{}, dummies: map[int]*ssa.Const{}, known: map[string]*ssa.Const{}, into: map[string]map[string]bool{}, picks: map[string]map[string]bool{}, order: map[string]map[string]bool{}, kinds: map[string]tset{}, asserts: map[string]map[string]bool{},
		where: map[string]ssa.Instruction{}, made: map[int]bool{}, sure: map[*ssa.Call]bool{}, unsure: map[*ssa.Call]bool{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for i, n := range t.names {
		t.all |= 1 << uint(i)
		if n == "EOF" {
			t.eof = 1 << uint(i)
		}
	}
	for _, r := range rules {
		t.rules[r] = true
	}
	return t
}

func (t *tokFlow) set(names ...string) (s tset) {
	for _, n := range names {
		for i, m := range t.names {
			if m == n {
				s |= 1 << uint(i)
			}
		}
	}
	return
}

func (t *tokFlow) setText(s tset) string {
	if s == t.all {
		return "any"
	}
	if s == t.all&^t.eof {
		return "any but EOF"
	}
	var o []string
	neg := bits.OnesCount64(s) > len(t.names)/2
	for i, n := range t.names {
		if (s>>uint(i)&1 == 1) != neg {
			o = append(o, n)
		}
	}
	if neg {
		return "any but " + strings.Join(o, "|")
	}
	return strings.Join(o, "|")
}

func (t *tokFlow) nodeText(s tset) string {
	var o []string
	each(s, func(i int) { o = append(o, t.nodeName(i)) })
	return strings.Join(o, "|")
}

// nodeName names a type of node, or the result of a recursive rule.
func (t *tokFlow) nodeName(i int) string {
	if i < len(t.nodes) {
		return t.nodes[i]
	}
	var rs []string
	for r := range t.rules {
		rs = append(rs, r)
	}
	sort.Strings(rs)
	if k := 63 - i; k < len(rs) {
		return rs[k][strings.LastIndex(rs[k], ".")+1:]
	}
	return "?"
}

func each(s tset, f func(i int)) {
	for s != 0 {
		i := bits.TrailingZeros64(s)
		f(i)
		s &^= 1 << uint(i)
	}
}

// emit adds edges for the consumption of one of a set of tokens.
func (t *tokFlow) emitTok(g *nfa, from int, s tset) int {
	to := g.node()
	each(s, func(i int) { g.edge(from, t.names[i], to) })
	return to
}

// emitSet adds edges for something done when the current token is one of cur
// and the one after is one of next.
func (t *tokFlow) emitSet(g *nfa, from int, what string, cur, next tset, to int) {
	each(cur, func(i int) {
		l := "<" + what + " on " + t.names[i]
		if next != t.all {
			t.split |= 1 << uint(i)
		}
		if t.split>>uint(i)&1 == 0 {
			g.edge(from, l+">", to)
			return
		}
		each(next, func(j int) { g.edge(from, l+" before "+t.names[j]+">", to) })
	})
}

type tout struct {
	node int
	st   *tstate
	res  []tv
}

// run analyses the function as a rule of the grammar.
func (t *tokFlow) run(f *ssa.Function, prev, cur tset) *nfa {
	t.g = newNFA()
	t.steps = 0
	st := &tstate{env: map[tkey]tv{}, fld: map[string]tv{}, toks: map[int]tset{tPrev: prev, tCur: cur, tNext: t.all}}
	for _, o := range t.invoke(rootCtx(f), st, 0, nil) {
		if n := len(o.res); n > 0 && o.res[n-1].k == tNonNil && typeName(f.Signature.Results().At(n-1).Type()) == "error" {
			continue
		}
		for _, r := range o.res {
			if r.k == tNode {
				t.flow(r, "result of "+fname(f))
				o.st.take(r.lin)
			}
		}
		for _, l := range append(o.st.lin, o.st.dead...) {
			t.lose(l, "is not in the result of "+fname(f))
		}
		t.emitSet(t.g, o.node, "end", o.st.toks[tCur], o.st.toks[tNext], 1)
	}
	return t.g
}

func (t *tokFlow) lose(item, why string) {
	if _, ok := t.lost[item]; !ok {
		t.lost[item] = why
	}
}

// take marks an item as used.
func (s *tstate) take(lin string) bool {
	if lin == "" {
		return true
	}
	for i, l := range s.lin {
		if l == lin {
			s.lin = append(append([]string{}, s.lin[:i]...), s.lin[i+1:]...)
			return true
		}
	}
	return false
}

func (s *tstate) rank(lin string) int {
	for i, l := range s.lin {
		if l == lin {
			return i
		}
	}
	return -1
}

// born adds a pending item.
func (t *tokFlow) born(s *tstate, i ssa.Instruction, c *Ctx) string {
	id := fmt.Sprintf("%p/%p", i, c)
	t.where[id] = i
	if s.rank(id) >= 0 {
		t.lose(id, "is dropped when the next one is made")
		s.take(id)
	}
	s.lin = append(s.lin, id)
	return id
}

// merged takes the items given and adds one made of them, in the place of the
// last of them.
func (t *tokFlow) merged(s *tstate, i ssa.Instruction, c *Ctx, parts ...string) string {
	at := -1
	for _, l := range parts {
		if k := s.rank(l); k > at {
			at = k
		}
	}
	if at >= 0 {
		s.lin = append(append(append([]string{}, s.lin[:at+1]...), "@"), s.lin[at+1:]...)
	}
	for _, l := range parts {
		if l != "" && !s.take(l) {
			t.lose(l, "is used twice")
		}
	}
	id := t.born(s, i, c)
	if at >= 0 {
		s.take(id)
		s.lin = append([]string{}, s.lin...)
		s.lin[s.rank("@")] = id
	}
	return id
}

type titem struct {
	b    *ssa.BasicBlock
	idx  int
	st   *tstate
	node int
}

// invoke interprets one call, giving every way it can return.
func (t *tokFlow) invoke(c *Ctx, st *tstate, node int, args []tv) (outs []tout) {
	f := c.Fn
	for i, p := range f.Params {
		if i < len(args) && args[i].k != tOther {
			st.env[tkey{p, c}] = args[i]
		}
	}
	memo := map[string]int{}
	outMemo := map[string]int{}
	work := []titem{{f.Blocks[0], 0, st, node}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		t.steps++
		if t.steps > 60000 || len(t.g.edges) > 2000000 {
			t.broken = "too many states in " + fname(f)
			return
		}
		if it.idx == 0 {
			t.trim(it.st, it.b, c)
		}
		k := fmt.Sprintf("%d/%d/%s", it.b.Index, it.idx, it.st.key())
		if n, ok := memo[k]; ok {
			t.g.edge(it.node, "", n)
			continue
		}
		st, node := it.st, t.g.node()
		t.g.edge(it.node, "", node)
		memo[k] = node
	block:
		for i := it.idx; i < len(it.b.Instrs); i++ {
			ins := it.b.Instrs[i]
			switch x := ins.(type) {
			case *ssa.Phi:
				// handled on the edge
			case *ssa.If:
				for j, s := range it.b.Succs {
					for _, d := range t.decide(st, x.Cond, j == 0, c, node) {
						work = append(work, titem{s, 0, t.enter(d.st, it.b, s, c), d.node})
					}
				}
				break block
			case *ssa.Jump:
				work = append(work, titem{it.b.Succs[0], 0, t.enter(st, it.b, it.b.Succs[0], c), node})
				break block
			case *ssa.Panic:
				break block
			case *ssa.Return:
				o := tout{node: node}
				for _, r := range x.Results {
					o.res = append(o.res, t.val(st, r, c))
				}
				ns := st.clone()
				for k := range ns.env {
					if k.c == c {
						delete(ns.env, k)
					}
				}
				own := fmt.Sprintf("%p.", c)
				for k := range ns.fld {
					if strings.HasPrefix(k, own) {
						used := false
						for _, r := range o.res {
							used = used || r.at != nil && strings.HasPrefix(k, fmt.Sprintf("%p.%p.", r.c, r.at))
						}
						if !used {
							delete(ns.fld, k)
						}
					}
				}
				o.st = ns
				key := ns.key()
				for j, r := range o.res {
					ns.env[tkey{nil, nil}] = r
					key += fmt.Sprint(j) + ns.key()
					delete(ns.env, tkey{nil, nil})
				}
				if n, ok := outMemo[key]; ok {
					t.g.edge(node, "", n)
					break block
				}
				o.node = t.g.node()
				t.g.edge(node, "", o.node)
				outMemo[key] = o.node
				outs = append(outs, o)
				break block
			case *ssa.Call:
				rs := t.call(x, c, st, node)
				for _, o := range rs {
					t.bind(o.st, x, c, o.res)
					work = append(work, titem{it.b, i + 1, o.st, o.node})
				}
				break block
			case *ssa.BinOp:
				delete(st.env, tkey{x, c})
				kept := false
				for _, u := range *x.Referrers() {
					if _, isIf := u.(*ssa.If); !isIf {
						kept = true
					}
				}
				if !kept || x.Op != token.EQL && x.Op != token.NEQ && x.Op != token.LSS && x.Op != token.GTR && x.Op != token.LEQ && x.Op != token.GEQ {
					break
				}
				// the outcome is kept: follow each
				for _, truth := range []bool{true, false} {
					for _, d := range t.decide(st, x, truth, c, node) {
						n := d.st.clone()
						n.env[tkey{x, c}] = tv{k: tBool, b: truth}
						work = append(work, titem{it.b, i + 1, n, d.node})
					}
				}
				break block
			default:
				node = t.step(ins, c, st, node)
			}
		}
	}
	return
}

// tfn is the automaton of a call with given arguments and tokens.
type tfn struct {
	g    *nfa
	outs []tout
}

// graft interprets a call on what the callee can see of the state, once, and
// adds a copy of its automaton.
func (t *tokFlow) graft(cc *Ctx, s *tstate, node int, args []tv) (outs []tout) {
	sub := s.clone()
	own := cc.Closure == nil
	for _, a := range args {
		own = own && a.k != tStruct
	}
	refs := map[int]bool{}
	if own {
		var ref func(v tv)
		ref = func(v tv) {
			if v.k == tTok || v.k == tField {
				refs[v.id] = true
			}
			for _, e := range v.elems {
				ref(e)
			}
		}
		for _, v := range s.env {
			ref(v)
		}
		for _, v := range s.fld {
			ref(v)
		}
		sub.env, sub.fld, sub.lin, sub.dead = map[tkey]tv{}, map[string]tv{}, nil, nil
		for k, v := range s.env {
			if k.c == nil && v.k == tField {
				sub.env[k] = v
			}
		}
		for _, l := range s.lin {
			for _, a := range args {
				if a.lin == l {
					sub.lin = append(sub.lin, l)
					break
				}
			}
		}
		if s.mark != nil {
			sub.mark = &tmark{outer: true}
		}
		for id := range refs {
			sub.env[tkey{t.dummy(id), nil}] = tv{k: tTok, id: id}
		}
	}
	key := fmt.Sprintf("%p/", cc) + sub.key()
	for i, a := range args {
		sub.env[tkey{t.dummy(1000 + i), nil}] = a
	}
	key += sub.key()
	for i, a := range args {
		if !own || a.lin == "" {
			delete(sub.env, tkey{t.dummy(1000 + i), nil})
		}
	}
	fn := t.fns[key]
	if fn == nil {
		g := t.g
		t.g = newNFA()
		fn = &tfn{}
		fn.outs = t.invoke(cc, sub, 0, args)
		fn.g, t.g = t.g, g
		t.fns[key] = fn
	}
	base := len(t.g.edges)
	for range fn.g.edges {
		t.g.node()
	}
	for a, es := range fn.g.edges {
		for _, e := range es {
			t.g.edge(base+a, e.label, base+e.to)
		}
	}
	t.g.edge(node, "", base)
	for _, o := range fn.outs {
		ns := o.st.clone()
		if own {
			var lin, old []string
			for _, l := range s.lin {
				given := false
				for _, a := range args {
					given = given || a.lin == l
				}
				switch {
				case !given:
					lin = append(lin, l)
				case in(l, ns.lin...) && !strings.HasSuffix(l, fmt.Sprintf("/%p", cc)):
					lin, old = append(lin, l), append(old, l)
				}
			}
			for _, l := range ns.lin {
				if !in(l, old...) {
					lin = append(lin, l)
				}
			}
			ns.lin = lin
			for i := range args {
				delete(ns.env, tkey{t.dummy(1000 + i), nil})
			}
			if len(s.dead) > 0 {
				ns.dead = append([]string{}, s.dead...)
			}
			if s.mark != nil {
				m := *s.mark
				if o := ns.mark; o == nil {
					ns.mark = nil
				} else if o.outer {
					if o.moved && !m.moved {
						m.moved, m.first = true, o.first
					}
					ns.mark = &m
				}
			}
			ren := map[int]int{}
			for id := range refs {
				ren[id] = ns.env[tkey{t.dummy(id), nil}].id
				delete(ns.env, tkey{t.dummy(id), nil})
			}
			var mv func(v tv) tv
			mv = func(v tv) tv {
				if v.k == tTok || v.k == tField {
					v.id = ren[v.id]
				}
				if len(v.elems) > 0 {
					es := make([]tv, len(v.elems))
					for i, e := range v.elems {
						es[i] = mv(e)
					}
					v.elems = es
				}
				return v
			}
			for k, v := range s.env {
				if k.c != nil || v.k != tField {
					ns.env[k] = mv(v)
				}
			}
			for k, v := range s.fld {
				ns.fld[k] = mv(v)
			}
		}
		outs = append(outs, tout{base + o.node, ns, o.res})
	}
	return
}

// dummy is a value standing for a token while a call is interpreted.
func (t *tokFlow) dummy(id int) ssa.Value {
	if t.dummies[id] == nil {
		t.dummies[id] = new(ssa.Const)
	}
	return t.dummies[id]
}

// trim forgets what cannot matter any more.
func (t *tokFlow) trim(s *tstate, b *ssa.BasicBlock, c *Ctx) {
	lv := t.liveness(c.Fn)[b]
	defer func() {
		if s.mark == nil || s.mark.outer {
			return
		}
		for _, v := range s.env {
			if v.k == tPos {
				return
			}
		}
		for _, v := range s.fld {
			if v.k == tPos {
				return
			}
		}
		s.mark = nil
	}()
	for k := range s.env {
		if k.c != c {
			continue
		}
		if a, ok := k.v.(*ssa.Alloc); ok {
			if a.Block() == b || !a.Block().Dominates(b) {
				delete(s.env, k)
			}
			continue
		}
		if !lv[k.v] {
			delete(s.env, k)
		}
	}
	defer func() {
		held := map[string]bool{}
		var hold func(v tv)
		hold = func(v tv) {
			held[v.lin] = true
			for _, e := range v.elems {
				hold(e)
			}
		}
		for _, v := range s.env {
			hold(v)
		}
		for _, v := range s.fld {
			hold(v)
		}
		var keep []string
		for _, l := range s.lin {
			if held[l] {
				keep = append(keep, l)
			} else if len(s.dead) == 0 {
				s.dead = []string{l} // one is enough
			}
		}
		s.lin = keep
	}()
	own := fmt.Sprintf("%p.", c)
	for k := range s.fld {
		if !strings.HasPrefix(k, own) {
			continue
		}
		for _, bb := range c.Fn.Blocks {
			for _, i := range bb.Instrs {
				if a, ok := i.(*ssa.Alloc); ok && strings.HasPrefix(k, fmt.Sprintf("%p.%p.", c, a)) && (bb == b || !bb.Dominates(b)) {
					held := false
					for _, v := range s.env {
						held = held || v.at == a
					}
					if !held {
						delete(s.fld, k)
					}
				}
			}
		}
	}
}

func (t *tokFlow) liveness(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l := t.live[f]; l != nil {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for k := len(f.Blocks) - 1; k >= 0; k-- {
			b := f.Blocks[k]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					cur[v] = true
				}
				for j, p := range s.Preds {
					if p == b {
						for _, i := range s.Instrs {
							if ph, ok := i.(*ssa.Phi); ok {
								cur[ph.Edges[j]] = true
							}
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				i := b.Instrs[j]
				if v, ok := i.(ssa.Value); ok {
					if _, isPhi := i.(*ssa.Phi); !isPhi {
						delete(cur, v)
					}
				}
				if _, isPhi := i.(*ssa.Phi); isPhi {
					continue
				}
				for _, o := range i.Operands(nil) {
					if *o != nil {
						cur[*o] = true
					}
				}
			}
			// phis used here or later are live on entry as values
			for _, i := range b.Instrs {
				if ph, ok := i.(*ssa.Phi); ok {
					cur[ph] = true
				}
			}
			if len(cur) != len(in[b]) {
				in[b] = cur
				changed = true
			}
		}
	}
	t.live[f] = in
	return in
}

// enter moves along an edge, choosing the values of phis.
func (t *tokFlow) enter(s *tstate, from, to *ssa.BasicBlock, c *Ctx) *tstate {
	n := s.clone()
	for j, p := range to.Preds {
		if p != from {
			continue
		}
		for _, i := range to.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			v := t.val(s, ph.Edges[j], c)
			if v.k == tOther {
				delete(n.env, tkey{ph, c})
			} else {
				n.env[tkey{ph, c}] = v
			}
		}
		break
	}
	return n
}

func (t *tokFlow) val(s *tstate, v ssa.Value, c *Ctx) tv {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Slice); ok {
				return tv{k: tList, fresh: true}
			}
			return tv{k: tNil}
		}
		if x.Value.Kind() == constant.Bool {
			return tv{k: tBool, b: constant.BoolVal(x.Value)}
		}
		if typeName(x.Type()) == "parser.ASTNodeType" {
			return tv{k: tNodeType, types: 1 << uint(x.Int64())}
		}
		return tv{}
	case *ssa.ChangeType:
		return t.val(s, x.X, c)
	case *ssa.ChangeInterface:
		return t.val(s, x.X, c)
	case *ssa.MakeInterface:
		r := t.val(s, x.X, c)
		if typeName(x.Type()) == "error" {
			return tv{k: tNonNil}
		}
		return r
	case *ssa.Convert:
		return t.val(s, x.X, c)
	case *ssa.Parameter, *ssa.FreeVar:
		if r, ok := s.env[tkey{v, c}]; ok {
			return r
		}
		if fv, ok := v.(*ssa.FreeVar); ok && c.Closure != nil {
			for i, o := range c.Fn.FreeVars {
				if o == fv {
					return t.val(s, c.Closure.Bindings[i], c.CloCtx)
				}
			}
		}
		return tv{}
	case *ssa.Alloc:
		return tv{k: tStruct, at: x, c: c}
	}
	return s.env[tkey{v, c}]
}

// addrOf resolves an address to an allocation and a field path.
func (t *tokFlow) addrOf(s *tstate, a ssa.Value, c *Ctx) (*ssa.Alloc, *Ctx, string, bool) {
	switch x := a.(type) {
	case *ssa.Alloc:
		return x, c, "", true
	case *ssa.FieldAddr:
		if al, cc, path, ok := t.addrOf(s, x.X, c); ok {
			return al, cc, path + "." + fieldName(x), true
		}
	case *ssa.IndexAddr:
		if _, isArr := derefType(x.X.Type()).Underlying().(*types.Array); isArr {
			if al, cc, path, ok := t.addrOf(s, x.X, c); ok {
				if k, isC := x.Index.(*ssa.Const); isC {
					return al, cc, path + fmt.Sprintf("[%d]", k.Int64()), true
				}
			}
		}
	}
	if v := t.val(s, a, c); v.k == tStruct && v.at != nil {
		return v.at, v.c, "", true
	}
	return nil, nil, "", false
}

func fldKey(a *ssa.Alloc, c *Ctx, path string) string { return fmt.Sprintf("%p.%p.%s", c, a, path) }

func site(i ssa.Instruction, c *Ctx) string { return fmt.Sprintf("%p/%p", i, c) }

// flow records that nodes go into a list.
func (t *tokFlow) flow(v tv, to string) {
	if v.src != "" && v.k == tList {
		note(t.into, to, v.src)
	} else if v.src != "" {
		note(t.picks, to, v.src)
	}
	t.kinds[to] |= v.types
}

// elements: the types of the nodes that reach a list.
func (t *tokFlow) elements(list string) (s tset) {
	seen := map[string]bool{}
	var walk func(l string)
	walk = func(l string) {
		if seen[l] {
			return
		}
		seen[l] = true
		s |= t.kinds[l]
		for f := range t.into[l] {
			walk(f)
		}
		for f := range t.picks[l] {
			walk(f)
		}
	}
	walk(list)
	return
}

// pairs: the types of nodes, a before b, of a list.
func (t *tokFlow) pairs(list string, f func(a, b int)) {
	seen := map[string]bool{}
	var walk func(l string)
	walk = func(l string) {
		if seen[l] {
			return
		}
		seen[l] = true
		for o := range t.order[l] {
			a, b, _ := strings.Cut(o, "|")
			each(t.elements(a), func(i int) {
				each(t.elements(b), func(j int) { f(i, j) })
			})
		}
		for s := range t.into[l] {
			walk(s)
		}
	}
	walk(list)
}

func (t *tokFlow) nodeTypeOf(st *tstate, a *ssa.Alloc, c *Ctx) tset {
	var s tset
	var walk func(refs *[]ssa.Instruction)
	walk = func(refs *[]ssa.Instruction) {
		if refs == nil {
			return
		}
		for _, r := range *refs {
			if fa, ok := r.(*ssa.FieldAddr); ok && fieldName(fa) == "Type" {
				for _, q := range *fa.Referrers() {
					if w, ok := q.(*ssa.Store); ok && w.Addr == fa {
						if v := t.val(st, w.Val, c); v.k == tNodeType {
							s |= v.types
						} else {
							t.lose(site(a, c), "is of a type that isn't known")
							t.where[site(a, c)] = a
						}
					}
				}
			}
		}
	}
	walk(a.Referrers())
	return s
}

func note(m map[string]map[string]bool, k, v string) {
	if m[k] == nil {
		m[k] = map[string]bool{}
	}
	m[k][v] = true
}

func (t *tokFlow) source(s *tstate, v tv) string {
	switch v.k {
	case tTok, tField:
		f := v.f
		if f != "" {
			f = "." + f
		}
		return t.setText(s.toks[v.id]) + f
	case tCtxOf:
		if v.src != "" && v.f != "first" {
			return "that of some element"
		}
		return "that of " + t.nodeText(v.types|t.elements(v.src))
	}
	return "?"
}

// step interprets an instruction other than a call or a branch.
func (t *tokFlow) step(ins ssa.Instruction, c *Ctx, s *tstate, node int) int {
	set := func(v ssa.Value, r tv) {
		if r.k == tOther {
			delete(s.env, tkey{v, c})
		} else {
			s.env[tkey{v, c}] = r
		}
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		pre := fldKey(x, c, "")
		for k := range s.fld {
			if strings.HasPrefix(k, pre) {
				delete(s.fld, k)
			}
		}
		if typeName(derefType(x.Type())) == "parser.ASTNode" {
			ty := t.nodeTypeOf(s, x, c)
			each(ty, func(i int) { t.made[i] = true })
			if ty != 0 {
				s.fld[pre] = tv{k: tNode, types: ty, lin: t.born(s, x, c)}
			}
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		// resolved when used
	case *ssa.UnOp:
		if x.Op != token.MUL {
			if x.Op == token.NOT {
				if v := t.val(s, x.X, c); v.k == tBool {
					set(x, tv{k: tBool, b: !v.b})
				}
			}
			return node
		}
		return t.load(x, c, s, node)
	case *ssa.Field:
		v := t.val(s, x.X, c)
		set(x, t.fieldOf(s, v, x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()))
	case *ssa.Store:
		t.store(x, c, s)
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "current" && strings.HasSuffix(typeName(derefType(fa.X.Type())), ".parser") {
			return t.restore(x, c, s, node)
		}
	case *ssa.Slice:
		al, cc, _, ok := t.addrOf(s, x.X, c)
		if ok {
			arr, isArr := derefType(al.Type()).Underlying().(*types.Array)
			if isArr && typeName(arr.Elem()) == "parser.ASTNode" {
				l := tv{k: tList, fresh: arr.Len() == 0, full: arr.Len() > 0, src: site(x, c)}
				var parts []string
				for i := int64(0); i < arr.Len(); i++ {
					e := s.fld[fldKey(al, cc, fmt.Sprintf("[%d]", i))]
					delete(s.fld, fldKey(al, cc, fmt.Sprintf("[%d]", i)))
					if e.k == tNode {
						el := fmt.Sprintf("%s#%d", l.src, i)
						t.flow(e, el)
						t.flow(tv{k: tList, src: el}, l.src)
						for j := int64(0); j < i; j++ {
							note(t.order, l.src, fmt.Sprintf("%s#%d|%s", l.src, j, el))
						}
						parts = append(parts, e.lin)
					}
				}
				if arr.Len() > 0 {
					l.lin = t.merged(s, x, c, parts...)
				}
				set(x, l)
				return node
			}
		}
		if v := t.val(s, x.X, c); v.k == tList || v.k == tField {
			if v.k == tList && (x.Low != nil || x.High != nil) && v.lin != "" {
				t.lose(v.lin, "is cut at "+t.p.ipos(x))
			}
			set(x, v)
		}
	case *ssa.TypeAssert:
		v := t.val(s, x.X, c)
		if v.k == tField {
			note(t.asserts, t.source(s, v), typeName(x.AssertedType))
			t.where["assert "+t.source(s, v)] = x
			if x.CommaOk {
				return node
			}
			set(x, v)
		}
	case *ssa.MapUpdate, *ssa.Send:
	case *ssa.MakeSlice:
		if sl, ok := x.Type().Underlying().(*types.Slice); ok && typeName(sl.Elem()) == "parser.ASTNode" {
			set(x, tv{k: tList, fresh: true})
		}
	}
	return node
}

func (t *tokFlow) fieldOf(s *tstate, v tv, f string) tv {
	switch v.k {
	case tTok:
		return tv{k: tField, id: v.id, f: f}
	case tField:
		return tv{k: tField, id: v.id, f: v.f + "." + f}
	case tNode:
		switch f {
		case "Type":
			return tv{k: tNodeType, types: v.types, src: v.src}
		case "SourceContext":
			return tv{k: tCtxOf, types: v.types, src: v.src, f: v.f}
		}
	}
	return tv{}
}

func (t *tokFlow) load(x *ssa.UnOp, c *Ctx, s *tstate, node int) int {
	set := func(r tv) {
		if r.k == tOther {
			delete(s.env, tkey{x, c})
		} else {
			s.env[tkey{x, c}] = r
		}
	}
	if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldName(fa) == "current" && strings.HasSuffix(typeName(derefType(fa.X.Type())), ".parser") {
		s.mark = &tmark{cur: s.toks[tCur], next: s.toks[tNext], prev: s.toks[tPrev], lin: append([]string{}, s.lin...), dead: append([]string{}, s.dead...)}
		set(tv{k: tPos})
		n := t.g.node()
		t.g.edge(node, "<mark>", n)
		return n
	}
	if al, cc, path, ok := t.addrOf(s, x.X, c); ok {
		set(t.read(s, al, cc, path))
		return node
	}
	// element of a list, or of a token's literal
	switch a := x.X.(type) {
	case *ssa.IndexAddr:
		l := t.val(s, a.X, c)
		switch l.k {
		case tList:
			r := tv{k: tNode, src: l.src}
			if k, ok := a.Index.(*ssa.Const); ok && k.Int64() == 0 {
				r.f = "first"
			}
			if _, isC := a.Index.(*ssa.Const); isC && l.lin != "" {
				// taking the one element of a list
				if s.take(l.lin) {
					r.lin = t.born(s, x, c)
				}
			}
			set(r)
		case tField:
			set(tv{k: tField, id: l.id, f: l.f + "[]"})
		}
	case *ssa.FieldAddr:
		if ia, ok := a.X.(*ssa.IndexAddr); ok {
			l := t.val(s, ia.X, c)
			switch l.k {
			case tList:
				e := tv{k: tNode, src: l.src}
				if k, ok := ia.Index.(*ssa.Const); ok && k.Int64() == 0 {
					e.f = "first"
				}
				set(t.fieldOf(s, e, fieldName(a)))
			case tField:
				set(tv{k: tField, id: l.id, f: l.f + "[]." + fieldName(a)})
			}
		}
	}
	return node
}

// read gives the value stored at a path of a local variable.
func (t *tokFlow) read(s *tstate, al *ssa.Alloc, c *Ctx, path string) tv {
	if v, ok := s.fld[fldKey(al, c, path)]; ok {
		return v
	}
	// a field of a stored whole
	if path == ".Children" && s.fld[fldKey(al, c, "")].k == tNode {
		return tv{k: tList, fresh: true}
	}
	if i := strings.LastIndexAny(path, "."); i >= 0 {
		if v := t.read(s, al, c, path[:i]); v.k != tOther {
			return t.fieldOf(s, v, path[i+1:])
		}
	}
	if path == "" {
		if _, ok := derefType(al.Type()).Underlying().(*types.Struct); ok {
			return tv{k: tStruct, at: al, c: c}
		}
		if _, ok := derefType(al.Type()).Underlying().(*types.Slice); ok {
			return tv{k: tList, fresh: true}
		}
		if _, ok := derefType(al.Type()).Underlying().(*types.Pointer); ok {
			return tv{k: tNil}
		}
	}
	return tv{}
}

func (t *tokFlow) store(x *ssa.Store, c *Ctx, s *tstate) {
	al, cc, path, ok := t.addrOf(s, x.Addr, c)
	if !ok {
		return
	}
	v := t.val(s, x.Val, c)
	base := s.fld[fldKey(al, cc, "")]
	if base.k == tNode && path != "" {
		k := t.nodeText(base.types)
		switch path {
		case ".Type":
		case ".Literal":
			note(t.lits, k, t.source(s, v))
			t.where["lit "+k] = x
		case ".SourceContext":
			note(t.ctxs, k, t.source(s, v))
			t.where["ctx "+k] = x
		case ".Children":
			t.where["kids "+k] = x
			if v.k == tList {
				t.flow(v, "children of "+k)
				if !s.take(v.lin) && v.lin != "" {
					t.lose(v.lin, "is used twice")
				}
			} else {
				t.lose("children of "+k, "are not a known list")
			}
			// the children can be read back and added to
			v.lin = ""
			s.fld[fldKey(al, cc, path)] = v
		}
		return
	}
	if v.k == tStruct && path == "" && v.at != nil && v.at != al {
		// copy of a local struct
		pre := fldKey(v.at, v.c, "")
		for k, f := range s.fld {
			if strings.HasPrefix(k, pre) && len(k) > len(pre) {
				s.fld[fldKey(al, cc, k[len(pre):])] = f
			}
		}
		return
	}
	if v.k == tOther {
		if base.k == tNode && path == "" {
			delete(s.fld, fldKey(al, cc, ".Children"))
		}
		delete(s.fld, fldKey(al, cc, path))
		return
	}
	if path == "" {
		delete(s.fld, fldKey(al, cc, ".Children"))
	}
	s.fld[fldKey(al, cc, path)] = v
}

// restore goes back to the marked position.
func (t *tokFlow) restore(x *ssa.Store, c *Ctx, s *tstate, node int) int {
	m := s.mark
	if v := t.val(s, x.Val, c); v.k != tPos || m == nil || m.outer {
		t.broken = "the position is set to something other than an earlier position at " + t.p.ipos(x)
		return node
	}
	n := t.g.node()
	t.g.edge(node, "<back>", n)
	if m.moved {
		cur := m.first
		next, prev := m.next, m.prev
		lin := m.lin
		s.dead = append([]string{}, m.dead...)
		s.consume(t.all) // everything known becomes old
		s.toks[tCur], s.toks[tNext], s.toks[tPrev] = cur, next, prev
		// what was made since then may be forgotten
		var keep []string
		for _, l := range s.lin {
			if in(l, lin...) {
				keep = append(keep, l)
			}
		}
		s.lin = keep
	}
	s.mark = nil
	return n
}

// decide is assume, with the tests of the values of literals, and of the lines
// of tokens, as labels.
func (t *tokFlow) decide(s *tstate, cond ssa.Value, truth bool, c *Ctx, node int) []tout {
	plain := func() []tout {
		if n := t.assume(s, cond, truth, c); n != nil {
			return []tout{{node: node, st: n}}
		}
		return nil
	}
	if v := t.val(s, cond, c); v.k == tBool {
		return plain()
	}
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, truth = u.X, !truth
	}
	x, ok := cond.(*ssa.BinOp)
	if !ok {
		return plain()
	}
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
	v, w, op, k := t.val(s, x.X, c), t.val(s, x.Y, c), x.Op, x.Y
	if v.k == tField && w.k == tField && strings.HasSuffix(v.f, "ontext.Line") && strings.HasSuffix(w.f, "ontext.Line") {
		// lines never decrease
		if v.id == tCur {
			v, w, op = w, v, flip[op]
		}
		what := "line of " + t.setText(s.toks[v.id])
		if w.id != tCur || v.id == tNext {
			what += " and that of another token"
		}
		same := constant.Compare(constant.MakeInt64(1), op, constant.MakeInt64(1)) == truth
		later := constant.Compare(constant.MakeInt64(1), op, constant.MakeInt64(2)) == truth
		return t.note2(s, "line", w.id, what, " same>", " later>", same, later, node)
	}
	if v.k != tField {
		v, k, op = w, x.X, flip[op]
	}
	kc, isC := k.(*ssa.Const)
	if v.k != tField || !strings.HasPrefix(v.f, "literal") || !isC || kc.Value == nil || kc.Value.Kind() != constant.Int {
		return plain()
	}
	holds := func(n int64) bool { return constant.Compare(constant.MakeInt64(n), op, kc.Value) }
	what := t.source(s, v)
	if holds(1) != holds(1<<30) || holds(1) != holds(2) {
		n := t.g.node()
		t.g.edge(node, fmt.Sprintf("<%s %v %v is %v>", what, op, kc.Value, truth), n)
		return []tout{{node: n, st: s}}
	}
	return t.note2(s, v.f, v.id, what, " zero>", " positive>", holds(0) == truth, holds(1) == truth, node)
}

// note2 records one of two outcomes of a test on a token, unless it is known
// already or the test does not tell.
func (t *tokFlow) note2(s *tstate, about string, id int, what, no, yes string, canNo, canYes bool, node int) (outs []tout) {
	key := tkey{t.dummyFor(about), nil}
	old, ok := s.env[key]
	if ok && old.id == id {
		canNo, canYes = canNo && old.fresh, canYes && old.full
	}
	if !canNo && !canYes {
		return nil
	}
	if canNo && canYes || ok && old.id == id {
		return []tout{{node: node, st: s}}
	}
	if id == tCur && s.toks[tCur]&t.eof != 0 {
		// nothing follows from it at the end
		e := s.clone()
		e.toks[tCur] = t.eof
		outs = append(outs, tout{node: node, st: e})
	}
	ns := s.clone()
	if id == tCur {
		ns.toks[tCur] &^= t.eof
	}
	if ns.toks[id] == 0 {
		return
	}
	ns.env[key] = tv{k: tField, id: id, f: about, fresh: canNo, full: canYes}
	n := t.g.node()
	if canNo {
		yes = no
	}
	t.g.edge(node, "<"+what+yes, n)
	return append(outs, tout{node: n, st: ns})
}

// dummyFor stands for what is known of a literal.
func (t *tokFlow) dummyFor(f string) ssa.Value {
	if t.known[f] == nil {
		t.known[f] = new(ssa.Const)
	}
	return t.known[f]
}

// assume restricts the state to those where the condition has the value, or
// gives nil when there are none.
func (t *tokFlow) assume(s *tstate, cond ssa.Value, truth bool, c *Ctx) *tstate {
	v := t.val(s, cond, c)
	if v.k == tBool {
		if v.b != truth {
			return nil
		}
		return s
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return t.assume(s, x.X, !truth, c)
		}
	case *ssa.BinOp:
		eq := x.Op == token.EQL
		if x.Op != token.EQL && x.Op != token.NEQ {
			return t.assumeLen(s, x, truth, c)
		}
		want := truth == eq
		a, b := t.val(s, x.X, c), t.val(s, x.Y, c)
		if _, isC := x.X.(*ssa.Const); isC {
			a, b = b, a
		}
		if b.k == tField && b.f == "tokenType" {
			a, b = b, a
		}
		if a.k == tField && a.f == "tokenType" {
			k, isC := x.Y.(*ssa.Const)
			if !isC {
				k, isC = x.X.(*ssa.Const)
			}
			if !isC {
				return s
			}
			bit := tset(1) << uint(k.Int64())
			n := s.clone()
			if want {
				n.toks[a.id] &= bit
			} else {
				n.toks[a.id] &^= bit
			}
			if n.toks[a.id] == 0 {
				return nil
			}
			return n
		}
		if isNilConst(x.X) || isNilConst(x.Y) {
			o := a
			if isNilConst(x.X) {
				o = t.val(s, x.Y, c)
			} else {
				o = t.val(s, x.X, c)
			}
			switch o.k {
			case tNil:
				if !want {
					return nil
				}
			case tNonNil, tStruct:
				if want {
					return nil
				}
			}
			return s
		}
		return t.assumeLen(s, x, truth, c)
	}
	return s
}

// assumeLen decides tests of whether a list is empty.
func (t *tokFlow) assumeLen(s *tstate, x *ssa.BinOp, truth bool, c *Ctx) *tstate {
	l := t.val(s, x.X, c)
	k, isC := x.Y.(*ssa.Const)
	op := x.Op
	if l.k != tLen {
		l = t.val(s, x.Y, c)
		k, isC = x.X.(*ssa.Const)
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if l.k != tLen || !isC {
		return s
	}
	n := k.Int64()
	var zero int // 1: the test says empty, -1: says not empty
	switch {
	case op == token.EQL && n == 0, op == token.LEQ && n == 0, op == token.LSS && n == 1:
		zero = 1
	case op == token.NEQ && n == 0, op == token.GTR && n == 0, op == token.GEQ && n == 1:
		zero = -1
	default:
		return s
	}
	if !truth {
		zero = -zero
	}
	if zero == 1 && l.full || zero == -1 && l.fresh {
		return nil
	}
	return s
}

// bind gives the results of a call to its value and extracts.
func (t *tokFlow) bind(s *tstate, call *ssa.Call, c *Ctx, res []tv) {
	if call.Common().Signature().Results().Len() <= 1 {
		if len(res) == 1 && res[0].k != tOther {
			s.env[tkey{call, c}] = res[0]
		} else {
			delete(s.env, tkey{call, c})
		}
		return
	}
	for _, r := range *call.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			if e.Index < len(res) && res[e.Index].k != tOther {
				s.env[tkey{e, c}] = res[e.Index]
			} else {
				delete(s.env, tkey{e, c})
			}
		}
	}
}

func (t *tokFlow) typeArgs(v ssa.Value, c *Ctx) (tset, bool) {
	e := t.p.expr(v, c)
	var s tset
	add := func(x *E) bool {
		if x.Op != "const" {
			return false
		}
		n := 0
		if _, err := fmt.Sscan(x.S, &n); err != nil {
			return false
		}
		s |= 1 << uint(n)
		return true
	}
	if e.Op == "slicelit" {
		for _, a := range e.A {
			if !add(a) {
				return 0, false
			}
		}
		return s, true
	}
	return s, add(e)
}

func (t *tokFlow) call(x *ssa.Call, c *Ctx, s *tstate, node int) []tout {
	com := x.Common()
	name := calleeName(com)
	one := func(res ...tv) []tout { return []tout{{node, s, res}} }
	split := func(want tset) (hit, miss *tstate) {
		if s.toks[tCur]&want != 0 {
			hit = s.clone()
			hit.toks[tCur] &= want
		}
		if s.toks[tCur]&^want != 0 {
			miss = s.clone()
			miss.toks[tCur] &^= want
		}
		return
	}
	// eat consumes the current token; at the end of the input nothing moves
	eat := func(st *tstate, node int, rest ...tv) (outs []tout) {
		if st.toks[tCur]&t.eof != 0 {
			e := st.clone()
			e.toks[tCur] = t.eof
			outs = append(outs, tout{node, e, append([]tv{{k: tTok, id: tPrev}}, rest...)})
			st = st.clone()
			st.toks[tCur] &^= t.eof
		}
		// which token it was may matter later
		cur := st.toks[tCur]
		var parts []tset
		if n := bits.OnesCount64(cur); n > 1 && n <= 8 {
			each(cur, func(i int) { parts = append(parts, 1<<uint(i)) })
		} else if n > 0 {
			parts = append(parts, cur)
		}
		for _, part := range parts {
			n := t.emitTok(t.g, node, part)
			one := st.clone()
			one.toks[tCur] = part
			one.consume(t.all)
			outs = append(outs, tout{n, one, append([]tv{{k: tTok, id: tPrev}}, rest...)})
		}
		return
	}
	const P = "(*parser.parser)."
	switch name {
	case P + "peek":
		return one(tv{k: tTok, id: tCur})
	case P + "previous":
		return one(tv{k: tTok, id: tPrev})
	case P + "next":
		return one(tv{k: tTok, id: tNext})
	case P + "advance":
		return eat(s.clone(), node)
	case P + "check":
		want, ok := t.typeArgs(com.Args[1], c)
		if !ok {
			t.broken = "token types unknown at " + t.p.ipos(x)
			return nil
		}
		hit, miss := split(want)
		var outs []tout
		if hit != nil {
			outs = append(outs, tout{node, hit, []tv{{k: tBool, b: true}}})
		}
		if miss != nil {
			outs = append(outs, tout{node, miss, []tv{{k: tBool}}})
		}
		return outs
	case P + "match":
		want, ok := t.typeArgs(com.Args[1], c)
		if !ok {
			t.broken = "token types unknown at " + t.p.ipos(x)
			return nil
		}
		hit, miss := split(want)
		var outs []tout
		if hit != nil {
			outs = eat(hit, node, tv{k: tBool, b: true})
		}
		if miss != nil {
			outs = append(outs, tout{node, miss, []tv{{}, {k: tBool}}})
		}
		return outs
	case P + "consume":
		want, ok := t.typeArgs(com.Args[1], c)
		if !ok {
			t.broken = "token types unknown at " + t.p.ipos(x)
			return nil
		}
		hit, miss := split(want)
		var outs []tout
		if hit != nil {
			outs = eat(hit, node, tv{k: tNil})
		}
		t.sure[x] = true
		if miss != nil {
			t.unsure[x] = true
			outs = append(outs, tout{node, miss, []tv{{}, {k: tNonNil}}})
		}
		return outs
	case P + "errorAtToken", P + "unexpectedTokenError", "fmt.Errorf", "errors.New":
		return one(tv{k: tNonNil})
	case P + "sourceContext":
		v := t.val(s, com.Args[1], c)
		if v.k == tTok {
			return one(tv{k: tField, id: v.id, f: "sourceContext"})
		}
		return one(tv{})
	case "len":
		v := t.val(s, com.Args[0], c)
		if v.k == tList {
			return one(tv{k: tLen, full: v.full, fresh: v.fresh})
		}
		return one(tv{})
	case "append":
		return one(t.appended(x, c, s))
	}
	if t.rules[name] {
		bad := s.clone()
		n := t.g.node()
		s = s.clone()
		if fs, ok := t.first[name]; ok {
			s.toks[tCur] &= fs
		}
		if s.toks[tCur] == 0 {
			return []tout{{node, bad, []tv{{}, {k: tNonNil}}}}
		}
		t.emitSet(t.g, node, short(name[strings.LastIndex(name, ".")+1:]), s.toks[tCur], s.toks[tNext], n)
		if s.mark != nil && !s.mark.moved {
			s.mark.moved, s.mark.first = true, s.toks[tCur]
		}
		s.consume(t.all)
		s.toks[tCur], s.toks[tNext], s.toks[tPrev] = t.all, t.all, t.all
		res := tv{k: tNode, types: 0, lin: t.born(s, x, c)}
		res.types = t.ruleTypes(name)
		return []tout{{n, s, []tv{res, {k: tNil}}}, {node, bad, []tv{{}, {k: tNonNil}}}}
	}
	if cc := t.p.callee(x, c); cc != nil && relPkg(cc.Fn) == "parser" {
		var args []tv
		for _, a := range com.Args {
			args = append(args, t.val(s, a, c))
		}
		return t.graft(cc, s, node, args)
	}
	if f := com.StaticCallee(); f != nil && f.Blocks != nil && relPkg(f) == "parser" && f.Signature.Recv() != nil && strings.HasSuffix(typeName(derefType(f.Signature.Recv().Type())), ".parser") {
		t.broken = "recursion through " + fname(f) + " at " + t.p.ipos(x)
	}
	return one(make([]tv, com.Signature().Results().Len())...)
}

// ruleTypes: what a recursive rule returns is settled by its own analysis; the
// types are the union over all rules.
func (t *tokFlow) ruleTypes(name string) tset {
	var rs []string
	for r := range t.rules {
		rs = append(rs, r)
	}
	sort.Strings(rs)
	for i, r := range rs {
		if r == name {
			return 1 << uint(63-i)
		}
	}
	return 0
}

func (t *tokFlow) appended(x *ssa.Call, c *Ctx, s *tstate) tv {
	args := x.Common().Args
	sl, ok := x.Type().Underlying().(*types.Slice)
	if !ok || typeName(sl.Elem()) != "parser.ASTNode" {
		return tv{}
	}
	base := t.val(s, args[0], c)
	more := tv{}
	if len(args) > 1 {
		more = t.val(s, args[1], c)
	}
	if base.k != tList || more.k != tList {
		t.broken = "a list of nodes is lost sight of at " + t.p.ipos(x)
		return tv{}
	}
	rb, rm := s.rank(base.lin), s.rank(more.lin)
	if base.lin != "" && more.lin != "" && rb > rm {
		t.lose(more.lin, "is put after nodes that follow it")
		t.where[more.lin] = x
	}
	made := ""
	if base.lin != "" || more.lin != "" {
		made = t.merged(s, x, c, base.lin, more.lin)
	}
	r := tv{k: tList, src: site(x, c), full: base.full || more.full, fresh: base.fresh && more.fresh}
	t.flow(base, r.src)
	t.flow(more, r.src)
	if base.src != "" && more.src != "" {
		note(t.order, r.src, base.src+"|"+more.src)
	}
	r.lin = made
	return r
}
