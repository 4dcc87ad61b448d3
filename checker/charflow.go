package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Character-flow analysis of the scanner: an abstract interpretation over
// classes of characters that no test in the code (or in the reference) tells
// apart. What it yields is the language of characters consumed and tokens
// added, as an automaton.

type ckind int

const (
	cOther ckind = iota
	cRune        // a character of the input
	cBool
	cPred // whether a character is in a set
	cNil
	cErr
	cPos  // a position in the input, or its line or column
	cText // a part of the input
	cNum  // a number read from a part of the input
	cNumErr
	cNumZero
	cLevel
	cLevelPos // whether the level is positive
	cInt
	cCount
	cList
	cVal // value of a local struct
	cInput
	cLen
	cTokType
)

type cv struct {
	k      ckind
	id     int
	set    tset
	b      bool
	f      string
	d, n   int
	site   string
	opened bool
	flds   []cfld
	fn     *ssa.Function
}

type cfld struct {
	name string
	v    cv
}

type cstate struct {
	env   map[tkey]cv
	fld   map[string]cv
	runes map[int]tset
	now   int
	nums  int
	level int
}

type charFlow struct {
	p       *Prog
	t       *tokFlow // names of the classes, liveness
	reps    [][]rune // intervals of each class, as pairs
	all     tset
	eof     tset
	preds   map[*ssa.Function]tset
	g       *nfa
	lisp    bool
	steps   int
	broken  string
	faults  map[string]ssa.Instruction
	used    map[string]bool // marks that begin a text that is used
	scanSub bool            // scanToken is taken as a whole
	errNode int
	calls   int
}

const scanner = "(*parser.scanner)."

// isRune: of type rune (not just any 32-bit integer).
func isRune(t types.Type) bool {
	return types.TypeString(types.Unalias(t), nil) == "rune" || t.String() == "rune"
}

func runePred(s *types.Signature) bool {
	return s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 1 && isRune(s.Params().At(0).Type()) &&
		types.Identical(s.Results().At(0).Type().Underlying(), types.Typ[types.Bool])
}

// newCharFlow finds the classes of characters.
func (p *Prog) newCharFlow(ref ...string) *charFlow {
	c := &charFlow{p: p, preds: map[*ssa.Function]tset{}, faults: map[string]ssa.Instruction{}, used: map[string]bool{}}
	cuts := map[rune]bool{0: true}
	cut := func(lo, hi rune) { cuts[lo], cuts[hi+1] = true, true }
	type atom func(lo, hi rune) bool
	var atoms []atom
	var preds []*ssa.Function
	for _, f := range p.funcsIn("parser") {
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		isPred := runePred(f.Signature) && len(f.FreeVars) == 0
		if isPred {
			preds = append(preds, f)
		}
		ours := isPred || root.Signature.Recv() != nil && strings.HasPrefix(fname(root), scanner) || fname(root) == "parser.Scan"
		if !ours {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.BinOp:
					if !isRune(x.X.Type()) && !isRune(x.Y.Type()) {
						continue
					}
					op := x.Op
					k, ok := x.Y.(*ssa.Const)
					if !ok {
						k, ok = x.X.(*ssa.Const)
						op = mirror(op)
					}
					if !ok || k.Value == nil {
						continue
					}
					n := rune(k.Int64())
					cut(n, n)
					if !isPred {
						atoms = append(atoms, func(lo, hi rune) bool { return runeCmp(op, lo, n) })
					}
				case *ssa.Call:
					if s, ok := containsRune(x); ok {
						for _, n := range s {
							n := n
							cut(n, n)
							atoms = append(atoms, func(lo, hi rune) bool { return lo == n })
						}
					}
					if calleeName(x.Common()) == scanner+"match" && len(x.Common().Args) > 1 {
						if k, ok := x.Common().Args[1].(*ssa.Const); ok {
							n := rune(k.Int64())
							cut(n, n)
							atoms = append(atoms, func(lo, hi rune) bool { return lo == n })
						}
					}
				}
			}
		}
	}
	for _, s := range ref {
		set := refSet(s)
		for i := 0; i < len(set); i += 2 {
			cut(set[i], set[i+1])
		}
		atoms = append(atoms, func(lo, hi rune) bool {
			for i := 0; i < len(set); i += 2 {
				if set[i] <= lo && hi <= set[i+1] {
					return true
				}
			}
			return false
		})
	}
	var bs []rune
	for b := range cuts {
		if b >= 0 && b <= utf8.MaxRune {
			bs = append(bs, b)
		}
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	c.t = &tokFlow{p: p, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	class := map[string]int{}
	for i, lo := range bs {
		hi := rune(utf8.MaxRune)
		if i+1 < len(bs) {
			hi = bs[i+1] - 1
		}
		var sig strings.Builder
		for _, a := range atoms {
			fmt.Fprint(&sig, a(lo, hi), ",")
		}
		for _, f := range preds {
			v, ok := c.evalPred(f, lo, hi, 0)
			fmt.Fprint(&sig, v, ok, ",")
		}
		k, ok := class[sig.String()]
		if !ok {
			k = len(c.reps)
			class[sig.String()] = k
			c.reps = append(c.reps, nil)
			c.t.names = append(c.t.names, "")
		}
		c.reps[k] = append(c.reps[k], lo, hi)
		n := fmt.Sprintf("%q", lo)
		if hi > lo {
			n += fmt.Sprintf("-%q", hi)
		}
		if c.t.names[k] != "" {
			n = c.t.names[k] + n
		}
		if len(n) > 30 {
			n = n[:30]
		}
		c.t.names[k] = n
	}
	c.t.names = append(c.t.names, "EOF")
	if len(c.t.names) > 63 {
		c.broken = "the code tells too many characters apart"
		c.t.names = c.t.names[:63]
	}
	seen := map[string]bool{}
	for i, n := range c.t.names {
		for seen[n] {
			n += "'"
		}
		seen[n] = true
		c.t.names[i] = n
		c.all |= 1 << uint(i)
	}
	c.eof = 1 << uint(len(c.t.names)-1)
	c.t.all, c.t.eof = c.all, c.eof
	for _, f := range preds {
		var s tset
		for i, iv := range c.reps {
			v, ok := c.evalPred(f, iv[0], iv[1], 0)
			if !ok {
				s = 0
				c.preds[f] = 0
				ok = false
				s = ^tset(0)
				break
			}
			if v {
				s |= 1 << uint(i)
			}
		}
		if s == ^tset(0) {
			continue // not known
		}
		if v, ok := c.evalPred(f, 0, 0, 0); ok && v {
			s |= c.eof
		}
		c.preds[f] = s
	}
	return c
}

// refSet reads a set of characters: single ones, and ranges like a-z. A
// hyphen that stands for itself comes first.
func refSet(s string) (out []rune) {
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		if i > 0 && i+2 < len(rs) && rs[i+1] == '-' {
			out = append(out, rs[i], rs[i+2])
			i += 2
			continue
		}
		if i == 0 && i+2 < len(rs) && rs[1] == '-' {
			out = append(out, rs[0], rs[2])
			i += 2
			continue
		}
		out = append(out, rs[i], rs[i])
	}
	return
}

// chars is the set of classes of characters written as for refSet.
func (c *charFlow) chars(s string) (out tset) {
	set := refSet(s)
	for i, iv := range c.reps {
		for j := 0; j < len(set); j += 2 {
			if set[j] <= iv[0] && iv[1] <= set[j+1] {
				out |= 1 << uint(i)
			}
		}
	}
	return
}

func mirror(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func runeCmp(op token.Token, a, b rune) bool {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	return false
}

func containsRune(x *ssa.Call) (string, bool) {
	if n := calleeName(x.Common()); n != "strings.ContainsRune" && n != "strings.IndexRune" {
		return "", false
	}
	if k, ok := x.Common().Args[0].(*ssa.Const); ok && k.Value != nil {
		return constant.StringVal(k.Value), true
	}
	return "", false
}

// evalPred decides a predicate for an interval of characters that no
// comparison in it divides.
func (c *charFlow) evalPred(f *ssa.Function, lo, hi rune, depth int) (bool, bool) {
	if depth > 5 || f.Blocks == nil {
		return false, false
	}
	type val struct {
		b, known bool
	}
	env := map[ssa.Value]val{}
	get := func(v ssa.Value) val {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			return val{constant.BoolVal(k.Value), true}
		}
		return env[v]
	}
	var b, from *ssa.BasicBlock = f.Blocks[0], nil
	for n := 0; n < 500; n++ {
		next := (*ssa.BasicBlock)(nil)
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi:
				for j, p := range b.Preds {
					if p == from {
						env[x] = get(x.Edges[j])
						break
					}
				}
			case *ssa.BinOp:
				k, op := (*ssa.Const)(nil), x.Op
				if kk, ok := x.Y.(*ssa.Const); ok && x.X == f.Params[0] {
					k = kk
				} else if kk, ok := x.X.(*ssa.Const); ok && x.Y == f.Params[0] {
					k, op = kk, mirror(op)
				}
				if k != nil && k.Value != nil {
					n := rune(k.Int64())
					a, z := runeCmp(op, lo, n), runeCmp(op, hi, n)
					env[x] = val{a, a == z}
				}
			case *ssa.UnOp:
				if x.Op == token.NOT {
					v := get(x.X)
					env[x] = val{!v.b, v.known}
				}
			case *ssa.Call:
				if s, ok := containsRune(x); ok && x.Common().Args[1] == f.Params[0] && calleeName(x.Common()) == "strings.ContainsRune" {
					env[x] = val{strings.ContainsRune(s, lo), true}
				} else if g := x.Common().StaticCallee(); g != nil && relPkg(g) == "parser" && runePred(g.Signature) && x.Common().Args[0] == f.Params[0] {
					v, ok := c.evalPred(g, lo, hi, depth+1)
					env[x] = val{v, ok}
				}
			case *ssa.If:
				v := get(x.Cond)
				if !v.known {
					return false, false
				}
				next = b.Succs[1]
				if v.b {
					next = b.Succs[0]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				v := get(x.Results[0])
				return v.b, v.known
			case *ssa.DebugRef:
			default:
				return false, false
			}
		}
		if next == nil {
			return false, false
		}
		from, b = b, next
	}
	return false, false
}

func (s *cstate) clone() *cstate {
	n := &cstate{env: make(map[tkey]cv, len(s.env)), fld: make(map[string]cv, len(s.fld)), runes: make(map[int]tset, len(s.runes)), now: s.now, nums: s.nums, level: s.level}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.fld {
		n.fld[k] = v
	}
	for k, v := range s.runes {
		n.runes[k] = v
	}
	return n
}

// mapAll changes every value held.
func (s *cstate) mapAll(f func(v cv) cv) {
	var g func(v cv) cv
	g = func(v cv) cv {
		v = f(v)
		if len(v.flds) > 0 {
			fs := make([]cfld, len(v.flds))
			for i, e := range v.flds {
				fs[i] = cfld{e.name, g(e.v)}
			}
			v.flds = fs
		}
		return v
	}
	for k, v := range s.env {
		s.env[k] = g(v)
	}
	for k, v := range s.fld {
		s.fld[k] = g(v)
	}
}

func (s *cstate) key() string {
	type kv struct {
		k string
		v cv
	}
	var all []kv
	for k, v := range s.env {
		all = append(all, kv{fmt.Sprintf("%p/%p", k.v, k.c), v})
	}
	for k, v := range s.fld {
		all = append(all, kv{k, v})
	}
	sort.Slice(all, func(i, j int) bool { return all[i].k < all[j].k })
	marks := map[int]bool{}
	s.mapAll(func(v cv) cv {
		if v.k == cPos {
			marks[v.id] = true
		}
		return v
	})
	var ms []int
	for m := range marks {
		ms = append(ms, m)
	}
	sort.Ints(ms)
	rank := map[int]string{0: "S", s.now: "N"}
	if s.now == 0 {
		rank[0] = "SN"
	}
	for i, m := range ms {
		if m != 0 && m != s.now {
			rank[m] = fmt.Sprint(i)
		}
	}
	ren := map[int]int{}
	var sb strings.Builder
	var out func(v cv)
	out = func(v cv) {
		id := fmt.Sprint(v.id)
		switch v.k {
		case cPos:
			id = rank[v.id]
		case cNum, cNumErr, cNumZero:
			id = fmt.Sprint("age", s.nums-v.id)
		case cRune, cPred:
			if v.id > tPrev {
				if _, ok := ren[v.id]; !ok {
					ren[v.id] = 3 + len(ren)
				}
				id = fmt.Sprint(ren[v.id])
			}
		}
		fmt.Fprintf(&sb, "%d,%s,%x,%v,%s,%d,%d,%s,%v,%p", v.k, id, v.set, v.b, v.f, v.d, v.n, v.site, v.opened, v.fn)
		for _, f := range v.flds {
			sb.WriteString("{" + f.name + ":")
			out(f.v)
			sb.WriteString("}")
		}
	}
	for _, e := range all {
		sb.WriteString(e.k + "=")
		out(e.v)
		sb.WriteString(";")
	}
	for i := 0; i <= tPrev; i++ {
		fmt.Fprintf(&sb, "|%x", s.runes[i])
	}
	var rs []string
	for a, b := range ren {
		rs = append(rs, fmt.Sprintf("%d:%x", b, s.runes[a]))
	}
	sort.Strings(rs)
	fmt.Fprintf(&sb, "%v L%d %v", rs, s.level, s.now == 0)
	return sb.String()
}

// settle makes the sets of the next two characters agree about the end.
func (c *charFlow) settle(s *cstate) bool {
	if s.runes[tCur]&c.eof != 0 && s.runes[tNext]&c.eof == 0 {
		s.runes[tCur] &^= c.eof
	}
	if s.runes[tCur] == c.eof {
		s.runes[tNext] &= c.eof
	}
	return s.runes[tCur] != 0 && s.runes[tNext] != 0
}

func (c *charFlow) restrict(s *cstate, id int, to tset) *cstate {
	n := s.clone()
	n.runes[id] &= to
	if n.runes[id] == 0 || !c.settle(n) {
		return nil
	}
	return n
}

func (c *charFlow) fault(i ssa.Instruction, what string) {
	k := c.p.ipos(i) + " " + what
	if _, ok := c.faults[k]; !ok {
		c.faults[k] = i
	}
}

// eat consumes a character.
func (c *charFlow) eat(s *cstate, node int, at ssa.Instruction) (int, *cstate) {
	if s.runes[tCur]&c.eof != 0 {
		c.fault(at, "can read past the end of the input")
		s = c.restrict(s, tCur, c.all&^c.eof)
		if s == nil {
			return node, nil
		}
	} else {
		s = s.clone()
	}
	var opens []string
	s.mapAll(func(v cv) cv {
		switch v.k {
		case cPos:
			if v.f == "current" && v.id == s.now && v.id != 0 && !v.opened {
				v.opened = true
				opens = append(opens, "("+v.site)
			}
			if v.d < 3 {
				v.d++
			}
		case cText:
			if v.d < 3 {
				v.d++
			}
		}
		return v
	})
	sort.Strings(opens)
	for i, o := range opens {
		if i > 0 && opens[i-1] == o {
			continue
		}
		n := c.g.node()
		c.g.edge(node, o, n)
		node = n
	}
	to := c.t.emitTok(c.g, node, s.runes[tCur])
	s.now++
	old := 3
	for i := range s.runes {
		if i >= old {
			old = i + 1
		}
	}
	ren := map[int]int{tPrev: old, tCur: tPrev, tNext: tCur}
	used := map[int]bool{}
	s.mapAll(func(v cv) cv {
		if v.k == cRune || v.k == cPred {
			if n, ok := ren[v.id]; ok {
				v.id = n
			}
			used[v.id] = true
		}
		return v
	})
	s.runes[old] = s.runes[tPrev]
	s.runes[tPrev], s.runes[tCur], s.runes[tNext] = s.runes[tCur], s.runes[tNext], c.all
	for i := range s.runes {
		if i > tPrev && !used[i] {
			delete(s.runes, i)
		}
	}
	c.settle(s)
	return to, s
}

func (c *charFlow) emit(node int, label string) int {
	n := c.g.node()
	c.g.edge(node, label, n)
	return n
}

// text spells out a value in a label.
func (c *charFlow) text(s *cstate, v cv) string {
	switch v.k {
	case cNil:
		return "nil"
	case cInt, cCount:
		if v.k == cInt && v.n != 0 {
			return fmt.Sprint(v.n)
		}
		return "count"
	case cNum:
		return fmt.Sprintf("%s#%d", v.f, s.nums-v.id)
	case cText:
		if v.site != "" {
			c.used[v.site] = true
		}
		hi := "far"
		if v.d < 3 {
			hi = fmt.Sprintf("%+d", v.n-v.d)
		}
		return "text[" + v.f + "," + hi + "]"
	case cRune:
		switch v.id {
		case tCur:
			return "next character"
		case tNext:
			return "character after next"
		case tPrev:
			return "last character"
		}
		return "some earlier character"
	case cPos:
		w := "earlier"
		switch {
		case v.id == 0 && !(c.scanSub && s.now == 0):
			w = "start"
		case v.id == s.now:
			w = "now"
		}
		if v.n != 0 {
			w += fmt.Sprintf("%+d", v.n)
		}
		return v.f + "@" + w
	case cList:
		return "list"
	case cVal:
		var o []string
		for _, f := range v.flds {
			if t := c.text(s, f.v); t != "nil" && t != `""` {
				o = append(o, f.name+"="+t)
			}
		}
		return "{" + strings.Join(o, ", ") + "}"
	case cErr:
		return v.f
	case cTokType:
		return v.f
	}
	if v.f != "" {
		return v.f
	}
	return "?"
}

type cout struct {
	node int
	st   *cstate
	res  []cv
}

type citem struct {
	b    *ssa.BasicBlock
	idx  int
	st   *cstate
	node int
}

// run analyses a method of the scanner from its entry.
func (c *charFlow) run(f *ssa.Function, lisp bool, first tset) *nfa {
	c.g = newNFA()
	c.errNode = c.g.node()
	c.lisp = lisp
	st := &cstate{env: map[tkey]cv{}, fld: map[string]cv{}, runes: map[int]tset{tPrev: c.all, tCur: first, tNext: c.all}}
	c.settle(st)
	for _, o := range c.invoke(rootCtx(f), st, 0, nil) {
		last := cv{k: cNil}
		if len(o.res) > 0 {
			last = o.res[len(o.res)-1]
		}
		switch last.k {
		case cNil:
			node := o.node
			if len(o.res) > 1 {
				node = c.emit(node, "gives "+c.text(o.st, o.res[0]))
			}
			if o.st.level != 0 {
				node = c.emit(node, fmt.Sprintf("level%+d", o.st.level))
			}
			c.ahead(o.st, node, 1)
		case cErr:
			c.g.edge(o.node, last.f, c.errNode)
		default:
			c.broken = fmt.Sprintf("an unknown error is returned by %s (%d %s)", fname(f), last.k, c.text(o.st, last))
		}
	}
	return c.g
}

// ahead adds edges for what is known of the characters after the end.
func (c *charFlow) ahead(s *cstate, node, to int) {
	cur, next := s.runes[tCur], s.runes[tNext]
	if cur&c.eof != 0 {
		c.g.edge(node, "<EOF>", to)
	}
	if cur&^c.eof == 0 {
		return
	}
	mid := c.g.node()
	each(cur&^c.eof, func(i int) { c.g.edge(node, "<"+c.t.names[i]+">", mid) })
	each(next, func(i int) { c.g.edge(mid, "<<"+c.t.names[i]+">>", to) })
}

// languages gives the automata of successes and failures.
func (c *charFlow) languages(g *nfa) (ok, bad *nfa) {
	keep := func(f func(l string) string, acc int) *nfa {
		n := &nfa{edges: make([][]nedge, len(g.edges)), accept: map[int]bool{acc: true}, pos: make([]string, len(g.edges))}
		for a, es := range g.edges {
			for _, e := range es {
				n.edges[a] = append(n.edges[a], nedge{f(e.label), e.to})
			}
		}
		return n
	}
	isChar := map[string]bool{}
	for _, n := range c.t.names {
		isChar[n] = true
	}
	ok = keep(func(l string) string {
		if strings.HasPrefix(l, "(") && l != "(" {
			if !c.used[l[1:]] {
				return ""
			}
			return "("
		}
		return l
	}, 1)
	bad = keep(func(l string) string {
		if isChar[l] || strings.HasPrefix(l, "error") {
			return l
		}
		return ""
	}, c.errNode)
	return
}

func (c *charFlow) invoke(cc *Ctx, st *cstate, node int, args []cv) (outs []cout) {
	f := cc.Fn
	st = st.clone()
	for i, p := range f.Params {
		if i < len(args) && args[i].k != cOther {
			st.env[tkey{p, cc}] = args[i]
		}
	}
	memo := map[string]int{}
	outMemo := map[string]int{}
	work := []citem{{f.Blocks[0], 0, st, node}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		c.steps++
		if c.steps > 200000 || len(c.g.edges) > 2000000 {
			c.broken = "too many states in " + fname(f)
			return
		}
		if it.idx == 0 {
			c.trim(it.st, it.b, cc)
		}
		k := fmt.Sprintf("%d/%d/%s", it.b.Index, it.idx, it.st.key())
		if n, ok := memo[k]; ok {
			c.g.edge(it.node, "", n)
			continue
		}
		st, node := it.st, c.g.node()
		c.g.edge(it.node, "", node)
		memo[k] = node
	block:
		for i := it.idx; i < len(it.b.Instrs); i++ {
			ins := it.b.Instrs[i]
			switch x := ins.(type) {
			case *ssa.Phi:
			case *ssa.If:
				for j, s := range it.b.Succs {
					for _, d := range c.decide(st, x.Cond, j == 0, cc, node) {
						work = append(work, citem{s, 0, c.enter(d.st, it.b, s, cc), d.node})
					}
				}
				break block
			case *ssa.Jump:
				work = append(work, citem{it.b.Succs[0], 0, c.enter(st, it.b, it.b.Succs[0], cc), node})
				break block
			case *ssa.Panic:
				c.fault(x, "can panic")
				break block
			case *ssa.Return:
				o := cout{node: node}
				for _, r := range x.Results {
					o.res = append(o.res, c.val(st, r, cc))
				}
				ns := st.clone()
				for k := range ns.env {
					if k.c == cc {
						delete(ns.env, k)
					}
				}
				own := fmt.Sprintf("%p.", cc)
				for k := range ns.fld {
					if strings.HasPrefix(k, own) {
						delete(ns.fld, k)
					}
				}
				o.st = ns
				for j, r := range o.res {
					ns.env[tkey{nil, retCtx(j)}] = r
				}
				key := ns.key()
				for j := range o.res {
					delete(ns.env, tkey{nil, retCtx(j)})
				}
				if n, ok := outMemo[key]; ok {
					c.g.edge(node, "", n)
					break block
				}
				o.node = c.g.node()
				c.g.edge(node, "", o.node)
				outMemo[key] = o.node
				outs = append(outs, o)
				break block
			case *ssa.Call:
				for _, o := range c.call(x, cc, st, node) {
					o.st = o.st.clone()
					delete(o.st.env, tkey{x, cc})
					if len(o.res) == 1 && o.res[0].k != cOther {
						o.st.env[tkey{x, cc}] = o.res[0]
					} else if len(o.res) > 1 {
						v := cv{k: cVal}
						for j, r := range o.res {
							v.flds = append(v.flds, cfld{fmt.Sprint(j), r})
						}
						o.st.env[tkey{x, cc}] = v
					}
					work = append(work, citem{it.b, i + 1, o.st, o.node})
				}
				break block
			case *ssa.BinOp:
				delete(st.env, tkey{x, cc})
				if isCmp(x.Op) {
					kept := false
					for _, u := range *x.Referrers() {
						if _, isIf := u.(*ssa.If); !isIf {
							kept = true
						}
					}
					if !kept {
						break
					}
					for _, truth := range []bool{true, false} {
						for _, d := range c.decide(st, x, truth, cc, node) {
							n := d.st.clone()
							n.env[tkey{x, cc}] = cv{k: cBool, b: truth}
							work = append(work, citem{it.b, i + 1, n, d.node})
						}
					}
					break block
				}
				v := c.arith(x, st, cc)
				if v.k == cCount {
					node = c.emit(node, "count one")
				}
				if v.k != cOther {
					st.env[tkey{x, cc}] = v
				}
			default:
				node = c.step(ins, cc, st, node)
			}
		}
	}
	return
}

var retCtxs []*Ctx

func retCtx(j int) *Ctx {
	for len(retCtxs) <= j {
		retCtxs = append(retCtxs, &Ctx{})
	}
	return retCtxs[j]
}

func isCmp(op token.Token) bool {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return true
	}
	return false
}

func (c *charFlow) trim(s *cstate, b *ssa.BasicBlock, cc *Ctx) {
	lv := c.t.liveness(cc.Fn)[b]
	for k := range s.env {
		if k.c == cc && !lv[k.v] {
			delete(s.env, k)
		}
	}
	kept := false
	s.mapAll(func(v cv) cv {
		kept = kept || (v.k == cRune || v.k == cPred) && v.id == tPrev
		return v
	})
	if !kept {
		s.runes[tPrev] = c.all
	}
	// fields of locals made again later, or not made yet
	own := fmt.Sprintf("%p.", cc)
	for _, bb := range cc.Fn.Blocks {
		for _, i := range bb.Instrs {
			a, ok := i.(*ssa.Alloc)
			if !ok || bb != b && bb.Dominates(b) && c.reaches(b, a) {
				continue
			}
			pre := fmt.Sprintf("%s%p.", own, a)
			for k := range s.fld {
				if strings.HasPrefix(k, pre) {
					delete(s.fld, k)
				}
			}
		}
	}
}

// reaches: the local can still be used from this block on.
func (c *charFlow) reaches(b *ssa.BasicBlock, a *ssa.Alloc) bool {
	uses := map[*ssa.BasicBlock]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			uses[r.Block()] = true
			switch x := r.(type) {
			case *ssa.FieldAddr:
				walk(x)
			case *ssa.IndexAddr:
				walk(x)
			}
		}
	}
	walk(a)
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if uses[x] {
			return true
		}
		if x == a.Block() && x != b {
			continue
		}
		work = append(work, x.Succs...)
	}
	return false
}

func (c *charFlow) enter(s *cstate, from, to *ssa.BasicBlock, cc *Ctx) *cstate {
	n := s.clone()
	for j, p := range to.Preds {
		if p != from {
			continue
		}
		for _, i := range to.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			v := c.val(s, ph.Edges[j], cc)
			if v.k == cOther && v.f == "" {
				delete(n.env, tkey{ph, cc})
			} else {
				n.env[tkey{ph, cc}] = v
			}
		}
		break
	}
	return n
}

func (c *charFlow) val(s *cstate, v ssa.Value, cc *Ctx) cv {
	if r, ok := s.env[tkey{v, cc}]; ok {
		return r
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Slice); ok {
				return cv{k: cList}
			}
			return cv{k: cNil}
		}
		switch {
		case x.Value.Kind() == constant.Bool:
			return cv{k: cBool, b: constant.BoolVal(x.Value)}
		case typeName(x.Type()) == "parser.TokenType":
			return cv{k: cTokType, f: c.p.constNames("parser", "TokenType")[fmt.Sprint(x.Int64())]}
		case isRune(x.Type()):
			return cv{k: cOther, f: fmt.Sprintf("%q", rune(x.Int64()))}
		case x.Value.Kind() == constant.Int:
			return cv{k: cInt, n: int(x.Int64())}
		case x.Value.Kind() == constant.String:
			return cv{k: cOther, f: fmt.Sprintf("%q", constant.StringVal(x.Value))}
		}
		return cv{}
	case *ssa.Function:
		return cv{k: cOther, fn: x}
	case *ssa.ChangeType:
		return c.val(s, x.X, cc)
	case *ssa.ChangeInterface:
		return c.val(s, x.X, cc)
	case *ssa.MakeInterface:
		return c.val(s, x.X, cc)
	case *ssa.Convert:
		return c.val(s, x.X, cc)
	case *ssa.Extract:
		t := s.env[tkey{x.Tuple, cc}]
		if x.Index < len(t.flds) {
			return t.flds[x.Index].v
		}
		return cv{}
	case *ssa.FreeVar:
		if cc.Closure != nil {
			for i, o := range cc.Fn.FreeVars {
				if o == x {
					return c.val(s, cc.Closure.Bindings[i], cc.CloCtx)
				}
			}
		}
	}
	return s.env[tkey{v, cc}]
}

func (c *charFlow) local(a ssa.Value, cc *Ctx) (*ssa.Alloc, *Ctx, string, bool) {
	path := ""
	for {
		switch x := a.(type) {
		case *ssa.Alloc:
			return x, cc, path, true
		case *ssa.FieldAddr:
			path = "." + fieldName(x) + path
			a = x.X
		case *ssa.IndexAddr:
			k, ok := x.Index.(*ssa.Const)
			if !ok {
				return nil, nil, "", false
			}
			path = fmt.Sprintf("[%d]", k.Int64()) + path
			a = x.X
		case *ssa.FreeVar:
			if cc.Closure == nil {
				return nil, nil, "", false
			}
			ok := false
			for i, o := range cc.Fn.FreeVars {
				if o == x {
					a, cc, ok = cc.Closure.Bindings[i], cc.CloCtx, true
					break
				}
			}
			if !ok {
				return nil, nil, "", false
			}
		default:
			return nil, nil, "", false
		}
	}
}

func ofScanner(fa *ssa.FieldAddr) bool { return typeName(derefType(fa.X.Type())) == "parser.scanner" }

func (c *charFlow) step(ins ssa.Instruction, cc *Ctx, s *cstate, node int) int {
	set := func(x ssa.Value, v cv) {
		delete(s.env, tkey{x, cc})
		if v.k != cOther || v.f != "" {
			s.env[tkey{x, cc}] = v
		}
	}
	switch x := ins.(type) {
	case *ssa.Extract, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface:
		delete(s.env, tkey{x.(ssa.Value), cc})
		set(x.(ssa.Value), c.val(s, x.(ssa.Value), cc))
	case *ssa.Alloc:
		pre := fldKey2(x, cc, "")
		for k := range s.fld {
			if strings.HasPrefix(k, pre) {
				delete(s.fld, k)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			switch v := c.val(s, x.X, cc); v.k {
			case cBool:
				set(x, cv{k: cBool, b: !v.b})
			case cPred:
				v.set = c.all &^ v.set
				set(x, v)
			}
			break
		}
		if x.Op != token.MUL {
			break
		}
		set(x, c.load(x, cc, s))
	case *ssa.Slice:
		if al, ac, path, ok := c.local(x.X, cc); ok {
			v := cv{k: cList}
			n := 0
			if at, isArr := derefType(al.Type()).Underlying().(*types.Array); isArr {
				n = int(at.Len())
			}
			for i := 0; i < n; i++ {
				v.flds = append(v.flds, cfld{fmt.Sprint(i), c.whole(s, al, ac, fmt.Sprintf("%s[%d]", path, i))})
			}
			set(x, v)
			break
		}
		v := c.val(s, x.X, cc)
		if v.k == cInput {
			t := cv{k: cText, f: "begin"}
			if x.Low != nil {
				lo := c.val(s, x.Low, cc)
				switch {
				case lo.k != cPos || lo.f != "current":
					t.f = "?"
				case lo.id == 0:
					t.f = fmt.Sprintf("start%+d", lo.n)
				case lo.n == 0:
					t.f, t.site = "(", lo.site
				default:
					t.f = "?"
				}
			}
			t.d = 3
			if x.High != nil {
				if hi := c.val(s, x.High, cc); hi.k == cPos && hi.f == "current" {
					t.d, t.n = hi.d, hi.n
					if hi.id == s.now {
						t.d = 0
					}
				}
			}
			set(x, t)
		}
		if v.k == cText {
			set(x, cv{k: cOther, f: "part of " + c.text(s, v)})
		}
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && ofScanner(fa) {
			v := c.val(s, x.Val, cc)
			switch n := fieldName(fa); n {
			case "start", "startLine", "startColumn":
				s.fld["scanner."+n] = v
			case "sexpLevel":
				if v.k != cLevel {
					c.fault(x, "sets the nesting level to something unknown")
					break
				}
				s.level = v.n
			case "tokens":
				if v.f != "" && v.k == cList {
					break // appended
				}
				c.fault(x, "changes the tokens found so far")
			default:
				c.fault(x, "changes "+n+" of the scanner")
			}
			break
		}
		if al, ac, path, ok := c.local(x.Addr, cc); ok {
			key := fldKey2(al, ac, path)
			for k := range s.fld {
				if strings.HasPrefix(k, key+".") {
					delete(s.fld, k)
				}
			}
			v := c.val(s, x.Val, cc)
			delete(s.fld, key)
			if v.k == cVal {
				for _, f := range v.flds {
					s.fld[key+f.name] = f.v
				}
			} else {
				s.fld[key] = v
			}
		}
	}
	return node
}

func fldKey2(a *ssa.Alloc, c *Ctx, path string) string { return fmt.Sprintf("%p.%p%s", c, a, path) }

// whole reads a local, with its fields.
func (c *charFlow) whole(s *cstate, al *ssa.Alloc, ac *Ctx, path string) cv {
	key := fldKey2(al, ac, path)
	if v, ok := s.fld[key]; ok {
		return v
	}
	v := cv{k: cVal}
	for k, f := range s.fld {
		if strings.HasPrefix(k, key) {
			v.flds = append(v.flds, cfld{k[len(key):], f})
		}
	}
	sort.Slice(v.flds, func(i, j int) bool { return v.flds[i].name < v.flds[j].name })
	if len(v.flds) == 0 {
		return cv{}
	}
	return v
}

func (c *charFlow) load(x *ssa.UnOp, cc *Ctx, s *cstate) cv {
	switch a := x.X.(type) {
	case *ssa.FieldAddr:
		if ofScanner(a) {
			st := fmt.Sprintf("%p/%p", x, cc)
			switch n := fieldName(a); n {
			case "current", "line", "column":
				return cv{k: cPos, f: n, id: s.now, site: st}
			case "start", "startLine", "startColumn":
				if v, ok := s.fld["scanner."+n]; ok {
					return v
				}
				return cv{k: cPos, f: map[string]string{"start": "current", "startLine": "line", "startColumn": "column"}[n], id: 0}
			case "input":
				return cv{k: cInput}
			case "sexpLevel":
				return cv{k: cLevel, n: s.level}
			default:
				return cv{f: n}
			}
		}
	case *ssa.IndexAddr:
		if c.val(s, a.X, cc).k == cInput {
			i := c.val(s, a.Index, cc)
			if i.k == cPos && i.f == "current" && (i.id == s.now || i.d < 3) {
				off := i.n - i.d
				if i.id == s.now {
					off = i.n
				}
				id := map[int]int{0: tCur, 1: tNext, -1: tPrev}
				if k, ok := id[off]; ok {
					if s.runes[k]&c.eof != 0 {
						c.fault(x, "can read past the end of the input")
					}
					return cv{k: cRune, id: k}
				}
			}
			return cv{}
		}
	}
	if al, ac, path, ok := c.local(x.X, cc); ok {
		return c.whole(s, al, ac, path)
	}
	return cv{}
}

func (c *charFlow) arith(x *ssa.BinOp, s *cstate, cc *Ctx) cv {
	a, b := c.val(s, x.X, cc), c.val(s, x.Y, cc)
	if x.Op == token.ADD && a.k == cInt && b.k != cInt {
		a, b = b, a
	}
	if b.k != cInt || x.Op != token.ADD && x.Op != token.SUB {
		return cv{}
	}
	n := b.n
	if x.Op == token.SUB {
		n = -n
	}
	switch a.k {
	case cPos, cLevel:
		a.n += n
		return a
	case cInt, cCount:
		if n == 1 {
			return cv{k: cCount}
		}
	}
	return cv{}
}

// decide lists the states in which a condition has this outcome.
func (c *charFlow) decide(s *cstate, cond ssa.Value, truth bool, cc *Ctx, node int) []cout {
	one := func(st *cstate) []cout {
		if st == nil {
			return nil
		}
		return []cout{{node: node, st: st}}
	}
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return c.decide(s, u.X, !truth, cc, node)
	}
	v := c.val(s, cond, cc)
	switch v.k {
	case cBool:
		if v.b == truth {
			return one(s)
		}
		return nil
	case cPred:
		set := v.set
		if !truth {
			set = c.all &^ set
		}
		return one(c.restrict(s, v.id, set))
	}
	x, ok := cond.(*ssa.BinOp)
	if !ok || !isCmp(x.Op) {
		return one(s)
	}
	a, b, op := c.val(s, x.X, cc), c.val(s, x.Y, cc), x.Op
	if a.k == cOther && b.k != cOther || a.k == cInt && b.k != cInt || a.k == cNil && b.k != cNil {
		a, b, op = b, a, mirror(op)
	}
	ky := x.Y
	if _, isK := x.X.(*ssa.Const); isK {
		ky = x.X
	}
	switch a.k {
	case cRune:
		k, ok := ky.(*ssa.Const)
		if !ok || k.Value == nil {
			return one(s)
		}
		n := rune(k.Int64())
		var set tset
		for i, iv := range c.reps {
			if runeCmp(op, iv[0], n) {
				set |= 1 << uint(i)
			}
		}
		if runeCmp(op, 0, n) {
			set |= c.eof
		}
		if !truth {
			set = c.all &^ set
		}
		return one(c.restrict(s, a.id, set))
	case cPos:
		if b.k == cLen && a.f == "current" && a.id == s.now {
			// the position against the end
			id, off := tCur, a.n
			switch op {
			case token.LSS, token.GEQ, token.EQL, token.NEQ:
			case token.GTR:
				off--
			case token.LEQ:
				off--
			}
			switch off {
			case 0:
			case 1:
				id = tNext
			default:
				return one(s)
			}
			atEnd := truth == (op == token.GEQ || op == token.GTR || op == token.EQL)
			if (op == token.EQL || op == token.NEQ) && off != 0 {
				return one(s)
			}
			if atEnd {
				return one(c.restrict(s, id, c.eof))
			}
			return one(c.restrict(s, id, c.all&^c.eof))
		}
	case cLevel:
		if b.k != cInt {
			return one(s)
		}
		n := b.n - a.n // compare the level at entry with this
		switch op {
		case token.GEQ:
			op, n = token.GTR, n-1
		case token.LSS:
			op, truth, n = token.GTR, !truth, n-1
		case token.LEQ:
			op, truth = token.GTR, !truth
		}
		if op == token.GTR {
			if c.lisp && n <= 0 && !truth || !c.lisp && n >= 0 && truth {
				return nil
			}
			if n == 0 || c.lisp && n < 0 || !c.lisp && n > 0 {
				return one(s)
			}
		}
		return []cout{{node: c.emit(node, fmt.Sprintf("level %s %d %v", op, n, truth)), st: s}}
	case cNil, cErr:
		if b.k == cNil && (op == token.EQL || op == token.NEQ) {
			if (a.k == cNil) == (op == token.EQL) == truth {
				return one(s)
			}
			return nil
		}
	case cNumErr:
		if b.k == cNil {
			w := "a number"
			if (op == token.EQL) != truth {
				w = "not a number"
			}
			return []cout{{node: c.emit(node, fmt.Sprintf("#%d is %s", s.nums-a.id, w)), st: s}}
		}
	case cNum:
		zero := false
		if k, ok := ky.(*ssa.Const); ok && k.Value != nil {
			zero = constant.Sign(constant.ToFloat(k.Value)) == 0
		}
		if zero {
			is := truth
			switch op {
			case token.EQL, token.LEQ:
			case token.NEQ, token.GTR:
				is = !truth
			default:
				return one(s)
			}
			w := "is zero"
			if !is {
				w = "is not zero"
			}
			return []cout{{node: c.emit(node, fmt.Sprintf("#%d %s", s.nums-a.id, w)), st: s}}
		}
	case cInt:
		if b.k == cInt && op == token.EQL {
			if (a.n == b.n) == truth {
				return one(s)
			}
			return nil
		}
	}
	return one(s)
}

func (c *charFlow) call(x *ssa.Call, cc *Ctx, s *cstate, node int) []cout {
	com := x.Common()
	name := calleeName(com)
	one := func(res ...cv) []cout { return []cout{{node, s, res}} }
	args := make([]cv, len(com.Args))
	for i, a := range com.Args {
		args[i] = c.val(s, a, cc)
	}
	where := func(line, col cv) string { return c.text(s, line) + " " + c.text(s, col) }
	switch name {
	case scanner + "peek":
		return one(cv{k: cRune, id: tCur})
	case scanner + "peekNext":
		return one(cv{k: cRune, id: tNext})
	case scanner + "reachedEOF":
		return one(cv{k: cPred, id: tCur, set: c.eof})
	case scanner + "eofIsNext":
		return one(cv{k: cPred, id: tNext, set: c.eof})
	case scanner + "advance":
		// a character that is looked at after it is consumed is followed by
		// itself
		held := len(*x.Referrers()) > 0
		s.mapAll(func(v cv) cv {
			held = held || (v.k == cRune || v.k == cPred) && v.id == tCur
			return v
		})
		sets := []tset{s.runes[tCur]}
		if held {
			if s.runes[tCur]&c.eof != 0 {
				c.fault(x, "can read past the end of the input")
			}
			sets = nil
			each(s.runes[tCur]&^c.eof, func(i int) { sets = append(sets, 1<<uint(i)) })
		}
		var outs []cout
		for _, set := range sets {
			one := c.restrict(s, tCur, set)
			if one == nil {
				continue
			}
			if n, st := c.eat(one, node, x); st != nil {
				outs = append(outs, cout{n, st, []cv{{k: cRune, id: tPrev}}})
			}
		}
		return outs
	case scanner + "match":
		k, ok := com.Args[1].(*ssa.Const)
		if !ok {
			c.broken = "a character to match is unknown at " + c.p.ipos(x)
			return nil
		}
		r := rune(k.Int64())
		var set tset
		for i, iv := range c.reps {
			if iv[0] == r {
				set |= 1 << uint(i)
			}
		}
		var outs []cout
		if hit := c.restrict(s, tCur, set); hit != nil {
			n, st := c.eat(hit, node, x)
			if st != nil {
				outs = append(outs, cout{n, st, []cv{{k: cBool, b: true}}})
			}
		}
		if miss := c.restrict(s, tCur, c.all&^set); miss != nil {
			outs = append(outs, cout{node, miss, []cv{{k: cBool}}})
		}
		return outs
	case scanner + "addToken":
		n := c.emit(node, "token "+c.text(s, args[1])+" "+c.text(s, args[2]))
		return []cout{{n, s, []cv{{}}}}
	case scanner + "unexpectedCharError":
		return one(cv{k: cErr, f: "error about the " + c.text(s, args[1]) + " at " + where(args[3], args[4])})
	case scanner + "errorAtPosition":
		return one(cv{k: cErr, f: "error at " + where(args[1], args[2])})
	case scanner + "scanToken":
		if c.scanSub {
			for f, w := range map[string]string{"start": "current", "startLine": "line", "startColumn": "column"} {
				if v := s.fld["scanner."+f]; v.k != cPos || v.f != w || v.id != s.now || v.n != 0 {
					c.fault(x, "scans a token without setting "+f+" to where it starts")
				}
			}
			if s.runes[tCur]&c.eof != 0 {
				c.fault(x, "scans a token at the end of the input")
			}
			c.calls++
			st := s.clone()
			st.now++
			st.runes[tCur], st.runes[tNext], st.runes[tPrev] = c.all, c.all, c.all
			n := c.emit(node, "scan")
			return []cout{{n, st, []cv{{k: cNil}}}, {n, st, []cv{{k: cErr, f: "error of the token"}}}}
		}
	case "parser.newScanner":
		if c.scanSub {
			return one(cv{f: "the scanner"})
		}
	case "strconv.ParseInt", "strconv.ParseFloat", "strconv.Atoi", "strconv.ParseUint":
		what := map[string]string{"strconv.ParseInt": "int", "strconv.ParseFloat": "float", "strconv.Atoi": "word-int", "strconv.ParseUint": "uint"}[name]
		for _, a := range args[1:] {
			what += " " + fmt.Sprint(a.n)
		}
		n := c.emit(node, what+" "+c.text(s, args[0]))
		st := s.clone()
		st.nums++
		return []cout{{n, st, []cv{{k: cNum, id: st.nums, f: strings.Fields(what)[0]}, {k: cNumErr, id: st.nums}}}}
	case "len":
		if args[0].k == cInput {
			return one(cv{k: cLen})
		}
		return one(cv{})
	case "append":
		l := "append"
		if len(args) > 1 && args[1].k == cList {
			for _, e := range args[1].flds {
				l += " " + c.text(s, e.v)
			}
		} else {
			l += " ?"
		}
		return []cout{{c.emit(node, l), s, []cv{{k: cList, f: "added to"}}}}
	}
	if str, ok := containsRune(x); ok && args[1].k == cRune && name == "strings.ContainsRune" {
		var set tset
		for i, iv := range c.reps {
			if strings.ContainsRune(str, iv[0]) {
				set |= 1 << uint(i)
			}
		}
		if strings.ContainsRune(str, 0) {
			set |= c.eof
		}
		return one(cv{k: cPred, id: args[1].id, set: set})
	}
	callee := c.p.callee(x, cc)
	var fn *ssa.Function
	if callee != nil {
		fn = callee.Fn
	}
	if fn == nil && !com.IsInvoke() {
		if v := c.val(s, com.Value, cc); v.fn != nil {
			fn = v.fn
			callee = nil
		}
	}
	if fn != nil && runePred(fn.Signature) && len(args) == 1 {
		if set, ok := c.preds[fn]; ok && args[0].k == cRune {
			return one(cv{k: cPred, id: args[0].id, set: set})
		}
	}
	if callee != nil && relPkg(callee.Fn) == "parser" && callee.Fn.Blocks != nil {
		return c.invoke(callee, s, node, args)
	}
	for i, a := range com.Args {
		if typeName(derefType(a.Type())) == "parser.scanner" {
			c.broken = fmt.Sprintf("the scanner is given away (argument %d) at %s", i, c.p.ipos(x))
		}
	}
	return one(make([]cv, com.Signature().Results().Len())...)
}
