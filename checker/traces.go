package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Trace extraction: the sequences of effects a function can have, as an
// automaton whose labels are the effects (calls that are not looked into,
// stores to memory that outlives the function, what is returned) in canonical
// terms. It is worked out by a forward dataflow analysis over the inlined
// control flow graph whose facts are: the canonical term of every live value,
// the contents of the objects made on the way, and the branch conditions known.
// Points with equal facts are one node of the automaton. Terms that change in
// a loop are widened when the loop comes round.

type traceSpec struct {
	Args     []string // names of the root's parameters
	Closed   []string // functions that are not looked into (globs on names)
	Pure     []string // calls of no interest
	Impure   []string // calls of interest that otherwise are not
	Recvs    bool     // receiving from a channel is an event
	Steps    bool     // what a loop does to a number it carries is an event
	Builds   []string // types of elements: adding one to a list is an event
	Mut      map[string][]int
	Volatile []string // locations that others change at any time
	Given    []string // conditions shown with every event they are known at
	Events   [][2]string
	Conds    [][2]string
	GivenAt  []string        // the events (globs) they are shown with; all when empty
	GoInline bool            // what a goroutine does is followed where it is started
	AnyTurn  bool            // with Turn: not the first one
	Quiet    bool            // with Turn: a turn in which nothing happens does not count
	Maybe    string          // what it may, but need not, be able to do
	Turn     bool            // only one turn of a loop of the function itself is followed
	Subst    map[string]*E   // terms that are known in this case
	Assume   map[string]bool // conditions (globs) that are known in this case
	Commute  [][]string      // events whose order does not matter when they come one after the other
	MaxNodes int
}

var tracePure = []string{
	"fmt.Sprint…", "fmt.Errorf", "errors.…", "strings.…", "strconv.…", "math.…", "time.Now", "time.After", "time.Sleep", "time.Unix", "time.Since",
	"(time.…", "(*time.…", "unicode.…", "path/filepath.Join", "path/filepath.Dir", "path/filepath.Base", "path/filepath.Ext", "reflect.…", "inv:Error", "github.com/rs/zerolog…",
	"(*github.com/rs/zerolog…", "(github.com/rs/zerolog…", "logging.…", "log.…", "len", "cap", "min", "max", "text.…", "color.…", "github.com/logrusorgru/aurora…", "(github.com/logrusorgru/aurora…", "inv:String",
	"(*regexp.Regexp).…", "regexp.…", "(error).Error", "sort.…", "runtime.…", "(reflect…", "(*strings.Builder)…", "ssa:…", "recover",
}

type tobj struct {
	typ    types.Type
	kind   string // "map", "struct", "array", "var"
	before bool   // from before the loop that is followed for one turn
	cells  map[string]*E
}

type tfr struct {
	fn     *ssa.Function
	vals   map[ssa.Value]*E
	call   *ssa.Call // in the frame below; nil for a deferred call
	blk    *ssa.BasicBlock
	idx    int
	defers []tdefer
}

type tdefer struct {
	com  *ssa.CallCommon
	fn   *E
	args []*E
	pos  token.Pos
}

type tst struct {
	fr      []*tfr
	heap    map[string]*tobj
	mem     map[string]*E
	known   map[string]bool
	mut     map[string]int
	heads   map[string]map[string]string
	pend    []string // events held back, of one group
	node    int
	turning bool
	said    bool // since the loop was entered
}

func (s *tst) clone() *tst {
	n := &tst{heap: map[string]*tobj{}, mem: map[string]*E{}, known: map[string]bool{}, mut: map[string]int{}, heads: map[string]map[string]string{}, node: s.node, turning: s.turning, said: s.said, pend: append([]string{}, s.pend...)}
	for _, f := range s.fr {
		g := *f
		g.vals = map[ssa.Value]*E{}
		for k, v := range f.vals {
			g.vals[k] = v
		}
		g.defers = append([]tdefer{}, f.defers...)
		n.fr = append(n.fr, &g)
	}
	for k, o := range s.heap {
		c := &tobj{o.typ, o.kind, o.before, map[string]*E{}}
		for a, v := range o.cells {
			c.cells[a] = v
		}
		n.heap[k] = c
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	for k, v := range s.mut {
		n.mut[k] = v
	}
	for k, v := range s.heads {
		n.heads[k] = v
	}
	return n
}

type tracer struct {
	conds map[string]bool // what is asked on the way
	p     *Prog
	spec  traceSpec
	g     *nfa
	nodes map[string]int
	work  []*tst
	where map[string]token.Pos
	raw   map[string]string
	flow  *tokFlow // for liveness
	steps int
	full  bool

	globals map[string]map[string]*E
	start   []*E // the parameters of the root
}

// traces builds the automaton of a function.
func (p *Prog) traces(f *ssa.Function, spec traceSpec) *tracer {
	t := &tracer{conds: map[string]bool{}, p: p, spec: spec, g: newNFA(), nodes: map[string]int{}, where: map[string]token.Pos{}, raw: map[string]string{}}
	t.flow = &tokFlow{live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	if t.spec.MaxNodes == 0 {
		t.spec.MaxNodes = 20000
	}
	s := &tst{heap: map[string]*tobj{}, mem: map[string]*E{}, known: map[string]bool{}, mut: map[string]int{}, heads: map[string]map[string]string{}}
	fr := &tfr{fn: f, vals: map[ssa.Value]*E{}, blk: f.Blocks[0]}
	k := 0
	for i, q := range f.Params {
		n := ""
		if i < len(spec.Args) {
			n = spec.Args[i]
		} else if i == 0 && f.Signature.Recv() != nil {
			n = "recv"
		} else {
			n = fmt.Sprintf("arg%d", k)
		}
		if !(i == 0 && f.Signature.Recv() != nil) {
			k++
		}
		fr.vals[q] = &E{Op: "par", S: n}
	}
	t.start = []*E{}
	for _, q := range f.Params {
		t.start = append(t.start, fr.vals[q])
	}
	for _, q := range f.FreeVars {
		fr.vals[q] = &E{Op: "par", S: "free:" + q.Name()}
	}
	s.fr = []*tfr{fr}
	t.work = []*tst{s}
	for len(t.work) > 0 {
		s := t.work[len(t.work)-1]
		t.work = t.work[:len(t.work)-1]
		t.advance(s)
		if len(t.nodes) > t.spec.MaxNodes {
			t.full = true
			break
		}
	}
	return t
}

func (t *tracer) name(s string, table [][2]string) (string, bool) {
	for _, e := range table {
		if glob(e[1], s) {
			return e[0], true
		}
	}
	return "", false
}

// emit adds an event to the automaton.
func (t *tracer) emit(s *tst, text string, pos token.Pos) {
	text = sortPairs(norm(text))
	if len(t.spec.Given) > 0 && (len(t.spec.GivenAt) == 0 || globAny(text, t.spec.GivenAt...)) {
		var g []string
		for a, v := range s.known {
			a = norm(a)
			if globAny(a, t.spec.Given...) {
				g = append(g, map[bool]string{true: "T:", false: "F:"}[v]+a)
			}
		}
		sort.Strings(g)
		if len(g) > 0 {
			text += " if " + strings.Join(g, " ")
		}
	}
	n, ok := t.name(text, t.spec.Events)
	if ok && n == "-" {
		return
	}
	if !ok {
		n = "«" + trim(text, 400) + "»"
	}
	t.raw[n] = text
	t.label(s, n, pos)
}

func (t *tracer) label(s *tst, l string, pos token.Pos) {
	if _, ok := t.where[l]; !ok {
		t.where[l] = pos
	}
	s.said = true
	for _, g := range t.spec.Commute {
		if in(l, g...) {
			if len(s.pend) > 0 && !in(s.pend[0], g...) {
				t.flush(s)
			}
			s.pend = append(s.pend, l)
			sort.Strings(s.pend)
			return
		}
	}
	t.flush(s)
	n := t.g.node()
	t.g.edge(s.node, l, n)
	s.node = n
}

// flush lets the events held back happen.
func (t *tracer) flush(s *tst) {
	for _, l := range s.pend {
		n := t.g.node()
		t.g.edge(s.node, l, n)
		s.node = n
	}
	s.pend = nil
}

// done: the end of a way through the function.
func (t *tracer) done(s *tst) {
	t.flush(s)
	t.g.edge(s.node, "", 1)
}

func (s *tst) top() *tfr { return s.fr[len(s.fr)-1] }

// key identifies the facts at the start of a block.
func (t *tracer) key(s *tst) string {
	var b strings.Builder
	for i, f := range s.fr {
		fmt.Fprintf(&b, "%p/%d/%d;", f.fn, f.blk.Index, f.idx)
		live := t.flow.liveness(f.fn)[f.blk]
		var ks []string
		for v, e := range f.vals {
			if i < len(s.fr)-1 || live[v] {
				ks = append(ks, v.Name()+"="+e.String())
			}
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
		for _, d := range f.defers {
			fmt.Fprintf(&b, "d%p", d.com)
		}
	}
	b.WriteString(strings.Join(s.pend, "&"))
	if t.spec.Quiet {
		fmt.Fprint(&b, s.said)
	}
	var ks []string
	for k, o := range s.heap {
		for a, v := range o.cells {
			ks = append(ks, "h"+k+a+"="+v.String())
		}
	}
	for k, v := range s.mem {
		ks = append(ks, "m"+k+"="+v.String())
	}
	for k, v := range s.known {
		ks = append(ks, fmt.Sprint("k", k, v))
	}
	for k, v := range s.mut {
		ks = append(ks, fmt.Sprint("u", k, v))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, ";"))
	return b.String()
}

func iterBound(s string) bool {
	for _, x := range []string{"elem(", "ind:", "more(", "key(", "val(", "recv:", "loop:", "select"} {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

// jump enters a block; false when the point was reached with the same facts
// before.
func (t *tracer) jump(s *tst, to *ssa.BasicBlock) bool {
	f := s.top()
	from := f.blk
	k := 0
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	back := to.Dominates(from)
	head := fmt.Sprintf("%d/%p/%d", len(s.fr), f.fn, to.Index)
	nv := map[ssa.Value]*E{}
	if t.lists() && !back {
		// what the loop runs over, to see whether it is known
		for _, i := range to.Instrs {
			switch x := i.(type) {
			case *ssa.FieldAddr, *ssa.Field:
				v := i.(ssa.Value)
				f.vals[v] = t.subst(t.value(s, v, f))
			case *ssa.UnOp:
				if x.Op == token.MUL {
					f.vals[x] = t.subst(t.value(s, x, f))
				}
			}
		}
	}
	for _, i := range to.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if _, _, ind := induction(ph); ind && !t.counted(to, f) {
			nv[ph] = mk("ind", ph.Name())
			continue
		}
		nv[ph] = t.eval(ph.Edges[k], f)
	}
	if t.spec.Quiet && len(s.fr) == 1 && isHead(to) {
		if back && t.spec.Turn && !s.said {
			return false
		}
		s.said = false
	}
	turning := t.spec.AnyTurn && len(s.fr) == 1 && !back && !s.turning
	if turning {
		turning = isHead(to)
	}
	if turning {
		s.turning = true
		for v, e := range nv {
			if e.Op == "ind" {
				continue
			}
			nv[v] = &E{Op: "loop", S: "v" + v.Name(), T: v.Type()}
		}
		for h, o := range s.heap {
			for a, v := range o.cells {
				if o.kind == "var" {
					o.before = true
					o.cells[a] = &E{Op: "loop", S: "h" + h + a, T: v.T}
				}
			}
		}
	}
	if back && t.spec.Turn && len(s.fr) == 1 {
		if t.spec.AnyTurn {
			var next []string
			for v, e := range nv {
				if at := "loop:v" + v.Name() + "()"; e.String() != at && e.Op != "ind" {
					next = append(next, "next "+at+" := "+t.show(s, e))
				}
			}
			for h, o := range s.heap {
				for a, e := range o.cells {
					if at := "loop:h" + h + a + "()"; o.kind == "var" && o.before && e.String() != at {
						next = append(next, "next "+at+" := "+t.show(s, e))
					}
				}
			}
			sort.Strings(next)
			for _, n := range next {
				t.emit(s, n, token.NoPos)
			}
		}
		t.label(s, "again", token.NoPos)
		t.done(s)
		return false
	}
	if back && t.spec.Steps {
		var next []string
		for v, e := range nv {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && e.Op != "ind" && f.vals[v] != nil && f.vals[v].String() != e.String() && !t.counted(to, f) {
				next = append(next, "step "+v.Name()+" := "+t.show(s, e))
			}
		}
		sort.Strings(next)
		for _, n := range next {
			t.emit(s, n, token.NoPos)
		}
	}
	if back && !t.counted(to, f) {
		for a := range s.known {
			if iterBound(a) {
				delete(s.known, a)
			}
		}
		old := s.heads[head]
		wide := func(k string, e *E) *E {
			if o, ok := old[k]; !ok || o == e.String() {
				return e
			}
			if e.Op == "loop" && e.S == k || t.settled(e) {
				return e
			}
			return &E{Op: "loop", S: k, T: e.T}
		}
		for v, e := range nv {
			nv[v] = wide("v"+v.Name(), e)
		}
		for h, o := range s.heap {
			for a, v := range o.cells {
				o.cells[a] = wide("h"+h+a, v)
			}
		}
		for m, v := range s.mem {
			s.mem[m] = wide("m"+m, v)
		}
		for m := range s.mut {
			if s.mut[m] > 1 {
				s.mut[m] = 1
			}
		}
	} else if !back {
		snap := map[string]string{}
		for v, e := range nv {
			snap["v"+v.Name()] = e.String()
		}
		for h, o := range s.heap {
			for a, v := range o.cells {
				snap["h"+h+a] = v.String()
			}
		}
		for m, v := range s.mem {
			snap["m"+m] = v.String()
		}
		s.heads[head] = snap
	}
	for v, e := range nv {
		f.vals[v] = e
	}
	f.blk, f.idx = to, 0
	if len(to.Preds) > 1 {
		key := t.key(s)
		if n, ok := t.nodes[key]; ok {
			t.g.edge(s.node, "", n)
			return false
		}
		n := t.g.node()
		t.g.edge(s.node, "", n)
		t.nodes[key] = n
		s.node = n
	}
	return true
}

// settled: a value that is one of few, however often the loop is run. Where a
// list is known in this case, so are the positions in it, and what is left of it.
func (t *tracer) settled(e *E) bool {
	if t.lists() {
		n, err := strconv.Atoi(e.S)
		if e.Op == "const" && err == nil && 0 <= n && n <= 8 || e.Op == "slicelit" && len(e.A) <= 8 {
			return true
		}
	}
	return e.Op == "const" && (in(e.S, "true", "false") || len(e.S) <= 4 && strings.HasPrefix(e.S, `"`)) || e.Op == "elem" && !strings.Contains(e.String(), "loop:")
}

// counted: the loop runs a small number of times that is known, so its turns
// are followed one by one.
func (t *tracer) counted(head *ssa.BasicBlock, f *tfr) bool {
	br, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := br.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.LSS && b.Op != token.LEQ {
		return false
	}
	from, step, ind := induction(b.X)
	if !ind || step < 1 {
		return false
	}
	if c, isC := b.Y.(*ssa.Call); isC && c.Block() == head {
		if bi, isB := c.Call.Value.(*ssa.Builtin); isB && bi.Name() == "len" {
			if x := t.subst(t.eval(c.Call.Args[0], f)); x.Op == "slicelit" {
				return len(x.A) <= 8
			}
		}
		return false
	}
	n := t.eval(b.Y, f)
	k := int64(0)
	if _, err := fmt.Sscan(n.S, &k); n.Op != "const" || err != nil {
		return false
	}
	return k-from <= 8
}

// tooBig: the memory that is used has become too much: give up, and say so,
// before the process is ended for it.
func tooBig() bool {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc > 10<<30
}

// subst: what a term stands for in this case.
func (t *tracer) subst(e *E) *E {
	if r := t.spec.Subst[norm(e.String())]; r != nil {
		return r
	}
	return e
}

// lists: whether some list is known in this case.
func (t *tracer) lists() bool {
	for _, e := range t.spec.Subst {
		if e.Op == "slicelit" {
			return true
		}
	}
	return false
}

func zeroOf(ty types.Type) *E {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &E{Op: "const", S: `""`, T: ty}
		case u.Info()&types.IsBoolean != 0:
			return &E{Op: "const", S: "false", T: ty}
		case u.Info()&types.IsNumeric != 0:
			return &E{Op: "const", S: "0", T: ty}
		}
		return mk("const", "nil")
	case *types.Struct, *types.Array:
		return &E{Op: "const", S: "zero", T: ty}
	}
	return mk("const", "nil")
}

func (t *tracer) eval(v ssa.Value, f *tfr) *E {
	switch v := v.(type) {
	case *ssa.Const:
		e := mk("const", constStr(v))
		if !types.IsInterface(v.Type()) && v.Value != nil {
			e.T = v.Type()
		}
		return e
	case *ssa.Function:
		return &E{Op: "fn", S: fname(v), V: v}
	case *ssa.Global:
		return mk("g", short(v.Pkg.Pkg.Path())+"."+v.Name())
	case *ssa.Builtin:
		return mk("g", "builtin."+v.Name())
	}
	if e := f.vals[v]; e != nil {
		return e
	}
	return &E{Op: "opaque", S: "?" + v.Name()}
}

// rootObj: the object a location is part of, and the path to it there.
func rootObj(e *E) (string, string, bool) {
	path := ""
	for {
		switch e.Op {
		case "obj":
			return e.S, path, true
		case "fld":
			if path == "" {
				path = e.S
			} else {
				path = e.S + "." + path
			}
			e = e.A[0]
		default:
			return "", "", false
		}
	}
}

func (t *tracer) load(s *tst, loc *E, ty types.Type) *E {
	if id, path, ok := rootObj(loc); ok {
		o := s.heap[id]
		if o == nil {
			return &E{Op: "opaque", S: "?" + id}
		}
		if o.kind == "map" {
			return loc
		}
		return t.cell(o, path, ty)
	}
	k := loc.String()
	if e := s.mem[k]; e != nil {
		return e
	}
	if globAny(k, t.spec.Volatile...) {
		t.forget(s, k)
	}
	// part of something stored as a whole
	fields := []string{}
	for x := loc; x.Op == "fld"; x = x.A[0] {
		fields = append([]string{x.S}, fields...)
		if e := s.mem[x.A[0].String()]; e != nil {
			for _, f := range fields {
				e = t.fieldVal(s, e, f, ty)
			}
			return e
		}
	}
	return t.now(s, loc)
}

// now marks what has been changed by a call since the start.
func (t *tracer) now(s *tst, e *E) *E {
	if n := s.mut[e.String()]; n > 0 {
		return &E{Op: "par", S: e.String() + strings.Repeat("'", n), T: e.T}
	}
	switch e.Op {
	case "fld", "elem", "ix", "lk":
		b := t.now(s, e.A[0])
		if b != e.A[0] {
			c := *e
			c.str = ""
			c.A = append([]*E{b}, e.A[1:]...)
			return &c
		}
	}
	return e
}

func (t *tracer) cell(o *tobj, path string, ty types.Type) *E {
	if e := o.cells[path]; e != nil && path != "" {
		return e
	}
	// parts stored one by one
	var parts []string
	pre := path + "."
	if path == "" {
		pre = ""
	}
	for k := range o.cells {
		if k != "" && strings.HasPrefix(k, pre) {
			parts = append(parts, k)
		}
	}
	whole := o.cells[path]
	if whole == nil && path != "" {
		// a part of what was stored as a whole
		for i := len(path); i >= 0; i-- {
			if i < len(path) && (i == 0 || path[i] == '.') {
				if e := o.cells[path[:i]]; e != nil {
					for _, f := range strings.Split(strings.TrimPrefix(path[i:], "."), ".") {
						e = t.fieldVal(nil, e, f, ty)
					}
					whole = e
					break
				}
			}
		}
	}
	if len(parts) == 0 {
		if whole != nil {
			return whole
		}
		return zeroOf(ty)
	}
	sort.Strings(parts)
	st := &E{Op: "struct", S: typeName(ty), T: ty}
	if whole != nil && whole.Op == "struct" {
		for _, f := range whole.A {
			if o.cells[pre+f.S] == nil {
				st.A = append(st.A, f)
			}
		}
	} else if whole != nil && whole.Op != "const" {
		st.A = append(st.A, mk("=", "*", whole))
	}
	for _, k := range parts {
		st.A = append(st.A, mk("=", k[len(pre):], o.cells[k]))
	}
	sort.SliceStable(st.A, func(i, j int) bool { return st.A[i].S < st.A[j].S })
	return st
}

func (t *tracer) fieldVal(s *tst, x *E, f string, ty types.Type) *E {
	switch x.Op {
	case "struct":
		var rest *E
		for _, a := range x.A {
			if a.S == f {
				return a.A[0]
			}
			if a.S == "*" {
				rest = a.A[0]
			}
		}
		if rest != nil {
			return t.fieldVal(s, rest, f, ty)
		}
		sub := &E{Op: "struct", S: typeName(ty), T: ty}
		for _, a := range x.A {
			if strings.HasPrefix(a.S, f+".") {
				sub.A = append(sub.A, mk("=", a.S[len(f)+1:], a.A[0]))
			}
		}
		if len(sub.A) > 0 {
			return sub
		}
		return zeroOf(ty)
	case "const":
		return zeroOf(ty)
	case "obj":
		return t.load(s, &E{Op: "fld", S: f, A: []*E{x}}, ty)
	}
	return &E{Op: "fld", S: f, A: []*E{x}, T: ty}
}

func (t *tracer) store(s *tst, loc, val *E, pos token.Pos) {
	if id, path, ok := rootObj(loc); ok {
		o := s.heap[id]
		if o == nil {
			return
		}
		for k := range o.cells {
			if path == "" || strings.HasPrefix(k, path+".") {
				delete(o.cells, k)
			}
		}
		if path == "" && val.Op == "const" && val.S == "zero" {
			delete(o.cells, path) // as it was made
			return
		}
		o.cells[path] = val
		return
	}
	if loc.Op == "opaque" || loc.Op == "loop" {
		t.emit(s, loc.String()+" := "+t.show(s, val), pos)
		return
	}
	k := loc.String()
	was := k
	if e := s.mem[k]; e != nil {
		was = t.show(s, e)
	}
	if v := t.show(s, val); v != was || globAny(k, t.spec.Volatile...) {
		t.emit(s, k+" := "+v, pos)
	}
	for m := range s.mem {
		if strings.HasPrefix(m, k+".") {
			delete(s.mem, m)
		}
	}
	if loc.Op == "elem" || loc.Op == "ix" || globAny(k, t.spec.Volatile...) {
		t.forget(s, k)
		return
	}
	// from here on it reads as this value, and its name as what it was before
	s.mem[k] = val
}

// forget drops what is known about a location that has changed.
func (t *tracer) forget(s *tst, k string) {
	for a := range s.known {
		if strings.Contains(a, k) {
			delete(s.known, a)
		}
	}
}

// show spells a term out, with the contents of the objects in it.
func (t *tracer) show(s *tst, e *E) string { return t.spell(s, t.now(s, e), 6).String() }

func (t *tracer) spell(s *tst, e *E, n int) *E {
	if n == 0 {
		return e
	}
	switch e.Op {
	case "obj":
		o := s.heap[e.S]
		if o == nil {
			return e
		}
		var ks []string
		for k := range o.cells {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var parts []string
		for _, k := range ks {
			v := t.spell(s, o.cells[k], n-1).String()
			switch {
			case o.kind == "map":
				parts = append(parts, strings.TrimPrefix(k, "k:")+": "+v)
			case k == "":
				parts = append(parts, v)
			case in(v, "nil", `""`, "0", "false", "zero"):
			default:
				parts = append(parts, k+"="+v)
			}
		}
		name := typeName(derefType(o.typ))
		if o.kind == "map" {
			name = "map"
		}
		if o.kind == "var" && len(parts) == 1 {
			return mk("const", parts[0])
		}
		if _, ok := derefType(o.typ).Underlying().(*types.Struct); ok && len(ks) == 1 && ks[0] == "" {
			return mk("const", parts[0]) // copied as a whole
		}
		return mk("const", name+"{"+strings.Join(parts, ", ")+"}")
	case "struct":
		var parts []string
		for _, a := range e.A {
			v := t.spell(s, a.A[0], n-1).String()
			if !in(v, "nil", `""`, "0", "false", "zero") {
				parts = append(parts, a.S+"="+v)
			}
		}
		return mk("const", e.S+"{"+strings.Join(parts, ", ")+"}")
	case "slicelit":
		var parts []string
		for _, a := range e.A {
			parts = append(parts, t.spell(s, t.now(s, a), n-1).String())
		}
		return mk("const", "["+strings.Join(parts, ", ")+"]")
	case "closure":
		var parts []string
		for _, a := range e.A {
			parts = append(parts, t.spell(s, a, n-1).String())
		}
		return mk("const", e.S+"["+strings.Join(parts, ", ")+"]")
	}
	if len(e.A) == 0 {
		return e
	}
	c := *e
	c.str = ""
	c.A = nil
	for _, a := range e.A {
		c.A = append(c.A, t.spell(s, a, n))
	}
	return &c
}

func (t *tracer) nonNil(e *E) bool {
	switch e.Op {
	case "obj", "closure", "fn", "struct", "slicelit":
		return true
	case "call":
		return in(e.S, "fmt.Errorf", "errors.New")
	case "const":
		return e.S != "nil"
	case "fld":
		_, _, ok := rootObj(e)
		return ok
	}
	return false
}

// fold decides a condition whose operands are known.
func (t *tracer) fold(e *E) *E {
	yes := func(b bool) *E { return mk("const", fmt.Sprint(b)) }
	switch {
	case e.Op == "un" && e.S == "!":
		x := t.fold(e.A[0])
		if x.Op == "const" && in(x.S, "true", "false") {
			return yes(x.S == "false")
		}
		if x.Op == "un" && x.S == "!" {
			return x.A[0]
		}
		return mk("un", "!", x)
	case e.Op == "bin" && len(e.A) == 2:
		x, y := e.A[0], e.A[1]
		switch e.S {
		case "==":
			if x.Op == "const" && y.Op == "const" {
				return yes(x.S == y.S)
			}
			if x.Op == "const" && x.S == "nil" && t.nonNil(y) || y.Op == "const" && y.S == "nil" && t.nonNil(x) {
				return yes(false)
			}
			if x.String() == y.String() && !strings.Contains(x.String(), "?") && x.Op != "struct" {
				return yes(true)
			}
			if x.Op == "const" && x.S == "true" {
				return y
			}
			if x.Op == "const" && x.S == "false" {
				return t.fold(mk("un", "!", y))
			}
			for i, k := range []*E{x, y} {
				o := []*E{y, x}[i]
				if k.Op == "const" && k.S == "0" && o.Op == "call" && o.S == "len" {
					return mk("un", "!", mk("bin", "<", k, o))
				}
				if k.Op == "const" && k.S == `""` {
					return mk("un", "!", mk("bin", "<", mk("const", "0"), mk("call", "len", o)))
				}
			}
		case "<", "<=":
			if x.Op == "const" && y.Op == "const" {
				if a, b, ok := ints(x, y); ok {
					return yes(a < b || e.S == "<=" && a == b)
				}
			}
			if e.S == "<" && x.Op == "call" && x.S == "len" && y.Op == "const" && y.S == "1" {
				return mk("un", "!", mk("bin", "<", mk("const", "0"), x))
			}
			if e.S == "<=" {
				return mk("un", "!", mk("bin", "<", y, x))
			}
		case "-":
			if a, b, ok := ints(x, y); ok {
				return &E{Op: "const", S: fmt.Sprint(a - b), T: x.T}
			}
		case "%", "/":
			if a, b, ok := ints(x, y); ok && b != 0 && t.lists() {
				if e.S == "%" {
					return &E{Op: "const", S: fmt.Sprint(a % b), T: x.T}
				}
				return &E{Op: "const", S: fmt.Sprint(a / b), T: x.T}
			}
		case "+":
			if a, b, ok := ints(x, y); ok {
				return &E{Op: "const", S: fmt.Sprint(a + b), T: x.T}
			}
			if x.Op == "const" && y.Op == "const" && strings.HasPrefix(x.S, `"`) && strings.HasPrefix(y.S, `"`) {
				a, b := constant.MakeFromLiteral(x.S, token.STRING, 0), constant.MakeFromLiteral(y.S, token.STRING, 0)
				if a.Kind() == constant.String && b.Kind() == constant.String {
					return &E{Op: "const", S: constant.BinaryOp(a, token.ADD, b).ExactString(), T: x.T}
				}
			}
		}
	}
	return e
}

func ints(x, y *E) (a, b int64, ok bool) {
	if x.Op != "const" || y.Op != "const" {
		return
	}
	p, q := constant.MakeFromLiteral(x.S, token.INT, 0), constant.MakeFromLiteral(y.S, token.INT, 0)
	if p.Kind() != constant.Int || q.Kind() != constant.Int {
		if _, err := fmt.Sscanf(x.S+" "+y.S, "%d %d", &a, &b); err != nil || fmt.Sprint(a) != x.S || fmt.Sprint(b) != y.S {
			return 0, 0, false
		}
		return a, b, true
	}
	a, _ = constant.Int64Val(p)
	b, _ = constant.Int64Val(q)
	return a, b, true
}

// advance follows one state to the next fork.
func (t *tracer) advance(s *tst) {
	for {
		if t.steps++; t.steps > 3000000 || t.steps%20000 == 0 && tooBig() {
			t.full = true
			return
		}
		f := s.top()
		if f.idx >= len(f.blk.Instrs) {
			return
		}
		ins := f.blk.Instrs[f.idx]
		f.idx++
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			if !t.jump(s, f.blk.Succs[0]) {
				return
			}
		case *ssa.If:
			cond := t.fold(t.eval(x.Cond, f))
			if cond.Op == "const" && in(cond.S, "true", "false") {
				if !t.jump(s, f.blk.Succs[map[string]int{"true": 0, "false": 1}[cond.S]]) {
					return
				}
				continue
			}
			pol := true
			if cond.Op == "un" && cond.S == "!" {
				cond, pol = cond.A[0], false
			}
			a := t.spell(s, cond, 3).String()
			for g, v := range t.spec.Assume {
				if glob(g, norm(a)) {
					s.known[a] = v
				}
			}
			if v, ok := s.known[a]; ok {
				k := 1
				if v == pol {
					k = 0
				}
				if !t.jump(s, f.blk.Succs[k]) {
					return
				}
				continue
			}
			t.conds[norm(a)] = true
			n, watched := t.name(norm(a), t.spec.Conds)
			if os.Getenv("CHK_CONDLOG") != "" && !watched {
				fmt.Fprintln(os.Stderr, "cond", norm(a))
			}
			for k := 0; k < 2; k++ {
				q := s.clone()
				truth := (k == 0) == pol
				q.known[a] = truth
				if watched && n != "-" {
					// "!name" is for what holds when the condition does not
					t.label(q, strings.TrimPrefix(n, "!")+map[bool]string{true: "+", false: "-"}[truth != strings.HasPrefix(n, "!")], x.Cond.Pos())
				}
				if t.jump(q, f.blk.Succs[k]) {
					t.work = append(t.work, q)
				}
			}
			return
		case *ssa.Return:
			var res []*E
			for _, r := range x.Results {
				res = append(res, t.eval(r, f))
			}
			if len(s.fr) == 1 {
				var ts []string
				for _, r := range res {
					v := t.show(s, r)
					if t.isNil(s, v) {
						v = "nil"
					}
					ts = append(ts, v)
				}
				t.emit(s, "ret "+strings.Join(ts, ", "), x.Pos())
				t.done(s)
				return
			}
			s.fr = s.fr[:len(s.fr)-1]
			if f.call != nil {
				t.bind(s, f.call, res)
			}
		case *ssa.Panic:
			t.emit(s, "panic "+t.show(s, t.eval(x.X, f)), x.Pos())
			t.done(s)
			return
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				f.idx-- // again, for the rest
				t.invoke(s, d.com, d.fn, d.args, nil, d.pos)
			}
		case *ssa.Defer:
			f.defers = append(f.defers, tdefer{&x.Call, t.eval(x.Call.Value, f), t.args(&x.Call, f), x.Pos()})
		case *ssa.Go:
			if t.spec.GoInline {
				t.emit(s, "go", x.Pos())
				t.invoke(s, &x.Call, t.eval(x.Call.Value, f), t.args(&x.Call, f), nil, x.Pos())
				continue
			}
			n := calleeName(&x.Call)
			if n == "dyn" {
				if e := t.eval(x.Call.Value, f); e.Op == "closure" || e.Op == "fn" {
					n = e.S
				}
			}
			var as []string
			for _, a := range t.args(&x.Call, f) {
				as = append(as, t.show(s, a))
			}
			t.emit(s, "go "+n+"("+strings.Join(as, ", ")+")", x.Pos())
		case *ssa.Store:
			t.store(s, t.eval(x.Addr, f), t.eval(x.Val, f), x.Pos())
		case *ssa.MapUpdate:
			m, k, v := t.eval(x.Map, f), t.eval(x.Key, f), t.eval(x.Value, f)
			if m.Op == "obj" && s.heap[m.S] != nil && s.heap[m.S].kind == "map" {
				s.heap[m.S].cells["k:"+t.show(s, k)] = v
				continue
			}
			t.emit(s, m.String()+"["+t.show(s, k)+"] := "+t.show(s, v), x.Pos())
			t.forget(s, m.String())
		case *ssa.Send:
			t.emit(s, "send "+t.show(s, t.eval(x.Chan, f))+" := "+t.show(s, t.eval(x.X, f)), x.Pos())
		case *ssa.Call:
			if t.tail(s, x) {
				t.flush(s)
				t.g.edge(s.node, "", 0)
				return
			}
			t.invoke(s, &x.Call, t.eval(x.Call.Value, f), t.args(&x.Call, f), x, x.Pos())
			if calleeName(&x.Call) == "os.Exit" {
				t.done(s)
				return
			}
		case ssa.Value:
			if u, ok := x.(*ssa.UnOp); ok && u.Op == token.ARROW && t.spec.Recvs {
				t.emit(s, "recv "+t.show(s, t.eval(u.X, f)), u.Pos())
			}
			e := t.value(s, x, f)
			if len(t.spec.Subst) > 0 {
				if r := t.spec.Subst[norm(e.String())]; r != nil {
					e = r
				}
				if e.Op == "tuple" {
					for i, a := range e.A {
						if r := t.spec.Subst[norm(a.String())]; r != nil {
							e.A[i] = r
						}
					}
				}
			}
			f.vals[x] = e
		}
	}
}

// isNil: whether this term is known to be nil here.
func (t *tracer) isNil(s *tst, v string) bool {
	a := "(nil == " + v + ")"
	if v < "nil" {
		a = "(" + v + " == nil)"
	}
	if k, ok := s.known[a]; ok {
		return k
	}
	for g, k := range t.spec.Assume {
		if k && glob(g, norm(a)) {
			return true
		}
	}
	return false
}

// tail: whether the function starts all over with this call, and returns what
// comes of it.
func (t *tracer) tail(s *tst, x *ssa.Call) bool {
	root := s.fr[0]
	if x.Call.StaticCallee() != root.fn || len(s.mem) > 0 || len(s.mut) > 0 || s.turning || t.start == nil {
		return false
	}
	for i, a := range t.args(&x.Call, s.top()) {
		if a.String() != t.start[i].String() {
			return false
		}
	}
	for i := len(s.fr) - 1; i >= 0; i-- {
		f := s.fr[i]
		if len(f.defers) > 0 || !handsBack(x, f.blk.Instrs[f.idx:]) {
			return false
		}
		if x = f.call; x == nil && i > 0 {
			return false
		}
	}
	return true
}

// handsBack: whether these instructions return the results of the call.
func handsBack(x *ssa.Call, rest []ssa.Instruction) bool {
	for _, ins := range rest {
		switch y := ins.(type) {
		case *ssa.Extract, *ssa.DebugRef:
		case *ssa.Return:
			for i, r := range y.Results {
				e, ok := r.(*ssa.Extract)
				if r != ssa.Value(x) && !(ok && e.Tuple == ssa.Value(x) && e.Index == i) {
					return false
				}
			}
			return true
		default:
			return false
		}
	}
	return false
}

func (t *tracer) args(com *ssa.CallCommon, f *tfr) (out []*E) {
	for _, a := range com.Args {
		out = append(out, t.eval(a, f))
	}
	return
}

func (t *tracer) bind(s *tst, call *ssa.Call, res []*E) {
	f := s.top()
	if len(res) == 1 {
		f.vals[call] = res[0]
	} else {
		f.vals[call] = &E{Op: "tuple", A: res}
	}
}

func (t *tracer) value(s *tst, v ssa.Value, f *tfr) *E {
	ev := func(x ssa.Value) *E { return t.eval(x, f) }
	switch v := v.(type) {
	case *ssa.ChangeType:
		return ev(v.X)
	case *ssa.ChangeInterface:
		return ev(v.X)
	case *ssa.MakeInterface:
		e := ev(v.X)
		if e.T == nil || types.IsInterface(e.T) {
			c := *e
			c.T = v.X.Type()
			return &c
		}
		return e
	case *ssa.Convert:
		return &E{Op: "conv", S: typeName(v.Type()), A: []*E{ev(v.X)}}
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			return t.load(s, ev(v.X), v.Type())
		case token.ARROW:
			x := ev(v.X)
			if v.CommaOk {
				return &E{Op: "tuple", A: []*E{mk("recv", "0", x), mk("recv", "1", x)}}
			}
			return mk("recv", "0", x)
		case token.NOT:
			return t.fold(mk("un", "!", ev(v.X)))
		}
		return mk("un", v.Op.String(), ev(v.X))
	case *ssa.BinOp:
		return t.fold(binExpr(v.Op, ev(v.X), ev(v.Y), v.X.Type()))
	case *ssa.FieldAddr:
		st := derefType(v.X.Type()).Underlying().(*types.Struct)
		return &E{Op: "fld", S: st.Field(v.Field).Name(), A: []*E{ev(v.X)}, T: st.Field(v.Field).Type()}
	case *ssa.Field:
		st := v.X.Type().Underlying().(*types.Struct)
		return t.fieldVal(s, ev(v.X), st.Field(v.Field).Name(), v.Type())
	case *ssa.IndexAddr:
		base := ev(v.X)
		if k, ok := v.Index.(*ssa.Const); ok {
			if _, _, isObj := rootObj(base); isObj {
				return &E{Op: "fld", S: fmt.Sprintf("[%d]", k.Int64()), A: []*E{base}}
			}
			if base.Op == "slicelit" && int(k.Int64()) < len(base.A) {
				return base.A[k.Int64()]
			}
		}
		return t.index(base, v.Index, f)
	case *ssa.Index:
		return t.index(ev(v.X), v.Index, f)
	case *ssa.Lookup:
		m, k := ev(v.X), ev(v.Index)
		lk, hit := mk("lk", "", t.now(s, m), k), mk("hit", "", t.now(s, m), k)
		if _, ok := v.X.Type().Underlying().(*types.Map); ok && k.Op == "key" && k.A[0].String() == t.now(s, m).String() {
			lk = mk("val", "", k.A[0]) // the entry being looked at
		}
		if m.Op == "obj" && s.heap[m.S] != nil && s.heap[m.S].kind == "map" {
			o := s.heap[m.S]
			if e := o.cells["k:"+t.show(s, k)]; e != nil {
				lk, hit = e, mk("const", "true")
			} else if k.Op == "const" && t.allConst(o) {
				mt := v.X.Type().Underlying().(*types.Map)
				lk, hit = zeroOf(mt.Elem()), mk("const", "false")
			}
		}
		if g := t.globalMap(m); g != nil && k.Op == "const" {
			if e := g[k.S]; e != nil {
				lk, hit = e, mk("const", "true")
			} else {
				lk, hit = zeroOf(v.X.Type().Underlying().(*types.Map).Elem()), mk("const", "false")
			}
		}
		if v.CommaOk {
			return &E{Op: "tuple", A: []*E{lk, hit}}
		}
		return lk
	case *ssa.Slice:
		base := ev(v.X)
		if base.Op == "obj" && s.heap[base.S] != nil && v.Low == nil {
			if at, ok := derefType(v.X.Type()).Underlying().(*types.Array); ok {
				n := at.Len()
				if v.High != nil {
					if k, ok := v.High.(*ssa.Const); ok {
						n = k.Int64()
					} else {
						return &E{Op: "opaque", S: "?" + v.Name()}
					}
				}
				e := &E{Op: "slicelit", T: v.Type()}
				for i := int64(0); i < n; i++ {
					e.A = append(e.A, t.load(s, &E{Op: "fld", S: fmt.Sprintf("[%d]", i), A: []*E{base}}, at.Elem()))
				}
				return e
			}
		}
		if v.Low == nil && v.High == nil {
			return base
		}
		if base.Op == "slicelit" && v.Max == nil {
			from, to := 0, len(base.A)
			var bad error
			if v.Low != nil {
				from, bad = strconv.Atoi(ev(v.Low).S)
			}
			if v.High != nil && bad == nil {
				to, bad = strconv.Atoi(ev(v.High).S)
			}
			if bad == nil && 0 <= from && from <= to && to <= len(base.A) {
				return &E{Op: "slicelit", A: base.A[from:to:to], T: base.T}
			}
		}
		parts := []*E{base}
		for _, x := range []ssa.Value{v.Low, v.High} {
			if x == nil {
				parts = append(parts, mk("const", "_"))
			} else {
				parts = append(parts, ev(x))
			}
		}
		return mk("slice", "", parts...)
	case *ssa.Alloc:
		et := derefType(v.Type())
		kind := "var"
		switch et.Underlying().(type) {
		case *types.Struct:
			kind = "struct"
		case *types.Array:
			kind = "array"
		}
		return t.fresh(s, v, kind, et)
	case *ssa.MakeMap:
		return t.fresh(s, v, "map", v.Type())
	case *ssa.MakeSlice:
		if k, ok := v.Len.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "0" {
			return &E{Op: "slicelit", T: v.Type()}
		}
		return &E{Op: "new", S: typeName(v.Type()), A: []*E{ev(v.Len)}}
	case *ssa.MakeChan:
		return &E{Op: "new", S: typeName(v.Type())}
	case *ssa.MakeClosure:
		e := &E{Op: "closure", S: fname(v.Fn.(*ssa.Function)), V: v}
		for _, b := range v.Bindings {
			e.A = append(e.A, ev(b))
		}
		return e
	case *ssa.TypeAssert:
		x := ev(v.X)
		as := asExpr(typeName(v.AssertedType), x)
		if as.Op == "rec" {
			as = &E{Op: "as", S: typeName(v.AssertedType), A: []*E{x}}
		}
		if !v.CommaOk {
			return as
		}
		is := &E{Op: "is", S: typeName(v.AssertedType), A: []*E{x}}
		if x.T != nil && !types.IsInterface(x.T) && !types.IsInterface(v.AssertedType) {
			is = mk("const", fmt.Sprint(typeName(x.T) == typeName(v.AssertedType)))
		} else if x.Op == "const" && x.S == "nil" {
			is = mk("const", "false")
		}
		return &E{Op: "tuple", A: []*E{as, is}}
	case *ssa.Extract:
		x := ev(v.Tuple)
		if x.Op == "tuple" && v.Index < len(x.A) {
			return x.A[v.Index]
		}
		return &E{Op: "ext", S: fmt.Sprint(v.Index), A: []*E{x}}
	case *ssa.Range:
		return mk("range", "", t.now(s, ev(v.X)))
	case *ssa.Next:
		x := ev(v.Iter)
		if x.Op == "range" {
			x = x.A[0]
		}
		el := mk("val", "", x)
		if v.IsString {
			el = mk("elem", "", x)
		}
		return &E{Op: "tuple", A: []*E{mk("more", "", x), mk("key", "", x), el}}
	case *ssa.Select:
		var on []string
		for _, st := range v.States {
			w := "recv " + t.show(s, ev(st.Chan))
			if st.Dir == types.SendOnly {
				w = "send " + t.show(s, ev(st.Chan)) + " := " + t.show(s, ev(st.Send))
			}
			on = append(on, w)
		}
		if !v.Blocking {
			on = append(on, "default")
		}
		return &E{Op: "opaque", S: "select:" + v.Name() + "{" + strings.Join(on, ", ") + "}"}
	}
	return &E{Op: "opaque", S: fmt.Sprintf("?%T:%s", v, v.Name())}
}

// globalMap: the entries of a map of the package that is filled once with
// constants and functions, by key.
func (t *tracer) globalMap(m *E) map[string]*E {
	if m.Op != "g" {
		return nil
	}
	if g, ok := t.globals[m.S]; ok {
		return g
	}
	if t.globals == nil {
		t.globals = map[string]map[string]*E{}
	}
	t.globals[m.S] = nil
	out := map[string]*E{}
	ok := true
	stores := 0
	for _, f := range t.p.Funcs {
		fr := &tfr{fn: f, vals: map[ssa.Value]*E{}}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					g, isG := i.Addr.(*ssa.Global)
					if !isG || t.eval(g, fr).S != m.S {
						continue
					}
					stores++
					mm, isM := i.Val.(*ssa.MakeMap)
					if !isM {
						ok = false
						continue
					}
					for _, r := range *mm.Referrers() {
						switch r := r.(type) {
						case *ssa.MapUpdate:
							k, isK := r.Key.(*ssa.Const)
							v := r.Value
							if c, isC := v.(*ssa.MakeClosure); isC && len(c.Bindings) == 0 {
								v = c.Fn
							}
							if c, isC := v.(*ssa.ChangeType); isC {
								v = c.X
							}
							e := t.eval(v, fr)
							if !isK || e.Op != "fn" && e.Op != "const" {
								ok = false
								continue
							}
							out[constStr(k)] = e
						case *ssa.Store:
						default:
							ok = false
						}
					}
				case *ssa.MapUpdate:
					if u, isU := i.Map.(*ssa.UnOp); isU && t.eval(u.X, fr).S == m.S {
						ok = false
					}
				}
			}
		}
	}
	if ok && stores == 1 {
		t.globals[m.S] = out
	}
	return t.globals[m.S]
}

func (t *tracer) allConst(o *tobj) bool {
	for k := range o.cells {
		if !strings.HasPrefix(k, `k:"`) {
			return false
		}
	}
	return true
}

func (t *tracer) index(base *E, idx ssa.Value, f *tfr) *E {
	at := t.eval(idx, f)
	if start, step, ok := induction(idx); ok && step == 1 && at.Op != "const" {
		if start != 0 {
			base = tail(base, start)
		}
		return mk("elem", "", base)
	}
	i := at
	var n int
	if _, err := fmt.Sscan(i.S, &n); i.Op == "const" && err == nil && base.Op == "slicelit" && n < len(base.A) {
		return base.A[n]
	}
	return mk("ix", "", base, i)
}

func (t *tracer) fresh(s *tst, v ssa.Value, kind string, ty types.Type) *E {
	id := fmt.Sprintf("o%d.%s.%s", len(s.fr), fname(v.Parent()), v.Name())
	s.heap[id] = &tobj{typ: ty, kind: kind, cells: map[string]*E{}}
	return &E{Op: "obj", S: id, T: v.Type()}
}

// invoke: a call; it is looked into, or an event.
func (t *tracer) invoke(s *tst, com *ssa.CallCommon, fv *E, args []*E, call *ssa.Call, pos token.Pos) {
	name := calleeName(com)
	var fn *ssa.Function
	var binds []*E
	switch {
	case com.IsInvoke():
		args = append([]*E{fv}, args...)
		if fv.T != nil && !types.IsInterface(fv.T) {
			if m := t.p.SSA.LookupMethod(fv.T, com.Method.Pkg(), com.Method.Name()); m != nil && t.p.inModule(m) {
				fn, name = m, fname(m)
			}
		}
	case com.StaticCallee() != nil:
		fn = com.StaticCallee()
		if fv.Op == "closure" {
			binds = fv.A
		}
	case fv.Op == "closure":
		fn, binds = fv.V.(*ssa.MakeClosure).Fn.(*ssa.Function), fv.A
		name = fname(fn)
	case fv.Op == "fn":
		fn = fv.V.(*ssa.Function)
		name = fname(fn)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if call != nil {
			s.top().vals[call] = t.builtin(s, b.Name(), args, call.Type(), pos)
		}
		return
	}
	busy := len(s.fr) > 24
	for _, f := range s.fr {
		busy = busy || f.fn == fn
	}
	if fn != nil && fn.Blocks != nil && t.p.inModule(fn) && !busy && !globAny(name, t.spec.Closed...) && !globAny(name, t.spec.Pure...) && !globAny(name, tracePure...) {
		g := &tfr{fn: fn, vals: map[ssa.Value]*E{}, call: call, blk: fn.Blocks[0]}
		for i, q := range fn.Params {
			if i < len(args) {
				g.vals[q] = args[i]
			}
		}
		for i, q := range fn.FreeVars {
			if i < len(binds) {
				g.vals[q] = binds[i]
			}
		}
		s.fr = append(s.fr, g)
		return
	}
	var shown []*E
	if name == "dyn" && fv.Op == "g" {
		name = fv.S
	}
	if name == "dyn" {
		args = append([]*E{fv}, args...)
	}
	var ts []string
	for _, a := range args {
		e := t.spell(s, t.now(s, a), 6)
		shown = append(shown, e)
		ts = append(ts, e.String())
	}
	if name == "strings.Join" && call != nil && len(args) == 2 && args[0].Op == "slicelit" && len(args[0].A) == 1 {
		t.bind(s, call, []*E{args[0].A[0]})
		return
	}
	res := &E{Op: "call", S: name, A: shown}
	text := name + "(" + strings.Join(ts, ", ") + ")"
	for a := range s.known {
		if strings.Contains(a, text) {
			delete(s.known, a)
		}
	}
	if globAny(name, t.spec.Impure...) || !globAny(name, tracePure...) && !globAny(name, t.spec.Pure...) {
		t.emit(s, "call:"+text, pos)
		t.forget(s, ":"+text) // another call, another result
	}
	for pat, is := range t.spec.Mut {
		if !glob(pat, name) {
			continue
		}
		for _, i := range is {
			if i < len(args) {
				k := args[i].String()
				if id, _, ok := rootObj(args[i]); ok && s.heap[id] != nil {
					by := "by:" + text
					if i < len(ts) && strings.Contains(ts[i], "by:") { // in a loop: again
						by = "by:" + name + "(" + strings.Join(append(append(append([]string{}, ts[:i]...), "itself"), ts[i+1:]...), ", ") + ")"
					}
					t.store(s, args[i], &E{Op: "par", S: by}, pos)
					continue
				}
				s.mut[k]++
				for m := range s.mem {
					if strings.HasPrefix(m, k+".") {
						delete(s.mem, m)
					}
				}
				t.forget(s, k)
			}
		}
	}
	if call == nil {
		return
	}
	sig := com.Signature().Results()
	if sig.Len() == 1 {
		res.T = concrete(sig.At(0).Type())
		t.bind(s, call, []*E{res})
		return
	}
	var rs []*E
	for i := 0; i < sig.Len(); i++ {
		c := *res
		c.str = ""
		c.T = concrete(sig.At(i).Type())
		if i > 0 {
			c.Op = fmt.Sprintf("call#%d", i)
		}
		rs = append(rs, &c)
	}
	t.bind(s, call, rs)
}

func concrete(ty types.Type) types.Type {
	if types.IsInterface(ty) {
		return nil
	}
	return ty
}

func (t *tracer) builtin(s *tst, name string, args []*E, ty types.Type, pos token.Pos) *E {
	switch name {
	case "append":
		if len(args) == 2 {
			a, b := args[0], args[1]
			if a.Op == "const" && a.S == "nil" {
				a = &E{Op: "slicelit", T: a.T}
			}
			if ty != nil && len(t.spec.Builds) > 0 {
				if sl, ok := ty.Underlying().(*types.Slice); ok && globAny(typeName(sl.Elem()), t.spec.Builds...) {
					if b.Op == "slicelit" {
						for _, x := range b.A {
							t.emit(s, "add "+t.show(s, x), pos)
						}
					} else {
						t.emit(s, "add all of "+t.show(s, b), pos)
					}
				}
			}
			if a.Op == "slicelit" && b.Op == "slicelit" {
				return &E{Op: "slicelit", A: append(append([]*E{}, a.A...), b.A...), T: a.T}
			}
			if b.Op == "slicelit" && len(b.A) == 0 || b.Op == "const" && b.S == "nil" {
				return a
			}
			return mk("call", "append", a, b)
		}
	case "len":
		if args[0].Op == "slicelit" {
			return mk("const", fmt.Sprint(len(args[0].A)))
		}
		if args[0].Op == "const" && args[0].S == "nil" {
			return mk("const", "0")
		}
		return mk("call", "len", t.now(s, args[0]))
	case "delete":
		if m := args[0]; m.Op == "obj" && s.heap[m.S] != nil {
			delete(s.heap[m.S].cells, "k:"+t.show(s, args[1]))
			return mk("const", "nil")
		}
		t.emit(s, "delete("+t.show(s, args[0])+", "+t.show(s, args[1])+")", token.NoPos)
	}
	var as []*E
	for _, a := range args {
		as = append(as, t.now(s, a))
	}
	return mk("call", name, as...)
}

// parseTraces reads a reference language: names, ( ), |, *, ?, + and {a b},
// which is a and b in either order, when they commute; "#" ends a comment line.
func parseTraces(src string) *nfa {
	g := newNFA()
	var toks []string
	for _, l := range strings.Split(src, "\n") {
		if i := strings.Index(l, "#"); i >= 0 {
			l = l[:i]
		}
		for _, r := range []string{"(", ")", "{", "}", "|", "*", "?"} {
			l = strings.ReplaceAll(l, r, " "+r+" ")
		}
		toks = append(toks, strings.Fields(l)...)
	}
	i := 0
	peek := func() string {
		if i < len(toks) {
			return toks[i]
		}
		return ""
	}
	type frag func(from int) int
	var alt func(end string) frag
	post := func(f frag) frag {
		for in(peek(), "*", "?") {
			op, g0 := peek(), f
			i++
			f = func(from int) int {
				a, b := g.node(), g.node()
				g.edge(from, "", a)
				g.edge(a, "", b)
				e := g0(a)
				if op == "*" {
					g.edge(e, "", a)
				} else {
					g.edge(e, "", b)
				}
				return b
			}
		}
		return f
	}
	seq := func(fs []frag) frag {
		return func(from int) int {
			for _, f := range fs {
				from = f(from)
			}
			return from
		}
	}
	item := func() frag {
		k := peek()
		i++
		switch k {
		case "(":
			f := alt(")")
			i++
			return post(f)
		case "{":
			var ls []string
			for peek() != "}" && peek() != "" {
				ls = append(ls, peek())
				i++
			}
			i++
			sort.Strings(ls)
			return func(from int) int {
				for _, l := range ls {
					n := g.node()
					g.edge(from, l, n)
					from = n
				}
				return from
			}
		}
		return post(func(from int) int {
			n := g.node()
			g.edge(from, k, n)
			return n
		})
	}
	alt = func(end string) frag {
		var as []frag
		var cur []frag
		for peek() != end && peek() != "" {
			if peek() == "|" {
				i++
				as, cur = append(as, seq(cur)), nil
				continue
			}
			cur = append(cur, item())
		}
		as = append(as, seq(cur))
		return func(from int) int {
			out := g.node()
			for _, a := range as {
				n := g.node()
				g.edge(from, "", n)
				g.edge(a(n), "", out)
			}
			return out
		}
	}
	f := alt("")
	g.edge(f(0), "", 1)
	return g
}

// behaves: the effects of a function, in every order they can happen, are those
// of the reference.
func (p *Prog) behaves(r *Report, rule, key string, f *ssa.Function, spec traceSpec, ref string) {
	if f == nil {
		r.ob(rule, key, "", false, "this function is gone")
		return
	}
	t := p.traces(f, spec)
	at := p.pos(f.Pos()) + " [" + fname(f) + "]"
	if t.full {
		r.ob(rule, key, at, false, "too many ways through it to follow")
		return
	}
	if os.Getenv("CHK_WORDS") == key {
		t.g.words(60)
	}
	refs := parseTraces(ref)
	if spec.Maybe != "" {
		t.g.or(parseTraces(spec.Maybe))
		refs.or(parseTraces(spec.Maybe))
	}
	word, inCode, same, n := differ(t.g, refs)
	why := ""
	if !same {
		var ws []string
		for _, w := range word {
			ws = append(ws, trim(w, 160))
		}
		if inCode {
			why = "it can do this, which it is not meant to: " + strings.Join(ws, " → ")
			for i := len(word) - 1; i >= 0; i-- {
				if strings.HasPrefix(word[i], "«") {
					at = p.pos(t.where[word[i]]) + " [" + fname(f) + "]"
				}
			}
			if len(word) > 0 && strings.HasPrefix(at, p.pos(f.Pos())) {
				at = p.pos(t.where[word[len(word)-1]]) + " [" + fname(f) + "]"
			}
		} else {
			why = "it can no longer do this: " + strings.Join(ws, " → ")
		}
	}
	r.ob(rule, key, at, same, why)
	r.ob(rule, fmt.Sprintf("%s: %d points followed, %d pairs compared", key, len(t.nodes), n), at, true, "")
}

// without: some word has one label and a later one, with nothing that starts
// with this between them.
func (g *nfa) without(from, to, between string) bool {
	u := g.useful()
	seen := map[int]bool{}
	var visit func(n int) bool
	visit = func(n int) bool {
		if seen[n] || !u[n] {
			return false
		}
		seen[n] = true
		for _, e := range g.edges[n] {
			if e.label == to {
				return true
			}
			if !strings.HasPrefix(e.label, between) && visit(e.to) {
				return true
			}
		}
		return false
	}
	for _, es := range g.edges {
		for _, e := range es {
			if e.label == from && visit(e.to) {
				return true
			}
		}
	}
	return false
}

// isHead: whether a loop begins here.
func isHead(b *ssa.BasicBlock) bool {
	for _, q := range b.Preds {
		if b.Dominates(q) {
			return true
		}
	}
	return false
}

// or adds the words of another language.
func (g *nfa) or(h *nfa) {
	n := len(g.edges)
	for i, es := range h.edges {
		k := g.node()
		for _, e := range es {
			e.to += n
			g.edges[k] = append(g.edges[k], e)
		}
		if h.accept[i] {
			g.accept[k] = true
		}
	}
	g.edge(0, "", n)
}
