package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mapLiteral reads the constant entries a package-level map is initialised
// with: canonical key text -> value text (shape).
func (p *Prog) mapLiteral(rel, name string) map[string]string {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	g, ok := pk.Members[name].(*ssa.Global)
	if !ok {
		return nil
	}
	var mm ssa.Value
	var in *ssa.Function
	n := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok && st.Addr == g {
					mm, in = st.Val, f
					n++
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	out := map[string]string{}
	for _, r := range *mm.Referrers() {
		if mu, ok := r.(*ssa.MapUpdate); ok && mu.Map == mm {
			out[strings.Trim(p.expr(mu.Key, rootCtx(in)).String(), `"`)] = p.shape(p.expr(mu.Value, rootCtx(in)))
		}
	}
	return out
}

// globalWriters lists the instructions that update a package-level map or
// variable outside its initialisation.
func (p *Prog) globalWriters(rel, name string) (out []ssa.Instruction) {
	pk := p.pkg(rel)
	if pk == nil {
		return
	}
	g, ok := pk.Members[name].(*ssa.Global)
	if !ok {
		return
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					if i.Addr == g {
						out = append(out, i)
					}
				case *ssa.MapUpdate:
					if u, ok := i.Map.(*ssa.UnOp); ok && u.X == g {
						out = append(out, i)
					}
				}
			}
		}
	}
	return
}

// row of a decision table: the literals tested on one path and the result.
type row struct {
	Conds []string // T:… / F:… atoms in path order
	Res   []string // shapes of the results
	Es    []*E
	At    ssa.Instruction
	Err   bool
}

type lit struct {
	v ssa.Value
	t bool
	c *Ctx
}

// decision enumerates the acyclic paths of a loop-free function, following
// calls to loop-free module functions in result position: what is tested and
// what comes out. Purely syntactic: no path is judged feasible or not, except
// that a path that assumes an atom both ways is dropped.
func (p *Prog) decision(f *ssa.Function, c *Ctx) []row {
	if len(loopsOf(f)) > 0 {
		return nil
	}
	var out []row
	var walk func(b *ssa.BasicBlock, pred *ssa.BasicBlock, env map[*ssa.Phi]ssa.Value, conds []string, depth int)
	resolve := func(v ssa.Value, env map[*ssa.Phi]ssa.Value) ssa.Value {
		for {
			if ph, ok := v.(*ssa.Phi); ok {
				if w, ok := env[ph]; ok {
					v = w
					continue
				}
			}
			if mi, ok := v.(*ssa.MakeInterface); ok {
				if ph, ok := mi.X.(*ssa.Phi); ok {
					if w, ok := env[ph]; ok {
						v = w
						continue
					}
				}
			}
			return v
		}
	}
	walk = func(b, pred *ssa.BasicBlock, env map[*ssa.Phi]ssa.Value, conds []string, depth int) {
		if len(out) > 2000 || depth > 200 {
			return
		}
		e2 := env
		if pred != nil {
			e2 = map[*ssa.Phi]ssa.Value{}
			for k, v := range env {
				e2[k] = v
			}
			for _, i := range b.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for k, q := range b.Preds {
					if q == pred {
						e2[ph] = resolve(ph.Edges[k], env)
					}
				}
			}
		}
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If:
			cv := resolve(t.Cond, e2)
			if k, ok := cv.(*ssa.Const); ok && k.Value != nil {
				if k.Value.ExactString() == "true" {
					walk(b.Succs[0], b, e2, conds, depth+1)
				} else {
					walk(b.Succs[1], b, e2, conds, depth+1)
				}
				return
			}
			for side, s := range b.Succs {
				var a string
				if bo, ok := cv.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
					x, y := resolve(bo.X, e2), resolve(bo.Y, e2)
					e := mk("bin", "==", p.expr(x, c), p.expr(y, c))
					a = atom(canonEq(e), (bo.Op == token.EQL) == (side == 0))
				} else {
					a = atom(p.expr(cv, c), side == 0)
				}
				dup, contra := false, false
				for _, o := range conds {
					if o == a {
						dup = true
					}
					if len(o) > 2 && len(a) > 2 && o[2:] == a[2:] && o[0] != a[0] {
						contra = true
					}
				}
				if contra {
					continue
				}
				nc := conds
				if !dup {
					nc = append(append([]string{}, conds...), a)
				}
				walk(s, b, e2, nc, depth+1)
			}
		case *ssa.Jump:
			walk(b.Succs[0], b, e2, conds, depth+1)
		case *ssa.Return:
			r := row{Conds: conds, At: t}
			for _, v := range t.Results {
				rv := resolve(v, e2)
				e := p.expr(rv, c)
				r.Es = append(r.Es, e)
				r.Res = append(r.Res, p.shape(e))
			}
			if n := len(t.Results); n > 0 && typeName(t.Results[n-1].Type()) == "error" {
				r.Err = !isNilConst(resolve(t.Results[n-1], e2))
			}
			// tail calls
			if len(t.Results) > 0 {
				var call *ssa.Call
				switch v := resolve(t.Results[0], e2).(type) {
				case *ssa.Call:
					call = v
				case *ssa.Extract:
					call, _ = v.Tuple.(*ssa.Call)
				}
				if call != nil && !p.Opaque[calleeName(call.Common())] {
					if cc := p.callee(call, c); cc != nil && cc.Fn != f && len(cc.Fn.Signature.String()) > 0 && cc.Fn.Signature.Results().Len() == len(t.Results) {
						if sub := p.decision(cc.Fn, cc); len(sub) > 0 {
							for _, s := range sub {
								s.Conds = append(append([]string{}, conds...), s.Conds...)
								out = append(out, s)
							}
							return
						}
					}
				}
			}
			out = append(out, r)
		case *ssa.Panic:
			out = append(out, row{Conds: conds, Res: []string{"panic"}, At: t, Err: true})
		}
	}
	walk(f.Blocks[0], nil, map[*ssa.Phi]ssa.Value{}, nil, 0)
	return out
}

// canonEq orders the operands of an equality the way expr does.
func canonEq(e *E) *E {
	if e.A[0].String() > e.A[1].String() {
		return mk("bin", "==", e.A[1], e.A[0])
	}
	return e
}

// table reads a function that maps constants to constants: for every path
// with exactly one equality with a constant assumed true, key -> result; ""
// stands for the path where none holds.
func (p *Prog) table(f *ssa.Function, sel string) map[string]row {
	out := map[string]row{}
	for _, r := range p.decision(f, rootCtx(f)) {
		key := ""
		for _, c := range r.Conds {
			if k, ok := eqConst(c, sel); ok {
				key = k
			}
		}
		out[key] = r
	}
	return out
}

// eqConst: the atom says sel equals a constant.
func eqConst(a, sel string) (string, bool) {
	if !strings.HasPrefix(a, "T:(") || !strings.HasSuffix(a, ")") {
		return "", false
	}
	s := a[3 : len(a)-1]
	if strings.HasSuffix(s, " == "+sel) {
		return strings.TrimSuffix(s, " == "+sel), true
	}
	if strings.HasPrefix(s, sel+" == ") {
		return strings.TrimPrefix(s, sel+" == "), true
	}
	return "", false
}

func (p *Prog) pkg(rel string) *ssa.Package {
	for _, f := range p.Funcs {
		if f.Pkg != nil && relPkg(f) == rel {
			return f.Pkg
		}
	}
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// constName names the constants of a named type: value text -> name.
func (p *Prog) constNames(rel, typ string) map[string]string {
	out := map[string]string{}
	pk := p.pkg(rel)
	if pk == nil {
		return out
	}
	sc := pk.Pkg.Scope()
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok && typeName(c.Type()) == rel+"."+typ {
			out[c.Val().ExactString()] = n
		}
	}
	return out
}

// specRow of a decision list: the first row whose conditions all hold decides.
// Conditions are atom globs ("T:…", "F:…", alternatives separated by " OR ").
type specRow struct {
	If  []string
	Res []string // globs, one per judged result; "ERR" matches a path returning an error
}

// evalCond: is the condition entailed (1), contradicted (-1) or open (0)?
func evalCond(cond string, known []string) int {
	for _, alt := range strings.Split(cond, " OR ") {
		for _, k := range known {
			k = toP(k)
			if glob(alt, k) {
				return 1
			}
			if glob(alt, negAtom(k)) {
				return -1
			}
			// an equality with another constant excludes this one
			if a, b, ok := splitEq(alt); ok && strings.HasPrefix(alt, "T:") {
				if x, y, ok2 := splitEq(k); ok2 && strings.HasPrefix(k, "T:") {
					if a == x && b != y && isLit(b) && isLit(y) || b == y && a != x && isLit(a) && isLit(x) {
						return -1
					}
				}
			}
		}
	}
	return 0
}

func isLit(s string) bool {
	if s == "" {
		return false
	}
	if s[0] == '"' || s == "true" || s == "false" {
		return true
	}
	for i := 0; i < len(s); i++ {
		if !(s[i] >= '0' && s[i] <= '9' || s[i] == '-' || s[i] == '.') {
			return false
		}
	}
	return true
}

func splitEq(a string) (string, string, bool) {
	if len(a) < 4 || a[2] != '(' {
		return "", "", false
	}
	s := a[3 : len(a)-1]
	i := strings.Index(s, " == ")
	if i < 0 {
		return "", "", false
	}
	return s[:i], s[i+4:], true
}

// negAtom is the atom that states the opposite.
func negAtom(a string) string {
	if strings.HasPrefix(a, "F:") {
		return "T:" + a[2:]
	}
	if strings.HasPrefix(a, "T:(") {
		// comparisons are normalised to their positive form
		s := a[3 : len(a)-1]
		depth := 0
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '(', '{':
				depth++
			case ')', '}':
				depth--
			case ' ':
				if depth == 0 {
					if strings.HasPrefix(s[i:], " < ") {
						return "T:(" + s[i+3:] + " <= " + s[:i] + ")"
					}
					if strings.HasPrefix(s[i:], " <= ") {
						return "T:(" + s[i+4:] + " < " + s[:i] + ")"
					}
				}
			}
		}
	}
	return "F:" + a[2:]
}

func (x row) result(i int) string {
	if i < len(x.Res) {
		return strings.ReplaceAll(norm(x.Res[i]), "elem(arg0.CurrentParts)", "P")
	}
	return ""
}

// tableSpec: on every path of the (loop-free) function, the result is the one
// the decision list gives for what the path has tested.
func (p *Prog) tableSpec(r *Report, rule, fn string, rows ...specRow) {
	f := p.fn(fn)
	if f == nil {
		r.ob(rule, fn, "", false, "this function is gone")
		return
	}
	p.tableSpecOf(r, rule, fn, f, rootCtx(f), rows...)
}

func (p *Prog) tableSpecOf(r *Report, rule, fn string, f *ssa.Function, c *Ctx, rows ...specRow) {
	paths := p.decision(f, c)
	if len(paths) == 0 {
		r.ob(rule, fn, p.pos(f.Pos())+" ["+fname(f)+"]", false, "the function is no longer a loop-free decision")
		return
	}
	used := make([]bool, len(rows))
	for _, path := range paths {
		var walk func(i int, known []string) string
		walk = func(i int, known []string) string {
			if i == len(rows) {
				return ""
			}
			var open []string
			for _, c := range rows[i].If {
				switch evalCond(c, known) {
				case -1:
					return walk(i+1, known)
				case 0:
					open = append(open, c)
				}
			}
			used[i] = true
			// the row applies (entirely, or on the part of the inputs the path leaves open)
			bad := ""
			for k, want := range rows[i].Res {
				if want == "ERR" {
					if !path.Err {
						bad = "succeeds with " + trim(strings.Join(path.Res, ", "), 200) + " where an error is due"
					}
					break
				}
				if path.Err && len(path.Res) > 1 {
					bad = "fails where the result should be " + want
					break
				}
				if !globAny(path.result(k), strings.Split(want, " OR ")...) {
					bad = "gives " + trim(path.result(k), 300) + ", expected " + trim(want, 300)
					break
				}
			}
			if bad != "" {
				return bad + " when " + trim(strings.Join(append(append([]string{}, known...), open...), " & "), 500)
			}
			if len(open) == 1 && !strings.Contains(open[0], " OR ") && !strings.Contains(open[0], "…") {
				return walk(i+1, append(append([]string{}, known...), negAtom(open[0])))
			}
			if len(open) > 0 {
				return walk(i+1, known)
			}
			return ""
		}
		bad := walk(0, path.Conds)
		r.at(rule, fn+" path", path.At, bad == "", bad)
	}
	for i := range rows {
		r.ob(rule, fn+" case "+strings.Join(rows[i].If, " & "), p.pos(f.Pos())+" ["+fname(f)+"]", used[i], "no path of the function corresponds to this case")
	}
}
