package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What can be reached from the variables of the program is followed through
// the functions of the core, to find out whether anything of it is changed.

type sharing struct {
	p      *Prog
	funcs  map[*ssa.Function]bool
	ref    map[ssa.Value]string // refers to what a variable refers to (which)
	holds  map[ssa.Value]string // what it has room for does
	fields map[fieldAt][2]string
	work   bool
}

type fieldAt struct {
	t string
	i int
}

func refType(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if refType(t.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refType(t.Elem())
	case *types.Tuple:
		return true
	}
	return false
}

func (s *sharing) setRef(v ssa.Value, why string) {
	if why != "" && s.ref[v] == "" && refType(v.Type()) {
		s.ref[v] = why
		s.work = true
	}
}

func (s *sharing) setHolds(v ssa.Value, why string) {
	if why != "" && s.holds[v] == "" {
		s.holds[v] = why
		s.work = true
	}
}

func (s *sharing) setField(f fieldAt, ref, holds string) {
	x := s.fields[f]
	if ref != "" && x[0] == "" || holds != "" && x[1] == "" {
		if x[0] == "" {
			x[0] = ref
		}
		if x[1] == "" {
			x[1] = holds
		}
		s.fields[f] = x
		s.work = true
	}
}

func first(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func (s *sharing) flow(from, to ssa.Value) {
	s.setRef(to, s.ref[from])
	s.setHolds(to, s.holds[from])
}

type write struct {
	i    ssa.Instruction
	what string
}

// globalWrites lists what these functions change of what belongs to variables
// of packages.
func (p *Prog) globalWrites(fs []*ssa.Function) (out []write, followed int) {
	s := &sharing{p: p, funcs: map[*ssa.Function]bool{}, ref: map[ssa.Value]string{}, holds: map[ssa.Value]string{}, fields: map[fieldAt][2]string{}}
	for _, f := range fs {
		s.funcs[f] = true
	}
	for s.work = true; s.work; {
		s.work = false
		for _, f := range fs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					s.step(i)
				}
			}
		}
	}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if w := s.writes(i); w != "" {
					out = append(out, write{i, w})
				}
			}
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].i.Pos() < out[b].i.Pos() })
	return out, len(s.ref)
}

func (s *sharing) step(i ssa.Instruction) {
	switch i := i.(type) {
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return
		}
		if g, ok := i.X.(*ssa.Global); ok {
			if s.p.inModulePkg(g.Pkg) {
				s.setRef(i, "the variable "+short(g.String()))
			}
			return
		}
		s.setRef(i, first(s.ref[i.X], s.holds[i.X]))
		if b := base(i.X); b != i.X {
			s.setRef(i, s.holds[b])
		}
		if fa, ok := i.X.(*ssa.FieldAddr); ok {
			x := s.fields[fieldKey(fa)]
			s.setRef(i, x[0])
			s.setHolds(i, x[1])
		}
	case *ssa.FieldAddr:
		if g, ok := i.X.(*ssa.Global); ok && s.p.inModulePkg(g.Pkg) {
			s.ref[i] = "the variable " + short(g.String())
		} else if s.ref[i.X] != "" {
			if s.ref[i] == "" {
				s.ref[i], s.work = s.ref[i.X], true
			}
		}
	case *ssa.IndexAddr:
		if g, ok := i.X.(*ssa.Global); ok && s.p.inModulePkg(g.Pkg) {
			s.ref[i] = "the variable " + short(g.String())
		} else if s.ref[i.X] != "" && s.ref[i] == "" {
			s.ref[i], s.work = s.ref[i.X], true
		}
		s.setHolds(i, s.holds[i.X])
	case *ssa.Field:
		s.setRef(i, s.ref[i.X])
		x := s.fields[fieldAt{short(i.X.Type().String()), i.Field}]
		s.setRef(i, x[0])
		s.setHolds(i, x[1])
	case *ssa.Index:
		s.setRef(i, first(s.ref[i.X], s.holds[i.X]))
	case *ssa.Lookup:
		s.setRef(i, first(s.ref[i.X], s.holds[i.X]))
	case *ssa.Extract:
		s.flow(i.Tuple, i)
	case *ssa.Phi:
		for _, e := range i.Edges {
			s.flow(e, i)
		}
	case *ssa.ChangeType:
		s.flow(i.X, i)
	case *ssa.Convert:
		if types.Identical(i.X.Type().Underlying(), i.Type().Underlying()) {
			s.flow(i.X, i)
		}
	case *ssa.ChangeInterface:
		s.flow(i.X, i)
	case *ssa.MakeInterface:
		s.flow(i.X, i)
	case *ssa.TypeAssert:
		s.flow(i.X, i)
	case *ssa.Slice:
		if g, ok := i.X.(*ssa.Global); ok && s.p.inModulePkg(g.Pkg) {
			s.setRef(i, "the variable "+short(g.String()))
		}
		s.flow(i.X, i)
	case *ssa.Range:
		s.setHolds(i, first(s.ref[i.X], s.holds[i.X]))
	case *ssa.Next:
		s.setRef(i, s.holds[i.Iter])
	case *ssa.Store:
		why := first(s.ref[i.Val], s.holds[i.Val])
		if why == "" {
			return
		}
		if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
			s.setField(fieldKey(fa), s.ref[i.Val], s.holds[i.Val])
			return
		}
		s.setHolds(base(i.Addr), why)
	case *ssa.MapUpdate:
		why := first(s.ref[i.Value], s.holds[i.Value])
		if why == "" {
			return
		}
		s.setHolds(i.Map, why)
		s.back(i.Map, why)
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		for k, b := range i.Bindings {
			s.setRef(fn.FreeVars[k], s.ref[b])
			s.setHolds(fn.FreeVars[k], s.holds[b])
		}
	case *ssa.Return:
		f := i.Parent()
		for k, r := range i.Results {
			if s.ref[r] == "" && s.holds[r] == "" {
				continue
			}
			for _, c := range s.p.sharedCallers(f) {
				v, ok := c.(*ssa.Call)
				if !ok {
					continue
				}
				if len(i.Results) == 1 {
					s.flow(r, v)
					continue
				}
				for _, ref := range *v.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && e.Index == k {
						s.flow(r, e)
					}
				}
			}
		}
	case ssa.CallInstruction:
		com := i.Common()
		name := calleeName(com)
		if name == "append" {
			v := i.(*ssa.Call)
			s.flow(com.Args[0], v)
			s.setHolds(v, first(s.ref[com.Args[0]], s.holds[com.Args[0]]))
			if refType(com.Args[1].Type().Underlying().(*types.Slice).Elem()) {
				s.setHolds(v, first(s.holds[base(com.Args[1])], first(s.ref[com.Args[1]], s.holds[com.Args[1]])))
			}
			return
		}
		o := &ordering{p: s.p}
		fs := o.callees(com)
		if fn := closureOf(com.Value); fn != nil && len(fs) == 0 {
			fs = []*ssa.Function{fn}
		}
		args := com.Args
		if com.IsInvoke() {
			args = append([]ssa.Value{com.Value}, args...)
		}
		for _, g := range fs {
			for k, prm := range g.Params {
				if k < len(args) {
					s.flow(args[k], prm)
				}
			}
		}
	}
}

// back: where a map comes from, so that whoever else has it knows.
func (s *sharing) back(m ssa.Value, why string) {
	if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			s.setField(fieldKey(fa), "", why)
		}
	}
}

func fieldKey(fa *ssa.FieldAddr) fieldAt {
	return fieldAt{short(derefType(fa.X.Type()).String()), fa.Field}
}

func (p *Prog) inModulePkg(pk *ssa.Package) bool {
	return pk != nil && (pk.Pkg.Path() == modPath || strings.HasPrefix(pk.Pkg.Path(), modPath+"/"))
}

// sharedCallers: the calls that can reach this function.
func (p *Prog) sharedCallers(f *ssa.Function) []ssa.CallInstruction {
	if p.sharedCallMemo == nil {
		p.sharedCallMemo = map[*ssa.Function][]ssa.CallInstruction{}
		o := &ordering{p: p}
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					fs := o.callees(ci.Common())
					if fn := closureOf(ci.Common().Value); fn != nil && len(fs) == 0 {
						fs = []*ssa.Function{fn}
					}
					for _, h := range fs {
						p.sharedCallMemo[h] = append(p.sharedCallMemo[h], ci)
					}
				}
			}
		}
	}
	return p.sharedCallMemo[f]
}

var mutators = []string{"Write", "Set", "Append", "Array", "Add", "Del", "Delete", "Reset", "Seed", "Store", "LoadOrStore", "Swap", "CompareAndSwap", "Insert", "Push", "Remove", "Put", "Do", "Object", "Merge"}

// writes says what the instruction changes, if that is reached from a variable.
func (s *sharing) writes(i ssa.Instruction) string {
	switch i := i.(type) {
	case *ssa.Store:
		if g, ok := i.Addr.(*ssa.Global); ok && s.p.inModulePkg(g.Pkg) {
			return "the variable " + short(g.String())
		}
		if _, ok := base(i.Addr).(*ssa.Global); ok {
			return s.ref[i.Addr]
		}
		return s.ref[i.Addr]
	case *ssa.MapUpdate:
		return s.ref[i.Map]
	case ssa.CallInstruction:
		com := i.Common()
		name := calleeName(com)
		switch {
		case in(name, "append"):
			// writes to what follows, if there is room: the variable's own
			// elements stay what they are, those of another list may not
			return s.ref[com.Args[0]]
		case in(name, "delete", "copy", "clear") || sorters[name] || sortersBy[name]:
			return s.ref[com.Args[0]]
		}
		f := com.StaticCallee()
		if f == nil || s.p.inModule(f) || f.Signature.Recv() == nil || len(com.Args) == 0 {
			return ""
		}
		if globAny(name, logged...) || strings.HasPrefix(name, "(*regexp.") {
			return ""
		}
		for _, m := range mutators {
			if strings.HasPrefix(f.Name(), m) {
				return s.ref[com.Args[0]]
			}
		}
	}
	return ""
}
