package main

import (
	"fmt"
	"go/constant"
	"regexp/syntax"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// sameMatches says whether two regular expressions are found in the same
// texts; otherwise, a text that only one of them is found in.
func sameMatches(a, b string) (bool, string) {
	pa, err := compileRegex(a)
	if err != nil {
		return false, err.Error()
	}
	pb, err := compileRegex(b)
	if err != nil {
		return false, err.Error()
	}
	// the runes that they tell apart
	cuts := map[rune]bool{'a': true, 'Z': true, '0': true, '_': true, '.': true, ' ': true, '\n': true, 0x10ffff: true, 0x80: true}
	for _, pr := range []*syntax.Prog{pa, pb} {
		for _, in := range pr.Inst {
			for i, c := range in.Rune {
				cuts[c] = true
				if i%2 == 1 || len(in.Rune) == 1 {
					cuts[c+1] = true
				}
				if c > 0 {
					cuts[c-1] = true
				}
				if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					for k := rune('A'); k <= 'z'; k++ {
						cuts[k] = true
					}
				}
			}
		}
	}
	var alphabet []rune
	for c := range cuts {
		if c <= 0x10ffff {
			alphabet = append(alphabet, c)
		}
	}
	sort.Slice(alphabet, func(i, j int) bool { return alphabet[i] < alphabet[j] })

	type both struct {
		a, b regexState
		text string
		prev rune
	}
	todo := []both{{a: regexState{}, b: regexState{}, prev: -1}}
	seen := map[string]bool{}
	for len(todo) > 0 {
		s := todo[0]
		todo = todo[1:]
		// the end
		fa, _ := s.a.step(pa, s.prev, -1)
		fb, _ := s.b.step(pb, s.prev, -1)
		if fa != fb {
			return false, fmt.Sprintf("%q", s.text)
		}
		for _, c := range alphabet {
			_, na := s.a.step(pa, s.prev, c)
			_, nb := s.b.step(pb, s.prev, c)
			class := fmt.Sprint(syntax.EmptyOpContext(c, 'a'), syntax.EmptyOpContext(c, '\n'), na, nb)
			if seen[class] {
				continue
			}
			seen[class] = true
			if len(seen) > 20000 {
				return false, "there are too many cases"
			}
			todo = append(todo, both{na, nb, s.text + string(c), c})
		}
	}
	return true, ""
}

func compileRegex(s string) (*syntax.Prog, error) {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, err
	}
	return syntax.Compile(re.Simplify())
}

type regexState struct {
	at    string // the instructions, sorted
	found bool
}

// step: whether it has been found at this point, before next (-1 is the end),
// and where it is after that.
func (s regexState) step(p *syntax.Prog, prev, next rune) (bool, regexState) {
	if s.found {
		return true, s
	}
	flags := syntax.EmptyOpContext(prev, next)
	seen := map[uint32]bool{}
	after := map[uint32]bool{}
	found := false
	var visit func(i uint32)
	visit = func(i uint32) {
		if seen[i] {
			return
		}
		seen[i] = true
		in := &p.Inst[i]
		switch in.Op {
		case syntax.InstMatch:
			found = true
		case syntax.InstAlt, syntax.InstAltMatch:
			visit(in.Out)
			visit(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			visit(in.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^flags == 0 {
				visit(in.Out)
			}
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if next >= 0 && in.MatchRune(next) {
				after[in.Out] = true
			}
		}
	}
	for _, c := range []rune(s.at) {
		visit(uint32(c))
	}
	visit(uint32(p.Start))
	if found {
		return true, regexState{found: true}
	}
	var list []rune
	for i := range after {
		list = append(list, rune(i))
	}
	sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
	return false, regexState{at: string(list)}
}

// patterns: the regular expressions that are looked for in a function, and
// where. Those that are not constant are "".
func (p *Prog) patterns(f *ssa.Function) map[ssa.CallInstruction][]string {
	out := map[ssa.CallInstruction][]string{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			switch calleeName(c.Common()) {
			case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match", "(*regexp.Regexp).FindStringSubmatch":
				out[c] = p.patternOf(c.Common().Args[0], map[ssa.Value]bool{})
			case "regexp.MatchString", "regexp.Match":
				out[c] = []string{constText(c.Common().Args[0])}
			}
		}
	}
	return out
}

func (p *Prog) patternOf(v ssa.Value, seen map[ssa.Value]bool) []string {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Call:
		switch calleeName(v.Common()) {
		case "regexp.MustCompile", "regexp.Compile":
			return []string{constText(v.Common().Args[0])}
		}
	case *ssa.Extract:
		return p.patternOf(v.Tuple, seen)
	case *ssa.Phi:
		var out []string
		for _, e := range v.Edges {
			out = append(out, p.patternOf(e, seen)...)
		}
		return out
	case *ssa.UnOp:
		g, ok := v.X.(*ssa.Global)
		if !ok {
			return []string{""}
		}
		var out []string
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok && st.Addr == g {
						out = append(out, p.patternOf(st.Val, seen)...)
					}
				}
			}
		}
		return out
	}
	return []string{""}
}

func constText(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return ""
}
