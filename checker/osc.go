package main

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	oscNew    = "github.com/daveyarwood/go-osc/osc.NewMessage"
	oscAppend = "(*github.com/daveyarwood/go-osc/osc.Message).Append"
)

// msgExpr describes an OSC message by its address and all the arguments that
// are put into it: those given at its creation, and those appended to it in
// the function that creates it or in the helpers it passes it to.
func (p *Prog) msgExpr(v *ssa.Call, c *Ctx) *E {
	args := v.Common().Args
	out := &E{Op: "msg", V: v, C: c, A: []*E{catExpr(p.expr(args[0], c))}}
	if len(args) > 1 {
		out.A = append(out.A, p.spread(args[1], c)...)
	}
	out.A = append(out.A, p.appended(v, c, 0)...)
	return out
}

// spread lists the elements of a variadic argument.
func (p *Prog) spread(v ssa.Value, c *Ctx) []*E {
	if isNilConst(v) {
		return nil
	}
	e := p.expr(v, c)
	if e.Op == "slicelit" {
		return e.A
	}
	return []*E{mk("spread", "", e)}
}

// appended lists what is appended to the message held by v, in order.
func (p *Prog) appended(v ssa.Value, c *Ctx, depth int) (out []*E) {
	if v.Referrers() == nil || depth > 3 {
		return nil
	}
	var uses []*ssa.Call
	for _, r := range *v.Referrers() {
		if call, ok := r.(*ssa.Call); ok {
			uses = append(uses, call)
		}
	}
	sort.SliceStable(uses, func(i, j int) bool {
		return before(Site{uses[i], c}, Site{uses[j], c}) && !before(Site{uses[j], c}, Site{uses[i], c})
	})
	for _, call := range uses {
		com := call.Common()
		if calleeName(com) == oscAppend && com.Args[0] == v {
			for _, a := range p.spread(com.Args[1], c) {
				// in a loop over a literal list: all of its elements
				if a.Op == "elem" && a.A[0].Op == "slicelit" {
					out = append(out, a.A[0].A...)
				} else {
					out = append(out, a)
				}
			}
			continue
		}
		if cc := p.callee(call, c); cc != nil {
			for i, a := range com.Args {
				if a == v && i < len(cc.Fn.Params) {
					out = append(out, p.appended(cc.Fn.Params[i], cc, depth+1)...)
				}
			}
		}
	}
	return
}

// catExpr writes string building as one concatenation.
func catExpr(e *E) *E {
	var parts []*E
	var add func(e *E)
	lit := func(s string) {
		if s == "" {
			return
		}
		if n := len(parts); n > 0 && parts[n-1].Op == "const" {
			parts[n-1] = mk("const", parts[n-1].S+s)
			return
		}
		parts = append(parts, mk("const", s))
	}
	add = func(e *E) {
		switch {
		case e.Op == "const":
			lit(strings.Trim(e.S, `"`))
		case e.Op == "bin" && e.S == token.ADD.String():
			for _, a := range e.A {
				add(a)
			}
		case e.Op == "call" && e.S == "fmt.Sprintf" && len(e.A) == 2 && e.A[0].Op == "const" && e.A[1].Op == "slicelit":
			format := strings.Trim(e.A[0].S, `"`)
			k := 0
			for {
				i := strings.IndexByte(format, '%')
				if i < 0 || i+1 >= len(format) {
					lit(format)
					break
				}
				lit(format[:i])
				if strings.IndexByte("dsv", format[i+1]) < 0 || k >= len(e.A[1].A) {
					lit(format[i : i+2])
				} else {
					add(e.A[1].A[k])
					k++
				}
				format = format[i+2:]
			}
		case e.Op == "call" && (e.S == "strconv.Itoa" || e.S == "strconv.FormatInt" || e.S == "fmt.Sprint"):
			x := e.A[0]
			if x.Op == "slicelit" && len(x.A) == 1 {
				x = x.A[0]
			}
			for x.Op == "conv" {
				x = x.A[0]
			}
			parts = append(parts, x)
		default:
			parts = append(parts, e)
		}
	}
	add(e)
	if len(parts) == 1 && parts[0].Op == "const" {
		return parts[0]
	}
	return mk("cat", "", parts...)
}
