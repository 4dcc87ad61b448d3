package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C21"] = checkSame }

func checkSame(p *Prog, r *Report) {
	r.rule("order", "Whatever walks a map, or something else whose elements come in no order, leaves behind the same in every order")
	r.rule("asks", "What turns a text into music, and music into messages and data, asks for nothing but what it is given: no clock, no chance, no environment, nothing about the process, no addresses")
	r.rule("keeps", "It keeps nothing from one time to the next: what belongs to the variables of packages is not changed once the program has started")
	r.rule("alone", "It does one thing after the other: it starts nothing that runs beside it and waits for nothing that does")
	sameOrder(p, r)
	core := p.coreFuncs()
	for _, f := range core {
		r.ob("asks", fname(f), p.pos(f.Pos()), true, "")
		r.ob("alone", fname(f), p.pos(f.Pos()), true, "")
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if why := p.asksFor(i); why != "" {
					r.at("asks", fname(f)+": "+why, i, false, why)
				}
				if why := besides(i); why != "" {
					r.at("alone", fname(f)+": "+why, i, false, why)
				}
			}
		}
	}
	ws, n := p.globalWrites(core)
	for _, f := range core {
		r.ob("keeps", fname(f), p.pos(f.Pos()), true, "")
	}
	for _, w := range ws {
		r.at("keeps", fname(w.i.Parent())+" changes "+w.what, w.i, false, "this changes what "+w.what+" holds, or what that refers to: the next score finds something else")
	}
	r.floor("asks", 300)
	if n < 20 {
		r.ob("keeps", "values followed", "", false, fmt.Sprintf("only %d values are found that come from variables", n))
	}
}

// sameOrder looks at everything that comes in no order.
func sameOrder(p *Prog, r *Report) {
	n := map[string]int{}
	nth := func(k string) string {
		n[k]++
		if n[k] > 1 {
			k += fmt.Sprintf(" (%d)", n[k])
		}
		return k
	}
	arrays := p.jsonFields()
	for _, f := range p.Funcs {
		if strings.HasPrefix(relPkg(f), "dev") || strings.Contains(p.pos(f.Pos()), "test_helper") {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Range:
					if _, ok := i.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					why := p.orderMatters(i)
					r.at("order", nth(fname(f)+" walks "+short(i.X.Type().String())), i, len(why) == 0, strings.Join(some(why), "; "))
				case *ssa.Select:
					continue
				case *ssa.Call:
					name := calleeName(i.Common())
					switch {
					case in(name, "maps.Keys", "maps.Values", "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values", "(reflect.Value).MapKeys"):
						why := p.bagMatters(i, elemKind{key: !strings.HasSuffix(name, "Values"), basic: true})
						r.at("order", nth(fname(f)+" "+name), i, len(why) == 0, strings.Join(some(why), "; "))
					case in(name, "maps.All", "(reflect.Value).MapRange", "(*sync.Map).Range"):
						r.at("order", nth(fname(f)+" "+name), i, false, "the entries come in no order")
					case name == "(*github.com/Jeffail/gabs/v2.Container).Children":
						// the children of an array come in order, those of an object do not
						k := childrenOf(i.Common().Args[0])
						var why []string
						if k == "" || arrays[k] == "object" {
							why = p.bagMatters(i, elemKind{})
						}
						r.at("order", nth(fname(f)+" walks the children of "+k), i, len(why) == 0, strings.Join(some(why), "; "))
					}
				}
			}
		}
	}
	r.floor("order", 10)
}

func some(ss []string) []string {
	if len(ss) > 3 {
		return append(ss[:3:3], fmt.Sprintf("and %d more", len(ss)-3))
	}
	return ss
}

func (p *Prog) bagMatters(v ssa.Value, el elemKind) []string {
	o := &ordering{p: p, seen: map[string]bool{}, bags: map[ssa.Value]bool{}, inside: map[string]bool{}, done: map[*ssa.If]bool{}}
	o.bag(v, el, none, 0)
	sort.Strings(o.why)
	return o.why
}

// childrenOf: the field of a JSON object that is looked for.
func childrenOf(v ssa.Value) string {
	if x, ok := v.(*ssa.Extract); ok {
		v = x.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return "what it is given"
	}
	if calleeName(c.Common()) != "(*github.com/Jeffail/gabs/v2.Container).Search" {
		return "what " + calleeName(c.Common()) + " gives"
	}
	sl, ok := c.Common().Args[1].(*ssa.Slice)
	if !ok {
		return ""
	}
	k := ""
	for _, ref := range *base(sl).Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					if s, ok := st.Val.(*ssa.Const); ok && s.Value != nil {
						k = constant.StringVal(s.Value)
					} else {
						return ""
					}
				}
			}
		}
	}
	return k
}

// jsonFields: which fields of JSON objects are made to be arrays, and which
// are objects somewhere.
func (p *Prog) jsonFields() map[string]string {
	out := map[string]string{}
	kind := func(v ssa.Value) string {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if c, ok := v.(*ssa.Call); ok {
			switch calleeName(c.Common()) {
			case "json.Array":
				return "array"
			case "json.Object":
				return "object"
			}
		}
		if _, ok := v.Type().Underlying().(*types.Map); ok {
			return "object"
		}
		return ""
	}
	note := func(k, v ssa.Value) {
		if mi, ok := k.(*ssa.MakeInterface); ok {
			k = mi.X
		}
		c, ok := k.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.String {
			return
		}
		name := constant.StringVal(c.Value)
		if x := kind(v); x != "" && out[name] != "object" {
			out[name] = x
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				switch calleeName(c.Common()) {
				case "json.Object":
					es := p.sliceElems(c.Common().Args[0])
					for k := 0; k+1 < len(es); k += 2 {
						note(es[k], es[k+1])
					}
				case "(*github.com/Jeffail/gabs/v2.Container).Set":
					if es := p.sliceElems(c.Common().Args[2]); len(es) == 1 {
						note(es[0], c.Common().Args[1])
					}
				}
			}
		}
	}
	return out
}

// besides: something that runs beside, or is waited for.
func besides(i ssa.Instruction) string {
	switch i := i.(type) {
	case *ssa.Go:
		return "it starts a goroutine"
	case *ssa.Send:
		return "it sends something through a channel"
	case *ssa.Select:
		return "it waits for one of several things"
	case *ssa.UnOp:
		if i.Op == token.ARROW {
			return "it receives something from a channel"
		}
	}
	return ""
}

var askPkgs = []string{"math/rand", "math/rand/v2", "crypto/rand", "os/exec", "os/user", "os/signal", "runtime", "runtime/debug", "syscall", "net", "net/http", "github.com/google/uuid", "testing", "unsafe"}
var askTime = map[string]bool{"Now": true, "Since": true, "Until": true, "Tick": true, "After": true, "AfterFunc": true, "NewTimer": true, "NewTicker": true, "Sleep": true}

// asksFor says what an instruction of the core finds out that it is not given.
func (p *Prog) asksFor(i ssa.Instruction) string {
	if cv, ok := i.(*ssa.Convert); ok {
		if b, ok := cv.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Uintptr || b.Kind() == types.UnsafePointer) {
			return "it looks at an address"
		}
	}
	com := callOf(i)
	if com == nil {
		return ""
	}
	g := com.StaticCallee()
	if g == nil || p.inModule(g) || g.Pkg == nil && g.Object() == nil {
		return ""
	}
	pk := pkgOf(g)
	if pk == nil {
		return ""
	}
	name := calleeName(com)
	switch {
	case in(pk.Path(), askPkgs...):
		return "it calls " + name
	case pk.Path() == "os":
		if f := i.Parent(); in(g.Name(), "ReadFile", "Open") && relPkg(f) == "parser" {
			return "" // the file that holds the text
		}
		return "it calls " + name
	case pk.Path() == "time" && askTime[g.Name()]:
		if v, ok := i.(*ssa.Call); ok && p.onlyTold(v, map[ssa.Value]bool{}) {
			return ""
		}
		return "it calls " + name + ", and not only to log how long something takes"
	case pk.Path() == "reflect" && in(g.Name(), "Pointer", "UnsafePointer", "UnsafeAddr"):
		return "it looks at an address"
	case pk.Path() == "fmt" && len(com.Args) > 0:
		for _, a := range com.Args {
			k, ok := a.(*ssa.Const)
			if ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") && !p.identifies(i.Parent()) {
				return "it makes a text of an address"
			}
		}
		if strings.HasPrefix(g.Name(), "S") || g.Name() == "Errorf" {
			for _, e := range p.sliceElems(com.Args[len(com.Args)-1]) {
				if mi, ok := e.(*ssa.MakeInterface); ok && addressShown(mi.X.Type()) {
					return "it makes a text of an address"
				}
			}
		}
	}
	return ""
}

// identifies: what this gives tells things apart, and that is all it is used
// for: it is an identifier in data.
func (p *Prog) identifies(f *ssa.Function) bool {
	if fname(f) != "(*model.Part).ID" {
		return false
	}
	for _, c := range p.callers(f) {
		if v, ok := c.(*ssa.Call); !ok || !p.onlyInJSON(v, map[ssa.Value]bool{}) {
			return false
		}
	}
	return !p.isAddrTaken(f)
}

// onlyInJSON: the value is put into JSON data, or logged, and nothing else.
func (p *Prog) onlyInJSON(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch ref := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.MakeInterface:
			if !p.onlyInJSON(ref, seen) {
				return false
			}
		case *ssa.Store:
			ia, ok := ref.Addr.(*ssa.IndexAddr)
			if !ok {
				return false
			}
			for _, r2 := range *base(ia).Referrers() {
				if sl, ok := r2.(*ssa.Slice); ok && !p.onlyInJSON(sl, seen) {
					return false
				}
			}
		case *ssa.Call:
			name := calleeName(ref.Common())
			if !in(name, "json.Object", "json.Array") && !strings.HasPrefix(name, "(*github.com/Jeffail/gabs/v2.Container).") && !globAny(name, logged...) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// addressShown: formatting this shows where it is in memory.
func addressShown(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if types.NewMethodSet(t).Lookup(nil, "String") != nil || types.NewMethodSet(t).Lookup(nil, "Error") != nil {
			return false
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Slice, *types.Map:
			return false // what is in it is shown
		}
		return true
	case *types.Chan, *types.Signature:
		return true
	}
	return false
}

// onlyTold: the value is logged, or is the time of a bundle of messages, or
// what it is made into is.
func (p *Prog) onlyTold(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return true
	}
	for _, ref := range *v.Referrers() {
		switch ref := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.MakeInterface, *ssa.Convert, *ssa.ChangeType, *ssa.Slice, *ssa.Phi, *ssa.UnOp:
			if !p.onlyTold(ref.(ssa.Value), seen) {
				return false
			}
		case *ssa.Store:
			b := base(ref.Addr)
			if _, ok := b.(*ssa.Alloc); !ok || !p.onlyTold(b, seen) {
				return false
			}
		case *ssa.IndexAddr, *ssa.FieldAddr:
			if !p.onlyTold(ref.(ssa.Value), seen) {
				return false
			}
		case *ssa.MakeClosure:
			fn := ref.Fn.(*ssa.Function)
			for i, b := range ref.Bindings {
				if b == v && !p.onlyTold(fn.FreeVars[i], seen) {
					return false
				}
			}
		case ssa.CallInstruction:
			com := ref.Common()
			name := calleeName(com)
			if globAny(name, logged...) || name == "github.com/daveyarwood/go-osc/osc.NewBundle" {
				continue
			}
			if strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "(time.") || strings.HasPrefix(name, "fmt.Sprint") {
				if x, ok := ref.(*ssa.Call); !ok || !p.onlyTold(x, seen) {
					return false
				}
				continue
			}
			g := com.StaticCallee()
			if g == nil || !p.inModule(g) || g.Blocks == nil {
				return false
			}
			for i, a := range com.Args {
				if a == v && !p.onlyTold(g.Params[i], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// corePkgs: what turns a text into music, and music into messages and data.
var corePkgs = []string{"parser", "model", "transmitter", "interop/musicxml/importer", "json"}

func callOf(i ssa.Instruction) *ssa.CallCommon {
	if c, ok := i.(ssa.CallInstruction); ok {
		return c.Common()
	}
	return nil
}

func isInit(f *ssa.Function) bool {
	return f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

// coreFuncs: the functions of the core that run after the program has started,
// and the functions of other packages that they call.
func (p *Prog) coreFuncs() (out []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || relPkg(f) == "logging" || isInit(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, g := range p.calleesOf(f) {
			visit(g)
		}
	}
	for _, f := range p.funcsIn(corePkgs...) {
		if !isInit(f) && !p.onlyAtStart(f, map[*ssa.Function]bool{}) && !strings.Contains(p.pos(f.Pos()), "test_helper") {
			visit(f)
		}
	}
	return
}

// onlyAtStart: the function is called by what runs when the program starts,
// and by nothing else.
func (p *Prog) onlyAtStart(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if isInit(f) || seen[f] {
		return true
	}
	seen[f] = true
	cs := p.callers(f)
	if len(cs) == 0 || p.isAddrTaken(f) {
		return false
	}
	for _, c := range cs {
		if !p.onlyAtStart(c.Parent(), seen) {
			return false
		}
	}
	return true
}
