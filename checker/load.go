package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "alda.io/client"

// Prog is the type-checked, SSA-built view of /repo/client.
type Prog struct {
	Repo   string
	Client string
	Fset   *token.FileSet
	Pkgs   map[string]*packages.Package // by path relative to module ("model", "cmd", ...)
	SSA    *ssa.Program
	SPkgs  map[string]*ssa.Package
	Funcs  []*ssa.Function // every source function of the module (methods, closures included)

	// cached analyses
	exprMemo  map[exprKey]*E
	factMemo  map[string]*ctxFacts
	innerOnly bool
	closed    map[*ssa.Function]string  // functions not looked into, and what they are called
	cannot    func(known []string) bool // what is known cannot be
	keepCtx   bool                      // shapes tell source contexts
	fresh     bool                      // acts include writes to what the function itself creates
	Opaque    map[string]bool           // functions never inlined when building expressions
	actMemo   map[*ssa.Function][]Effect
	decls     map[*types.Func]*ast.FuncDecl

	modMemo        map[*ssa.Function]map[string]bool
	methodsByName  map[string][]*ssa.Function
	addrTaken      map[string][]*ssa.Function
	callerMemo     map[*ssa.Function][]ssa.CallInstruction
	sharedCallMemo map[*ssa.Function][]ssa.CallInstruction
}

func load(repo string, goos, goarch string, patterns ...string) (*Prog, error) {
	client := filepath.Join(repo, "client")
	tmp, err := os.MkdirTemp("", "aldacheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(client, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, "client"+strings.TrimPrefix(f, "go")), b, 0644); err != nil {
			return nil, err
		}
	}
	version := "0.0.0"
	if b, err := os.ReadFile(filepath.Join(repo, "VERSION")); err == nil {
		version = strings.TrimSpace(string(b))
	}
	overlay := map[string][]byte{
		filepath.Join(client, "generated", "version.go"): []byte(
			"package generated\n\n// ClientVersion is the version of the Alda client.\nconst ClientVersion = \"" + version + "\"\n"),
	}
	env := append(os.Environ(),
		"GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "client.mod"),
		"GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
	if goos != "" {
		env = append(env, "GOOS="+goos, "GOARCH="+goarch)
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax |
			packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule,
		Dir: client, Env: env, Overlay: overlay, Tests: false,
	}
	if len(patterns) == 0 {
		patterns = []string{"./..."}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	if more := lifted(pkgs); len(more) > 0 {
		for name, src := range more {
			overlay[name] = src
		}
		again, err := packages.Load(cfg, patterns...)
		ok := err == nil
		for _, p := range again {
			ok = ok && len(p.Errors) == 0
		}
		if ok {
			pkgs = again
		} else if os.Getenv("CHK_LIFT") != "" {
			fmt.Fprintln(os.Stderr, "lifting failed", err, again)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{Repo: repo, Client: client, Fset: pkgs[0].Fset, Pkgs: map[string]*packages.Package{},
		SSA: prog, SPkgs: map[string]*ssa.Package{}, exprMemo: map[exprKey]*E{}, factMemo: map[string]*ctxFacts{},
		Opaque: map[string]bool{}, decls: map[*types.Func]*ast.FuncDecl{}}
	for i, pk := range pkgs {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", pk.PkgPath)
		}
		spkgs[i].Build()
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		p.Pkgs[rel] = pk
		p.SPkgs[rel] = spkgs[i]
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						p.decls[o] = fd
					}
				}
			}
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks == nil || !p.inModule(f) || f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		p.Funcs = append(p.Funcs, f)
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			pa, pb := p.Fset.Position(a.Pos()), p.Fset.Position(b.Pos())
			if pa.Filename != pb.Filename {
				return pa.Filename < pb.Filename
			}
			if pa.Offset != pb.Offset {
				return pa.Offset < pb.Offset
			}
		}
		return a.String() < b.String()
	})
	return p, nil
}

func pkgOf(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

func (p *Prog) inModule(f *ssa.Function) bool {
	pk := pkgOf(f)
	return pk != nil && (pk.Path() == modPath || strings.HasPrefix(pk.Path(), modPath+"/"))
}

// relPkg returns the module-relative package path of f ("model").
func relPkg(f *ssa.Function) string {
	pk := pkgOf(f)
	if pk == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), modPath), "/")
}

func short(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

func fname(f *ssa.Function) string { return short(f.RelString(nil)) }

// fn finds a function or method: "model.NewScore", "(model.Note).UpdateScore", "(*model.Score).Update".
func (p *Prog) fn(name string) *ssa.Function {
	for _, f := range p.Funcs {
		if fname(f) == name {
			return f
		}
	}
	return nil
}

func (p *Prog) funcsIn(pkgs ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		for _, k := range pkgs {
			if relPkg(f) == k {
				out = append(out, f)
			}
		}
	}
	return out
}

func (p *Prog) pos(pos token.Pos) string {
	ps := p.Fset.Position(pos)
	if !ps.IsValid() {
		return "?"
	}
	rel, err := filepath.Rel(p.Repo, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// ipos finds a usable position for an instruction.
func (p *Prog) ipos(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return p.pos(i.Pos())
	}
	if v, ok := i.(ssa.Value); ok {
		if rs := v.Referrers(); rs != nil {
			for _, r := range *rs {
				if r.Pos().IsValid() {
					return p.pos(r.Pos())
				}
			}
		}
	}
	var ops []*ssa.Value
	for _, o := range i.Operands(ops) {
		if *o != nil && (*o).Pos().IsValid() {
			return p.pos((*o).Pos())
		}
	}
	if b := i.Block(); b != nil {
		for _, j := range b.Instrs {
			if j.Pos().IsValid() {
				return p.pos(j.Pos())
			}
		}
	}
	return p.pos(i.Parent().Pos())
}

func (p *Prog) typ(rel, name string) types.Type {
	pk := p.Pkgs[rel]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// named returns "model.Note" for a (pointer to a) named type.
func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return short(types.TypeString(t, func(p *types.Package) string { return short(p.Path()) }))
}

func derefType(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	st, _ := derefType(t).Underlying().(*types.Struct)
	return st
}
