package main

var modelOpaque = []string{"(*model.Score).ApplyGlobalAttributes", "model.argumentsMatchSignature"}

func (p *Prog) opaque(names ...string) {
	for _, n := range names {
		p.Opaque[n] = true
	}
}

// withFresh runs f with acts including the writes to fresh objects.
func (p *Prog) withFresh(f func()) {
	am := p.actMemo
	p.actMemo, p.fresh = nil, true
	defer func() { p.actMemo, p.fresh = am, false }()
	f()
}

// sealed runs f with further functions treated as opaque.
func (p *Prog) sealed(f func(), names ...string) {
	em, fm, am, op := p.exprMemo, p.factMemo, p.actMemo, p.Opaque
	p.exprMemo, p.factMemo, p.actMemo, p.Opaque = map[exprKey]*E{}, map[string]*ctxFacts{}, nil, map[string]bool{}
	for k := range op {
		p.Opaque[k] = true
	}
	p.opaque(names...)
	defer func() { p.exprMemo, p.factMemo, p.actMemo, p.Opaque = em, fm, am, op }()
	f()
}
