package main

import "fmt"

func dumpGlobals(p *Prog) {
	fs := p.coreFuncs()
	ws, n := p.globalWrites(fs)
	fmt.Println(len(fs), "functions", n, "values")
	for _, w := range ws {
		fmt.Println(p.ipos(w.i), fname(w.i.Parent()), w.what, "::", w.i)
	}
}
