package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func dumpMapRanges(p *Prog) {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if r, ok := i.(*ssa.Range); ok {
					fmt.Println(p.ipos(i), fname(f), r.X.Type())
					for _, w := range p.orderMatters(r) {
						fmt.Println("    ", w)
					}
				}
			}
		}
	}
}
