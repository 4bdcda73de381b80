package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"strings"
)

func dumpPanics(c *Ctx) {
	for _, w := range []*World{c.World("linux", "amd64"), c.World("windows", "amd64")} {
		for _, f := range w.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.TypeAssert:
						if !x.CommaOk {
							fmt.Println(w.GOOS, "assert", w.InstrPos(in), fnName(f), x)
						}
					case *ssa.Panic:
						fmt.Println(w.GOOS, "panic", w.InstrPos(in), fnName(f), x)
					case *ssa.SliceToArrayPointer:
						fmt.Println(w.GOOS, "s2a", w.InstrPos(in), fnName(f), x)
					case *ssa.MakeChan:
						if _, ok := x.Size.(*ssa.Const); !ok {
							fmt.Println(w.GOOS, "chan", w.InstrPos(in), fnName(f), x)
						}
					case *ssa.MapUpdate:
						_ = types.Typ
						fmt.Println(w.GOOS, "mapupd", w.InstrPos(in), fnName(f), x, x.Map)
					case *ssa.Call:
						if e := extCallee(x); e != nil && !isRepoPath(extPkg(e)) {
							n := e.FullName()
							for _, s := range []string{"Must", "rand.", "binary", "NewTicker", "NewRGBA", "unsafe", "NewReplacer", "utf16", "hex.", "base64", "Tick", "reflect"} {
								if strings.Contains(n, s) {
									fmt.Println(w.GOOS, "ext", w.InstrPos(in), fnName(f), n)
								}
							}
						}
					}
				}
			}
		}
	}
}
