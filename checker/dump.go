package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func dumpTable(name string, c *Ctx) {
	switch {
	case name == "funcs":
		w := c.Linux()
		for _, f := range w.Funcs {
			fmt.Println(fnName(f), w.Pos(f.Pos()))
		}
	case strings.HasPrefix(name, "ssa:"):
		w := c.Linux()
		if f := w.Func(name[4:]); f != nil {
			f.WriteTo(os.Stdout)
		}
	case name == "c14table":
		dumpC14Table(c)
	case name == "c08table":
		dumpC08Table(c)
	case name == "panics":
		dumpPanics(c)
	case name == "kept":
		dumpKept(c)
	case name == "sites":
		dumpSites(c)
	case name == "c17":
		dumpC17(c)
	case name == "effects":
		dumpEffects(c)
	case name == "mapranges":
		dumpMapRanges(c)
	case name == "c08":
		dumpC08(c)
	case name == "c07table":
		dumpC07Table(c)
	case name == "prov" || strings.HasPrefix(name, "prov:"):
		w := c.Linux()
		t := time.Now()
		p := NewProv(w)
		fmt.Println("passes", p.pass, time.Since(t), len(p.sums))
		for _, f := range w.Funcs {
			if name != "prov" && !strings.Contains(fnName(f), name[5:]) {
				continue
			}
			s := p.Sum(f)
			if s == nil {
				continue
			}
			if name == "prov" {
				if len(s.Mut) == 0 && len(s.Ext) == 0 {
					continue
				}
			}
			fmt.Println(fnName(f))
			for k, e := range s.Mut {
				fmt.Println("   MUT", k, w.Pos(e.Pos), e.What)
			}
			for k, e := range s.Ext {
				fmt.Println("   EXT", k, w.Pos(e.Pos), e.What)
			}
			if name != "prov" {
				for i, r := range s.Ret {
					fmt.Println("   RET", i, r)
				}
				var ks []string
				for k := range s.Heap {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					fmt.Println("   HEAP", k, s.Heap[k])
				}
			}
		}
	}
}

func dumpMapRanges(c *Ctx) {
	w := c.Linux()
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if rg, ok := in.(*ssa.Range); ok {
					fmt.Println(fnName(f), w.InstrPos(rg), rg.X.Type())
				}
			}
		}
	}
}
