package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

func dumpSites(c *Ctx) {
	w := c.Linux()
	p := NewBProver(w)
	p.trace = os.Getenv("TRACE") != ""
	p.debug = os.Getenv("DBG") != ""
	want := os.Getenv("FN")
	n, ok := 0, 0
	for _, f := range w.Funcs {
		if want != "" && !strings.Contains(fnName(f), want) {
			continue
		}
		for _, s := range w.boundSites(f) {
			n++
			t := time.Now()
			s0 := p.Steps
			k := 0
			r, g := p.proveChain(s.in, s.goals(p), nil, 2500, &k)
			if !r && s.alt != nil {
				r, _ = p.proveChain(s.in, s.alt(p), nil, 2500, &k)
			}
			if os.Getenv("STEPS") != "" {
				fmt.Println("STEPS", p.Steps-s0, k, w.InstrPos(s.in), fnName(f), s.kind, s.text)
			}
			if r {
				ok++
			} else {
				fmt.Printf("%s %s %s %s: %v\n", w.InstrPos(s.in), fnName(f), s.kind, s.text, g)
			}
			if d := time.Since(t); d > 3*time.Second {
				fmt.Println("   slow", d, w.InstrPos(s.in))
			}
		}
	}
	fmt.Println(n, "sites", ok, "proved", p.Steps, "steps")
}
