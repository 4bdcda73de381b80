package main

import (
	"fmt"
	"os"
	"strings"
)

func dumpKept(c *Ctx) {
	w := c.Linux()
	p := NewBProver(w)
	p.trace = os.Getenv("TRACE") != ""
	p.debug = os.Getenv("DBG") != ""
	want := os.Getenv("FN")
	r := NewReport("C11")
	r.Rule("kept", "")
	r.Rule("changed-here", "")
	for _, f := range w.Funcs {
		if want != "" && !strings.Contains(fnName(f), want) {
			continue
		}
		s := p.Steps
		checkKept(p, r, f, 2500)
		if p.Steps-s > 3000 {
			fmt.Println("steps", p.Steps-s, fnName(f))
		}
	}
	for _, x := range r.findings {
		fmt.Println(x.Pos, x.Msg)
	}
	fmt.Println("steps", p.Steps)
}
