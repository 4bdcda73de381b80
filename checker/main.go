package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
)

// A check decides one property from the current source.
type check func(c *Ctx, r *Report)

var checks = map[string]check{}

// Ctx gives checks the loaded program, per platform, on demand.
type Ctx struct {
	Tier   string
	worlds map[string]*World
	rep    *Report
}

// World loads one platform; a program that does not type-check is itself reported.
func (c *Ctx) World(goos, goarch string) *World {
	k := goos + "/" + goarch
	if w, ok := c.worlds[k]; ok {
		c.note(w)
		return w
	}
	w, err := Load(goos, goarch, true)
	if err != nil {
		fmt.Println("load failed:", err)
		os.Exit(2)
	}
	c.worlds[k] = w
	if len(w.TypeErrors) > 0 {
		for i, e := range w.TypeErrors {
			if i < 10 {
				fmt.Println("type error:", e)
			}
		}
		c.rep.Bad("type-check", k, "-", "the tree does not type-check for %s, nothing can be decided: %s", k, w.TypeErrors[0])
		os.Exit(c.rep.Finish(c.Tier, seed()))
	}
	c.note(w)
	return w
}

func (c *Ctx) note(w *World) {
	p := w.GOOS + "/" + w.GOARCH
	for _, q := range c.rep.platforms {
		if q == p {
			return
		}
	}
	c.rep.platforms = append(c.rep.platforms, p)
	if len(w.Funcs) > c.rep.Units["functions"] {
		c.rep.Units["functions"] = len(w.Funcs)
		c.rep.Units["packages"] = len(w.Pkgs)
	}
}

func (c *Ctx) Linux() *World { return c.World("linux", "amd64") }

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

func main() {
	prop := flag.String("prop", "", "property id, or all")
	tier := flag.String("tier", "", "quick or thorough")
	dump := flag.String("dump", "", "print an internal table")
	flag.StringVar(&repoDir, "repo", "/repo", "tree to analyse")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	debug.SetGCPercent(400)
	if p := os.Getenv("PHX_PROF"); p != "" {
		if f, err := os.Create(p); err == nil {
			_ = pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	worlds := map[string]*World{}
	if *dump != "" {
		dumpTable(*dump, &Ctx{Tier: *tier, worlds: worlds, rep: NewReport("X")})
		return
	}
	ids := []string{*prop}
	if *prop == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		f, ok := checks[id]
		if !ok {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		r := NewReport(id)
		c := &Ctx{Tier: *tier, worlds: worlds, rep: r}
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Printf("internal panic: %v\n%s\n", e, debug.Stack())
					r.Bad("internal", "analyser", "-", "the analyser panicked, the property is undecided: %v", e)
				}
			}()
			f(c, r)
		}()
		if x := r.Finish(*tier, seed()); x > rc {
			rc = x
		}
	}
	if rc != 0 {
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
}
