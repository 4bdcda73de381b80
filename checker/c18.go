package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = checkC18 }

// Packages that compute views, layouts, styles and updates; everything in them has to be free of effects.
var pureZones = []string{"components", "style", "layout", "core", "render/internal/domain", "mouse/internal/domain/value", "mouse/internal/domain/service", "tea/internal/domain", "tea/internal/infrastructure/ansi", "clipboard/internal/domain/value", "terminal/types"}

func pureZone(pkg string) bool {
	for _, z := range pureZones {
		if pkg == z || strings.HasPrefix(pkg, z+"/") {
			return true
		}
	}
	return false
}

// Named exceptions, each confirmed by reading.
var impureByDesign = map[string]string{ // what -> the one kind of effect it may have
	"core/internal/infrastructure/platform":             "env", // environment access is its job
	"core/internal/domain/service.CapabilitiesDetector": "env", // capability detection
	"core.AutoDetect": "env", // capability detection
	"mouse/internal/domain/service.HoverTracker":                               "clock", // records when the pointer entered a region
	"mouse/internal/domain/service.NewHoverTracker":                            "clock",
	"components/input/internal/textarea/domain/service.TestDebugInsertNewline": "io", // a test helper living in a non-test file
}

var kindText = map[string]string{"io": "performs I/O", "clock": "reads the clock or waits", "env": "reads the environment", "random": "uses a random source", "goroutine": "starts a goroutine", "channel": "uses a channel", "global": "changes global state", "cmd": "runs a command itself"}

// cmdClosure: an anonymous function that is a command, run later by the event loop.
func cmdClosure(f *ssa.Function) bool {
	s := f.Signature
	if f.Parent() == nil || s.Params().Len() != 0 || s.Results().Len() != 1 {
		return false
	}
	return strings.HasSuffix(typeName(s.Results().At(0).Type()), ".Msg")
}

func inCmdClosure(f *ssa.Function) bool {
	for ; f != nil; f = f.Parent() {
		if cmdClosure(f) {
			return true
		}
	}
	return false
}

func checkC18(c *Ctx, r *Report) {
	w := c.Linux()
	e := w.Effects()
	r.Rule("pure", "no function of the view, layout, style, core, drawing-model or component packages reaches (through any callee, interface implementation or callback of the library) an I/O call, the clock, the environment, a random source, a goroutine, a channel operation, a write to a package variable, or runs a command itself; anonymous functions that are commands are judged when the event loop runs them")
	r.Rule("detector-fires", "the same analysis finds the effects of the parts whose job is I/O")
	r.Assume = append(r.Assume, "functions outside the repository have the effect class listed in the checker (unknown packages count as I/O); callbacks supplied by the application are the application's")
	for _, f := range w.Funcs {
		pk := pkgOf(f)
		if !pureZone(pk) || inCmdClosure(f) {
			continue
		}
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		ex := ""
		for _, k := range []string{pk, fnName(top)} {
			if impureByDesign[k] != "" {
				ex = k
			}
		}
		if n := recvNamed(top); n != nil && impureByDesign[typeName(n)] != "" {
			ex = typeName(n)
		}
		effs := e.Of(f)
		bad := false
		for _, x := range effs {
			if ex != "" && x.Kind == impureByDesign[ex] {
				continue
			}
			bad = true
			r.Bad("pure", fnName(f)+" "+x.Kind, x.Pos, "%s %s (%s in %s)", fnName(f), kindText[x.Kind], x.What, fnName(x.In))
		}
		if !bad {
			r.OK("pure", fnName(f))
		}
	}
	for _, f := range w.Funcs {
		if !pureZone(pkgOf(f)) && len(e.Of(f)) > 0 {
			r.OK("detector-fires", fnName(f))
		}
	}
	r.Floor("pure", 1100)
	r.Floor("detector-fires", 60)
}
