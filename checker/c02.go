package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C02"] = checkC02 }

// procOp classifies a call of an external-process operation.
func procOp(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return ""
	}
	f := c.StaticCallee()
	if f == nil {
		return ""
	}
	o, ok := f.Object().(*types.Func)
	if !ok {
		return ""
	}
	switch o.FullName() {
	case "(*os/exec.Cmd).Start":
		return "start"
	case "(*os/exec.Cmd).Wait":
		return "wait"
	case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput":
		return "run"
	case "os.StartProcess", "syscall.ForkExec", "syscall.StartProcess":
		return "raw"
	}
	return ""
}

// staticReach: library functions that reach a call matched by hit through static calls, deferred
// calls and the closures they make.
func staticReach(w *World, hit func(c *ssa.CallCommon) bool) map[*ssa.Function]bool {
	in := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range w.Funcs {
			if in[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch x := i.(type) {
					case ssa.CallInstruction:
						if hit(x.Common()) {
							in[f] = true
						}
						if g := x.Common().StaticCallee(); g != nil && in[origin(g)] {
							in[f] = true
						}
					case *ssa.MakeClosure:
						if in[origin(x.Fn.(*ssa.Function))] {
							in[f] = true
						}
					}
				}
			}
			changed = changed || in[f]
		}
	}
	return in
}

func hasErrorParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if types.Identical(p.Type(), types.Universe.Lookup("error").Type()) {
			return true
		}
	}
	return false
}

func lastIsError(s *types.Signature) bool {
	n := s.Results().Len()
	return n > 0 && types.Identical(s.Results().At(n-1).Type(), types.Universe.Lookup("error").Type())
}

func lastResult(s *types.Signature, v SV) SV {
	n := s.Results().Len()
	if n <= 1 {
		return v
	}
	if v.k == 't' && len(v.binds) == n {
		return v.binds[n-1]
	}
	return SV{}
}

func checkC02(c *Ctx, r *Report) {
	r.Rule("waited", "simulating the state of every external process along every path of every operation that starts one, no path returns (or panics, or ends a goroutine) after a successful start without a Wait of that command")
	r.Rule("failure-returned", "on every path on which starting, running or waiting for an external command failed, the error result of the operation is certainly not nil")
	r.Assume = append(r.Assume, "exec.Cmd.Run, Output and CombinedOutput wait for the process they start (documented)")
	for _, goos := range []string{"linux", "darwin", "windows"} {
		w := c.World(goos, "amd64")
		reach := staticReach(w, func(c *ssa.CallCommon) bool { return procOp(c) != "" })
		pkgs := map[string]bool{}
		for f := range reach {
			pkgs[pkgOf(f)] = true
		}
		sites := map[ssa.Instruction]bool{}
		track := trackFields(decisionFields(w, func(f *ssa.Function) bool { return reach[f] }))
		var roots []*ssa.Function
		goRoot := map[*ssa.Function]bool{}
		for f := range reach {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok {
						if t := g.Common().StaticCallee(); t != nil && reach[origin(t)] {
							goRoot[origin(t)] = true
						}
					}
				}
			}
		}
		for f := range reach {
			if exported(f) && f.Parent() == nil || goRoot[f] {
				roots = append(roots, f)
			}
		}
		sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
		cl := &SimClient{
			Enter: func(f *ssa.Function) bool { return reach[f] || pkgs[pkgOf(f)] && hasErrorParam(f) },
			Track: track,
		}
		cl.Call = func(sm *Sim, st *SState, at ssa.Instruction, cc *ssa.CallCommon, callee *ssa.Function, ext *types.Func, args []SV) ([]SOut, bool) {
			op := procOp(cc)
			if op == "" {
				return nil, false
			}
			sites[at] = true
			key := "proc " + fmt.Sprint(len(args))
			if len(args) > 0 {
				key = "proc " + args[0].key()
			}
			fail := func(s *SState) { s.Set("fail", fmt.Sprintf("%s %s", fnName(at.Parent()), op)) }
			switch op {
			case "start":
				return sm.ErrOuts(st, cc, at, func(s *SState) { s.Set(key, "started") }, fail), true
			case "wait":
				return sm.ErrOuts(st, cc, at, func(s *SState) { s.Set(key, "") }, func(s *SState) { s.Set(key, ""); fail(s) }), true
			case "run":
				return sm.ErrOuts(st, cc, at, nil, fail), true
			}
			r.Bad("waited", fnName(at.Parent())+" "+op, w.InstrPos(at), "a process started other than through os/exec cannot be followed")
			return nil, false
		}
		for _, f := range roots {
			sm := NewSim(w, cl)
			args := make([]SV, len(f.Params))
			for i := range args {
				args[i] = svSym(fmt.Sprintf("arg%d", i))
			}
			con := fnName(f) + " " + goos
			pos := w.Pos(f.Pos())
			for _, o := range sm.Exec(f, args, make([]SV, len(f.FreeVars)), newSState()) {
				left := ""
				for k, v := range o.st.ts {
					if strings.HasPrefix(k, "proc ") && v == "started" {
						left = k
					}
				}
				how := "return"
				if o.panic {
					how = "panic"
				}
				r.Check(left == "", "waited", con, pos, "the operation can %s after starting an external command without waiting for it", how)
				if at := o.st.ts["fail"]; at != "" && !o.panic && !goRoot[f] {
					k := ""
					if lastIsError(f.Signature) {
						k = o.st.Known(lastResult(f.Signature, o.ret))
					}
					r.Check(k != "" && k != "nil", "failure-returned", con, pos, "the operation can return without a certain error although %s of an external command failed in %s", strings.Fields(at)[len(strings.Fields(at))-1], fnName(f))
				} else {
					r.OK("failure-returned", con)
				}
			}
			if sm.Blown {
				r.Bad("waited", con, pos, "too many states, undecided")
			}
			r.Units["operations"]++
			r.Units["simulation steps"] += sm.Steps
		}
		r.Units["process operations "+goos] = len(sites)
		min := map[string]int{"linux": 3, "darwin": 3, "windows": 1}[goos]
		r.Check(len(sites) >= min, "anchor", "process operations "+goos, "-", "only %d process operations were analysed, expected at least %d", len(sites), min)
	}
	r.Floor("waited", 12)
	r.Floor("failure-returned", 12)
}
