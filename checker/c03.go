package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C03"] = checkC03 }

// chanKeys names the channels a value can be: "F:Type.field", "M:function:register" for a channel made
// there, "ctx", "timer", or "?".
func (w *World) chanKeys(v ssa.Value) map[string]bool {
	out := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, d int)
	store := func(addr ssa.Value, d int) {
		refs := addr.Referrers()
		if refs == nil {
			out["?"] = true
			return
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == addr {
					rec(x.Val, d+1)
				}
			}
		}
	}
	rec = func(v ssa.Value, d int) {
		if seen[v] {
			return
		}
		seen[v] = true
		if d > 12 {
			out["?"] = true
			return
		}
		switch x := v.(type) {
		case *ssa.MakeChan:
			out["M:"+fnName(x.Parent())+":"+x.Name()] = true
		case *ssa.Const:
		case *ssa.UnOp:
			if x.Op != token.MUL {
				out["?"] = true
				return
			}
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				n, fv, _ := fieldOf(a)
				if n != nil {
					if p := fv.Pkg(); p != nil && p.Path() == "time" {
						out["timer"] = true
					} else {
						out["F:"+typeName(n)+"."+fv.Name()] = true
					}
					return
				}
				out["?"] = true
			case *ssa.Alloc:
				store(a, d)
			case *ssa.FreeVar:
				cells, ok := w.capturedCells(a)
				if !ok {
					out["?"] = true
				}
				for _, c := range cells {
					store(c, d)
				}
			default:
				out["?"] = true
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e, d+1)
			}
		case *ssa.ChangeType:
			rec(x.X, d+1)
		case *ssa.MakeInterface:
			rec(x.X, d+1)
		case *ssa.FreeVar:
			for _, b := range w.freeVarBindings(x) {
				rec(b, d+1)
			}
		case *ssa.Parameter:
			f := x.Parent()
			i := -1
			for j, p := range f.Params {
				if p == x {
					i = j
				}
			}
			cs := w.Callers(f)
			if len(cs) == 0 {
				out["?"] = true
			}
			for _, c := range cs {
				a := c.Common().Args
				if i < len(a) {
					rec(a[i], d+1)
				}
			}
		case *ssa.Call:
			if x.Common().IsInvoke() {
				if x.Common().Method.Name() == "Done" && extPkg(x.Common().Method) == "context" {
					out["ctx"] = true
					return
				}
			} else if g := x.Common().StaticCallee(); g != nil {
				if o, ok := g.Object().(*types.Func); ok && o.FullName() == "time.After" {
					out["timer"] = true
					return
				}
				if g = origin(g); w.funcSet[g] {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
								rec(r.Results[0], d+1)
							}
						}
					}
					return
				}
			}
			out["?"] = true
		case *ssa.Field:
			n, fv, _ := fieldOf(x)
			if n != nil {
				out["F:"+typeName(n)+"."+fv.Name()] = true
				return
			}
			out["?"] = true
		default:
			out["?"] = true
		}
	}
	rec(v, 0)
	return out
}

// freeVarBindings: what a closure's free variable is bound to, at every place the closure is made.
func (w *World) freeVarBindings(fv *ssa.FreeVar) []ssa.Value {
	f := fv.Parent()
	i := -1
	for j, v := range f.FreeVars {
		if v == fv {
			i = j
		}
	}
	var out []ssa.Value
	p := f.Parent()
	if p == nil || i < 0 {
		return nil
	}
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(f) {
				out = append(out, m.Bindings[i])
			}
		}
	}
	return out
}

// capturedCells: the variables a captured address can be.
func (w *World) capturedCells(fv *ssa.FreeVar) (out []*ssa.Alloc, ok bool) {
	bs := w.freeVarBindings(fv)
	for _, b := range bs {
		switch x := b.(type) {
		case *ssa.Alloc:
			out = append(out, x)
		case *ssa.FreeVar:
			in, ok := w.capturedCells(x)
			if !ok {
				return nil, false
			}
			out = append(out, in...)
		default:
			return nil, false
		}
	}
	return out, len(bs) > 0
}

// callReach: the functions that run in the same goroutine when one of the roots runs.
func (w *World) callReach(roots ...*ssa.Function) map[*ssa.Function]bool {
	in := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		f = origin(f)
		if !in[f] && w.funcSet[f] {
			in[f] = true
			work = append(work, f)
		}
	}
	for _, f := range roots {
		add(f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}
				cs, _, _ := w.Callees(c)
				for _, g := range cs {
					add(g)
				}
				// closures handed to code outside the library (sync.Once.Do and the like) run there
				for _, a := range c.Common().Args {
					if m, ok := a.(*ssa.MakeClosure); ok {
						add(m.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	return in
}

type chanOp struct {
	f    *ssa.Function
	at   ssa.Instruction
	ch   map[string]bool
	send bool
	sel  *ssa.Select // nil for a plain operation
}

func (w *World) chanOps(f *ssa.Function) []chanOp {
	var out []chanOp
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				out = append(out, chanOp{f, x, w.chanKeys(x.Chan), true, nil})
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					out = append(out, chanOp{f, x, w.chanKeys(x.X), false, nil})
				}
			case *ssa.Select:
				for _, s := range x.States {
					out = append(out, chanOp{f, x, w.chanKeys(s.Chan), s.Dir == types.SendOnly, x})
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Chan); ok {
					out = append(out, chanOp{f, x, w.chanKeys(x.X), false, nil})
				}
			}
		}
	}
	return out
}

func inter(a, b map[string]bool) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

func keyList(m map[string]bool) string { return strings.Join(sortedKeys(m), ", ") }

func (w *World) goTargets(g *ssa.Go) []*ssa.Function {
	cs, _, _ := w.Callees(g)
	var out []*ssa.Function
	for _, c := range cs {
		if o := origin(c); w.funcSet[o] {
			out = append(out, o)
		}
	}
	return out
}

func checkC03(c *Ctx, r *Report) {
	r.Rule("loop-send", "no function that runs in the goroutine of the event loop (call graph including interface calls) makes a send that can block on a channel that only the event loop receives from")
	r.Rule("quit-only-loop", "the quit channel is received from nowhere but in the event loop's own select, or before the loop of that run starts")
	r.Rule("quit-kept", "the quit channel can hold a request (constant capacity of at least one) and every send on it is a non-blocking select")
	r.Rule("quit-ends", "simulating the loop: after a quit request or a quit message was taken, no path receives another message")
	r.Rule("quit-asked", "every path of the quit operation, and of the stop operation of a running program, sends a quit request")
	r.Rule("goroutine-send", "every send in a goroutine started by the library has an alternative that becomes ready when the run has ended or the reader is cancelled (a channel closed there, a context, a timer), or goes to a channel with room for the one value each goroutine sends")
	r.Rule("end-closes", "every end of a run closes the channel the goroutines wait on as that alternative, made afresh when the run starts")
	r.Rule("one-result", "a goroutine whose result is collected from a channel made for it sends exactly one result on every path")
	r.Rule("message-kept", "simulating every goroutine that sends to the message queue: a message it got (from a command, from the reader) is sent; it may be given up only when the run has ended or the reader is cancelled, and on no default or timer alternative")
	r.Assume = append(r.Assume, "application code (models, commands, writers) itself returns", "quit requests made before a run starts are not requests of that run")
	for _, goos := range []string{"linux", "windows", "darwin"} {
		if goos == "darwin" && c.Tier != "thorough" {
			continue
		}
		c03(c.World(goos, "amd64"), r, goos)
	}
	r.Floor("loop-send", 1)
	r.Floor("quit-only-loop", 2)
	r.Floor("quit-kept", 2)
	r.Floor("quit-ends", 2)
	r.Floor("quit-asked", 2)
	r.Floor("goroutine-send", 4)
	r.Floor("end-closes", 2)
	r.Floor("one-result", 2)
	r.Floor("message-kept", 4)
}

func c03(w *World, r *Report, goos string) {
	isMsgChan := func(v ssa.Value) bool {
		ch, ok := v.Type().Underlying().(*types.Chan)
		return ok && namedOf(ch.Elem()) != nil && strings.HasSuffix(typeName(namedOf(ch.Elem())), "model.Msg")
	}
	// the event loop's select: receives messages and another channel of the same object
	var loopSel []*ssa.Select
	queue, quit := map[string]bool{}, map[string]bool{}
	var direct []*ssa.Function
	for _, f := range w.Funcs {
		if pkgOf(f) != progPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Select)
				if !ok || !s.Blocking {
					continue
				}
				has := false
				for _, x := range s.States {
					if x.Dir == types.RecvOnly && isMsgChan(x.Chan) {
						has = true
						for k := range w.chanKeys(x.Chan) {
							queue[k] = true
						}
					}
				}
				if !has {
					continue
				}
				loopSel = append(loopSel, s)
				direct = append(direct, f)
				for _, x := range s.States {
					if x.Dir == types.RecvOnly && !isMsgChan(x.Chan) {
						for k := range w.chanKeys(x.Chan) {
							if strings.HasPrefix(k, "F:") {
								quit[k] = true
							}
						}
					}
				}
			}
		}
	}
	// loop roots: goroutine entry points and exported operations that reach the loop's select
	isDirect := map[*ssa.Function]bool{}
	for _, f := range direct {
		isDirect[f] = true
	}
	reachesLoop := func(f *ssa.Function) bool {
		for g := range w.staticSame(f) {
			if isDirect[g] {
				return true
			}
		}
		return false
	}
	var loopRoots, starters []*ssa.Function
	var gos []*ssa.Go
	for _, f := range w.Funcs {
		starts := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					gos = append(gos, g)
					for _, t := range w.goTargets(g) {
						if pkgOf(t) == progPkg && reachesLoop(t) {
							loopRoots = append(loopRoots, t)
							starts = true
						}
					}
				}
			}
		}
		if f.Parent() == nil && pkgOf(f) == progPkg && exported(f) {
			if reachesLoop(f) {
				loopRoots = append(loopRoots, f)
				starts = true
			}
			if starts {
				starters = append(starters, f)
			}
		} else if starts {
			// the goroutine is started from a helper: the exported callers are the starters
			for _, g := range w.Funcs {
				if g.Parent() == nil && pkgOf(g) == progPkg && exported(g) && w.staticSame(g)[f] {
					starters = append(starters, g)
				}
			}
		}
	}
	if len(queue) == 0 || len(quit) == 0 || len(loopRoots) < 2 || len(starters) < 2 {
		r.Bad("anchor", "event loop "+goos, "-", "the event loop cannot be found (queues %s, quit channels %s, %d loops)", keyList(queue), keyList(quit), len(loopRoots))
		return
	}
	isLoopSel := func(s *ssa.Select) bool {
		for _, x := range loopSel {
			if x == s {
				return true
			}
		}
		return false
	}

	// sends in the loop's goroutine
	reach := w.callReach(loopRoots...)
	n := 0
	for _, f := range fnList(reach) {
		for _, op := range w.chanOps(f) {
			if !op.send || op.sel != nil && !op.sel.Blocking {
				continue
			}
			n++
			r.Check(!inter(op.ch, queue) && !op.ch["?"], "loop-send", fnName(f)+" "+keyList(op.ch), w.InstrPos(op.at), "the event loop can block here on a send to %s, which only the event loop empties", keyList(op.ch))
		}
	}
	r.OK("loop-send", fmt.Sprintf("%d functions of the event loop's goroutine, %d blocking sends", len(reach), n))
	r.Units["event loop functions"] = len(reach)

	// quit: capacity, senders
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				nm, fv, ok := fieldOf(s.Addr)
				if !ok || nm == nil || !quit["F:"+typeName(nm)+"."+fv.Name()] {
					continue
				}
				ok = w.bufferedOne(s.Val, 0)
				r.Check(ok, "quit-kept", fnName(f)+" capacity", w.InstrPos(s), "the quit channel cannot hold a request that comes while the event loop is busy")
			}
		}
		for _, op := range w.chanOps(f) {
			if op.send && inter(op.ch, quit) {
				r.Check(op.sel != nil && !op.sel.Blocking, "quit-kept", fnName(f)+" send", w.InstrPos(op.at), "this quit request can block (the event loop itself may make it)")
			}
		}
	}

	// simulate every run
	starterReach := map[*ssa.Function]bool{}
	for _, s := range starters {
		for g := range w.staticSame(s) {
			starterReach[g] = true
		}
	}
	for _, s := range loopRoots {
		for g := range w.staticSame(s) {
			starterReach[g] = true
		}
	}
	for _, f := range w.Funcs {
		for _, op := range w.chanOps(f) {
			if op.send || !inter(op.ch, quit) {
				continue
			}
			own := op.sel != nil && isLoopSel(op.sel)
			for _, g := range w.Funcs {
				isStarter := false
				for _, s := range starters {
					isStarter = isStarter || s == g
				}
				if !own && !isStarter && g.Parent() == nil && exported(g) && w.staticSame(g)[f] {
					r.Bad("quit-only-loop", fnName(g)+" via "+fnName(f), w.InstrPos(op.at), "an operation of a running program takes the quit request away from the event loop")
				}
			}
			r.Check(own || starterReach[f], "quit-only-loop", fnName(f), w.InstrPos(op.at), "the quit request can be taken here instead of by the event loop")
		}
	}
	// other goroutines must not reach a receive of the quit channel
	closedAtEnd := map[string]bool{}
	first := true
	track := trackFields(decisionFields(w, func(f *ssa.Function) bool { return pkgOf(f) == progPkg }))
	endRoot := func(f *ssa.Function, outs []SOut, blown bool) {
		con := fnName(f) + " " + goos
		if blown {
			r.Bad("quit-ends", con, w.Pos(f.Pos()), "too many states, undecided")
		}
		for _, o := range outs {
			if o.st.ts["loop"] == "" {
				continue // the operation ended before a run began
			}
			m := map[string]bool{}
			for k, v := range o.st.ts {
				if strings.HasPrefix(k, "closed ") && v == "once" {
					m[k[7:]] = true
				}
			}
			if first {
				first = false
				for k := range m {
					closedAtEnd[k] = true
				}
			} else {
				for k := range closedAtEnd {
					if !m[k] {
						delete(closedAtEnd, k)
					}
				}
			}
		}
		r.OK("quit-ends", con)
	}
	var client *SimClient
	var subs []func()
	quitSeen := func(st *SState) bool { return st.ts["quit"] != "" }
	client = &SimClient{
		Recursion: true,
		Enter:     func(f *ssa.Function) bool { return pkgOf(f) == progPkg },
		Track:     track,
		MayPanic: func(c *ssa.CallCommon, callee *ssa.Function, ext *types.Func) bool {
			return appCode(c, ext) != ""
		},
		TypeTest: func(t *ssa.TypeAssert) string {
			if n := namedOf(t.AssertedType); n != nil && strings.HasSuffix(typeName(n), ".QuitMsg") {
				return "quit"
			}
			return ""
		},
		Selected: func(sm *Sim, st *SState, at *ssa.Select, i int) {
			if !isLoopSel(at) {
				if i >= 0 && at.States[i].Dir == types.RecvOnly && inter(w.chanKeys(at.States[i].Chan), quit) {
					r.Check(st.ts["loop"] == "", "quit-only-loop", fnName(at.Parent())+" before the loop", w.InstrPos(at), "the quit request of a running program can be taken here instead of by the event loop")
				}
				return
			}
			st.Set("loop", "on")
			r.Check(!quitSeen(st), "quit-ends", fnName(at.Parent())+" "+goos, w.InstrPos(at), "the event loop can go on after a quit request or quit message was taken")
			if i >= 0 && at.States[i].Dir == types.RecvOnly && inter(w.chanKeys(at.States[i].Chan), quit) {
				st.Set("quit", "seen")
			} else {
				st.Set("quit", "")
			}
		},
		Chan: func(sm *Sim, st *SState, at ssa.Instruction) {
			cl, ok := at.(ssa.CallInstruction)
			if !ok || !isBuiltin(cl, "close") {
				return
			}
			for k := range w.chanKeys(cl.Common().Args[0]) {
				if !strings.HasPrefix(k, "F:") {
					continue
				}
				if st.ts["closed "+k] != "" || st.ts["made "+k] == "" {
					st.Set("closed "+k, "again")
					r.Bad("end-closes", fnName(at.Parent())+" "+k, w.InstrPos(at), "the channel can be closed twice: it is not made afresh for this run")
				} else {
					st.Set("closed "+k, "once")
				}
			}
		},
		Store: func(sm *Sim, st *SState, at ssa.Instruction, addr, val SV) {
			s, ok := at.(*ssa.Store)
			if !ok {
				return
			}
			n, fv, ok := fieldOf(s.Addr)
			if !ok || n == nil {
				return
			}
			k := "F:" + typeName(n) + "." + fv.Name()
			if _, isCh := fv.Type().Underlying().(*types.Chan); !isCh {
				return
			}
			for m := range w.chanKeys(s.Val) {
				if strings.HasPrefix(m, "M:") {
					st.Set("made "+k, "yes")
					st.Set("closed "+k, "")
				}
			}
		},
		Go: func(sm *Sim, st *SState, at *ssa.Go, fn SV, args []SV) {
			for _, t := range w.goTargets(at) {
				for _, l := range loopRoots {
					if t == l {
						s0 := st.clone()
						s0.Set("loop", "started")
						t, binds := t, fn.binds
						subs = append(subs, func() {
							sub := NewSim(w, client)
							outs := sub.Exec(t, args, binds, s0)
							endRoot(t, outs, sub.Blown)
							r.Units["simulation steps"] += sub.Steps
						})
						st.Set("loop", "started")
					}
				}
			}
		},
	}
	for _, f := range starters {
		sm := NewSim(w, client)
		args := make([]SV, len(f.Params))
		for i := range args {
			args[i] = svSym(fmt.Sprintf("arg%d", i))
		}
		subs = nil
		outs := sm.Exec(f, args, nil, newSState())
		if reachesLoop(f) {
			endRoot(f, outs, sm.Blown)
		}
		done := map[string]bool{}
		_ = done
		for i := 0; i < len(subs); i++ {
			subs[i]()
		}
		r.Units["simulation steps"] += sm.Steps
	}
	r.Check(len(closedAtEnd) > 0, "end-closes", "run "+goos, "-", "no channel is closed at every end of a run, goroutines of the run have nothing to wait on")
	for k := range closedAtEnd {
		r.OK("end-closes", k)
	}

	// Quit and Stop
	for _, name := range []string{"Quit", "Stop"} {
		f := progFunc(w, name)
		if f == nil {
			r.Bad("anchor", name, "-", "the program's %s method cannot be found", name)
			continue
		}
		sm := NewSim(w, &SimClient{
			Enter: func(f *ssa.Function) bool { return pkgOf(f) == progPkg },
			Selected: func(sm *Sim, st *SState, at *ssa.Select, i int) {
				for _, s := range at.States {
					if s.Dir == types.SendOnly && inter(w.chanKeys(s.Chan), quit) {
						st.Set("asked", "yes")
					}
				}
			},
		})
		for _, o := range sm.Exec(f, []SV{svSym("arg0")}, nil, newSState()) {
			ok := o.st.ts["asked"] == "yes"
			if name == "Stop" && !ok {
				// allowed for a program that is not running
				ok = c03NotRunning(w, o.st)
			}
			r.Check(ok && !sm.Blown, "quit-asked", fnName(f), w.Pos(f.Pos()), "%s can return without having requested the end of a running program", name)
		}
	}

	// goroutines
	closers := map[string][]*ssa.Function{}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok && isBuiltin(cl, "close") {
					for k := range w.chanKeys(cl.Common().Args[0]) {
						closers[k] = append(closers[k], f)
					}
				}
			}
		}
	}
	for _, g := range gos {
		for _, t := range w.goTargets(g) {
			isLoop := false
			for _, l := range loopRoots {
				isLoop = isLoop || l == t
			}
			body := w.callReach(t)
			released := func(ch map[string]bool) bool {
				if len(ch) == 0 {
					return false
				}
				for k := range ch {
					switch {
					case k == "ctx" || k == "timer" || closedAtEnd[k]:
					case strings.HasPrefix(k, "F:") && !strings.HasPrefix(k, "F:"+progPkg+"."):
						ok := false
						for _, f := range closers[k] {
							if !body[f] || f.Parent() != nil {
								ok = true
							}
						}
						if !ok {
							return false
						}
					default:
						return false
					}
				}
				return true
			}
			var results map[string]bool
			for _, f := range fnList(body) {
				if isLoop && pkgOf(f) != progPkg {
					continue
				}
				for _, op := range w.chanOps(f) {
					if !op.send || op.sel != nil && !op.sel.Blocking {
						if !op.send && inter(op.ch, quit) && !isLoop {
							r.Bad("quit-only-loop", fnName(t), w.InstrPos(op.at), "a goroutine that is not the event loop can take the quit request")
						}
						continue
					}
					ok := false
					if op.sel != nil {
						for _, s := range op.sel.States {
							if s.Dir == types.RecvOnly && released(w.chanKeys(s.Chan)) {
								ok = true
							}
						}
					}
					if !ok && len(op.ch) == 1 {
						for k := range op.ch {
							if strings.HasPrefix(k, "M:") && w.roomFor(k, g, t) {
								ok = true
								results = op.ch
							}
						}
					}
					r.Check(ok, "goroutine-send", fnName(t)+" "+keyList(op.ch), w.InstrPos(op.at), "this goroutine can stay blocked for ever sending to %s once nobody receives", keyList(op.ch))
				}
			}
			if results != nil {
				w.oneResult(r, t, results)
			}
			if !isLoop && pkgOf(t) == progPkg {
				sends := false
				for g := range w.staticSame(t) {
					for _, op := range w.chanOps(g) {
						sends = sends || op.send && inter(op.ch, queue)
					}
				}
				if sends {
					w.messageKept(r, t, queue, released, goos)
				}
			}
			r.Units["goroutines"]++
		}
	}
}

// messageKept simulates a goroutine that sends to the queue and follows each message it gets.
func (w *World) messageKept(r *Report, t *ssa.Function, queue map[string]bool, released func(map[string]bool) bool, goos string) {
	n := 0
	lost := func(st *SState, how string) {
		if st.ts["got"] != "" {
			r.Bad("message-kept", fnName(t)+" "+goos, st.ts["got"], "the message got here can be dropped while the run goes on: %s", how)
		}
	}
	sm := NewSim(w, &SimClient{
		Enter:     func(f *ssa.Function) bool { return pkgOf(f) == progPkg },
		Recursion: true,
		Call: func(sm *Sim, st *SState, at ssa.Instruction, c *ssa.CallCommon, callee *ssa.Function, ext *types.Func, args []SV) ([]SOut, bool) {
			res := c.Signature().Results()
			if res.Len() == 0 || !c03Msg(res.At(0).Type()) || callee != nil && pkgOf(callee) == progPkg {
				return nil, false
			}
			n++
			lost(st, "another one is fetched without its having been sent")
			pos := w.InstrPos(at)
			mk := func(st *SState, msg, err SV) SOut {
				if res.Len() == 1 {
					return SOut{st: st, ret: msg}
				}
				x := make([]SV, res.Len())
				x[0] = msg
				x[len(x)-1] = err
				return SOut{st: st, ret: svTuple(x...)}
			}
			got, none, bad := st.clone(), st.clone(), st.clone()
			got.Set("got", pos)
			none.Set("got", "")
			bad.Set("got", "")
			outs := []SOut{mk(got, svRef("msg:"+pos), svNil), mk(none, svNil, svNil)}
			if res.Len() > 1 {
				outs = append(outs, mk(bad, svNil, svRef("err:"+pos)))
			}
			if appCode(c, ext) != "" {
				outs = append(outs, SOut{st: bad.clone(), panic: true})
			}
			return outs, true
		},
		Selected: func(sm *Sim, st *SState, at *ssa.Select, i int) {
			if i < 0 {
				return
			}
			s := at.States[i]
			ch := w.chanKeys(s.Chan)
			if s.Dir == types.SendOnly && inter(ch, queue) || s.Dir == types.RecvOnly && released(ch) && !ch["timer"] {
				st.Set("got", "")
			}
		},
		Chan: func(sm *Sim, st *SState, at ssa.Instruction) {
			if s, ok := at.(*ssa.Send); ok && inter(w.chanKeys(s.Chan), queue) {
				st.Set("got", "")
			}
		},
	})
	for _, o := range sm.Exec(t, make([]SV, len(t.Params)), make([]SV, len(t.FreeVars)), newSState()) {
		if !o.panic {
			lost(o.st, "the goroutine ends without having sent it")
		}
	}
	r.Check(n > 0 && !sm.Blown, "message-kept", fnName(t)+" "+goos, w.Pos(t.Pos()), "where this goroutine gets its messages from is not seen, undecided")
}

// oneResult simulates a goroutine and counts what it sends.
func (w *World) oneResult(r *Report, t *ssa.Function, ch map[string]bool) {
	sm := NewSim(w, &SimClient{
		Enter: func(f *ssa.Function) bool { return pkgOf(f) == pkgOf(t) },
		MayPanic: func(c *ssa.CallCommon, callee *ssa.Function, ext *types.Func) bool {
			return appCode(c, ext) != ""
		},
		Chan: func(sm *Sim, st *SState, at ssa.Instruction) {
			if s, ok := at.(*ssa.Send); ok && inter(w.chanKeys(s.Chan), ch) {
				st.Set("sent", st.ts["sent"]+"x")
			}
		},
	})
	for _, o := range sm.Exec(t, make([]SV, len(t.Params)), make([]SV, len(t.FreeVars)), newSState()) {
		if o.panic {
			continue // ends the process
		}
		r.Check(len(o.st.ts["sent"]) == 1 && !sm.Blown, "one-result", fnName(t), w.Pos(t.Pos()), "a goroutine whose result is waited for can send %d results", len(o.st.ts["sent"]))
	}
}

// roomFor: the channel made in the function starting the goroutine holds one value per goroutine.
func (w *World) roomFor(key string, g *ssa.Go, t *ssa.Function) bool {
	f := g.Parent()
	var mk *ssa.MakeChan
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeChan); ok && "M:"+fnName(f)+":"+m.Name() == key {
				mk = m
			}
		}
	}
	if mk == nil {
		return false
	}
	var loops []*natLoop
	for _, l := range loopsOf(f) {
		if l.body[g.Block()] && !l.body[mk.Block()] {
			loops = append(loops, l)
		}
	}
	if len(loops) == 0 {
		c, ok := mk.Size.(*ssa.Const)
		n, exact := int64(0), false
		if ok {
			n, exact = constant.Int64Val(c.Value)
		}
		// as many goroutines as go statements outside loops use the channel
		cnt := int64(0)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					cnt++
				}
			}
		}
		return exact && n >= cnt
	}
	if len(loops) != 1 {
		return false
	}
	size := stripConv(mk.Size)
	sl := lenOf(size)
	if sl == nil {
		return false
	}
	// the loop runs once per element: its bound is the length of the same slice
	for b := range loops[0].body {
		for _, in := range b.Instrs {
			i, ok := in.(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := i.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, v := range []ssa.Value{cmp.X, cmp.Y} {
				if x := lenOf(stripConv(v)); x != nil && sameValue(x, sl) {
					return true
				}
			}
		}
	}
	return false
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// lenOf returns s for len(s).
func lenOf(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok || !isBuiltin(c, "len") {
		return nil
	}
	return c.Common().Args[0]
}

// sameValue: two values that are certainly equal: the same register, or loads of a variable no function writes after capture.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL || x.X != y.X {
		return false
	}
	fv, ok := x.X.(*ssa.FreeVar)
	if !ok {
		return false
	}
	for _, b := range fv.Parent().Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == x.X {
				return false
			}
		}
	}
	return true
}

// c03NotRunning: the state knows that the flag the program reports as "running" is false.
func c03NotRunning(w *World, st *SState) bool {
	f := progFunc(w, "IsRunning")
	if f == nil {
		return false
	}
	sm := NewSim(w, &SimClient{Enter: func(f *ssa.Function) bool { return pkgOf(f) == progPkg }})
	for _, o := range sm.Exec(f, []SV{svSym("arg0")}, nil, newSState()) {
		if o.ret.k == 's' && st.facts[o.ret.s] == "false" {
			return true
		}
	}
	return false
}

// staticSame: functions of the same package that f calls statically, closures called or deferred included.
func (w *World) staticSame(f *ssa.Function) map[*ssa.Function]bool {
	in := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function)
	rec = func(g *ssa.Function) {
		g = origin(g)
		if in[g] || pkgOf(g) != pkgOf(f) {
			return
		}
		in[g] = true
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}
				if s := c.Common().StaticCallee(); s != nil {
					rec(s)
				}
			}
		}
	}
	rec(f)
	return in
}

// bufferedOne: the value is a channel made with a constant capacity of at least one.
func (w *World) bufferedOne(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.MakeChan:
		c, ok := x.Size.(*ssa.Const)
		if !ok {
			return false
		}
		n, exact := constant.Int64Val(c.Value)
		return exact && n >= 1
	case *ssa.ChangeType:
		return w.bufferedOne(x.X, d)
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil || d > 4 || !w.funcSet[origin(g)] {
			return false
		}
		n := 0
		for _, b := range origin(g).Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok {
					n++
					if len(r.Results) != 1 || !w.bufferedOne(r.Results[0], d+1) {
						return false
					}
				}
			}
		}
		return n > 0
	}
	return false
}

func fnList(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func c03Msg(t types.Type) bool {
	n := namedOf(t)
	return n != nil && strings.HasSuffix(typeName(n), "model.Msg")
}
