package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C22"] = checkC22 }

// A resource operation: what a call does to platform resources.
type resOp struct {
	what string // resource kind
	op   string // get, put, give, mode, use
	arg  int    // which argument names the resource (-1: there is only one, or it is the result)
}

var resCalls = map[string]resOp{
	"os.Open": {"file", "get", -1}, "os.OpenFile": {"file", "get", -1}, "os.Create": {"file", "get", -1}, "os.CreateTemp": {"file", "get", -1},
	"os.Pipe":                                 {"file", "get2", -1},
	"(*os.File).Close":                        {"file", "put", 0},
	"time.NewTicker":                          {"ticker", "new", -1},
	"time.NewTimer":                           {"timer", "new", -1},
	"(*time.Ticker).Stop":                     {"ticker", "put", 0},
	"(*time.Timer).Stop":                      {"timer", "put", 0},
	"os/signal.Ignore":                        {"ignored signal", "on", -1}, // only Notify takes effect on it: Reset does not undo Ignore
	"os/signal.Notify":                        {"signal", "notify", -1},
	"os/signal.Reset":                         {"signal", "off", -1},
	"os/signal.Stop":                          {"signal", "off", -1},
	"context.WithCancel":                      {"context", "ctx", -1},
	"context.WithTimeout":                     {"context", "ctx", -1},
	"context.WithDeadline":                    {"context", "ctx", -1},
	"(*sync.Pool).Get":                        {"pooled", "new", -1},
	"(*sync.Pool).Put":                        {"pooled", "put", 1},
	"golang.org/x/sys/windows.GetConsoleMode": {"console mode", "save", 1},
	"golang.org/x/sys/windows.SetConsoleMode": {"console mode", "mode", 1},
	"golang.org/x/sys/windows.CloseHandle":    {"screen buffer", "put", 0},
}

var resProcs = map[string]resOp{
	"OpenClipboard": {"clipboard", "on", -1}, "CloseClipboard": {"clipboard", "off", -1},
	"GlobalAlloc": {"global memory", "get", -1}, "GlobalFree": {"global memory", "put", 0},
	"GlobalLock": {"memory lock", "lock", 0}, "GlobalUnlock": {"memory lock", "unlock", 0},
	"SetClipboardData": {"global memory", "give", 1},
}

func (w *World) resOpOf(c *ssa.CallCommon) (resOp, string) {
	if p := w.lazyProc(c); p != "" {
		return resProcs[p], p
	}
	if c.IsInvoke() {
		return resOp{}, ""
	}
	f := c.StaticCallee()
	if f == nil {
		return resOp{}, ""
	}
	if fnName(origin(f)) == "terminal/internal/infrastructure/windows.CreateConsoleScreenBuffer" {
		return resOp{"screen buffer", "get", -1}, f.Name()
	}
	if k := w.ttyIoctl(origin(f)); k != "" {
		return resOp{"terminal foreground", "fg" + k, 1}, f.Name()
	}
	if o, ok := origin(f).Object().(*types.Func); ok {
		return resCalls[o.FullName()], o.FullName()
	}
	return resOp{}, ""
}

// ttyIoctl: whether a library function gets ("get") or sets ("set") the terminal's foreground
// process group, told by the request it passes to ioctl.
func (w *World) ttyIoctl(f *ssa.Function) string {
	if !w.funcSet[f] {
		return ""
	}
	req := map[string]string{"21519": "get", "21520": "set"}
	if w.GOOS == "darwin" {
		req = map[string]string{"1074033783": "get", "2147775606": "set"}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			o := extCallee(c)
			if o == nil || !strings.HasPrefix(o.FullName(), "syscall.") && !strings.HasPrefix(o.FullName(), "golang.org/x/sys/unix.") {
				continue
			}
			for _, a := range c.Common().Args {
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && req[k.Value.ExactString()] != "" {
					return req[k.Value.ExactString()]
				}
			}
		}
	}
	return ""
}

func checkC22(c *Ctx, r *Report) {
	r.Rule("released", "simulating the state of every file, pipe, ticker, timer, context, signal setting, console mode, clipboard session, global memory block and lock that an operation acquires, no path leaves the operation while it still holds one, unless it was stored in a field, returned, or handed to the system as documented")
	r.Rule("once", "nothing is released twice, and nothing is used after it was released or handed over")
	r.Rule("owner", "a field that keeps an acquired resource is released by a method of its type, on every path on which that method gives the field up")
	for _, goos := range []string{"linux", "darwin", "windows"} {
		c22World(c, r, c.World(goos, "amd64"), goos)
	}
	r.Floor("released", 500)
	r.Floor("owner", 20)
}

func c22World(c *Ctx, r *Report, w *World, goos string) {
	isRes := func(cc *ssa.CallCommon) bool { o, _ := w.resOpOf(cc); return o.op != "" }
	reach := staticReach(w, isRes)
	pkgs := map[string]bool{}
	for f := range reach {
		pkgs[pkgOf(f)] = true
	}
	var roots []*ssa.Function
	goRoot := map[*ssa.Function]bool{}
	for f := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if t := g.Common().StaticCallee(); t != nil && reach[origin(t)] {
						goRoot[origin(t)] = true
					}
				}
			}
		}
	}
	for f := range reach {
		if exported(f) && f.Parent() == nil || goRoot[f] {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	track := trackFields(decisionFields(w, func(f *ssa.Function) bool { return reach[f] }))
	sites := map[ssa.Instruction]bool{}
	owned := map[string]string{} // field cell name -> kind, for the owner rule
	for _, f := range roots {
		con := fnName(f) + " " + goos
		pos := w.Pos(f.Pos())
		pkg := pkgOf(f)
		cl := &SimClient{NoNilPanic: true}
		cl.Enter = func(g *ssa.Function) bool {
			return (reach[g] || hasErrorParam(g)) && (pkgOf(g) == pkg || !(exported(g) && g.Parent() == nil))
		}
		cl.Track = func(cell string) bool {
			return track(cell) || strings.HasPrefix(cell, "a:") || strings.HasPrefix(cell, "arg0.")
		}
		bad := func(at ssa.Instruction, rule, format string, args ...any) {
			r.Bad(rule, con, w.InstrPos(at), format, args...)
		}
		cl.Store = func(sm *Sim, st *SState, at ssa.Instruction, addr, val SV) {
			s0, ok := at.(*ssa.Store)
			if _, _, isField := fieldOf(s0.Addr); !ok || !isField || val.k == 0 {
				return
			}
			id := val.key()
			if kind := st.ts["res "+id]; kind != "" { // handed over to the field's owner
				st.Set("res "+id, "")
				if s, ok := at.(*ssa.Store); ok {
					if n, fv, ok := fieldOf(s.Addr); ok {
						owned[typeName(n)+"."+fv.Name()] = kind
						st.Set("kept "+id, typeName(n)+"."+fv.Name())
					}
				}
			}
			if strings.HasPrefix(id, "smode:") {
				st.Set("changed", "")
				st.Set("saved", "1")
			}
		}
		cl.Call = func(sm *Sim, st *SState, at ssa.Instruction, cc *ssa.CallCommon, callee *ssa.Function, ext *types.Func, args []SV) ([]SOut, bool) {
			op, name := w.resOpOf(cc)
			isProc := w.lazyProc(cc) != ""
			va := args
			if isProc {
				va = nil
				if len(cc.Args) > 1 {
					va = sm.Variadic(cc.Args[1])
				}
			}
			// use after release
			for i, a := range va {
				if a.k == 0 || op.op == "put" && i == op.arg {
					continue
				}
				if st.ts["gone "+a.key()] != "" {
					bad(at, "once", "%s uses a resource that was already released or handed over", name)
				}
			}
			if op.op == "" {
				if isProc {
					return sm.ProcOuts(st, at, nil, nil), true
				}
				// a cancel function that is called
				if callee == nil && len(args) == 0 || !cc.IsInvoke() && cc.StaticCallee() == nil {
					if fv := sm.val(sm.cur, cc.Value); fv.k != 0 && strings.HasPrefix(st.ts["res "+fv.key()], "context") {
						n := st.clone()
						n.Set("res "+fv.key(), "")
						return []SOut{{st: n}}, true
					}
				}
				return nil, false
			}
			sites[at] = true
			argKey := func(i int) string {
				if i >= 0 && i < len(va) && va[i].k != 0 {
					return va[i].key()
				}
				return ""
			}
			id := svRef(fmt.Sprintf("res:%s:%s:%d", op.what, fnName(at.Parent()), instrIndex(at)))
			acquire := func(s *SState, v SV) {
				if s.ts["res "+v.key()] != "" {
					bad(at, "released", "%s acquired here again while an earlier one is still held", op.what)
				}
				s.Set("gone "+v.key(), "")
				s.Set("res "+v.key(), op.what)
			}
			release := func(s *SState, k string) {
				if k == "" {
					return
				}
				if s.ts["gone "+k] != "" {
					bad(at, "once", "%s releases a %s that was already released or handed over", name, op.what)
				}
				s.Set("res "+k, "")
				s.Set("gone "+k, "1")
			}
			switch op.op {
			case "new":
				n := st.clone()
				if op.what != "pooled" {
					acquire(n, id)
				}
				return []SOut{{st: n, ret: id}}, true
			case "ctx":
				n := st.clone()
				acquire(n, id)
				return []SOut{{st: n, ret: svTuple(svRef("ctx:"+id.s), id)}}, true
			case "get":
				if isProc {
					h := svSym(fmt.Sprintf("handle:%s:%d", fnName(at.Parent()), instrIndex(at)))
					return sm.ProcOuts(st, at, func(s *SState) { acquire(s, h) }, nil), true
				}
				outs := sm.ErrOuts(st, cc, at, func(s *SState) { acquire(s, id) }, nil)
				outs[0].ret.binds[0] = id
				return outs, true
			case "get2":
				outs := sm.ErrOuts(st, cc, at, nil, nil)
				a, b := svRef(id.s+"#r"), svRef(id.s+"#w")
				acquire(outs[0].st, a)
				acquire(outs[0].st, b)
				outs[0].ret.binds[0], outs[0].ret.binds[1] = a, b
				return outs, true
			case "put":
				n := st.clone()
				k := argKey(op.arg)
				if k == "" && op.what == "global memory" {
					bad(at, "once", "cannot tell which memory is freed")
				}
				release(n, k)
				if strings.HasPrefix(k, "s*arg0.") {
					n.Set("closed "+strings.TrimPrefix(k, "s*arg0."), "1")
				}
				if isProc {
					return sm.ProcOuts(n, at, nil, nil), true
				}
				if lastIsError(cc.Signature()) {
					return sm.ErrOuts(n, cc, at, nil, nil), true
				}
				return []SOut{{st: n}}, true
			case "give":
				k := argKey(op.arg)
				for key, v := range st.ts {
					if v == "memory lock" && key == "res lock "+k {
						bad(at, "once", "%s hands over memory that is still locked", name)
					}
				}
				return sm.ProcOuts(st, at, func(s *SState) { release(s, k) }, nil), true
			case "lock":
				k := argKey(op.arg)
				h := fmt.Sprintf("handle:%s:%d", fnName(at.Parent()), instrIndex(at))
				return sm.ProcOuts(st, at, func(s *SState) {
					s.Set("res lock "+k, "memory lock")
					s.Set("ptr "+k, "s"+h)
					s.Set("gone s"+h, "")
				}, nil), true
			case "unlock":
				k := argKey(op.arg)
				n := st.clone()
				if n.ts["res lock "+k] == "" {
					bad(at, "once", "%s unlocks memory that is not locked", name)
				}
				n.Set("res lock "+k, "")
				if p := n.ts["ptr "+k]; p != "" {
					n.Set("gone "+p, "1")
				}
				return sm.ProcOuts(n, at, nil, nil), true
			case "on":
				if isProc {
					return sm.ProcOuts(st, at, func(s *SState) { s.Set("res "+op.what, op.what) }, nil), true
				}
				n := st.clone()
				n.Set("res "+op.what, op.what)
				return []SOut{{st: n}}, true
			case "notify":
				n := st.clone()
				n.Set("res signal", "signal")
				n.Set("res ignored signal", "")
				return []SOut{{st: n}}, true
			case "off":
				n := st.clone()
				if isProc && n.ts["res "+op.what] == "" {
					bad(at, "once", "%s without a matching acquisition on this path", name)
				}
				n.Set("res "+op.what, "")
				if isProc {
					return sm.ProcOuts(n, at, nil, nil), true
				}
				return []SOut{{st: n}}, true
			case "save":
				outs := sm.ErrOuts(st, cc, at, nil, nil)
				if a := args[1]; a.k == 'r' || a.k == 's' {
					outs[0].st.cells[a.s] = svSym("mode:" + fnName(at.Parent()))
					delete(outs[0].st.zero, a.s)
				}
				return outs, true
			case "mode":
				restores := args[1].k == 's' && (strings.HasPrefix(args[1].s, "mode:") || strings.HasPrefix(args[1].s, "*arg0."))
				if restores { // an attempt to restore is all that can be done
					n := st.clone()
					n.Set("changed", "")
					return sm.ErrOuts(n, cc, at, nil, nil), true
				}
				return sm.ErrOuts(st, cc, at, func(s *SState) {
					if s.ts["saved"] == "" {
						s.Set("changed", "1")
					}
				}, nil), true
			case "fgget":
				outs := sm.ErrOuts(st, cc, at, nil, nil)
				if outs[0].ret.k == 't' {
					outs[0].ret.binds[0] = svSym("pgrp")
				}
				return outs, true
			case "fgset":
				back := false
				for _, a := range args {
					back = back || a.k == 's' && a.s == "pgrp"
				}
				if back { // an attempt to give it back is all that can be done
					n := st.clone()
					n.Set("fg", "")
					return sm.ErrOuts(n, cc, at, nil, nil), true
				}
				return sm.ErrOuts(st, cc, at, func(s *SState) { s.Set("fg", "1") }, nil), true
			}
			return nil, false
		}
		sm := NewSim(w, cl)
		args := make([]SV, len(f.Params))
		for i := range args {
			args[i] = svSym(fmt.Sprintf("arg%d", i))
		}
		binds := make([]SV, len(f.FreeVars))
		for i := range binds {
			binds[i] = svRef(fmt.Sprintf("free%d", i))
		}
		for _, o := range sm.Exec(f, args, binds, newSState()) {
			how := "return"
			if o.panic {
				how = "panic"
			}
			var held []string
			for _, k := range sortedKeys(o.st.ts) {
				if id, ok := strings.CutPrefix(k, "res "); ok {
					ret := false
					vals := []SV{o.ret}
					if o.ret.k == 't' {
						vals = o.ret.binds
					}
					for _, v := range vals {
						ret = ret || v.key() == id
					}
					if !ret && !o.panic {
						held = append(held, o.st.ts[k])
					}
				}
			}
			if o.st.ts["changed"] != "" && o.st.ts["saved"] == "" {
				held = append(held, "changed console mode")
			}
			if o.st.ts["fg"] != "" {
				held = append(held, "terminal foreground")
			}
			for _, h := range held {
				r.Bad("released", con+" "+h, pos, "the operation can %s while still holding a %s it acquired", how, h)
			}
			if len(held) == 0 {
				r.OK("released", con)
			}
		}
		if sm.Blown {
			r.Bad("released", con, pos, "too many states, undecided")
		}
		r.Units["operations"]++
		r.Units["simulation steps"] += sm.Steps
	}
	r.Units["resource operations "+goos] = len(sites)
	min := map[string]int{"linux": 10, "darwin": 10, "windows": 20}[goos]
	r.Check(len(sites) >= min, "anchor", "resource operations "+goos, "-", "only %d resource operations were analysed, expected at least %d", len(sites), min)
	c22Owners(r, w, goos, owned, isRes)
}

// c22Owners decides the owner rule for the fields in which acquired resources are kept.
func c22Owners(r *Report, w *World, goos string, owned map[string]string, isRes func(*ssa.CallCommon) bool) {
	rel := map[*types.Named]map[string]bool{} // owner type -> its releasing methods
	for _, key := range sortedKeys(owned) {
		kind := owned[key]
		if kind == "context" { // the cancel function is called, however it is read back
			r.Check(cancelCalled(w, key), "owner", key+" "+goos, "-", "no function calls the cancel function kept in %s", key)
			continue
		}
		i := strings.LastIndexByte(key, '.')
		tn, fld := key[:i], key[i+1:]
		releases := func(cc *ssa.CallCommon) bool {
			o, _ := w.resOpOf(cc)
			return o.op == "put" && o.what == kind
		}
		acquires := func(cc *ssa.CallCommon) bool {
			o, _ := w.resOpOf(cc)
			return o.what == kind && (strings.HasPrefix(o.op, "get") || o.op == "new" || o.op == "ctx")
		}
		reach := staticReach(w, releases)
		acq := staticReach(w, acquires)
		var ms []*ssa.Function
		for _, f := range w.Funcs {
			if n := recvNamed(f); n != nil && typeName(n) == tn && exported(f) && f.Parent() == nil && f.Synthetic == "" && reach[f] {
				ms = append(ms, f)
			}
		}
		sort.Slice(ms, func(i, j int) bool { return ms[i].String() < ms[j].String() })
		found := 0
		for _, m := range ms {
			guards := map[string]bool{}
			closed := false
			type end struct {
				ok  bool
				err bool
			}
			var ends []end
			cl := &SimClient{NoNilPanic: true}
			cl.Enter = func(g *ssa.Function) bool { return reach[g] }
			cl.Call = func(sm *Sim, st *SState, at ssa.Instruction, cc *ssa.CallCommon, callee *ssa.Function, ext *types.Func, args []SV) ([]SOut, bool) {
				if ext != nil && ext.FullName() == "(*sync.Once).Do" && len(args) == 2 && args[1].k == 'f' {
					return sm.Exec(args[1].fn, nil, args[1].binds, st), true // the first time
				}
				o, _ := w.resOpOf(cc)
				if o.op == "put" && o.what == kind && len(args) > o.arg && args[o.arg].k == 's' && args[o.arg].s == "*arg0."+fld {
					n := st.clone()
					n.Set("closed", "1")
					closed = true
					if lastIsError(cc.Signature()) {
						return sm.ErrOuts(n, cc, at, nil, nil), true
					}
					return []SOut{{st: n}}, true
				}
				return nil, false
			}
			cl.Store = func(sm *Sim, st *SState, at ssa.Instruction, addr, val SV) {
				if addr.s == "arg0."+fld && st.ts["closed"] == "" && val.key() != "s*arg0."+fld {
					st.Set("dropped", "1")
				}
			}
			sm := NewSim(w, cl)
			args := make([]SV, len(m.Params))
			for i := range args {
				args[i] = svSym(fmt.Sprintf("arg%d", i))
			}
			for _, o := range sm.Exec(m, args, nil, newSState()) {
				if o.panic {
					continue
				}
				e := end{ok: o.st.ts["closed"] != "" && o.st.ts["dropped"] == ""}
				if lastIsError(m.Signature) {
					k := o.st.Known(lastResult(m.Signature, o.ret))
					e.err = k != "" && k != "nil"
				}
				// nothing is held on this path: the field, or a flag of the owner, says so
				for k, v := range o.st.facts {
					if strings.HasPrefix(k, "*arg0.") && (v == "nil" || v == "false") {
						guards[strings.TrimPrefix(k, "*arg0.")] = true
						if o.st.ts["dropped"] == "" {
							e.ok = true
						}
					}
				}
				closed = closed || o.st.ts["closed"] != ""
				ends = append(ends, e)
			}
			if sm.Blown {
				r.Bad("owner", key+" in "+fnName(m)+" "+goos, w.Pos(m.Pos()), "too many states, undecided")
			}
			r.Units["simulation steps"] += sm.Steps
			if !closed || acq[m] {
				continue
			}
			found++
			for _, e := range ends {
				r.Check(e.ok || e.err, "owner", key+" in "+fnName(m)+" "+goos, w.Pos(m.Pos()), "%s can end without releasing the %s kept in %s, although it is the operation that releases it", fnName(m), kind, fld)
			}
			n := recvNamed(m)
			if kind == "file" {
				if rel[n] == nil {
					rel[n] = map[string]bool{}
				}
				rel[n][m.Name()] = true
			}
		}
		r.Check(found > 0, "owner", key+" "+goos, "-", "no exported method of %s releases the %s kept in %s", tn, kind, fld)
	}
	// types that wrap an owner and pass its release on
	for again := true; again; {
		again = false
		for _, f := range w.Funcs {
			n := recvNamed(f)
			if n == nil || !exported(f) || f.Parent() != nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := c.Common().StaticCallee()
					if g == nil || recvNamed(origin(g)) == nil || recvNamed(origin(g)) == n || !rel[recvNamed(origin(g))][g.Name()] || g.Name() != f.Name() {
						continue
					}
					if rel[n] == nil {
						rel[n] = map[string]bool{}
					}
					if !rel[n][f.Name()] {
						rel[n][f.Name()] = true
						again = true
					}
				}
			}
		}
	}
	// a goroutine working on such an object of its own releases it before it ends
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				mc, ok := g.Common().Value.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				body := origin(mc.Fn.(*ssa.Function))
				for i, fv := range body.FreeVars {
					n := namedOf(deref(deref(fv.Type())))
					if n == nil {
						n = namedOf(deref(fv.Type()))
					}
					if n == nil || rel[n] == nil || recvNamed(f) == n {
						continue
					}
					if i >= len(mc.Bindings) || !madeIn(f, mc.Bindings[i]) {
						continue
					}
					c22Goroutine(r, w, goos, body, i, n, rel[n])
				}
			}
		}
	}
}

// madeIn: the captured variable holds an object the function made itself.
func madeIn(f *ssa.Function, v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			if _, ok := s.Val.(*ssa.Call); ok {
				return true
			}
		}
	}
	return false
}

func c22Goroutine(r *Report, w *World, goos string, body *ssa.Function, i int, n *types.Named, need map[string]bool) {
	cl := &SimClient{NoNilPanic: true}
	cl.Enter = func(g *ssa.Function) bool { return g.Parent() != nil }
	cl.Call = func(sm *Sim, st *SState, at ssa.Instruction, cc *ssa.CallCommon, callee *ssa.Function, ext *types.Func, args []SV) ([]SOut, bool) {
		if callee != nil && len(args) > 0 && args[0].k == 's' && args[0].s == fmt.Sprintf("*free%d", i) && need[callee.Name()] {
			m := st.clone()
			m.Set("did "+callee.Name(), "1")
			return []SOut{{st: m}}, true
		}
		return nil, false
	}
	sm := NewSim(w, cl)
	binds := make([]SV, len(body.FreeVars))
	for j := range binds {
		binds[j] = svRef(fmt.Sprintf("free%d", j))
	}
	args := make([]SV, len(body.Params))
	con := fnName(body.Parent()) + " background " + goos
	for _, o := range sm.Exec(body, args, binds, newSState()) {
		for _, m := range sortedKeys(need) {
			r.Check(o.st.ts["did "+m] != "", "owner", con, w.Pos(body.Pos()), "the goroutine can end without calling %s on its %s, whose descriptors stay open", m, typeName(n))
		}
	}
	r.Units["simulation steps"] += sm.Steps
}

// cancelCalled: some function calls a value it loaded from the field, directly or through variables.
func cancelCalled(w *World, key string) bool {
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ld, ok := in.(*ssa.UnOp)
				if !ok {
					continue
				}
				n, fv, ok := fieldOf(ld.X)
				if !ok || n == nil || typeName(n)+"."+fv.Name() != key {
					continue
				}
				if flowsToCall(ld, map[ssa.Value]bool{}) {
					return true
				}
			}
		}
	}
	return false
}

func flowsToCall(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case ssa.CallInstruction:
			if u.Common().Value == v {
				return true
			}
			for i, a := range u.Common().Args {
				if g := u.Common().StaticCallee(); a == v && g != nil && i < len(origin(g).Params) && flowsToCall(origin(g).Params[i], seen) {
					return true
				}
			}
		case *ssa.Store:
			if al, ok := u.Addr.(*ssa.Alloc); ok && u.Val == v {
				for _, l := range *al.Referrers() {
					if ld, ok := l.(*ssa.UnOp); ok && flowsToCall(ld, seen) {
						return true
					}
					if mc, ok := l.(*ssa.MakeClosure); ok {
						for i, bd := range mc.Bindings {
							if bd == al {
								for _, l := range *mc.Fn.(*ssa.Function).FreeVars[i].Referrers() {
									if ld, ok := l.(*ssa.UnOp); ok && flowsToCall(ld, seen) {
										return true
									}
								}
							}
						}
					}
				}
			}
		case *ssa.Phi:
			if flowsToCall(u, seen) {
				return true
			}
		case *ssa.MakeClosure:
			for i, bd := range u.Bindings {
				if bd == v && flowsToCall(u.Fn.(*ssa.Function).FreeVars[i], seen) {
					return true
				}
			}
		case *ssa.Return:
			return true // handed to the caller
		}
	}
	return false
}
