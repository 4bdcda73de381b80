package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C06"] = checkC06 }

// neverFails: operations documented to always return a nil error, and makers of errors.
func neverFails(f *types.Func) bool {
	n := f.FullName()
	for _, p := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "errors.", "fmt.Errorf", "(error).", "(context.Context).", "context.", "(hash."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// lastErrorSig: the operation reports failure through its last result.
func lastErrorSig(c *ssa.CallCommon) bool { return lastIsError(c.Signature()) }

// c06Callee names what a call invokes, for tolerances and reports.
func c06Callee(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return relPath(c.Method.FullName())
	}
	if f := c.StaticCallee(); f != nil {
		if o, ok := origin(f).Object().(*types.Func); ok && !isRepoPath(pkgOf(f)) {
			return o.FullName()
		}
		return fnName(origin(f))
	}
	return "a function value"
}

// tolerated: documented best-effort sites, by package, operation ("" any) and callee.
var c06Tolerated = []struct{ pkg, op, callee, why string }{
	{"clipboard/internal/application", "", "ClipboardHistory).Add", "the history is best effort: the clipboard operation itself succeeded"},
	{"clipboard/internal/domain/service", "DecodeRTF", "fmt.Sscanf", "digits already matched by a regular expression"},
	{"clipboard/internal/infrastructure/platform", "ShouldUseOSC52", "(*os.File).Stat", "the answer itself says that the capability is missing"},
	{"layout/internal/domain/model", "String", "fmt.Fprintf", "writes to a string builder"},
	{"render/internal/application", "Close", "Writer).ShowCursor", "the buffered writer reports the error again when it is flushed"},
	{"style", "Render", "RenderCommand).Execute", "a style that cannot be applied leaves the content as it is, as documented"},
	{"tea/internal/application/program", "", "InlineRenderer).Render", "render errors are not fatal, as documented"},
	{"tea/internal/application/program", "", "(io.Writer).Write", "render errors are not fatal, as documented"},
	{"tea/internal/application/program", "", "Terminal).HideCursor", "not fatal, as documented"},
	{"tea/internal/application/program", "", "Terminal).ShowCursor", "not fatal, as documented"},
	{"tea/internal/application/program", "Run", "Terminal).ExitAltScreen", "best effort clean-up"},
	{"tea/internal/application/program", "Run", "Terminal).ExitRawMode", "best effort clean-up"},
	{"tea/internal/application/program", "Run", "Terminal).EnterRawMode", "the terminal does not support raw mode, as documented"},
	{"tea/internal/application/program", "Stop", "Terminal).Exit", "best effort clean-up"},
	{"tea/internal/application/program", "Quit", "Terminal).Exit", "best effort clean-up"},
	{"tea/internal/application/program", "ExecProcessWithTTY", "golang.org/x/sys/windows.", "console modes are saved only where there is a console"},
	{"tea/internal/application/program", "ExecProcessWithTTY", "tcgetpgrp", "without a controlling terminal the command runs without transfer, as documented"},
	{"tea/internal/application/program", "ExecProcessWithTTY", "giving the terminal foreground back", "logged; the program continues with Resume"},
	{"tea/internal/infrastructure/input", "WaitForShutdown", "(*os.File).", "clean-up of a reader that is already cancelled"},
	{"tea/internal/infrastructure/input", "Cancel", "(*", "clean-up of a reader that is already cancelled"},
	{"tea/internal/infrastructure/input", "Read", "(*bufio.Reader).ReadByte", "the bytes read so far form the key; the next read reports the error"},
	{"tea/internal/infrastructure/input", "UnblockStdinRead", "", "there is nothing to unblock without a console"},
	{"terminal/internal/infrastructure/windows", "ExitAltScreen", "golang.org/x/sys/windows.CloseHandle", "the original buffer is already active again"},
	{"components/input/internal/textarea/domain/service", "", "fmt.Print", "debugging aid"},
}

// c06Lax: fields that describe one part of the operation (set right after that part succeeded), or
// are scratch values with no meaning until another field says so.
var c06Lax = map[string]string{
	"render/internal/application.Renderer.writer":                        "scratch", // the output itself
	"render/internal/infrastructure/ansi.Writer.currentStyle":            "part",
	"terminal/internal/infrastructure/windows.Console.altBuffer":         "scratch",
	"terminal/internal/infrastructure/windows.Console.originalBuffer":    "scratch",
	"terminal/internal/infrastructure/windows.Console.originalInputMode": "scratch",
	"terminal/internal/infrastructure/windows.Console.info":              "scratch",
	// set once the first sequence is out, so that a later Disable takes it back (C15 checks the balance)
	"mouse/internal/infrastructure/platform.TerminalMode.enabled": "step",
	"mouse/internal/infrastructure/platform.TerminalMode.mode":    "step",
}

// procNames: the name of the system procedure each package variable stands for.
func (w *World) procNames() map[*ssa.Global]string {
	out := map[*ssa.Global]string{}
	for _, p := range w.Prog.AllPackages() {
		if !isRepoPath(p.Pkg.Path()) {
			continue
		}
		f := p.Func("init")
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				c, ok := s.Val.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil || c.Common().StaticCallee().Name() != "NewProc" {
					continue
				}
				if k, ok := c.Common().Args[1].(*ssa.Const); ok {
					out[g] = constantString(k)
				}
			}
		}
	}
	return out
}

// lazyProc: the system procedure a call invokes ("" if it is not such a call, "?" if unknown).
func (w *World) lazyProc(c *ssa.CallCommon) string {
	f := c.StaticCallee()
	if f == nil || f.Name() != "Call" || f.Signature.Recv() == nil {
		return ""
	}
	if !strings.HasSuffix(f.Signature.Recv().Type().String(), ".LazyProc") && !strings.HasSuffix(f.Signature.Recv().Type().String(), ".Proc") {
		return ""
	}
	if w.procs == nil {
		w.procs = w.procNames()
	}
	if u, ok := c.Args[0].(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			if n := w.procs[g]; n != "" {
				return n
			}
		}
	}
	return "?"
}

// zeroIsFine: system procedures whose zero result does not mean failure.
var zeroIsFine = map[string]bool{"GlobalUnlock": true, "GlobalFree": true, "CloseClipboard": true, "RtlMoveMemory": true, "CreateConsoleScreenBuffer": true}

// ProcOuts: the outcomes of a system procedure: zero (failure) or not; the error is never nil.
func (sm *Sim) ProcOuts(st *SState, at ssa.Instruction, ok, fail func(*SState)) []SOut {
	a, b := st.clone(), st.clone()
	if ok != nil {
		ok(a)
	}
	if fail != nil {
		fail(b)
	}
	e := svRef(fmt.Sprintf("err:%s:%d", fnName(at.Parent()), instrIndex(at)))
	h := fmt.Sprintf("handle:%s:%d", fnName(at.Parent()), instrIndex(at))
	a.facts[h] = "nonnil"
	return []SOut{{st: a, ret: svTuple(svSym(h), SV{}, e)}, {st: b, ret: svTuple(svConst("0"), SV{}, e)}}
}

func c06ok(pkg, op, callee string) bool {
	for _, t := range c06Tolerated {
		if t.pkg == pkg && (t.op == "" || t.op == op) && strings.Contains(callee, t.callee) {
			return true
		}
	}
	return false
}

// c06Write: output and terminal operations, whose errors no caller without an error result may drop.
func c06Write(name string) bool {
	for _, p := range []string{".Write", ".Flush", "fmt.Fprint", "fmt.Print", "terminal.Terminal).", "Console).", "ANSITerminal).", "system call", "Renderer).", "Provider).", "ansi.Writer)"} {
		if strings.Contains(name, p) {
			return true
		}
	}
	return false
}

// fallible: the call can report failure through its last result.
func fallible(cc *ssa.CallCommon) bool {
	if !lastIsError(cc.Signature()) {
		return false
	}
	if cc.IsInvoke() {
		return !neverFails(cc.Method)
	}
	f := cc.StaticCallee()
	if f == nil {
		return true
	}
	o, ok := origin(f).Object().(*types.Func)
	if !ok {
		return true
	}
	if strings.HasPrefix(o.FullName(), "fmt.Fprint") {
		if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok {
			n := mi.X.Type().String()
			return n != "*strings.Builder" && n != "*bytes.Buffer"
		}
	}
	return !neverFails(o)
}

func checkC06(c *Ctx, r *Report) {
	r.Rule("returned", "on every path of an exported operation on which a write, provider call, codec or system call it performs has failed, the error result of the operation is certainly not nil; operations without an error result perform no write and no terminal operation that can fail, apart from the listed best-effort sites")
	r.Rule("recorded", "on every path on which the operation fails, the fields of its receiver hold the values they had on entry (or were set right after the part of the operation they describe succeeded)")
	r.Assume = append(r.Assume, "an operation documented to return a nil error only on success does so (io.Writer, os, syscall)", "the write methods of bytes.Buffer and strings.Builder never fail (documented)")
	for _, goos := range []string{"linux", "darwin", "windows"} {
		c06World(c, r, c.World(goos, "amd64"), goos)
	}
	r.Floor("returned", 100)
	r.Floor("recorded", 40)
}

func c06World(c *Ctx, r *Report, w *World, goos string) {
	track := trackFields(decisionFields(w, func(f *ssa.Function) bool { return true }))
	reach := staticReach(w, func(cc *ssa.CallCommon) bool { return fallible(cc) })
	var roots []*ssa.Function
	background := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if t := g.Common().StaticCallee(); t != nil && reach[origin(t)] {
						background[origin(t)] = true
						roots = append(roots, origin(t))
					}
				}
			}
		}
		if f.Parent() == nil && exported(f) && f.Synthetic == "" && reach[f] {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	for _, f := range roots {
		pkg := pkgOf(f)
		hasErr := lastIsError(f.Signature)
		isOp := func(g *ssa.Function) bool { return g.Parent() == nil && exported(g) && lastIsError(g.Signature) }
		recvType := ""
		if n := recvNamed(f); n != nil {
			recvType = typeName(n)
		}
		cl := &SimClient{
			Enter: func(g *ssa.Function) bool {
				return pkgOf(g) == pkg && !(isOp(g) && g != f) && (reach[g] || hasErrorParam(g) || writesRecv(w, g))
			},
			Track:      func(cell string) bool { return track(cell) || strings.HasPrefix(cell, "arg0.") },
			NoNilPanic: true,
		}
		sites := 0
		cl.Call = func(sm *Sim, st *SState, at ssa.Instruction, cc *ssa.CallCommon, callee *ssa.Function, ext *types.Func, args []SV) ([]SOut, bool) {
			if p := w.lazyProc(cc); p != "" {
				if _, isDefer := at.(*ssa.Defer); isDefer {
					return nil, false
				}
				sites++
				return sm.ProcOuts(st, at, nil, func(s *SState) {
					if !zeroIsFine[p] {
						s.Set("fail the system call "+p, "1")
					}
				}), true
			}
			// a method of an object kept in a field of the receiver that changes that object
			if callee != nil && len(args) > 0 && !cl.Enter(callee) && callee.Signature.Recv() != nil && args[0].k == 's' && strings.HasPrefix(args[0].s, "*arg0.") && !fallible(cc) && writesRecv(w, callee) {
				st.Set("set "+strings.SplitN(strings.TrimPrefix(args[0].s, "*arg0."), ".", 2)[0], "1")
			}
			if !fallible(cc) {
				return nil, false
			}
			if _, isDefer := at.(*ssa.Defer); isDefer {
				return nil, false
			}
			if callee != nil && cl.Enter(callee) && len(callee.Blocks) > 0 && w.funcSet[callee] {
				return nil, false
			}
			name := c06Callee(cc)
			fg := callee != nil && w.ttyIoctl(callee) == "set"
			if fg && st.ts["foreground"] != "" {
				name = "giving the terminal foreground back"
			}
			sites++
			return sm.ErrOuts(st, cc, at, func(s *SState) {
				s.Set("done", "1")
				if fg {
					s.Set("foreground", "1")
				}
				if callee != nil && len(args) > 0 && callee.Signature.Recv() != nil && args[0].k == 's' && strings.HasPrefix(args[0].s, "*arg0.") && writesRecv(w, callee) {
					k := strings.SplitN(strings.TrimPrefix(args[0].s, "*arg0."), ".", 2)[0]
					if c06Lax[recvType+"."+k] == "" {
						s.Set("set "+k, "1")
					}
				}
			}, func(s *SState) {
				s.Set("fail "+name, "1")
				for _, key := range sortedKeys(s.ts) {
					// the part was not empty, and it was recorded before it was written
					if k, ok := strings.CutPrefix(key, "early "); ok && madeFrom(cc, fieldType(f, k)) {
						s.Set("set "+k, "1")
					}
				}
			}), true
		}
		cl.Store = func(sm *Sim, st *SState, at ssa.Instruction, addr, val SV) {
			if !strings.HasPrefix(addr.s, "arg0.") {
				return
			}
			k := strings.SplitN(strings.TrimPrefix(addr.s, "arg0."), ".", 2)[0]
			was := st.Known(svSym("*" + addr.s))
			if val.k == 's' && val.s == "*"+addr.s || was != "" && st.Known(val) == was { // as it was
				st.Set("set "+k, "")
				return
			}
			switch c06Lax[recvType+"."+k] {
			case "scratch":
				return
			case "step":
				fails := false
				for x := range st.ts {
					fails = fails || strings.HasPrefix(x, "fail ")
				}
				if st.ts["done"] != "" && !fails {
					return
				}
			case "part":
				fails := false
				for x := range st.ts {
					fails = fails || strings.HasPrefix(x, "fail ")
				}
				if st.ts["done"] != "" && !fails {
					return
				}
				// the part may be empty (nothing had to be written)
				if !fails {
					st.Set("early "+k, "1")
					return
				}
			}
			st.Set("set "+k, "1")
		}
		isErr := func(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }
		cl.Recv = func(sm *Sim, st *SState, at ssa.Instruction, t types.Type) []SOut {
			if !isErr(t) {
				return nil
			}
			a, b := st.clone(), st.clone()
			b.Set("fail a background operation", "1")
			return []SOut{{st: a, ret: svNil}, {st: b, ret: svRef(fmt.Sprintf("err:%s:%d", fnName(at.Parent()), instrIndex(at)))}}
		}
		cl.Sent = func(sm *Sim, st *SState, at *ssa.Send, v SV) {
			if k := st.Known(v); isErr(at.X.Type()) && k != "" && k != "nil" {
				st.Set("sent", "1")
			}
		}
		sm := NewSim(w, cl)
		args := make([]SV, len(f.Params))
		for i := range args {
			args[i] = svSym(fmt.Sprintf("arg%d", i))
		}
		con := fnName(f) + " " + goos
		pos := w.Pos(f.Pos())
		for _, o := range sm.Exec(f, args, make([]SV, len(f.FreeVars)), newSState()) {
			if o.panic {
				continue
			}
			k := ""
			if hasErr {
				k = o.st.Known(lastResult(f.Signature, o.ret))
			}
			failed := false
			for _, key := range sortedKeys(o.st.ts) {
				name, ok := strings.CutPrefix(key, "fail ")
				if !ok {
					continue
				}
				if c06ok(pkg, f.Name(), name) {
					r.OK("returned", con)
					continue
				}
				failed = true
				if background[f] {
					if !sendsError(f) {
						continue // it has nobody to report to
					}
					r.Check(o.st.ts["sent"] != "" || !c06Write(name), "returned", con+" "+name, pos, "the background operation can end without reporting that %s failed", name)
				} else if hasErr {
					r.Check(k != "" && k != "nil", "returned", con+" "+name, pos, "the operation can report success although %s failed", name)
				} else if c06Write(name) {
					r.Bad("returned", con+" "+name, pos, "the operation has no error result and drops the error of %s", name)
				}
			}
			if !failed || f.Signature.Recv() == nil || recvType == "tea/internal/application/program.Program" {
				continue
			}
			bad := false
			for _, key := range sortedKeys(o.st.ts) {
				if fld, ok := strings.CutPrefix(key, "set "); ok {
					bad = true
					r.Bad("recorded", con+" "+fld, pos, "field %s is changed on a path on which the operation fails", fld)
				}
			}
			if !bad {
				r.OK("recorded", con)
			}
		}
		if sm.Blown {
			r.Bad("returned", con, pos, "too many states, undecided")
		}
		r.Units["operations"]++
		r.Units["fallible calls simulated"] += sites
		r.Units["simulation steps"] += sm.Steps
	}
}

// sendsError: the function reports errors over a channel.
func sendsError(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Send); ok && types.Identical(s.X.Type(), types.Universe.Lookup("error").Type()) {
				return true
			}
		}
	}
	return false
}

// writesRecv: the method stores through its receiver, itself or through methods it calls on it.
func writesRecv(w *World, f *ssa.Function) bool {
	if w.recvWrites == nil {
		w.recvWrites = map[*ssa.Function]int8{}
	}
	if v, ok := w.recvWrites[f]; ok {
		return v == 1
	}
	w.recvWrites[f] = 0
	if f.Signature.Recv() == nil || len(f.Params) == 0 {
		return false
	}
	set := map[ssa.Value]bool{f.Params[0]: true}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if dependsOn(x.Addr, set) {
					w.recvWrites[f] = 1
					return true
				}
			case *ssa.MapUpdate:
				if dependsOn(x.Map, set) {
					w.recvWrites[f] = 1
					return true
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && g.Signature.Recv() != nil && w.funcSet[origin(g)] && dependsOn(x.Common().Args[0], set) && writesRecv(w, origin(g)) {
					w.recvWrites[f] = 1
					return true
				}
			}
		}
	}
	return false
}

func constantString(k *ssa.Const) string {
	if k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	return ""
}

// fieldType: the type of a field of the receiver of an operation.
func fieldType(f *ssa.Function, name string) types.Type {
	n := recvNamed(f)
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

// madeFrom: some argument of the call is computed from a value of the given type.
func madeFrom(cc *ssa.CallCommon, t types.Type) bool {
	if t == nil {
		return false
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if types.Identical(v.Type(), t) {
			return true
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				if *op != nil && walk(*op) {
					return true
				}
			}
		}
		return false
	}
	args := cc.Args
	if !cc.IsInvoke() && cc.Signature().Recv() != nil && len(args) > 0 {
		args = args[1:]
	}
	for _, a := range args {
		if walk(a) {
			return true
		}
	}
	return false
}
