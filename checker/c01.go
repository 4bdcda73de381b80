package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C01"] = checkC01 }

const progPkg = "tea/internal/application/program"

// isTerminalMethod: the method of the library's terminal interface or of one of its implementations.
func terminalMethod(ext *types.Func, callee *ssa.Function) string {
	name := ""
	var recv types.Type
	if ext != nil {
		if s, ok := ext.Type().(*types.Signature); ok && s.Recv() != nil {
			recv, name = s.Recv().Type(), ext.Name()
		}
	} else if callee != nil && callee.Signature.Recv() != nil {
		recv, name = callee.Signature.Recv().Type(), callee.Name()
	}
	if recv == nil {
		return ""
	}
	// any type with the whole protocol counts
	ms := types.NewMethodSet(recv)
	for _, m := range []string{"EnterRawMode", "ExitRawMode", "EnterAltScreen", "ExitAltScreen", "IsInRawMode", "IsInAltScreen"} {
		found := false
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == m {
				found = true
			}
		}
		if !found {
			return ""
		}
	}
	return name
}

// modelMethod: a call of application code from the program: Init, Update or View of the model, or a command.
func appCode(c *ssa.CallCommon, ext *types.Func) string {
	if c.IsInvoke() && ext != nil {
		if n := namedOf(c.Value.Type()); n != nil && typeName(n) == "tea/internal/domain/model.Model" {
			return ext.Name()
		}
	}
	if !c.IsInvoke() && c.StaticCallee() == nil {
		if n := namedOf(c.Value.Type()); n != nil && strings.HasSuffix(typeName(n), ".Cmd") {
			return "Cmd"
		}
	}
	return ""
}

type c01 struct {
	w          *World
	r          *Report
	sm         *Sim
	suspend    *ssa.Function
	resume     *ssa.Function
	inLoop     int
	goroutine  bool
	seenGo     map[string]bool
	depth      int
	P          SV
	loopStates map[string]*SState
	track      func(string) bool
	faults     int
}

func progFunc(w *World, m string) *ssa.Function {
	return w.Func("(*" + progPkg + ".Program[T])." + m)
}

// readsInput: the function (or one it calls statically, closures included) reads terminal input.
func readsInput(w *World, f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		f = origin(f)
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				g = origin(g)
				if g.Name() == "Read" && recvNamed(g) != nil && typeName(recvNamed(g)) == "tea/internal/infrastructure/input.Reader" {
					return true
				}
				if pkgOf(g) == progPkg && rec(g) {
					return true
				}
			}
		}
		return false
	}
	return rec(f)
}

func (k *c01) client() *SimClient {
	return &SimClient{
		Enter: func(f *ssa.Function) bool { return pkgOf(f) == progPkg },
		Track: k.track,
		Call:  k.call,
		MayPanic: func(c *ssa.CallCommon, callee *ssa.Function, ext *types.Func) bool {
			return appCode(c, ext) != ""
		},
		Go: k.goStmt,
	}
}

func isNilErr(st *SState, v SV) bool { return st.Known(v) == "nil" }

func (k *c01) call(sm *Sim, st *SState, at ssa.Instruction, c *ssa.CallCommon, callee *ssa.Function, ext *types.Func, args []SV) ([]SOut, bool) {
	may := func(outs []SOut) []SOut {
		if len(st.ts["faults"]) >= k.faults {
			return outs[:1]
		}
		outs[1].st.Set("faults", st.ts["faults"]+"x")
		return outs
	}
	enter := func(key string) []SOut {
		return may(sm.ErrOuts(st, c, at, func(s *SState) { s.Set(key, "on") }, nil))
	}
	exit := func(key string) []SOut {
		return may(sm.ErrOuts(st, c, at, func(s *SState) { s.Set(key, "off") }, func(s *SState) {
			if s.ts[key] == "on" {
				s.Set(key, "tried")
			}
		}))
	}
	if callee == nil || callee.Synthetic == "" {
		switch terminalMethod(ext, callee) {
		case "EnterRawMode":
			return enter("raw"), true
		case "EnterAltScreen":
			return enter("alt"), true
		case "ExitRawMode":
			return exit("raw"), true
		case "ExitAltScreen":
			return exit("alt"), true
		case "HideCursor":
			return may(sm.ErrOuts(st, c, at, func(s *SState) { s.Set("cursor", "on") }, func(s *SState) { s.Set("cursor", "on") })), true
		case "ShowCursor":
			return exit("cursor"), true
		case "IsInRawMode":
			return []SOut{{st: st.clone(), ret: svBool(st.ts["raw"] != "off")}}, true
		case "IsInAltScreen":
			return []SOut{{st: st.clone(), ret: svBool(st.ts["alt"] != "off")}}, true
		}
	}
	if callee != nil {
		o := origin(callee)
		if n := recvNamed(o); n != nil && typeName(n) == "tea/internal/infrastructure/input.Reader" && o.Name() == "Cancel" {
			s := st.clone()
			if s.ts["reader"] == "on" {
				s.Set("reader", "off")
			}
			return []SOut{{st: s}}, true
		}
		if o == k.suspend && len(sm.stack) > 0 {
			return k.doSuspend(sm, st, args), true
		}
		if o == k.resume && len(sm.stack) > 0 {
			return k.doResume(sm, st, args), true
		}
	}
	if ext != nil && !c.IsInvoke() && ext.Pkg() != nil && ext.Pkg().Path() == "os/exec" && (ext.Name() == "Run" || ext.Name() == "Start" || ext.Name() == "Output" || ext.Name() == "CombinedOutput") {
		pos := k.w.InstrPos(at)
		con := fnName(at.Parent()) + " " + ext.Name()
		ok := st.ts["raw"] != "on" && st.ts["alt"] != "on" && st.ts["cursor"] != "on"
		k.r.Check(ok, "exec-suspended", con+" "+k.w.GOOS, pos, "an external command is started while the terminal is not handed over (%s)", k.modes(st))
		return nil, false
	}
	if a := appCode(c, ext); a != "" && k.inLoop > 0 && len(sm.stack) > 0 {
		// application code may suspend or resume the program before it returns or panics
		if k.loopStates[st.key()] == nil {
			k.loopStates[st.key()] = st.clone()
		}
		outs := []SOut{{st: st.clone()}}
		if a != "View" && st.ts["nosusp"] == "" {
			P := []SV{k.P}
			for _, o := range k.doSuspend(sm, st, P) {
				outs = append(outs, SOut{st: o.st, panic: o.panic})
			}
			for _, o := range k.doResume(sm, st, P) {
				outs = append(outs, SOut{st: o.st, panic: o.panic})
			}
		}
		var res []SOut
		for _, o := range outs {
			if o.panic {
				res = append(res, o)
				continue
			}
			name := sm.symName(at.Parent(), nil2(at))
			n := c.Signature().Results().Len()
			ret := sm.fresh(o.st, map[ssa.Value]SV{}, name)
			if n > 1 {
				var t []SV
				for i := 0; i < n; i++ {
					t = append(t, sm.fresh(o.st, map[ssa.Value]SV{}, fmt.Sprintf("%s#%d", name, i)))
				}
				ret = svTuple(t...)
			}
			res = append(res, SOut{st: o.st, ret: ret}, SOut{st: o.st.clone(), panic: true})
		}
		return res, true
	}
	return nil, false
}

type namedVal interface{ Name() string }

func nil2(at ssa.Instruction) ssa.Value {
	if v, ok := at.(ssa.Value); ok {
		return v
	}
	return nil
}

func (k *c01) modes(st *SState) string {
	return fmt.Sprintf("raw mode %s, alternate screen %s, cursor hidden %s, input reading %s", st.ts["raw"], st.ts["alt"], st.ts["cursor"], st.ts["reader"])
}

// doSuspend runs Suspend and checks what it reports.
func (k *c01) doSuspend(sm *Sim, st *SState, args []SV) []SOut {
	in := st.clone()
	raw, alt, rd, susp := st.ts["raw"], st.ts["alt"], st.ts["reader"], st.ts["susp"]
	outs := sm.Exec(k.suspend, args, nil, in)
	for i := range outs {
		o := &outs[i]
		if o.panic || !isNilErr(o.st, o.ret) {
			continue
		}
		off := func(m, before string) bool { return o.st.ts[m] == "off" || before == "tried" && o.st.ts[m] == "tried" }
		ok := off("raw", raw) && off("alt", alt) && o.st.ts["cursor"] != "on" && o.st.ts["reader"] != "on"
		k.r.Check(ok, "suspend-leaves", fnName(k.suspend), k.w.Pos(k.suspend.Pos()), "Suspend can report success with %s (entered with raw mode %s, alternate screen %s)", k.modes(o.st), raw, alt)
		if susp == "no" {
			o.st.Set("susp", "yes")
			o.st.Set("wraw", raw)
			o.st.Set("walt", alt)
			o.st.Set("wreader", rd)
		}
	}
	return outs
}

func (k *c01) doResume(sm *Sim, st *SState, args []SV) []SOut {
	susp := st.ts["susp"]
	outs := sm.Exec(k.resume, args, nil, st.clone())
	for i := range outs {
		o := &outs[i]
		if susp != "yes" {
			continue
		}
		if o.panic { // application code panics while the resumed program is drawn
			o.st.Set("susp", "tried")
			continue
		}
		if isNilErr(o.st, o.ret) {
			want := func(k, w string) bool {
				if st.ts[k] == "tried" || o.st.ts[w] == "tried" {
					return true // an earlier operation on this mode has already reported an error
				}
				return (o.st.ts[k] != "off") == (o.st.ts[w] != "off")
			}
			ok := want("raw", "wraw") && want("alt", "walt") && (o.st.ts["wreader"] != "on" || o.st.ts["reader"] == "on")
			k.r.Check(ok, "resume-restores", fnName(k.resume), k.w.Pos(k.resume.Pos()), "Resume can report success with %s although raw mode was %s, the alternate screen %s and input reading %s when the program was suspended", k.modes(o.st), o.st.ts["wraw"], o.st.ts["walt"], o.st.ts["wreader"])
			o.st.Set("susp", "no")
			o.st.Set("wraw", "")
			o.st.Set("walt", "")
			o.st.Set("wreader", "")
		} else {
			ok := o.st.ts["raw"] != "on" && o.st.ts["alt"] != "on" && o.st.ts["cursor"] != "on"
			k.r.Check(ok, "failed-resume", fnName(k.resume), k.w.Pos(k.resume.Pos()), "a failed Resume leaves the program suspended but the terminal with %s", k.modes(o.st))
			o.st.Set("susp", "tried")
		}
	}
	return outs
}

func (k *c01) goStmt(sm *Sim, st *SState, at *ssa.Go, fn SV, args []SV) {
	if fn.k != 'f' {
		return
	}
	f := origin(fn.fn)
	if readsInput(k.w, f) {
		st.Set("reader", "on")
		return
	}
	key := f.String() + st.key()
	if k.seenGo[key] || len(f.Blocks) == 0 || pkgOf(f) != progPkg {
		return
	}
	k.seenGo[key] = true
	loop := runsUpdate(k.w, f)
	sub := NewSim(k.w, k.client())
	old := k.inLoop
	if loop {
		k.inLoop = 1
	}
	var ga []SV
	for _, a := range args {
		ga = append(ga, a)
	}
	s0 := st.clone()
	outs := sub.Exec(f, ga, fn.binds, s0)
	k.inLoop = old
	if sub.Blown {
		k.r.Bad("run-end", fnName(f), k.w.Pos(f.Pos()), "too many states, undecided")
	}
	for _, o := range outs {
		if loop {
			k.checkEnd(f, o)
		} else if o.panic {
			ok := o.st.ts["raw"] != "on" && o.st.ts["alt"] != "on" && o.st.ts["cursor"] != "on"
			k.r.Check(ok, "panic-restores", fnName(f), k.w.Pos(f.Pos()), "a panic in a command ends the process with %s", k.modes(o.st))
		}
	}
	k.r.Units["goroutines"]++
}

func runsUpdate(w *World, f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		f = origin(f)
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				if c.Common().IsInvoke() && appCode(c.Common(), c.Common().Method) == "Update" {
					return true
				}
				if g := c.Common().StaticCallee(); g != nil && pkgOf(g) == progPkg && rec(g) {
					return true
				}
			}
		}
		return false
	}
	return rec(f)
}

func (k *c01) checkEnd(f *ssa.Function, o SOut) {
	how := "returning"
	if o.panic {
		how = "a panic"
	}
	pos := k.w.Pos(f.Pos())
	con := fnName(f) + " " + k.w.GOOS
	k.r.Check(o.st.ts["raw"] != "on", "run-end", con+" raw mode", pos, "the run can end (%s) without leaving raw mode", how)
	k.r.Check(o.st.ts["alt"] != "on", "run-end", con+" alternate screen", pos, "the run can end (%s) without leaving the alternate screen", how)
	k.r.Check(o.st.ts["cursor"] != "on", "run-end", con+" cursor", pos, "the run can end (%s) with the cursor hidden", how)
	k.r.Check(o.st.ts["reader"] != "on", "run-end", con+" input", pos, "the run can end (%s) without telling the input reader to stop", how)
}

func c01State() *SState {
	st := newSState()
	for _, k := range []string{"raw", "alt", "cursor", "reader"} {
		st.Set(k, "off")
	}
	st.Set("susp", "no")
	return st
}

func checkC01(c *Ctx, r *Report) {
	r.Rule("run-end", "simulating the protocol state (raw mode, alternate screen, cursor, input reading) along every path of every function that runs the event loop - each terminal operation may fail, application code may panic and may suspend or resume the program - no end of the run, normal or by panic, is reached with a mode still on that was not at least tried to be left")
	r.Rule("suspend-leaves", "wherever Suspend returns nil, raw mode and alternate screen are off, the cursor has been shown and input reading was told to stop")
	r.Rule("resume-restores", "wherever Resume of a suspended program returns nil, exactly the modes recorded at the suspension are on again and input is read again")
	r.Rule("failed-resume", "a Resume that reports an error leaves no mode on")
	r.Rule("panic-restores", "when a command goroutine ends by a panic, the terminal modes have been left")
	r.Rule("exec-suspended", "an external command is started only with raw mode and the alternate screen off and the cursor shown")
	r.Rule("exec-resumes", "every function that suspends the program has called Resume on every path after a successful Suspend")
	r.Assume = append(r.Assume, "fields of the program are not changed by another goroutine in the middle of an operation (C05 decides the locking)", "an exit operation that reports an error counts as tried")
	for _, goos := range []string{"linux", "darwin", "windows"} {
		w := c.World(goos, "amd64")
		k := &c01{w: w, r: r, suspend: progFunc(w, "Suspend"), resume: progFunc(w, "Resume"), seenGo: map[string]bool{}}
		if k.suspend == nil || k.resume == nil {
			r.Bad("anchor", "Suspend/Resume", "-", "the program's Suspend or Resume method cannot be found")
			return
		}
		k.track = trackFields(decisionFields(w, func(f *ssa.Function) bool { return pkgOf(f) == progPkg }))
		k.faults = 1
		if c.Tier == "thorough" {
			k.faults = 2
		}
		base := k.baseStates()
		if len(base) == 0 {
			r.Bad("anchor", "New", "-", "the program's constructor cannot be simulated")
			return
		}
		var runs, rest []*ssa.Function
		for _, f := range w.Funcs {
			n := recvNamed(f)
			if f.Parent() != nil || n == nil || typeName(n) != progPkg+".Program" || !exported(f) {
				continue
			}
			startsRun := runsUpdate(w, f)
			for _, a := range f.AnonFuncs {
				if runsUpdate(w, a) {
					startsRun = true
				}
			}
			if startsRun {
				runs = append(runs, f)
			} else {
				rest = append(rest, f)
			}
		}
		k.loopStates = map[string]*SState{}
		for _, f := range runs {
			sm := NewSim(w, k.client())
			k.inLoop = 0
			if runsUpdate(w, f) {
				k.inLoop = 1
			}
			for _, st := range base {
				for _, o := range sm.Exec(f, k.args(f), nil, st) {
					k.checkEnd(f, o)
				}
			}
			k.done(f, sm)
		}
		k.inLoop = 0
		// every history of suspending and resuming a program that is not running
		for _, b := range base {
			for i := 0; i < 8; i++ {
				st := b.clone()
				for j, m := range []string{"raw", "alt", "cursor"} {
					if i>>j&1 == 1 {
						st.Set(m, "on")
					}
				}
				k.histories(k.suspend, st)
			}
		}
		execs := 0
		for _, f := range rest {
			if f == k.suspend || f == k.resume {
				continue
			}
			sm := NewSim(w, k.client())
			var outs []SOut
			for _, key := range sortedKeys(k.loopStates) {
				st := k.loopStates[key]
				// an operation on a program the application has already suspended, or after the
				// number of failures under consideration is used up, adds nothing
				if st.ts["susp"] == "yes" || len(st.ts["faults"]) >= k.faults || st.panicking {
					continue
				}
				outs = append(outs, sm.Exec(f, k.args(f), nil, st)...)
			}
			if sm.Entered[k.suspend] {
				execs++
				for _, o := range outs {
					r.Check(o.st.ts["susp"] != "yes", "exec-resumes", fnName(f)+" "+goos, w.Pos(f.Pos()), "the operation can return with the program still suspended and no attempt to resume it")
				}
			}
			k.done(f, sm)
		}
		k.otherGoroutines()
		if len(runs) < 2 || execs < 2 {
			r.Bad("anchor", "roots "+goos, "-", "expected at least 2 functions running the event loop and 2 suspending the program, found %d and %d", len(runs), execs)
		}
	}
	r.Floor("run-end", 12)
	r.Floor("suspend-leaves", 8)
	r.Floor("resume-restores", 4)
	r.Floor("exec-suspended", 3)
	r.Floor("exec-resumes", 6)
	r.Floor("panic-restores", 1)
}

func (k *c01) done(f *ssa.Function, sm *Sim) {
	if sm.Blown {
		k.r.Bad("run-end", fnName(f), k.w.Pos(f.Pos()), "too many states, undecided")
	}
	k.r.Units["simulation steps"] += sm.Steps
}

func (k *c01) args(f *ssa.Function) []SV {
	args := []SV{k.P}
	for i := 1; i < len(f.Params); i++ {
		args = append(args, svSym(fmt.Sprintf("arg%d", i)))
	}
	return args
}

// baseStates simulates the constructor; every field an option can set becomes unknown.
func (k *c01) baseStates() []*SState {
	ctor := k.w.Func(progPkg + ".New")
	if ctor == nil {
		return nil
	}
	sm := NewSim(k.w, &SimClient{
		Enter: func(f *ssa.Function) bool { return pkgOf(f) == progPkg },
		Call: func(sm *Sim, st *SState, at ssa.Instruction, c *ssa.CallCommon, callee *ssa.Function, ext *types.Func, args []SV) ([]SOut, bool) {
			if !c.IsInvoke() && c.StaticCallee() == nil && len(args) == 1 {
				return []SOut{{st: st}}, true // an option; what options can set becomes unknown below
			}
			return nil, false
		},
	})
	var args []SV
	for i := range ctor.Params {
		args = append(args, svSym(fmt.Sprintf("ctor%d", i)))
	}
	var out []*SState
	seen := map[string]bool{}
	for _, o := range sm.Exec(ctor, args, nil, c01State()) {
		if o.panic || o.ret.k != 'r' {
			continue
		}
		k.P = o.ret
		// options are closures taking the program
		for _, f := range k.w.Funcs {
			if f.Parent() == nil || pkgOf(f) != progPkg || len(f.Params) != 1 || f.Signature.Results().Len() != 0 {
				continue
			}
			if n := namedOf(f.Params[0].Type()); n == nil || typeName(n) != progPkg+".Program" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(f.Params[0]) {
							_, fv, _ := fieldOf(fa)
							o.st.cells[k.P.s+"."+fv.Name()] = svSym("opt " + fv.Name())
						}
					}
				}
			}
		}
		if !seen[o.st.key()] {
			seen[o.st.key()] = true
			out = append(out, o.st)
		}
	}
	return out
}

// histories applies Suspend and Resume in every order until no new state appears.
func (k *c01) histories(f *ssa.Function, st *SState) {
	sm := NewSim(k.w, k.client())
	sm.stack = []*ssa.Function{}
	seen := map[string]bool{}
	work := []*SState{st}
	P := []SV{k.P}
	for len(work) > 0 && len(seen) < 400 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		key := s.key()
		if seen[key] {
			continue
		}
		seen[key] = true
		for _, o := range k.doSuspend(sm, s, P) {
			work = append(work, o.st)
		}
		for _, o := range k.doResume(sm, s, P) {
			work = append(work, o.st)
		}
	}
	k.r.Units["suspend/resume states"] += len(seen)
	if sm.Blown || len(seen) >= 400 {
		k.r.Bad("suspend-leaves", fnName(f)+" histories", "-", "too many states, undecided")
	}
}

// otherGoroutines: goroutines outside the program that run application code end the process when it
// panics, without the event loop noticing; they have to recover (and pass the panic on).
func (k *c01) otherGoroutines() {
	w := k.w
	var runsCmd func(f *ssa.Function, seen map[*ssa.Function]bool) bool
	runsCmd = func(f *ssa.Function, seen map[*ssa.Function]bool) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				var ext *types.Func
				if c.Common().IsInvoke() {
					ext = c.Common().Method
				}
				if appCode(c.Common(), ext) != "" {
					return true
				}
				if g := c.Common().StaticCallee(); g != nil && w.funcSet[origin(g)] && pkgOf(origin(g)) == pkgOf(f) && runsCmd(origin(g), seen) {
					return true
				}
			}
		}
		return false
	}
	for _, f := range w.Funcs {
		p := pkgOf(f)
		if !strings.HasPrefix(p, "tea") || p == progPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				var t *ssa.Function
				if c := g.Common().StaticCallee(); c != nil {
					t = origin(c)
				}
				if t == nil || len(t.Blocks) == 0 || !runsCmd(t, map[*ssa.Function]bool{}) {
					continue
				}
				sm := NewSim(w, &SimClient{
					Enter: func(x *ssa.Function) bool { return pkgOf(x) == p },
					MayPanic: func(c *ssa.CallCommon, callee *ssa.Function, ext *types.Func) bool {
						return appCode(c, ext) != ""
					},
				})
				bad := false
				for _, o := range sm.Exec(t, make([]SV, len(t.Params)), make([]SV, len(t.FreeVars)), newSState()) {
					bad = bad || o.panic
				}
				k.r.Check(!bad && !sm.Blown, "panic-restores", fnName(t), w.Pos(t.Pos()), "a panic in a command run by this goroutine ends the process without restoring the terminal")
			}
		}
	}
}
