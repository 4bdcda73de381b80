package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Property simulation: a forward dataflow analysis whose facts are sets of small abstract
// states (typestate + the branch conditions correlated with it), with functions summarised
// per entry state. It keeps apart only what a client's protocol depends on.

// SV is an abstract value.
type SV struct {
	k     byte // 0 unknown, 'c' constant, 'n' nil, 's' symbol, 'r' address or object, 'f' function, 't' tuple, 'q' comparison of a symbol with a constant
	s     string
	c     string // 'q': the constant ("nil" for nil)
	neg   bool   // 'q': negated
	fn    *ssa.Function
	binds []SV
}

func (v SV) key() string {
	switch v.k {
	case 0:
		return "?"
	case 'f':
		s := "f:" + v.fn.String()
		for _, b := range v.binds {
			s += "," + b.key()
		}
		return s
	case 't':
		s := "("
		for _, b := range v.binds {
			s += b.key() + ";"
		}
		return s + ")"
	case 'q':
		if v.neg {
			return "q!" + v.s + "=" + v.c
		}
		return "q" + v.s + "=" + v.c
	}
	return string(v.k) + v.s
}

func svConst(s string) SV { return SV{k: 'c', s: s} }
func svBool(b bool) SV    { return svConst(fmt.Sprint(b)) }
func svSym(s string) SV   { return SV{k: 's', s: s} }
func svRef(s string) SV   { return SV{k: 'r', s: s} }

var svNil = SV{k: 'n'}

func svTuple(v ...SV) SV { return SV{k: 't', binds: v} }

// SState is the part of an abstract state that survives calls.
type SState struct {
	cells     map[string]SV
	facts     map[string]string // symbol -> constant | nil | nonnil
	ts        map[string]string // the client's typestate
	zero      map[string]bool   // objects whose unstored cells hold the zero value
	panicking bool
}

func newSState() *SState {
	return &SState{cells: map[string]SV{}, facts: map[string]string{}, ts: map[string]string{}, zero: map[string]bool{}}
}

func (s *SState) clone() *SState {
	n := newSState()
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.ts {
		n.ts[k] = v
	}
	for k := range s.zero {
		n.zero[k] = true
	}
	n.panicking = s.panicking
	return n
}

func sortedKV[V any](m map[string]V, f func(V) string) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(f(m[k]))
		b.WriteByte('|')
	}
	return b.String()
}

func (s *SState) key() string {
	return sortedKV(s.cells, SV.key) + "#" + sortedKV(s.facts, func(x string) string { return x }) + "#" + sortedKV(s.ts, func(x string) string { return x }) + "#" + sortedKV(s.zero, func(bool) string { return "" }) + fmt.Sprint(s.panicking)
}

// Set records a typestate fact; an empty value removes it.
func (s *SState) Set(k, v string) {
	if v == "" {
		delete(s.ts, k)
	} else {
		s.ts[k] = v
	}
}

// SOut is one way a call can end.
type SOut struct {
	st    *SState
	ret   SV
	panic bool
}

// SimClient gives the simulation its protocol.
type SimClient struct {
	// Call models a call; handled=false means: enter the body if Enter allows it, else treat as opaque.
	Call func(sm *Sim, st *SState, at ssa.Instruction, c *ssa.CallCommon, callee *ssa.Function, ext *types.Func, args []SV) (outs []SOut, handled bool)
	// Enter: the function's body matters to the protocol.
	Enter func(f *ssa.Function) bool
	// Track: stores to and loads from this cell matter (nil: all).
	Track func(cell string) bool
	// MayPanic: the call runs code that may panic (application code).
	MayPanic func(c *ssa.CallCommon, callee *ssa.Function, ext *types.Func) bool
	Go       func(sm *Sim, st *SState, at *ssa.Go, fn SV, args []SV)
	Chan     func(sm *Sim, st *SState, at ssa.Instruction)
	// Load and Store see every access to a tracked cell.
	Load  func(sm *Sim, st *SState, at ssa.Instruction, addr SV)
	Store func(sm *Sim, st *SState, at ssa.Instruction, addr, val SV)
	// Use sees maps and slices whose elements are read or written other than by index.
	Use func(sm *Sim, st *SState, at ssa.Instruction, v SV, write bool)
	// Implementations of an interface method to enter; nil means none.
	Dispatch func(m *types.Func, recv SV) *ssa.Function
	// Sent sees the value of a plain send.
	Sent func(sm *Sim, st *SState, at *ssa.Send, v SV)
	// Recv gives the values a receive can yield (nil: one unknown value).
	Recv func(sm *Sim, st *SState, at ssa.Instruction, t types.Type) []SOut
	// Selected sees which case of a select was taken (-1: the default case).
	Selected func(sm *Sim, st *SState, at *ssa.Select, i int)
	// Recursion: follow recursive calls to a fixed point instead of assuming that they keep the protocol state.
	Recursion bool
	// NoNilPanic: paths calling a method of a nil interface are not followed.
	NoNilPanic bool
	// TypeTest: the name under which a successful type test is recorded in the typestate ("": not recorded).
	TypeTest func(at *ssa.TypeAssert) string
}

type Sim struct {
	w       *World
	cl      *SimClient
	memo    map[string][]SOut
	order   []string          // of the memo's keys
	active  map[string][]SOut // activations in progress: results found so far
	used    map[string]bool   // ... and whether a recursive call asked for them
	stack   []*ssa.Function
	cur     *sloc // of the call being modelled
	sites   []ssa.Instruction
	Steps   int
	Budget  int
	Blown   bool
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	Entered map[*ssa.Function]bool
}

func NewSim(w *World, cl *SimClient) *Sim {
	return &Sim{w: w, cl: cl, memo: map[string][]SOut{}, active: map[string][]SOut{}, used: map[string]bool{}, Budget: 400000 * 4, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, Entered: map[*ssa.Function]bool{}}
}

// Known evaluates a value under the facts of a state: "true", "false", a constant, "nil", "nonnil" or "".
func (st *SState) Known(v SV) string {
	switch v.k {
	case 'c':
		return v.s
	case 'n':
		return "nil"
	case 'r', 'f':
		return "nonnil"
	case 's':
		return st.facts[v.s]
	case 'q':
		f := st.facts[v.s]
		if f == "" {
			return ""
		}
		var eq bool
		switch {
		case f == v.c:
			eq = true
		case f == "nonnil" && (v.c == "nil" || v.c == "0"), f != "nonnil":
			eq = false
		default:
			return ""
		}
		return fmt.Sprint(eq != v.neg)
	}
	return ""
}

// Assume adds the fact that boolean v has value b; false if contradictory.
func (st *SState) Assume(v SV, b bool) bool {
	if k := st.Known(v); k == "true" || k == "false" {
		return k == fmt.Sprint(b)
	}
	switch v.k {
	case 's':
		st.facts[v.s] = fmt.Sprint(b)
	case 'q':
		if b != v.neg {
			st.facts[v.s] = v.c
		} else if v.c == "nil" {
			st.facts[v.s] = "nonnil"
		} else if v.c == "true" {
			st.facts[v.s] = "false"
		} else if v.c == "false" {
			st.facts[v.s] = "true"
		}
	}
	return true
}

// fresh makes the symbol of an instruction's result, forgetting an earlier instance.
func (sm *Sim) fresh(st *SState, regs map[ssa.Value]SV, name string) SV {
	dead := func(v SV) bool {
		return (v.k == 's' || v.k == 'q' || v.k == 'r') && (v.s == name || strings.HasPrefix(v.s, name+".") || strings.HasPrefix(v.s, "*"+name))
	}
	used := false
	if _, ok := st.facts[name]; ok {
		delete(st.facts, name)
		used = true
	}
	for k, v := range st.cells {
		if dead(v) {
			st.cells[k] = SV{}
			used = true
		}
		if strings.HasPrefix(k, name+".") || k == name {
			delete(st.cells, k)
		}
	}
	for k, v := range regs {
		if dead(v) {
			delete(regs, k)
		}
	}
	_ = used
	return svSym(name)
}

type sdefer struct {
	call *ssa.CallCommon
	at   ssa.Instruction
	fn   SV
	args []SV
}

type sloc struct {
	st     *SState
	regs   map[ssa.Value]SV
	defers []sdefer
	b      *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
}

func (l *sloc) clone() *sloc {
	n := &sloc{st: l.st.clone(), regs: make(map[ssa.Value]SV, len(l.regs)), b: l.b, prev: l.prev, idx: l.idx}
	for k, v := range l.regs {
		n.regs[k] = v
	}
	n.defers = append([]sdefer(nil), l.defers...)
	return n
}

func (sm *Sim) liveIn(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if m, ok := sm.live[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		m[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := predIndex(s, b)
				for v := range m[s] {
					live[v] = true
				}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, p)
					if pi >= 0 {
						live[p.Edges[pi]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if *o != nil {
						live[*o] = true
					}
				}
			}
			for v := range live {
				if !m[b][v] {
					m[b][v] = true
					changed = true
				}
			}
		}
	}
	sm.live[f] = m
	return m
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return -1
}

// Exec runs f from a state and returns every way it can end.
func (sm *Sim) Exec(f *ssa.Function, args []SV, binds []SV, st *SState) []SOut {
	var kb strings.Builder
	kb.WriteString(f.String())
	for _, a := range args {
		kb.WriteString("," + a.key())
	}
	for _, a := range binds {
		kb.WriteString("&" + a.key())
	}
	kb.WriteString("!" + st.key())
	k := kb.String()
	if r, ok := sm.memo[k]; ok {
		return cloneOuts(r)
	}
	if _, active := sm.active[k]; active && sm.cl.Recursion { // recursion from the same state: what is known of its results so far
		sm.used[k] = true
		return cloneOuts(sm.active[k])
	}
	depth := 0
	for _, g := range sm.stack {
		if g == f {
			depth++
		}
	}
	if depth > 0 && !sm.cl.Recursion || depth > 3 { // a deeper activation from yet another state is assumed to keep the protocol state
		return []SOut{{st: st.clone()}}
	}
	sm.stack = append(sm.stack, f)
	sm.Entered[f] = true
	defer func() { sm.stack = sm.stack[:len(sm.stack)-1] }()
	var outs []SOut
	sm.active[k] = nil
	for {
		mark := len(sm.order)
		sm.used[k] = false
		outs = sm.exec1(f, args, binds, st)
		if !sm.used[k] || len(outs) == len(sm.active[k]) || sm.Blown {
			break
		}
		sm.active[k] = cloneOuts(outs)
		for _, m := range sm.order[mark:] {
			delete(sm.memo, m)
		}
		sm.order = sm.order[:mark]
	}
	delete(sm.active, k)
	sm.memo[k] = cloneOuts(outs)
	sm.order = append(sm.order, k)
	return outs
}

func (sm *Sim) exec1(f *ssa.Function, args []SV, binds []SV, st *SState) []SOut {
	start := &sloc{st: st.clone(), regs: map[ssa.Value]SV{}, b: f.Blocks[0]}
	for i, p := range f.Params {
		if i < len(args) {
			start.regs[p] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if i < len(binds) {
			start.regs[p] = binds[i]
		}
	}
	var outs []SOut
	seenOut := map[string]bool{}
	emit := func(o SOut) {
		sm.gc(f, o.st, []SV{o.ret}, nil)
		k := o.st.key() + "@" + o.ret.key() + fmt.Sprint(o.panic)
		if !seenOut[k] {
			seenOut[k] = true
			outs = append(outs, o)
		}
	}
	live := sm.liveIn(f)
	seen := map[string]bool{}
	work := []*sloc{start}
	push := func(l *sloc) {
		if l.idx == 0 {
			lv := live[l.b]
			for v := range l.regs {
				if !lv[v] {
					switch v.(type) {
					case *ssa.Parameter, *ssa.FreeVar:
					}
					delete(l.regs, v)
				}
			}
			var roots []SV
			for _, d := range l.defers {
				roots = append(append(roots, d.fn), d.args...)
			}
			for _, a := range binds {
				roots = append(roots, a)
			}
			sm.gc(f, l.st, roots, l.regs)
		}
		work = append(work, l)
	}
	for len(work) > 0 {
		if sm.Steps > sm.Budget {
			if os.Getenv("PHX_SIM") != "" && !sm.Blown {
				n := 0
				for k := range seen {
					if n++; n > 12 {
						break
					}
					fmt.Println("BLOWN", fnName(f), len(seen), k)
				}
			}
			sm.Blown = true
			break
		}
		l := work[len(work)-1]
		work = work[:len(work)-1]
		if l.idx == 0 {
			// phis first, simultaneously
			if l.prev != nil {
				pi := predIndex(l.b, l.prev)
				vals := map[ssa.Value]SV{}
				n := 0
				for _, in := range l.b.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					vals[p] = sm.val(l, p.Edges[pi])
					n++
				}
				for p, v := range vals {
					l.regs[p] = v
				}
				lv := live[l.b]
				for v := range l.regs {
					if _, isPhi := vals[v]; !isPhi && !lv[v] {
						delete(l.regs, v)
					}
				}
				l.idx = n
			}
			k := fmt.Sprint(l.b.Index, ":") + sm.locKey(l)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		sm.runBlock(f, l, push, emit)
	}
	return outs
}

// gc forgets what the function's own symbols and variables stood for once nothing refers to them.
func (sm *Sim) gc(f *ssa.Function, st *SState, roots []SV, regs map[ssa.Value]SV) {
	own := fnName(f) + ":"
	o := SOut{st: st}
	used := map[string]bool{}
	var note func(v SV)
	note = func(v SV) {
		if v.s != "" {
			used[v.s] = true
		}
		for _, b := range v.binds {
			note(b)
		}
	}
	for _, v := range roots {
		note(v)
	}
	for _, v := range regs {
		note(v)
	}
	for c, v := range o.st.cells {
		if !strings.HasPrefix(c, "a:"+own) {
			note(v)
		}
	}
	inUse := func(id string) bool {
		for u := range used {
			if u == id || strings.HasPrefix(u, id+".") || strings.HasPrefix(u, id+"[") || strings.HasPrefix(u, "*"+id) {
				return true
			}
		}
		return false
	}
	// objects reachable from the results keep their cells
	for again := true; again; {
		again = false
		for c, v := range o.st.cells {
			if !strings.HasPrefix(c, "a:"+own) {
				continue
			}
			root := c
			if i := strings.IndexAny(c[len("a:"+own):], ".["); i >= 0 {
				root = c[:len("a:"+own)+i]
			}
			if inUse(root) && v.s != "" && !used[v.s] {
				note(v)
				again = true
			}
		}
	}
	for c := range o.st.cells {
		if strings.HasPrefix(c, "a:"+own) {
			root := c
			if i := strings.IndexAny(c[len("a:"+own):], ".["); i >= 0 {
				root = c[:len("a:"+own)+i]
			}
			if !inUse(root) {
				delete(o.st.cells, c)
			}
		}
	}
	for z := range o.st.zero {
		if strings.HasPrefix(z, "a:"+own) && !inUse(z) {
			delete(o.st.zero, z)
		}
	}
	for x := range o.st.facts {
		if strings.HasPrefix(x, own) && !used[x] {
			delete(o.st.facts, x)
		}
		if strings.HasPrefix(x, "*"+own) && !used[x] {
			delete(o.st.facts, x)
		}
	}
}

func cloneOuts(o []SOut) []SOut {
	r := make([]SOut, len(o))
	for i, x := range o {
		r[i] = SOut{x.st.clone(), x.ret, x.panic}
	}
	return r
}

func (sm *Sim) locKey(l *sloc) string {
	names := make([]string, 0, len(l.regs))
	for v, x := range l.regs {
		if x.k != 0 {
			names = append(names, v.Name()+"="+x.key())
		}
	}
	sort.Strings(names)
	s := strings.Join(names, "|") + "#" + l.st.key()
	for _, d := range l.defers {
		s += "@" + fmt.Sprint(d.at.Pos()) + d.fn.key()
	}
	return s
}

func (sm *Sim) val(l *sloc, v ssa.Value) SV {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isZeroable(x.Type()) {
				return svNil
			}
			return SV{}
		}
		return svConst(x.Value.ExactString())
	case *ssa.Function:
		return SV{k: 'f', fn: x}
	case *ssa.Global:
		return svRef("g:" + x.String())
	case *ssa.Builtin:
		return SV{}
	}
	if r, ok := l.regs[v]; ok {
		return r
	}
	return SV{}
}

func isZeroable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func zeroSV(t types.Type) SV {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return svBool(false)
		case u.Info()&types.IsInteger != 0:
			return svConst("0")
		case u.Info()&types.IsString != 0:
			return svConst(constant.MakeString("").ExactString())
		}
		return SV{}
	}
	if isZeroable(t) {
		return svNil
	}
	return SV{}
}

func (sm *Sim) tracked(cell string) bool { return sm.cl.Track == nil || sm.cl.Track(cell) }

func (sm *Sim) symName(f *ssa.Function, v ssa.Value) string {
	return fnName(f) + ":" + v.Name()
}

// runBlock executes from l.idx to the end of the block.
func (sm *Sim) runBlock(f *ssa.Function, l *sloc, push func(*sloc), emit func(SOut)) {
	for ; l.idx < len(l.b.Instrs); l.idx++ {
		sm.Steps++
		switch x := l.b.Instrs[l.idx].(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			// entry block of a loop without predecessor information cannot happen
		case *ssa.Alloc:
			id := "a:" + sm.symName(f, x)
			for k := range l.st.cells {
				if k == id || strings.HasPrefix(k, id+".") || strings.HasPrefix(k, id+"[") {
					delete(l.st.cells, k)
				}
			}
			l.st.zero[id] = true
			l.regs[x] = svRef(id)
		case *ssa.FieldAddr:
			b := sm.val(l, x.X)
			st := deref(x.X.Type()).Underlying().(*types.Struct)
			if b.k == 'r' || b.k == 's' {
				l.regs[x] = svRef(b.s + "." + st.Field(x.Field).Name())
			}
		case *ssa.IndexAddr:
			b := sm.val(l, x.X)
			if b.k == 'r' || b.k == 's' {
				l.regs[x] = svRef(b.s + "[]")
			}
		case *ssa.Field:
			b := sm.val(l, x.X)
			if b.k == 's' || b.k == 'r' {
				st := x.X.Type().Underlying().(*types.Struct)
				l.regs[x] = sm.load(l, b.s+"."+st.Field(x.Field).Name(), x.Type())
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW && sm.cl.Recv != nil && !x.CommaOk {
				if sm.cl.Chan != nil {
					sm.cl.Chan(sm, l.st, x)
				}
				if alts := sm.cl.Recv(sm, l.st, x, x.Type()); alts != nil {
					for _, a := range alts {
						m := l.clone()
						m.st = a.st.clone()
						m.regs[x] = a.ret
						m.idx = l.idx + 1
						sm.runBlock(f, m, push, emit)
					}
					return
				}
			}
			sm.unop(f, l, x)
		case *ssa.Store:
			a, v := sm.val(l, x.Addr), sm.val(l, x.Val)
			if a.k == 's' {
				a = svRef(a.s)
			}
			if a.k == 'r' {
				if sm.cl.Store != nil {
					sm.cl.Store(sm, l.st, x, a, v)
				}
				sm.storeCell(l.st, a.s, v, x.Val.Type())
			}
		case *ssa.BinOp:
			l.regs[x] = sm.binop(l, x)
		case *ssa.MakeClosure:
			c := SV{k: 'f', fn: x.Fn.(*ssa.Function)}
			for _, b := range x.Bindings {
				c.binds = append(c.binds, sm.val(l, b))
			}
			l.regs[x] = c
		case *ssa.MakeInterface:
			v := sm.val(l, x.X)
			if v.k == 'r' || v.k == 's' || v.k == 'f' {
				if v.k == 's' {
					if _, isPtr := x.X.Type().Underlying().(*types.Pointer); !isPtr {
						v = svRef("i:" + sm.symName(f, x))
					}
				}
				l.regs[x] = v
			} else {
				l.regs[x] = svRef("i:" + sm.symName(f, x))
			}
		case *ssa.ChangeType:
			l.regs[x] = sm.val(l, x.X)
		case *ssa.ChangeInterface:
			l.regs[x] = sm.val(l, x.X)
		case *ssa.Convert:
			if v := sm.val(l, x.X); v.k == 'c' && isInteger(x.Type()) && isInteger(x.X.Type()) {
				l.regs[x] = v
			}
		case *ssa.TypeAssert:
			v := sm.val(l, x.X)
			if x.CommaOk {
				if sm.cl.TypeTest != nil {
					if key := sm.cl.TypeTest(x); key != "" {
						n := l.clone()
						n.st.Set(key, "seen")
						n.regs[x] = svTuple(v, svBool(true))
						n.idx = l.idx + 1
						sm.runBlock(f, n, push, emit)
						l.regs[x] = svTuple(v, svBool(false))
						continue
					}
				}
				l.regs[x] = svTuple(v, sm.fresh(l.st, l.regs, sm.symName(f, x)+"#ok"))
			} else {
				l.regs[x] = v
			}
		case *ssa.Extract:
			if t := sm.val(l, x.Tuple); t.k == 't' && x.Index < len(t.binds) {
				l.regs[x] = t.binds[x.Index]
			}
		case *ssa.MakeChan, *ssa.MakeMap, *ssa.MakeSlice:
			l.regs[x.(ssa.Value)] = svRef("m:" + sm.symName(f, x.(ssa.Value)))
		case *ssa.Slice:
			v := sm.val(l, x.X)
			if v.k == 'r' || v.k == 's' {
				l.regs[x] = v
			}
		case *ssa.Go:
			args := sm.args(l, x.Common())
			if sm.cl.Go != nil {
				sm.cl.Go(sm, l.st, x, sm.val(l, x.Common().Value), args)
			}
		case *ssa.Defer:
			d := sdefer{call: x.Common(), at: x, fn: sm.val(l, x.Common().Value), args: sm.args(l, x.Common())}
			l.defers = append(l.defers, d)
		case *ssa.RunDefers:
			for _, o := range sm.runDefers(f, l, l.st, l.defers) {
				n := l.clone()
				n.st = o.st
				n.defers = nil
				if o.panic {
					n.st.panicking = true
					emit(SOut{n.st, SV{}, true})
					continue
				}
				n.idx = l.idx + 1
				sm.runBlock(f, n, push, emit)
			}
			return
		case *ssa.Send:
			if sm.cl.Sent != nil {
				sm.cl.Sent(sm, l.st, x, sm.val(l, x.X))
			}
			if sm.cl.Chan != nil {
				sm.cl.Chan(sm, l.st, x)
			}
		case *ssa.Select:
			if sm.cl.Chan != nil {
				sm.cl.Chan(sm, l.st, x)
			}
			lo := 0
			if !x.Blocking {
				lo = -1
			}
			for i := lo; i < len(x.States); i++ {
				n := l.clone()
				t := []SV{svConst(fmt.Sprint(i)), {}}
				recvs := 0
				at := -1
				for j, s := range x.States {
					if s.Dir == types.RecvOnly {
						if j == i {
							at = 2 + recvs
						}
						recvs++
						t = append(t, SV{})
					}
				}
				var alts []SOut
				if at >= 0 && sm.cl.Recv != nil {
					alts = sm.cl.Recv(sm, n.st, x, x.States[i].Chan.Type().Underlying().(*types.Chan).Elem())
				}
				if alts == nil {
					alts = []SOut{{st: n.st}}
				}
				for _, a := range alts {
					m := n.clone()
					m.st = a.st.clone()
					u := append([]SV{}, t...)
					if at >= 0 {
						u[at] = a.ret
					}
					m.regs[x] = svTuple(u...)
					m.idx = l.idx + 1
					if sm.cl.Selected != nil {
						sm.cl.Selected(sm, m.st, x, i)
					}
					sm.runBlock(f, m, push, emit)
				}
			}
			return
		case *ssa.Call:
			outs := sm.call(l, x, x.Common(), sm.val(l, x.Common().Value), sm.args(l, x.Common()), x)
			for i, o := range outs {
				n := l
				if i < len(outs)-1 {
					n = l.clone()
				}
				n.st = o.st
				if o.panic {
					sm.unwind(f, n, push, emit)
					if n == l {
						return
					}
					continue
				}
				n.regs[x] = o.ret
				if n != l {
					n.idx = l.idx + 1
					sm.runBlock(f, n, push, emit)
				}
			}
			if len(outs) == 0 {
				return // the call does not return
			}
			if outs[len(outs)-1].panic {
				return
			}
		case *ssa.If:
			c := sm.val(l, x.Cond)
			for i, b := range []bool{true, false} {
				n := l.clone()
				if c.k != 0 && !n.st.Assume(c, b) {
					continue
				}
				n.prev, n.b, n.idx = l.b, l.b.Succs[i], 0
				push(n)
			}
			return
		case *ssa.Jump:
			l.prev, l.b, l.idx = l.b, l.b.Succs[0], 0
			push(l)
			return
		case *ssa.Return:
			var rs []SV
			for _, r := range x.Results {
				rs = append(rs, sm.val(l, r))
			}
			var ret SV
			switch len(rs) {
			case 0:
			case 1:
				ret = rs[0]
			default:
				ret = svTuple(rs...)
			}
			emit(SOut{l.st, ret, false})
			return
		case *ssa.Panic:
			sm.unwind(f, l, push, emit)
			return
		case *ssa.MapUpdate:
			if sm.cl.Use != nil {
				sm.cl.Use(sm, l.st, x, sm.val(l, x.Map), true)
			}
		case *ssa.Range:
			if sm.cl.Use != nil {
				sm.cl.Use(sm, l.st, x, sm.val(l, x.X), false)
			}
			if v := sm.val(l, x.X); v.k == 's' || v.k == 'r' {
				l.regs[x] = v
			}
		default:
			if sm.cl.Use != nil {
				switch y := x.(type) {
				case *ssa.Lookup:
					sm.cl.Use(sm, l.st, y, sm.val(l, y.X), false)
				case *ssa.Next:
					sm.cl.Use(sm, l.st, y, sm.val(l, y.Iter), false)
				}
			}
			if v, ok := x.(ssa.Value); ok {
				delete(l.regs, v)
				if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					l.regs[v] = sm.fresh(l.st, l.regs, sm.symName(f, v))
				}
			}
		}
	}
}

// unwind runs the deferred calls of a panicking function.
func (sm *Sim) unwind(f *ssa.Function, l *sloc, push func(*sloc), emit func(SOut)) {
	st := l.st.clone()
	st.panicking = true
	for _, o := range sm.runDefers(f, l, st, l.defers) {
		if !o.st.panicking { // recovered
			if f.Recover != nil {
				n := &sloc{st: o.st, regs: map[ssa.Value]SV{}, b: f.Recover}
				for k, v := range l.regs {
					n.regs[k] = v
				}
				push(n)
			} else {
				emit(SOut{o.st, SV{}, false})
			}
			continue
		}
		emit(SOut{o.st, SV{}, true})
	}
}

func (sm *Sim) runDefers(f *ssa.Function, l *sloc, st *SState, ds []sdefer) []SOut {
	outs := []SOut{{st: st}}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []SOut
		for _, o := range outs {
			tmp := &sloc{st: o.st.clone(), regs: map[ssa.Value]SV{}, b: l.b}
			for _, r := range sm.call(tmp, d.at, d.call, d.fn, d.args, nil) {
				if r.panic {
					r.st.panicking = true
				}
				next = append(next, SOut{st: r.st})
			}
		}
		outs = next
	}
	for i := range outs {
		outs[i].panic = outs[i].st.panicking
	}
	return outs
}

func (sm *Sim) args(l *sloc, c *ssa.CallCommon) []SV {
	var a []SV
	if c.IsInvoke() {
		a = append(a, sm.val(l, c.Value))
	}
	for _, x := range c.Args {
		a = append(a, sm.val(l, x))
	}
	return a
}

func (sm *Sim) load(l *sloc, cell string, t types.Type) SV {
	if !sm.tracked(cell) {
		return SV{}
	}
	if v, ok := l.st.cells[cell]; ok {
		return v
	}
	// part of a struct that was stored as a whole
	for i := len(cell) - 1; i > 0; i-- {
		if cell[i] == '.' {
			if v, ok := l.st.cells[cell[:i]]; ok {
				if v.k == 's' && len(v.s) < 400 {
					return sm.load(l, v.s+cell[i:], t)
				}
				return SV{}
			}
		}
	}
	for z := range l.st.zero {
		if cell == z || strings.HasPrefix(cell, z+".") {
			if v := zeroSV(t); v.k != 0 {
				return v
			}
			return svSym("*" + cell)
		}
	}
	// the value the cell had when the analysis started
	v := svSym("*" + cell)
	l.st.cells[cell] = v
	return v
}

func (sm *Sim) storeCell(st *SState, cell string, v SV, t types.Type) {
	if !sm.tracked(cell) {
		return
	}
	for k := range st.cells {
		if strings.HasPrefix(k, cell+".") || strings.HasPrefix(k, cell+"[") {
			delete(st.cells, k)
		}
	}
	if strings.HasSuffix(cell, "[]") {
		st.cells[cell] = SV{} // weak
		return
	}
	if _, isStruct := t.Underlying().(*types.Struct); isStruct {
		switch v.k {
		case 's':
			st.cells[cell] = v
		case 'r': // the contents of another variable
			for k, x := range st.cells {
				if strings.HasPrefix(k, v.s+".") {
					st.cells[cell+k[len(v.s):]] = x
				}
			}
			z := false
			for k := range st.zero {
				z = z || v.s == k || strings.HasPrefix(v.s, k+".")
			}
			if z {
				st.zero[cell] = true
				delete(st.cells, cell)
				return
			}
			st.cells[cell] = svSym(v.s)
		default:
			st.cells[cell] = SV{}
		}
		delete(st.zero, cell)
		return
	}
	st.cells[cell] = v
}

func (sm *Sim) unop(f *ssa.Function, l *sloc, x *ssa.UnOp) {
	v := sm.val(l, x.X)
	switch x.Op {
	case token.MUL:
		if v.k == 'r' || v.k == 's' {
			if sm.cl.Load != nil {
				sm.cl.Load(sm, l.st, x, svRef(v.s))
			}
			l.regs[x] = sm.load(l, v.s, x.Type())
			if _, isStruct := x.Type().Underlying().(*types.Struct); isStruct {
				// a copy of the struct: later stores to the original must not show through
				if strings.HasPrefix(v.s, "a:") || strings.HasPrefix(v.s, "g:") {
					l.regs[x] = svRef(v.s)
				}
			}
			return
		}
		delete(l.regs, x)
	case token.NOT:
		switch v.k {
		case 'c':
			l.regs[x] = svBool(v.s != "true")
		case 's':
			l.regs[x] = SV{k: 'q', s: v.s, c: "true", neg: true}
		case 'q':
			v.neg = !v.neg
			l.regs[x] = v
		default:
			delete(l.regs, x)
		}
	case token.ARROW:
		if sm.cl.Chan != nil {
			sm.cl.Chan(sm, l.st, x)
		}
		if x.CommaOk {
			l.regs[x] = svTuple(sm.fresh(l.st, l.regs, sm.symName(f, x)), sm.fresh(l.st, l.regs, sm.symName(f, x)+"#ok"))
		} else {
			l.regs[x] = sm.fresh(l.st, l.regs, sm.symName(f, x))
		}
	default:
		delete(l.regs, x)
	}
}

func (sm *Sim) binop(l *sloc, x *ssa.BinOp) SV {
	if x.Op != token.EQL && x.Op != token.NEQ {
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return sm.fresh(l.st, l.regs, sm.symName(x.Parent(), x))
		}
		return SV{}
	}
	a, b := sm.val(l, x.X), sm.val(l, x.Y)
	neg := x.Op == token.NEQ
	ka, kb := l.st.Known(a), l.st.Known(b)
	if ka != "" && kb != "" {
		switch {
		case ka == "nil" && kb == "nil":
			return svBool(!neg)
		case (ka == "nil") != (kb == "nil"):
			return svBool(neg)
		case a.k == 'c' && b.k == 'c':
			return svBool((a.s == b.s) != neg)
		case ka != "nonnil" && kb != "nonnil":
			return svBool((ka == kb) != neg)
		}
	}
	if b.k == 's' && (a.k == 'c' || a.k == 'n') {
		a, b = b, a
		kb = ka
	}
	if a.k == 's' && (b.k == 'c' || b.k == 'n') {
		c := b.s
		if b.k == 'n' {
			c = "nil"
		}
		return SV{k: 'q', s: a.s, c: c, neg: neg}
	}
	if a.k == 's' && kb != "" && kb != "nonnil" {
		return SV{k: 'q', s: a.s, c: kb, neg: neg}
	}
	return sm.fresh(l.st, l.regs, sm.symName(x.Parent(), x))
}

// call runs one call and returns its outcomes. reg is the result register, if any.
func (sm *Sim) call(l *sloc, at ssa.Instruction, c *ssa.CallCommon, fv SV, args []SV, reg ssa.Value) []SOut {
	sm.sites = append(sm.sites, at)
	defer func() { sm.sites = sm.sites[:len(sm.sites)-1] }()
	f := at.Parent()
	st := l.st
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "recover":
			if st.panicking {
				n := st.clone()
				n.panicking = false
				return []SOut{{st: n, ret: svRef("recovered")}}
			}
			return []SOut{{st: st, ret: svNil}}
		case "close":
			if sm.cl.Chan != nil {
				sm.cl.Chan(sm, st, at)
			}
		case "copy", "append":
			if sm.cl.Use != nil {
				sm.cl.Use(sm, st, at, args[0], b.Name() == "copy")
				if len(args) > 1 {
					sm.cl.Use(sm, st, at, args[1], false)
				}
			}
		case "delete", "clear":
			if sm.cl.Use != nil {
				sm.cl.Use(sm, st, at, args[0], true)
			}
		}
		return []SOut{{st: st}}
	}
	var callee *ssa.Function
	var ext *types.Func
	var binds []SV
	if c.IsInvoke() {
		ext = c.Method
		switch st.Known(args[0]) {
		case "nil": // the call panics
			if sm.cl.NoNilPanic {
				return nil
			}
			n := st.clone()
			return []SOut{{st: n, panic: true}}
		case "":
			if args[0].k == 's' {
				st.facts[args[0].s] = "nonnil"
			}
		}
		if sm.cl.Dispatch != nil {
			callee = sm.cl.Dispatch(c.Method, args[0])
		}
	} else if s := c.StaticCallee(); s != nil {
		callee = s
		if fv.k == 'f' {
			binds = fv.binds
		}
	} else if fv.k == 'f' {
		callee, binds = fv.fn, fv.binds
	}
	if callee != nil {
		if o := origin(callee); o != callee && len(o.Blocks) > 0 {
			callee = o
		}
		if len(callee.Blocks) == 0 || !(sm.w.funcSet[callee] || callee.Synthetic != "") {
			if o, ok := callee.Object().(*types.Func); ok && ext == nil {
				ext = o
			}
			if !sm.w.funcSet[callee] && !(callee.Synthetic != "" && len(callee.Blocks) > 0 && callee.Pkg == nil) {
				callee = nil
			}
		}
	}
	sm.cur = l
	if sm.cl.Call != nil {
		if outs, ok := sm.cl.Call(sm, st, at, c, callee, ext, args); ok {
			return outs
		}
	}
	var outs []SOut
	if callee != nil && len(callee.Blocks) > 0 && (callee.Synthetic != "" || sm.cl.Enter == nil || sm.cl.Enter(callee)) {
		outs = sm.Exec(callee, args, binds, st)
		for _, g := range sm.stack {
			if g == callee { // the symbols of the nested activation have the names of the outer one's
				own := fnName(f) + ":"
				for v, x := range l.regs {
					if (x.k == 's' || x.k == 'q') && strings.HasPrefix(x.s, own) {
						delete(l.regs, v)
					}
				}
				for _, o := range outs {
					for x := range o.st.facts {
						if strings.HasPrefix(x, own) {
							delete(o.st.facts, x)
						}
					}
				}
				break
			}
		}
	} else {
		n := st.clone()
		for _, a := range args { // memory of local variables handed to code that is not entered
			if a.k == 'r' && strings.HasPrefix(a.s, "a:") {
				n.cells[a.s] = SV{}
				delete(n.zero, a.s)
				for k := range n.cells {
					if strings.HasPrefix(k, a.s+".") {
						delete(n.cells, k)
					}
				}
			}
		}
		outs = []SOut{{st: n, ret: sm.opaqueRet(n, l.regs, f, reg, c)}}
		if sm.cl.MayPanic != nil && sm.cl.MayPanic(c, callee, ext) {
			outs = append(outs, SOut{st: n.clone(), panic: true})
		}
	}
	return outs
}

func (sm *Sim) opaqueRet(st *SState, regs map[ssa.Value]SV, f *ssa.Function, reg ssa.Value, c *ssa.CallCommon) SV {
	if reg == nil {
		return SV{}
	}
	name := sm.symName(f, reg)
	res := c.Signature().Results()
	nn := sm.nonNilResults(c)
	if res.Len() <= 1 {
		v := sm.fresh(st, regs, name)
		if len(nn) > 0 && nn[0] {
			st.facts[v.s] = "nonnil"
		}
		return v
	}
	var t []SV
	for i := 0; i < res.Len(); i++ {
		v := sm.fresh(st, regs, fmt.Sprintf("%s#%d", name, i))
		if i < len(nn) && nn[i] {
			st.facts[v.s] = "nonnil"
		}
		t = append(t, v)
	}
	return svTuple(t...)
}

var extNonNil = map[string][]bool{
	"fmt.Errorf": {true}, "errors.New": {true}, "context.WithCancel": {true, true}, "context.Background": {true},
	"time.NewTicker": {true}, "time.NewTimer": {true}, "time.After": {true}, "os/exec.Command": {true}, "bufio.NewReader": {true},
}

// nonNilResults: which results of a call can never be nil.
func (sm *Sim) nonNilResults(c *ssa.CallCommon) []bool {
	f := c.StaticCallee()
	if f == nil {
		return nil
	}
	f = origin(f)
	if sm.w.funcSet[f] {
		return sm.w.nonNilFn(f, 0)
	}
	if o, ok := f.Object().(*types.Func); ok {
		return extNonNil[o.FullName()]
	}
	return nil
}

// nonNilFn: results that are a fresh object, closure or non-nil call result at every return.
func (w *World) nonNilFn(f *ssa.Function, d int) []bool {
	if d > 5 || len(f.Blocks) == 0 {
		return nil
	}
	var out []bool
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			if out == nil {
				out = make([]bool, len(r.Results))
				for i := range out {
					out[i] = true
				}
			}
			for i, v := range r.Results {
				out[i] = out[i] && w.nonNilVal(v, d)
			}
		}
	}
	return out
}

func (w *World) nonNilVal(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeChan, *ssa.Function, *ssa.FieldAddr, *ssa.Global:
		return true
	case *ssa.MakeInterface:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return true // a non-nil interface whatever the pointer
		}
		return true
	case *ssa.ChangeInterface:
		return w.nonNilVal(x.X, d)
	case *ssa.ChangeType:
		return w.nonNilVal(x.X, d)
	case *ssa.Call:
		f := x.Common().StaticCallee()
		if f == nil {
			return false
		}
		f = origin(f)
		var nn []bool
		if w.funcSet[f] {
			nn = w.nonNilFn(f, d+1)
		} else if o, ok := f.Object().(*types.Func); ok {
			nn = extNonNil[o.FullName()]
		}
		return len(nn) > 0 && nn[0]
	}
	return false
}

// ErrOuts makes the two outcomes of an operation returning an error (last result).
func (sm *Sim) ErrOuts(st *SState, c *ssa.CallCommon, at ssa.Instruction, ok func(*SState), fail func(*SState)) []SOut {
	mk := func(e SV) SV {
		n := c.Signature().Results().Len()
		if n <= 1 {
			return e
		}
		t := make([]SV, n)
		t[n-1] = e
		return svTuple(t...)
	}
	a, b := st.clone(), st.clone()
	if ok != nil {
		ok(a)
	}
	if fail != nil {
		fail(b)
	}
	return []SOut{{st: a, ret: mk(svNil)}, {st: b, ret: mk(svRef(fmt.Sprintf("err:%s:%d", fnName(at.Parent()), instrIndex(at))))}}
}

// Variadic gives the values of a variadic argument list built at the call site (nil if unknown).
func (sm *Sim) Variadic(v ssa.Value) []SV {
	if sm.cur == nil {
		return nil
	}
	var out []SV
	for _, x := range variadicArgs(v) {
		out = append(out, sm.val(sm.cur, x))
	}
	return out
}

// variadicArgs: the elements of an argument slice built at the call site.
func variadicArgs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, at.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok && s.Addr == ia {
				if i, ok := constant.Int64Val(k.Value); ok && int(i) < len(out) {
					out[i] = s.Val
				}
			}
		}
	}
	for _, x := range out {
		if x == nil {
			return nil
		}
	}
	return out
}

// Path names the call chain being simulated.
func (sm *Sim) Path() string {
	var s []string
	for _, f := range sm.stack {
		s = append(s, fnName(f))
	}
	return strings.Join(s, " > ")
}

// decisionFields: names of fields whose value can decide a branch in the functions of a package
// (directly, or as the object a deciding field is read from). Only these are kept in the state.
func decisionFields(w *World, in func(f *ssa.Function) bool) map[string]bool {
	out := map[string]bool{}
	var trace func(v ssa.Value, seen map[ssa.Value]bool)
	trace = func(v ssa.Value, seen map[ssa.Value]bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.BinOp:
			trace(x.X, seen)
			trace(x.Y, seen)
		case *ssa.UnOp:
			trace(x.X, seen)
		case *ssa.Phi:
			for _, e := range x.Edges {
				trace(e, seen)
			}
		case *ssa.FieldAddr, *ssa.Field:
			if _, fv, ok := fieldOf(x); ok {
				out[fv.Name()] = true
			}
			if fa, ok := x.(*ssa.FieldAddr); ok {
				trace(fa.X, seen)
			} else {
				trace(x.(*ssa.Field).X, seen)
			}
		case *ssa.ChangeInterface:
			trace(x.X, seen)
		case *ssa.ChangeType:
			trace(x.X, seen)
		case *ssa.Call:
			for _, a := range x.Common().Args {
				trace(a, seen)
			}
			trace(x.Common().Value, seen)
		case *ssa.Extract:
			trace(x.Tuple, seen)
		case *ssa.MakeInterface:
			trace(x.X, seen)
		}
	}
	for _, f := range w.Funcs {
		if !in(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.If:
					trace(x.Cond, map[ssa.Value]bool{})
				case *ssa.Return:
					// results decide branches of the callers
					for _, r := range x.Results {
						if b, ok := r.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
							trace(r, map[ssa.Value]bool{})
						}
					}
				}
			}
		}
	}
	// a field stored from another field passes decisions on
	for again := true; again; {
		again = false
		for _, f := range w.Funcs {
			if !in(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					s, ok := i.(*ssa.Store)
					if !ok {
						continue
					}
					if _, fv, ok := fieldOf(s.Addr); ok && out[fv.Name()] {
						n := len(out)
						trace(s.Val, map[ssa.Value]bool{})
						again = again || len(out) > n
					}
				}
			}
		}
	}
	return out
}

func trackFields(fields map[string]bool) func(string) bool {
	return func(cell string) bool {
		i := strings.LastIndexByte(cell, '.')
		if strings.HasSuffix(cell, "[]") {
			return false
		}
		if i < 0 || strings.ContainsAny(cell[i:], ":()") {
			return true
		}
		return fields[cell[i+1:]]
	}
}
