package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value numbering. A Term names what an SSA value is made of: constants are folded, struct and
// slice literals keep their parts, everything else is an operation on terms. TEval propagates terms
// through the control flow graph of a function, following only the branches that constants and the
// branches taken before leave open; loops that no constant bounds are widened after one round.
type Term struct {
	op   string // const nil sym op struct ref tuple func iface slice map
	c    constant.Value
	t    types.Type // const, iface (dynamic type), struct, slice (element type)
	name string     // sym: name; op: operator; ref, slice, map: cell
	args []*Term
	fn   *ssa.Function
	lo   int
	n    int
	k    string
}

func (t *Term) key() string {
	if t == nil {
		return "?"
	}
	if t.k != "" {
		return t.k
	}
	var b strings.Builder
	switch t.op {
	case "const":
		b.WriteString(t.c.ExactString())
	case "nil":
		b.WriteString("nil")
	case "sym":
		b.WriteString(t.name)
	case "ref":
		b.WriteString("&" + t.name)
	case "slice":
		fmt.Fprintf(&b, "slice(%s,%d,%d)", t.name, t.lo, t.n)
	case "map":
		b.WriteString("map(" + t.name + ")")
	case "func":
		b.WriteString("func " + t.fn.String())
		for _, a := range t.args {
			b.WriteString("," + a.key())
		}
	case "iface":
		b.WriteString("iface[" + types.TypeString(t.t, nil) + "](" + t.args[0].key() + ")")
	default:
		b.WriteString(t.op)
		if t.op == "op" {
			b.WriteString(":" + t.name)
		}
		b.WriteString("(")
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(a.key())
		}
		b.WriteString(")")
	}
	t.k = b.String()
	if len(t.k) > 20000 {
		t.k = fmt.Sprintf("long(%d,%x)", len(t.k), hashOf(t.k))
	}
	return t.k
}

func hashOf(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (t *Term) String() string { return t.key() }

func tSym(name string) *Term               { return &Term{op: "sym", name: name} }
func tOp(name string, args ...*Term) *Term { return &Term{op: "op", name: name, args: args} }
func tConst(c constant.Value, t types.Type) *Term {
	return &Term{op: "const", c: c, t: t}
}
func tInt(n int64) *Term      { return tConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func tStr(s string) *Term     { return tConst(constant.MakeString(s), types.Typ[types.String]) }
func tBool(b bool) *Term      { return tConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func tTuple(a ...*Term) *Term { return &Term{op: "tuple", args: a} }

var tNil = &Term{op: "nil"}

func (t *Term) isConst() bool { return t != nil && t.op == "const" }
func (t *Term) isStr() (string, bool) {
	if t.isConst() && t.c.Kind() == constant.String {
		return constant.StringVal(t.c), true
	}
	return "", false
}
func (t *Term) isInt() (int64, bool) {
	if t.isConst() && t.c.Kind() == constant.Int {
		n, ok := constant.Int64Val(t.c)
		return n, ok
	}
	return 0, false
}
func (t *Term) isBool() (bool, bool) {
	if t.isConst() && t.c.Kind() == constant.Bool {
		return constant.BoolVal(t.c), true
	}
	return false, false
}

// walk visits the term and its parts.
func (t *Term) walk(f func(*Term) bool) {
	if t == nil || !f(t) {
		return
	}
	for _, a := range t.args {
		a.walk(f)
	}
}

// structure helpers

func zeroTerm(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tConst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return tConst(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return tConst(constant.ToInt(constant.MakeInt64(0)), t)
		}
		return tNil
	case *types.Struct:
		s := &Term{op: "struct", t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.args = append(s.args, zeroTerm(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return tOp("zero array")
	}
	if _, ok := t.(*types.TypeParam); ok {
		return tOp("zero value")
	}
	return tNil
}

// field projects field i of a struct term.
func (t *Term) field(i int, st *types.Struct) *Term {
	if t.op == "struct" && i < len(t.args) {
		return t.args[i]
	}
	if t.op == "op" && t.name == "zero value" {
		return zeroTerm(st.Field(i).Type())
	}
	return tOp("."+st.Field(i).Name(), t)
}

// Event is something a path did that is not a pure value.
type Event struct {
	what string // call, store, go, send, panic
	name string
	args []*Term
	at   ssa.Instruction
	fn   *ssa.Function
}

type TState struct {
	mem    map[string]*Term
	facts  map[string]bool
	eq     map[string]*Term // term key -> constant it equals on this path
	events []Event
	chans  map[string][]*Term // what was sent on channels made here (TEval.Sync)
	n      int
	epoch  int
}

func newTState() *TState {
	return &TState{mem: map[string]*Term{}, facts: map[string]bool{}, eq: map[string]*Term{}, chans: map[string][]*Term{}}
}

func (s *TState) clone() *TState {
	c := &TState{mem: make(map[string]*Term, len(s.mem)), facts: make(map[string]bool, len(s.facts)), eq: make(map[string]*Term, len(s.eq)), chans: make(map[string][]*Term, len(s.chans)), n: s.n, epoch: s.epoch}
	for k, v := range s.chans {
		c.chans[k] = v[:len(v):len(v)]
	}
	for k, v := range s.mem {
		c.mem[k] = v
	}
	for k, v := range s.facts {
		c.facts[k] = v
	}
	for k, v := range s.eq {
		c.eq[k] = v
	}
	c.events = s.events[:len(s.events):len(s.events)]
	return c
}

type TOut struct {
	st    *TState
	ret   *Term
	panic bool
}

type TEval struct {
	w     *World
	Enter func(f *ssa.Function) bool
	// Model answers a call itself.
	Model func(ev *TEval, st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool)
	// Branch may decide a condition.
	Budget    int
	Steps     int
	Blown     bool
	MaxUnroll int
	PureRepo  bool // calls of the repository's functions that change nothing are values
	Merge     bool // join outcomes of a call that differ in plain values only
	Sync      bool // run goroutines where they start; receive what was sent before
	stack     []*ssa.Function
	globals   map[*ssa.Global]int
	inits     map[*ssa.Package]*TState
	Reached   map[*ssa.Function]bool
	// observers
	OnIf      func(f *ssa.Function, x *ssa.If, known, v bool)
	OnBlock   func(b *ssa.BasicBlock)
	OnCompare func(at ssa.Instruction, x, y *Term)
	OnLookup  func(at ssa.Instruction, m, k, v *Term, found bool)
	EnterArgs func(f *ssa.Function, args []*Term) bool
}

func NewTEval(w *World) *TEval {
	return &TEval{w: w, Budget: 300000, MaxUnroll: 400, globals: map[*ssa.Global]int{}, inits: map[*ssa.Package]*TState{}, Reached: map[*ssa.Function]bool{}}
}

type tframe struct {
	b, prev *ssa.BasicBlock
	idx     int
	regs    map[ssa.Value]*Term
	st      *TState
	visits  map[*ssa.BasicBlock]int
	open    map[*ssa.BasicBlock]bool // loop headers left by an undecided branch since their last visit
	wide    map[*ssa.BasicBlock]bool
	defers  []tdefer
	resume  bool
}

type tdefer struct {
	c    *ssa.Defer
	fn   *Term
	args []*Term
}

func (l *tframe) clone() *tframe {
	m := &tframe{b: l.b, prev: l.prev, idx: l.idx, st: l.st.clone(), regs: make(map[ssa.Value]*Term, len(l.regs)), visits: map[*ssa.BasicBlock]int{}, open: map[*ssa.BasicBlock]bool{}, wide: map[*ssa.BasicBlock]bool{}}
	for k, v := range l.regs {
		m.regs[k] = v
	}
	for k, v := range l.visits {
		m.visits[k] = v
	}
	for k, v := range l.open {
		m.open[k] = v
	}
	for k, v := range l.wide {
		m.wide[k] = v
	}
	m.defers = append([]tdefer(nil), l.defers...)
	return m
}

// Params gives each parameter of f a symbol "arg<i>".
func tParams(f *ssa.Function) []*Term {
	var a []*Term
	for i := range f.Params {
		a = append(a, tSym(fmt.Sprintf("arg%d", i)))
	}
	return a
}

func (ev *TEval) Run(f *ssa.Function, args, binds []*Term, st *TState) []TOut {
	ev.stack = append(ev.stack, f)
	ev.Reached[f] = true
	defer func() { ev.stack = ev.stack[:len(ev.stack)-1] }()
	if len(f.Blocks) == 0 {
		return []TOut{{st: st, ret: tOp("call "+fnName(f), args...)}}
	}
	l := &tframe{b: f.Blocks[0], regs: map[ssa.Value]*Term{}, st: st.clone(), visits: map[*ssa.BasicBlock]int{}, open: map[*ssa.BasicBlock]bool{}, wide: map[*ssa.BasicBlock]bool{}}
	for i, p := range f.Params {
		if i < len(args) {
			l.regs[p] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if i < len(binds) {
			l.regs[p] = binds[i]
		}
	}
	loops := map[*ssa.BasicBlock]*natLoop{}
	for _, lp := range loopsOf(f) {
		loops[lp.head] = lp
	}
	var outs []TOut
	work := []*tframe{l}
	for len(work) > 0 {
		l := work[len(work)-1]
		work = work[:len(work)-1]
		if ev.Steps > ev.Budget {
			ev.Blown = true
			return outs
		}
		ev.block(f, l, loops, func(m *tframe) { work = append(work, m) }, func(o TOut) { outs = append(outs, o) })
	}
	if ev.Merge && len(outs) > 1 {
		outs = mergeOuts(outs)
	}
	return outs
}

// mergeOuts joins outcomes that give the same result after the same events: where the memory they
// leave differs in a plain value, that value is unknown; what only some of them know is dropped.
func mergeOuts(outs []TOut) []TOut {
	var res []TOut
	idx := map[string]int{}
	for _, o := range outs {
		var k strings.Builder
		fmt.Fprintf(&k, "%v|%d|%s", o.panic, o.st.n, o.ret.key())
		for _, e := range o.st.events {
			fmt.Fprintf(&k, "|%s %s", e.what, e.name)
			for _, a := range e.args {
				k.WriteString("," + a.key())
			}
		}
		i, ok := idx[k.String()]
		if ok {
			if m := joinStates(res[i].st, o.st); m != nil {
				res[i].st = m
				continue
			}
		}
		idx[k.String()] = len(res)
		res = append(res, o)
	}
	return res
}

func joinStates(a, b *TState) *TState {
	if len(a.mem) != len(b.mem) {
		return nil
	}
	m := a.clone()
	for k, x := range a.mem {
		y := b.mem[k]
		if y == nil {
			return nil
		}
		j := joinTerms(x, y, k)
		if j == nil {
			return nil
		}
		m.mem[k] = j
	}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; !ok || w != v {
			delete(m.facts, k)
		}
	}
	for k, v := range a.eq {
		if w := b.eq[k]; w == nil || w.key() != v.key() {
			delete(m.eq, k)
		}
	}
	if b.epoch > m.epoch {
		m.epoch = b.epoch
	}
	return m
}

// joinTerms: nil when the two are not plain values.
func joinTerms(x, y *Term, path string) *Term {
	if x.key() == y.key() {
		return x
	}
	if x.op == "struct" && y.op == "struct" && len(x.args) == len(y.args) {
		j := &Term{op: "struct", t: x.t}
		for i := range x.args {
			v := joinTerms(x.args[i], y.args[i], fmt.Sprintf("%s.%d", path, i))
			if v == nil {
				return nil
			}
			j.args = append(j.args, v)
		}
		return j
	}
	plain := func(t *Term) bool { return t.op == "const" || t.op == "sym" || t.op == "op" }
	if !plain(x) || !plain(y) {
		return nil
	}
	if n := tOp("either", x, y); len(n.key()) < 500 {
		return n
	}
	return tSym(fmt.Sprintf("either %s/%x", path, hashOf(x.key()+y.key())))
}

// enterBlock moves the frame along an edge; false when the path need not be followed.
func (ev *TEval) enterBlock(f *ssa.Function, l *tframe, to *ssa.BasicBlock, loops map[*ssa.BasicBlock]*natLoop) bool {
	from := l.b
	l.prev, l.b, l.idx = from, to, 0
	pi := predIndex(to, from)
	vals := map[*ssa.Phi]*Term{}
	n := 0
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = ev.val(l, p.Edges[pi])
		n++
	}
	for p, v := range vals {
		l.regs[p] = v
	}
	l.idx = n
	if lp := loops[to]; lp != nil {
		if lp.body[from] { // next round
			if l.wide[to] {
				return false
			}
			l.visits[to]++
			if l.open[to] || l.visits[to] > ev.MaxUnroll {
				l.wide[to] = true
				for p := range vals {
					l.regs[p] = tSym("loop " + fnName(f) + ":" + p.Name())
				}
				ev.havocLoop(l, lp)
			}
		} else {
			l.visits[to] = 0
			l.open[to] = false
			l.wide[to] = false
		}
	}
	return true
}

// havocLoop forgets the memory a loop may write.
func (ev *TEval) havocLoop(l *tframe, lp *natLoop) {
	l.st.epoch++
	for b := range lp.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				a := l.regs[x.Addr]
				if al, ok := x.Addr.(*ssa.Alloc); ok && a == nil {
					_ = al
					continue
				}
				if a != nil && a.op == "ref" {
					ev.forget(l.st, baseCell(a.name))
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && ev.PureRepo && ev.w.funcSet[origin(g)] {
					if s := ev.w.Prov().Sum(origin(g)); s != nil && len(s.Mut) == 0 {
						continue // reads what it is given
					}
				}
				for _, v := range x.Common().Args {
					if a := l.regs[v]; a != nil && a.op == "ref" {
						ev.forget(l.st, a.name)
					}
				}
				if mc, ok := x.Common().Value.(*ssa.MakeClosure); ok {
					for _, v := range mc.Bindings {
						if a := l.regs[v]; a != nil && a.op == "ref" {
							ev.forget(l.st, a.name)
						}
					}
				}
			case *ssa.MapUpdate:
				if a := l.regs[x.Map]; a != nil && a.op == "map" {
					l.st.mem[a.name+"#open"] = tBool(true)
				}
			}
		}
	}
}

// baseCell: for an element cell the whole array, otherwise the cell itself.
func baseCell(c string) string {
	if i := strings.IndexByte(c, '['); i > 0 && strings.HasPrefix(c, "A") {
		return c[:i]
	}
	return c
}

func (ev *TEval) forget(st *TState, cell string) {
	st.n++
	for k := range st.mem {
		if k == cell || strings.HasPrefix(k, cell+".") || strings.HasPrefix(k, cell+"[") || strings.HasPrefix(k, cell+"#") {
			delete(st.mem, k)
		}
	}
	st.mem[cell] = tSym(fmt.Sprintf("unknown %s/%d", cell, st.n))
	if strings.HasPrefix(cell, "M") {
		st.mem[cell+"#open"] = tBool(true)
	}
	st.mem[cell+"#buf"] = tSym(fmt.Sprintf("unknown text %s/%d", cell, st.n))
}

func (ev *TEval) val(l *tframe, v ssa.Value) *Term {
	if t, ok := l.regs[v]; ok && t != nil {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroTerm(x.Type())
		}
		return tConst(x.Value, x.Type())
	case *ssa.Function:
		return &Term{op: "func", fn: x}
	case *ssa.Global:
		return &Term{op: "ref", name: "G:" + relPath(x.Pkg.Pkg.Path()) + "." + x.Name()}
	case *ssa.Builtin:
		return tSym("builtin " + x.Name())
	}
	if v == nil {
		return tNil
	}
	return tSym("value " + v.Name())
}

func isLocalCell(c string) bool { return strings.HasPrefix(c, "A") || strings.HasPrefix(c, "M") }

// load reads a cell holding a value of type t.
func (ev *TEval) load(st *TState, cell string, t types.Type) *Term {
	if v, ok := st.mem[cell]; ok {
		over := false
		for k := range st.mem {
			if strings.HasPrefix(k, cell+".") {
				over = true
			}
		}
		if !over {
			return v
		}
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		known := false
		for k := range st.mem {
			if strings.HasPrefix(k, cell+".") {
				known = true
			}
		}
		if known {
			r := &Term{op: "struct", t: t}
			for i := 0; i < s.NumFields(); i++ {
				r.args = append(r.args, ev.load(st, cell+"."+s.Field(i).Name(), s.Field(i).Type()))
			}
			return r
		}
	}
	// part of a larger value
	for i := len(cell) - 1; i > 0; i-- {
		if cell[i] != '.' && cell[i] != '[' {
			continue
		}
		whole, ok := st.mem[cell[:i]]
		if !ok {
			continue
		}
		rest := cell[i:]
		return project(whole, rest, t)
	}
	if g := ev.globalInit(st, cell, t); g != nil {
		return g
	}
	if strings.HasPrefix(cell, "G:") {
		return tSym("global " + cell[2:])
	}
	if i := strings.LastIndexByte(cell, '.'); i > 0 && strings.HasPrefix(cell, "(") && strings.HasSuffix(cell[:i], ")") && balanced(cell[1:i-1]) {
		return tOp(fmt.Sprintf("%s@%d", cell[i:], st.epoch), tSym(cell[1:i-1]))
	}
	return tSym(fmt.Sprintf("*%s@%d", cell, st.epoch))
}

func balanced(s string) bool {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			if d--; d < 0 {
				return false
			}
		}
	}
	return d == 0
}

func project(v *Term, path string, t types.Type) *Term {
	for path != "" {
		j := 1
		for j < len(path) && path[j] != '.' && path[j] != '[' {
			j++
		}
		step := path[:j]
		path = path[j:]
		if v.op == "op" && (v.name == "zero array" || v.name == "zero value") {
			return zeroTerm(t)
		}
		if v.op == "struct" && step[0] == '.' {
			s := v.t.Underlying().(*types.Struct)
			found := false
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == step[1:] {
					v, found = v.args[i], true
					break
				}
			}
			if found {
				continue
			}
		}
		v = tOp(step, v)
	}
	return v
}

func (ev *TEval) store(st *TState, cell string, v *Term) {
	for k := range st.mem {
		if strings.HasPrefix(k, cell+".") || strings.HasPrefix(k, cell+"[") {
			delete(st.mem, k)
		}
	}
	if strings.HasSuffix(cell, "[?]") {
		ev.forget(st, cell[:len(cell)-3])
		return
	}
	st.mem[cell] = v
	// a part of a struct literal held as one value: keep the other parts
	for i := len(cell) - 1; i > 0; i-- {
		if cell[i] != '.' {
			continue
		}
		p := cell[:i]
		if w, ok := st.mem[p]; ok {
			if w.op == "struct" {
				s := w.t.Underlying().(*types.Struct)
				delete(st.mem, p)
				for j := 0; j < s.NumFields(); j++ {
					c := p + "." + s.Field(j).Name()
					if _, has := st.mem[c]; !has && !hasBelow(st, c) {
						st.mem[c] = w.args[j]
					}
				}
			}
			// an opaque whole stays: load prefers the parts
			break
		}
	}
}

func hasBelow(st *TState, c string) bool {
	for k := range st.mem {
		if strings.HasPrefix(k, c+".") || strings.HasPrefix(k, c+"[") {
			return true
		}
	}
	return false
}

// globalInit: the value a package variable gets at start when nothing else writes it.
func (ev *TEval) globalInit(st *TState, cell string, t types.Type) *Term {
	if !strings.HasPrefix(cell, "G:") {
		return nil
	}
	name := cell[2:]
	end := len(name)
	slash := strings.LastIndexByte(name, '/')
	dot := strings.IndexByte(name[slash+1:], '.')
	if dot < 0 {
		return nil
	}
	dot += slash + 1
	for i := dot + 1; i < len(name); i++ {
		if name[i] == '.' || name[i] == '[' {
			end = i
			break
		}
	}
	pkgPath, g := name[:dot], name[dot+1:end]
	for _, p := range ev.w.Prog.AllPackages() {
		if relPath(p.Pkg.Path()) != pkgPath {
			continue
		}
		gl, ok := p.Members[g].(*ssa.Global)
		if !ok || !ev.constGlobal(gl) {
			return nil
		}
		is := ev.initState(p)
		if is == nil {
			return nil
		}
		for k, v := range is.mem { // the memory the variable's value lives in
			if strings.HasPrefix(k, "AI") || strings.HasPrefix(k, "MI") {
				if _, has := st.mem[k]; !has {
					st.mem[k] = v
				}
			}
		}
		base := "G:" + pkgPath + "." + g
		if _, has := is.mem[base]; has || hasBelow(is, base) {
			return ev.load(is, cell, t)
		}
		return zeroTerm(t)
	}
	return nil
}

func (ev *TEval) initState(p *ssa.Package) *TState {
	if s, ok := ev.inits[p]; ok {
		return s
	}
	ev.inits[p] = nil
	f := p.Func("init")
	if f == nil {
		return nil
	}
	sub := NewTEval(ev.w)
	sub.inits = ev.inits
	sub.Budget = 200000
	st := newTState()
	st.n = 1
	outs := sub.Run(f, nil, nil, st)
	for _, o := range outs {
		if o.panic || len(o.st.mem) == 0 {
			continue
		}
		// rename local memory so that it cannot collide
		n := newTState()
		for k, v := range o.st.mem {
			n.mem[initName(p, k)] = renameTerm(p, v)
		}
		if ev.inits[p] == nil || len(n.mem) > len(ev.inits[p].mem) {
			ev.inits[p] = n
		}
	}
	return ev.inits[p]
}

func initName(p *ssa.Package, k string) string {
	if isLocalCell(k) {
		return k[:1] + "I" + strings.ReplaceAll(strings.ReplaceAll(relPath(p.Pkg.Path()), ".", "_"), "[", "_") + "_" + k[1:]
	}
	return k
}

func renameTerm(p *ssa.Package, v *Term) *Term {
	switch v.op {
	case "const", "nil", "sym":
		return v
	}
	c := *v
	c.k = ""
	switch v.op {
	case "ref", "slice", "map":
		c.name = initName(p, v.name)
	}
	c.args = nil
	for _, a := range v.args {
		c.args = append(c.args, renameTerm(p, a))
	}
	return &c
}

// constGlobal: after initialisation nothing writes the variable or what it directly holds.
func (ev *TEval) constGlobal(g *ssa.Global) bool {
	if v := ev.globals[g]; v != 0 {
		return v > 0
	}
	ok := isRepoPath(g.Pkg.Pkg.Path())
	var readOnly func(v ssa.Value, d int) bool
	readOnly = func(v ssa.Value, d int) bool {
		if d > 6 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp, *ssa.Index, *ssa.Lookup, *ssa.Extract, *ssa.Field, *ssa.Range, *ssa.Next, *ssa.BinOp, *ssa.If, *ssa.Return, *ssa.TypeAssert, *ssa.Convert:
				if y, isVal := r.(ssa.Value); isVal {
					if _, isRef := y.Type().Underlying().(*types.Pointer); isRef {
						continue
					}
					switch y.Type().Underlying().(type) {
					case *types.Slice, *types.Map:
						if _, isRet := r.(*ssa.Return); !isRet && !readOnly(y, d+1) {
							return false
						}
					}
				}
				if _, isRet := r.(*ssa.Return); isRet {
					switch v.Type().Underlying().(type) {
					case *types.Slice, *types.Map:
						return false
					}
				}
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
				if !readOnly(r.(ssa.Value), d+1) {
					return false
				}
			case *ssa.Store:
				if x.Addr == v {
					return false
				}
				return false
			case ssa.CallInstruction:
				if bi, isB := x.Common().Value.(*ssa.Builtin); isB && (bi.Name() == "len" || bi.Name() == "cap") {
					continue
				}
				switch v.Type().Underlying().(type) {
				case *types.Slice, *types.Map, *types.Pointer:
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	if ok {
	scan:
		for _, f := range ev.w.Funcs {
			if f.Pkg != g.Pkg && !exportedName(g.Name()) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op != ssa.Value(g) {
							continue
						}
						switch x := in.(type) {
						case *ssa.DebugRef:
						case *ssa.UnOp:
							switch x.Type().Underlying().(type) {
							case *types.Slice, *types.Map:
								if !readOnly(x, 0) {
									ok = false
									break scan
								}
							}
						case *ssa.FieldAddr, *ssa.IndexAddr:
							if !readOnly(in.(ssa.Value), 0) {
								ok = false
								break scan
							}
						default:
							ok = false
							break scan
						}
					}
				}
			}
		}
	}
	ev.globals[g] = -1
	if ok {
		ev.globals[g] = 1
	}
	return ok
}

func exportedName(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }

// decide tells whether a condition is settled on this path.
func (ev *TEval) decide(st *TState, c *Term) (bool, bool) {
	if b, ok := c.isBool(); ok {
		return b, true
	}
	if v, ok := st.facts[c.key()]; ok {
		return v, true
	}
	if c.op == "op" && c.name == "!" {
		v, ok := ev.decide(st, c.args[0])
		return !v, ok
	}
	if c.op == "op" && c.name == "==" {
		x, k := c.args[0], c.args[1]
		if e := st.eq[x.key()]; e != nil && k.isConst() {
			return constant.Compare(e.c, token.EQL, k.c), true
		}
	}
	if c.op == "op" && (c.name == "<" || c.name == "<=") {
		a, b := st.resolve(c.args[0]), st.resolve(c.args[1])
		if a.isConst() && b.isConst() {
			tok := token.LSS
			if c.name == "<=" {
				tok = token.LEQ
			}
			return constant.Compare(a.c, tok, b.c), true
		}
	}
	return false, false
}

func (st *TState) resolve(t *Term) *Term {
	if e := st.eq[t.key()]; e != nil {
		return e
	}
	return t
}

func (ev *TEval) assume(st *TState, c *Term, v bool) {
	st.facts[c.key()] = v
	if c.op == "op" && c.name == "!" {
		ev.assume(st, c.args[0], !v)
	}
	if v && c.op == "op" && c.name == "==" && c.args[1].isConst() {
		st.eq[c.args[0].key()] = c.args[1]
	}
}

func (ev *TEval) block(f *ssa.Function, l *tframe, loops map[*ssa.BasicBlock]*natLoop, push func(*tframe), emit func(TOut)) {
	if ev.OnBlock != nil {
		ev.OnBlock(l.b)
	}
	for ; l.idx < len(l.b.Instrs); l.idx++ {
		ev.Steps++
		if ev.Steps > ev.Budget {
			ev.Blown = true
			return
		}
		in := l.b.Instrs[l.idx]
		switch x := in.(type) {
		case *ssa.DebugRef, *ssa.Phi:
		case *ssa.Alloc:
			l.st.n++
			id := fmt.Sprintf("A%d", l.st.n)
			l.st.mem[id] = zeroTerm(deref(x.Type()))
			l.regs[x] = &Term{op: "ref", name: id, t: deref(x.Type())}
		case *ssa.UnOp:
			l.regs[x] = ev.unop(l, x)
		case *ssa.BinOp:
			a, b := ev.val(l, x.X), ev.val(l, x.Y)
			if ev.OnCompare != nil && (x.Op == token.EQL || x.Op == token.NEQ) {
				ev.OnCompare(x, l.st.resolve(a), l.st.resolve(b))
			}
			l.regs[x] = ev.binop(l.st, x.Op, a, b, x.Type())
		case *ssa.Store:
			a := ev.val(l, x.Addr)
			v := ev.val(l, x.Val)
			cell := a.name
			if a.op != "ref" {
				cell = "(" + a.key() + ")"
			}
			ev.store(l.st, cell, v)
			if !isLocalCell(cell) {
				l.st.events = append(l.st.events, Event{what: "store", name: cell, args: []*Term{v}, at: in, fn: f})
			}
		case *ssa.FieldAddr:
			b := ev.val(l, x.X)
			s := deref(x.X.Type()).Underlying().(*types.Struct)
			l.regs[x] = &Term{op: "ref", name: refCell(b) + "." + s.Field(x.Field).Name()}
		case *ssa.IndexAddr:
			l.regs[x] = ev.indexAddr(l.st, ev.val(l, x.X), ev.val(l, x.Index))
		case *ssa.Field:
			b := ev.val(l, x.X)
			l.regs[x] = b.field(x.Field, x.X.Type().Underlying().(*types.Struct))
		case *ssa.Index:
			b, i := ev.val(l, x.X), ev.val(l, x.Index)
			if s, ok := b.isStr(); ok {
				if n, ok := i.isInt(); ok && n >= 0 && int(n) < len(s) {
					l.regs[x] = tConst(constant.MakeInt64(int64(s[n])), x.Type())
					break
				}
			}
			if isString(x.X.Type()) {
				if r, ok := textAt(b, i); ok {
					l.regs[x] = r
					break
				}
			}
			l.regs[x] = tOp("index", b, i)
		case *ssa.Lookup:
			l.regs[x] = ev.lookup(l.st, x, ev.val(l, x.X), ev.val(l, x.Index))
		case *ssa.Slice:
			l.regs[x] = ev.slice(l, x)
		case *ssa.MakeSlice:
			l.st.n++
			id := fmt.Sprintf("A%d", l.st.n)
			n := ev.val(l, x.Len)
			if k, ok := n.isInt(); ok && k >= 0 && k <= 4096 {
				l.st.mem[id] = tOp("zero array")
				l.regs[x] = &Term{op: "slice", name: id, n: int(k), t: x.Type().Underlying().(*types.Slice).Elem()}
			} else {
				l.regs[x] = tOp("make", n, tSym("#"+id))
			}
		case *ssa.MakeMap:
			l.st.n++
			l.regs[x] = &Term{op: "map", name: fmt.Sprintf("M%d", l.st.n), t: x.Type()}
		case *ssa.MakeChan:
			l.st.n++
			l.regs[x] = tSym(fmt.Sprintf("chan%d", l.st.n))
		case *ssa.MapUpdate:
			m, k, v := ev.val(l, x.Map), ev.val(l, x.Key), ev.val(l, x.Value)
			if m.op == "map" {
				if k.isConst() {
					l.st.mem[m.name+"{"+k.key()+"}"] = v
				} else {
					l.st.mem[m.name+"#open"] = tBool(true)
				}
			} else {
				l.st.events = append(l.st.events, Event{what: "store", name: "map " + m.key(), args: []*Term{k, v}, at: in, fn: f})
				l.st.epoch++
			}
		case *ssa.MakeInterface:
			v := ev.val(l, x.X)
			l.regs[x] = &Term{op: "iface", t: x.X.Type(), args: []*Term{v}}
		case *ssa.ChangeInterface:
			l.regs[x] = ev.val(l, x.X)
		case *ssa.ChangeType:
			v := ev.val(l, x.X)
			if v.op == "struct" {
				c := *v
				c.t, c.k = x.Type(), ""
				v = &c
			}
			l.regs[x] = v
		case *ssa.Convert:
			l.regs[x] = ev.convertText(l.st, ev.val(l, x.X), x.X.Type(), x.Type())
		case *ssa.MultiConvert:
			l.regs[x] = tOp("convert "+typeName(x.Type()), ev.val(l, x.X))
		case *ssa.SliceToArrayPointer:
			l.regs[x] = tOp("array", ev.val(l, x.X))
		case *ssa.MakeClosure:
			c := &Term{op: "func", fn: x.Fn.(*ssa.Function)}
			for _, b := range x.Bindings {
				c.args = append(c.args, ev.val(l, b))
			}
			l.regs[x] = c
		case *ssa.TypeAssert:
			v := ev.val(l, x.X)
			yes, known := ev.dynType(l.st, v, x.AssertedType)
			res := func(m *tframe, ok bool) {
				var r *Term
				if ok {
					if v.op == "iface" && !types.IsInterface(x.AssertedType) {
						r = v.args[0]
					} else if types.IsInterface(x.AssertedType) {
						r = v
					} else {
						r = tOp("assert "+types.TypeString(x.AssertedType, nil), v)
					}
				} else {
					r = zeroTerm(x.AssertedType)
				}
				if x.CommaOk {
					r = tTuple(r, tBool(ok))
				}
				m.regs[x] = r
			}
			if known {
				if !yes && !x.CommaOk {
					emit(TOut{st: l.st, panic: true})
					return
				}
				res(l, yes)
				break
			}
			fact := "is " + types.TypeString(x.AssertedType, nil) + " " + v.key()
			m := l.clone()
			m.st.facts[fact] = false
			if x.CommaOk {
				res(m, false)
				m.idx++
				m.resume = true
				push(m)
			} else {
				emit(TOut{st: m.st, panic: true})
			}
			l.st.facts[fact] = true
			res(l, true)
		case *ssa.Extract:
			t := ev.val(l, x.Tuple)
			if t.op == "tuple" && x.Index < len(t.args) {
				l.regs[x] = t.args[x.Index]
			} else {
				l.regs[x] = tOp(fmt.Sprintf("#%d", x.Index), t)
			}
		case *ssa.Range:
			l.regs[x] = tOp("range", ev.val(l, x.X))
		case *ssa.Next:
			l.st.n++
			l.regs[x] = tOp("next", ev.val(l, x.Iter), tInt(int64(l.st.n)))
		case *ssa.Select:
			l.st.n++
			r := tOp("select", tInt(int64(l.st.n)))
			for _, s := range x.States {
				if s.Dir == types.SendOnly {
					l.st.events = append(l.st.events, Event{what: "send", name: ev.val(l, s.Chan).key(), args: []*Term{ev.val(l, s.Send)}, at: in, fn: f})
				}
			}
			l.regs[x] = r
		case *ssa.Send:
			if ch := ev.val(l, x.Chan); ev.Sync && ch.op == "sym" {
				l.st.chans[ch.name] = append(l.st.chans[ch.name], ev.val(l, x.X))
			}
			l.st.events = append(l.st.events, Event{what: "send", name: ev.val(l, x.Chan).key(), args: []*Term{ev.val(l, x.X)}, at: in, fn: f})
		case *ssa.Go:
			if ev.Sync {
				outs := ev.callFn(x, x.Common(), ev.val(l, x.Common().Value), ev.args(l, x.Common()), l.st)
				var first *TState
				for _, o := range outs {
					if o.panic {
						continue
					}
					if first == nil {
						first = o.st
						continue
					}
					m := l.clone()
					m.st = o.st
					m.idx = l.idx + 1
					m.resume = true
					push(m)
				}
				if first == nil {
					return
				}
				l.st = first
				break
			}
			l.st.events = append(l.st.events, Event{what: "go", name: "go", args: ev.args(l, x.Common()), at: in, fn: f})
		case *ssa.Defer:
			l.defers = append(l.defers, tdefer{x, ev.val(l, x.Common().Value), ev.args(l, x.Common())})
		case *ssa.RunDefers:
			states := []*TState{l.st}
			for i := len(l.defers) - 1; i >= 0; i-- {
				var next []*TState
				for _, s := range states {
					for _, o := range ev.callFn(l.defers[i].c, l.defers[i].c.Common(), l.defers[i].fn, l.defers[i].args, s) {
						if !o.panic {
							next = append(next, o.st)
						}
					}
				}
				states = next
			}
			l.defers = nil
			if len(states) == 0 {
				return
			}
			for _, s := range states[1:] {
				m := l.clone()
				m.st = s
				m.idx = l.idx + 1
				m.resume = true
				push(m)
			}
			l.st = states[0]
		case *ssa.Call:
			outs := ev.call(l, x)
			first := true
			l0 := l
			var base *tframe
			if len(outs) > 1 {
				base = l.clone()
			}
			var cont *tframe
			for _, o := range outs {
				if o.panic {
					emit(o)
					continue
				}
				var m *tframe
				if first {
					m = l0
					first = false
					cont = m
				} else {
					m = base.clone()
				}
				m.st = o.st
				r := o.ret
				if r == nil {
					r = tSym("none")
				}
				m.regs[x] = r
				if m != cont {
					m.idx = l.idx + 1
					m.resume = true
					push(m)
				}
			}
			if cont == nil {
				return
			}
		case *ssa.If:
			c := ev.val(l, x.Cond)
			v, ok := ev.decide(l.st, c)
			if ev.OnIf != nil {
				ev.OnIf(f, x, ok, v)
			}
			if ok {
				i := 1
				if v {
					i = 0
				}
				if ev.enterBlock(f, l, l.b.Succs[i], loops) {
					l.resume = true
					push(l)
				}
				return
			}
			// an undecided branch leaves every loop around it open
			for h, lp := range loops {
				if lp.body[l.b] {
					in0, in1 := lp.body[l.b.Succs[0]], lp.body[l.b.Succs[1]]
					if in0 != in1 || h == l.b {
						l.open[h] = true
					}
				}
			}
			m := l.clone()
			ev.assume(l.st, c, true)
			ev.assume(m.st, c, false)
			t0, t1 := l.b.Succs[0], l.b.Succs[1]
			if ev.enterBlock(f, m, t1, loops) {
				m.resume = true
				push(m)
			}
			if ev.enterBlock(f, l, t0, loops) {
				l.resume = true
				push(l)
			}
			return
		case *ssa.Jump:
			if ev.enterBlock(f, l, l.b.Succs[0], loops) {
				l.resume = true
				push(l)
			}
			return
		case *ssa.Return:
			var r *Term
			switch len(x.Results) {
			case 0:
				r = tTuple()
			case 1:
				r = ev.val(l, x.Results[0])
			default:
				var a []*Term
				for _, v := range x.Results {
					a = append(a, ev.val(l, v))
				}
				r = tTuple(a...)
			}
			emit(TOut{st: l.st, ret: r})
			return
		case *ssa.Panic:
			emit(TOut{st: l.st, ret: ev.val(l, x.X), panic: true})
			return
		default:
			if v, ok := in.(ssa.Value); ok {
				l.regs[v] = tSym("value " + fnName(f) + ":" + v.Name())
			}
		}
	}
}

func refCell(b *Term) string {
	if b.op == "ref" {
		return b.name
	}
	return "(" + b.key() + ")"
}

func (ev *TEval) indexAddr(st *TState, b, i *Term) *Term {
	n, ok := i.isInt()
	if b.op == "slice" {
		if ok {
			return &Term{op: "ref", name: fmt.Sprintf("%s[%d]", b.name, int(n)+b.lo)}
		}
		return &Term{op: "ref", name: b.name + "[?]", args: []*Term{b, i}}
	}
	if b.op == "ref" { // pointer to array
		if ok {
			return &Term{op: "ref", name: fmt.Sprintf("%s[%d]", b.name, n)}
		}
		return &Term{op: "ref", name: b.name + "[?]"}
	}
	return &Term{op: "ref", name: "(" + b.key() + ")[" + i.key() + "]", args: []*Term{b, i}}
}

func (ev *TEval) unop(l *tframe, x *ssa.UnOp) *Term {
	v := ev.val(l, x.X)
	switch x.Op {
	case token.MUL:
		if v.op == "ref" {
			if len(v.args) == 2 && strings.HasSuffix(v.name, "[?]") {
				if es, ok := ev.elems(l.st, v.args[0]); ok && len(es) > 0 && len(es) <= 4 {
					return tOp("pick", append(append([]*Term{}, es...), v.args[1])...)
				}
			} else if len(v.args) == 2 {
				if w, ok := l.st.mem[v.name]; ok {
					return w
				}
				return tOp("index", v.args[0], v.args[1])
			}
			if strings.HasSuffix(v.name, "[?]") {
				l.st.n++
				return tOp("elem", tSym(v.name[:len(v.name)-3]), tInt(int64(l.st.n)))
			}
			return ev.load(l.st, v.name, x.Type())
		}
		return ev.load(l.st, "("+v.key()+")", x.Type())
	case token.NOT:
		if b, ok := v.isBool(); ok {
			return tBool(!b)
		}
		if v.op == "op" && v.name == "!" {
			return v.args[0]
		}
		return tOp("!", v)
	case token.SUB, token.XOR:
		if v.isConst() {
			return tConst(constant.UnaryOp(x.Op, v.c, 0), x.Type())
		}
		return tOp("neg"+x.Op.String(), v)
	case token.ARROW:
		if q := l.st.chans[v.key()]; ev.Sync && v.op == "sym" && len(q) > 0 {
			l.st.chans[v.key()] = q[1:]
			if x.CommaOk {
				return tTuple(q[0], tBool(true))
			}
			return q[0]
		}
		l.st.n++
		r := tOp("recv", v, tInt(int64(l.st.n)))
		if x.CommaOk {
			return tTuple(r, tOp("recv ok", tInt(int64(l.st.n))))
		}
		return r
	}
	return tOp(x.Op.String(), v)
}

func fitConst(c constant.Value, t types.Type) (constant.Value, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || c.Kind() != constant.Int {
		return c, c.Kind() != constant.Unknown
	}
	bits, signed := 64, true
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32:
		bits = 32
	case types.Uint8:
		bits, signed = 8, false
	case types.Uint16:
		bits, signed = 16, false
	case types.Uint32:
		bits, signed = 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		signed = false
	}
	if b.Info()&types.IsInteger == 0 {
		return c, true
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
	r := constant.BinaryOp(c, token.AND, constant.BinaryOp(mod, token.SUB, constant.MakeInt64(1)))
	if signed && constant.Compare(r, token.GEQ, constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))) {
		r = constant.BinaryOp(r, token.SUB, mod)
	}
	return r, true
}

func (ev *TEval) binop(st *TState, op token.Token, a, b *Term, t types.Type) *Term {
	a, b = st.resolve(a), st.resolve(b)
	if a.isConst() && b.isConst() {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return tBool(constant.Compare(a.c, op, b.c))
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(b.c); ok && n < 128 {
				c, _ := fitConst(constant.Shift(a.c, op, uint(n)), t)
				return tConst(c, t)
			}
		case token.QUO, token.REM:
			if b.c.Kind() == constant.Int && constant.Sign(b.c) == 0 {
				return tOp(op.String(), a, b)
			}
			o := op
			if op == token.QUO && isInteger(t) {
				o = token.QUO_ASSIGN
			}
			c, _ := fitConst(constant.BinaryOp(a.c, o, b.c), t)
			return tConst(c, t)
		default:
			if a.c.Kind() == constant.Bool || a.c.Kind() == constant.String && op != token.ADD {
				break
			}
			c := constant.BinaryOp(a.c, op, b.c)
			c, _ = fitConst(c, t)
			return tConst(c, t)
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		r := ev.equal(st, a, b)
		if op == token.NEQ {
			if v, ok := r.isBool(); ok {
				return tBool(!v)
			}
			return tOp("!", r)
		}
		return r
	case token.GTR:
		return tOp("<", b, a)
	case token.GEQ:
		return tOp("<=", b, a)
	case token.LSS:
		return tOp("<", a, b)
	case token.LEQ:
		return tOp("<=", a, b)
	case token.ADD, token.SUB:
		if isInteger(t) {
			// x + c1 + c2
			k, kc := b.isInt()
			if !kc && op == token.ADD {
				if ka, ok := a.isInt(); ok {
					a, b, k, kc = b, a, ka, true
				}
			}
			if kc {
				if op == token.SUB {
					k = -k
				}
				if a.op == "op" && a.name == "+" {
					if k2, ok := a.args[1].isInt(); ok {
						a, k = a.args[0], k+k2
					}
				}
				if k == 0 {
					return a
				}
				return tOp("+", a, tConst(constant.MakeInt64(k), t))
			}
		}
		if op == token.ADD && isString(t) {
			if s, ok := a.isStr(); ok && s == "" {
				return b
			}
			if s, ok := b.isStr(); ok && s == "" {
				return a
			}
			return tCat(a, b)
		}
	}
	return tOp(op.String(), a, b)
}

// tCat concatenates strings, merging neighbouring constants.
func tCat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		ps := []*Term{p}
		if p.op == "op" && p.name == "cat" {
			ps = p.args
		}
		for _, q := range ps {
			if s, ok := q.isStr(); ok {
				if s == "" {
					continue
				}
				if len(out) > 0 {
					if s0, ok := out[len(out)-1].isStr(); ok {
						out[len(out)-1] = tStr(s0 + s)
						continue
					}
				}
			}
			out = append(out, q)
		}
	}
	switch len(out) {
	case 0:
		return tStr("")
	case 1:
		return out[0]
	}
	return tOp("cat", out...)
}

func (ev *TEval) nonNil(st *TState, a *Term) bool {
	switch a.op {
	case "ref", "func", "iface", "slice", "map", "struct":
		return true
	case "sym":
		return strings.HasPrefix(a.name, "!") || strings.HasPrefix(a.name, "chan")
	case "op":
		switch a.name {
		case "call fmt.Errorf", "call errors.New", "make":
			return true
		}
	}
	return false
}

func (ev *TEval) equal(st *TState, a, b *Term) *Term {
	if a.key() == b.key() && a.op != "op" {
		return tBool(true)
	}
	if b.op == "nil" && ev.nonNil(st, a) || a.op == "nil" && ev.nonNil(st, b) {
		return tBool(false)
	}
	if a.op == "nil" && b.op == "nil" {
		return tBool(true)
	}
	if a.op == "struct" && b.op == "struct" && len(a.args) == len(b.args) {
		all := tBool(true)
		for i := range a.args {
			e := ev.equal(st, a.args[i], b.args[i])
			if v, ok := e.isBool(); ok {
				if !v {
					return tBool(false)
				}
				continue
			}
			if _, ok := all.isBool(); ok {
				all = e
			} else {
				all = tOp("and", all, e)
			}
		}
		return all
	}
	if a.isConst() && b.isConst() && a.c.Kind() == b.c.Kind() {
		return tBool(constant.Compare(a.c, token.EQL, b.c))
	}
	if a.isConst() || a.op == "nil" {
		a, b = b, a
	}
	if s, ok := b.isStr(); ok && s == "" && a.op == "op" && a.name == "cat" {
		for _, p := range a.args {
			if s, ok := p.isStr(); ok && s != "" || isNumPart(p) || isBytePart(p) {
				return tBool(false)
			}
		}
	}
	return tOp("==", a, b)
}

// convertText also turns bytes into text and back.
func (ev *TEval) convertText(st *TState, v *Term, from, to types.Type) *Term {
	if sl, ok := to.Underlying().(*types.Slice); ok && isString(from) && isByteT(sl.Elem()) {
		if es, ok := textBytes(v); ok && len(es) < 500 {
			return ev.newSlice(st, es, sl.Elem())
		}
	}
	if sl, ok := from.Underlying().(*types.Slice); ok && isString(to) && isByteT(sl.Elem()) {
		if es, ok := ev.elems(st, v); ok {
			return bytesText(es)
		}
		if v.op == "op" && strings.HasPrefix(v.name, "convert []") && len(v.args) == 1 {
			return v.args[0]
		}
	}
	return ev.convert(v, from, to)
}

func (ev *TEval) convert(v *Term, from, to types.Type) *Term {
	tb, ok1 := to.Underlying().(*types.Basic)
	fb, ok2 := from.Underlying().(*types.Basic)
	if v.isConst() && ok1 && ok2 {
		switch {
		case isInteger(to) && isInteger(from):
			c, _ := fitConst(v.c, to)
			return tConst(c, to)
		case tb.Info()&types.IsString != 0 && isInteger(from):
			n, _ := v.isInt()
			return tConst(constant.MakeString(string(rune(n))), to)
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0:
			return tConst(v.c, to)
		case tb.Info()&types.IsFloat != 0:
			return tConst(constant.ToFloat(v.c), to)
		}
	}
	if ok1 && ok2 && isInteger(to) && isInteger(from) {
		if sizeOf(tb) >= sizeOf(fb) && (tb.Info()&types.IsUnsigned == 0) == (fb.Info()&types.IsUnsigned == 0) ||
			sizeOf(tb) > sizeOf(fb) && fb.Info()&types.IsUnsigned != 0 {
			return v // keeps every value
		}
		return tOp("convert "+tb.Name(), v)
	}
	if ok1 && ok2 && tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0 {
		return v
	}
	return tOp("convert "+types.TypeString(to, nil), v)
}

func sizeOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func (ev *TEval) dynType(st *TState, v *Term, t types.Type) (yes, known bool) {
	if v.op == "iface" {
		if types.IsInterface(t) {
			return types.AssignableTo(v.t, t) || types.Implements(v.t, t.Underlying().(*types.Interface)), true
		}
		return types.Identical(v.t, t), true
	}
	if v.op == "nil" {
		return false, true
	}
	if b, ok := st.facts["is "+types.TypeString(t, nil)+" "+v.key()]; ok {
		return b, true
	}
	if !types.IsInterface(t) { // another concrete type was already established
		for k, b := range st.facts {
			if b && strings.HasPrefix(k, "is ") && strings.HasSuffix(k, " "+v.key()) {
				return false, true
			}
		}
	}
	return false, false
}

func (ev *TEval) lookup(st *TState, x *ssa.Lookup, m, k *Term) *Term {
	var v, ok *Term
	if s, isS := m.isStr(); isS {
		if n, isN := k.isInt(); isN && n >= 0 && int(n) < len(s) {
			return tConst(constant.MakeInt64(int64(s[n])), x.Type())
		}
	}
	if _, isStr := x.X.Type().Underlying().(*types.Basic); isStr {
		if r, ok := textAt(m, k); ok {
			return r
		}
		return tOp("index", m, k)
	}
	k = st.resolve(k)
	et := x.X.Type().Underlying().(*types.Map).Elem()
	if m.op == "map" && k.isConst() {
		if e, has := st.mem[m.name+"{"+k.key()+"}"]; has {
			v, ok = e, tBool(true)
			if ev.OnLookup != nil {
				ev.OnLookup(x, m, k, v, true)
			}
		} else if st.mem[m.name+"#open"] == nil {
			v, ok = zeroTerm(et), tBool(false)
			if ev.OnLookup != nil {
				ev.OnLookup(x, m, k, v, false)
			}
		}
	}
	if m.op == "nil" {
		v, ok = zeroTerm(et), tBool(false)
	}
	if v == nil {
		v, ok = tOp("lookup", m, k), tOp("has", m, k)
	}
	if x.CommaOk {
		return tTuple(v, ok)
	}
	return v
}

func (ev *TEval) slice(l *tframe, x *ssa.Slice) *Term {
	b := ev.val(l, x.X)
	bound := func(v ssa.Value) (*Term, int, bool) {
		if v == nil {
			return nil, 0, true
		}
		t := ev.val(l, v)
		n, ok := t.isInt()
		return t, int(n), ok
	}
	lo, ln, lok := bound(x.Low)
	hi, hn, hok := bound(x.High)
	if s, ok := b.isStr(); ok && lok && hok {
		e := len(s)
		if hi != nil {
			e = hn
		}
		if ln >= 0 && ln <= e && e <= len(s) {
			return tStr(s[ln:e])
		}
	}
	if isString(x.X.Type()) && lok {
		if r, ok := textSlice(b, ln, hi); ok {
			return r
		}
	}
	if b.op == "ref" {
		if at, ok := deref(x.X.Type()).Underlying().(*types.Array); ok && lok && hok {
			e := int(at.Len())
			if hi != nil {
				e = hn
			}
			return &Term{op: "slice", name: b.name, lo: ln, n: e - ln, t: at.Elem()}
		}
	}
	if b.op == "slice" && lok && hok {
		e := b.n
		if hi != nil {
			e = hn
		}
		if ln >= 0 && ln <= e {
			return &Term{op: "slice", name: b.name, lo: b.lo + ln, n: e - ln, t: b.t}
		}
	}
	if lo == nil && hi == nil && b.op != "ref" {
		return b
	}
	if lo == nil {
		lo = tInt(0)
	}
	if hi == nil {
		hi = tSym("end")
	}
	return tOp("slice", b, lo, hi)
}

// elems: the elements of a slice whose contents are known.
func (ev *TEval) elems(st *TState, s *Term) ([]*Term, bool) {
	if s.op == "nil" {
		return nil, true
	}
	if s.op != "slice" || s.t == nil {
		return nil, false
	}
	if w := st.mem[s.name]; w != nil && w.op == "sym" {
		return nil, false
	}
	var out []*Term
	for i := 0; i < s.n; i++ {
		out = append(out, ev.load(st, fmt.Sprintf("%s[%d]", s.name, s.lo+i), s.t))
	}
	return out, true
}

func (ev *TEval) newSlice(st *TState, es []*Term, t types.Type) *Term {
	st.n++
	id := fmt.Sprintf("A%d", st.n)
	st.mem[id] = tOp("zero array")
	for i, e := range es {
		st.mem[fmt.Sprintf("%s[%d]", id, i)] = e
	}
	return &Term{op: "slice", name: id, n: len(es), t: t}
}

func (ev *TEval) args(l *tframe, c *ssa.CallCommon) []*Term {
	var a []*Term
	if c.IsInvoke() {
		a = append(a, ev.val(l, c.Value))
	}
	for _, v := range c.Args {
		a = append(a, ev.val(l, v))
	}
	return a
}

func (ev *TEval) call(l *tframe, x *ssa.Call) []TOut {
	return ev.callFn(x, x.Common(), ev.val(l, x.Common().Value), ev.args(l, x.Common()), l.st)
}

func (ev *TEval) callFn(at ssa.Instruction, c *ssa.CallCommon, fv *Term, args []*Term, st *TState) []TOut {
	var target *ssa.Function
	var binds []*Term
	name := ""
	if c.IsInvoke() {
		name = "(" + relPath(types.TypeString(c.Value.Type(), nil)) + ")." + c.Method.Name()
		if o, ok := c.Method.Type().(*types.Signature); ok && o.Recv() != nil {
			name = relPath(c.Method.FullName())
		}
		if args[0].op == "iface" {
			if m := ev.method(args[0].t, c.Method); m != nil {
				target = m
				args = append([]*Term{args[0].args[0]}, args[1:]...)
			}
		}
	} else if bi, ok := c.Value.(*ssa.Builtin); ok {
		return []TOut{ev.builtin(at, bi.Name(), args, st, c)}
	} else if f := c.StaticCallee(); f != nil {
		target = f
		if fv.op == "func" {
			binds = fv.args
		}
	} else if fv.op == "func" {
		target, binds = fv.fn, fv.args
	}
	if target != nil {
		target = unwrapBound(target, &args, binds)
		target = origin(target)
		name = fnName(target)
		if o, ok := target.Object().(*types.Func); ok && !isRepoPath(pkgOf(target)) {
			name = o.FullName()
		}
	} else if name == "" {
		name = "value " + fv.key()
	}
	if ev.Model != nil {
		if outs, ok := ev.Model(ev, st, at, c, name, args); ok {
			return outs
		}
	}
	if outs, ok := ev.std(st, at, c, name, args); ok {
		return outs
	}
	if target != nil && len(target.Blocks) > 0 && ev.w.funcSet[target] && (ev.Enter == nil || ev.Enter(target)) && (ev.EnterArgs == nil || ev.EnterArgs(target, args)) && ev.depthOf(target) < 3 && len(ev.stack) < 40 {
		return ev.Run(target, args, binds, st)
	}
	return []TOut{ev.unknownCall(st, at, c, name, args, target)}
}

// unwrapBound resolves bound-method and thunk wrappers.
func unwrapBound(f *ssa.Function, args *[]*Term, binds []*Term) *ssa.Function {
	if strings.HasSuffix(f.Name(), "$bound") && len(binds) == 1 {
		if g := unwrap(f); g != nil && g != f {
			*args = append([]*Term{binds[0]}, *args...)
			return g
		}
	}
	return f
}

func (ev *TEval) depthOf(f *ssa.Function) int {
	n := 0
	for _, g := range ev.stack {
		if g == f {
			n++
		}
	}
	return n
}

func (ev *TEval) method(t types.Type, m *types.Func) *ssa.Function {
	if _, ok := t.(*types.TypeParam); ok {
		return nil
	}
	ms := ev.w.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := ev.w.Prog.MethodValue(sel)
	if f == nil {
		return nil
	}
	g := unwrap(f)
	if g != nil && g.Signature.Recv() != nil && f != g {
		// a wrapper that only dereferences or promotes: only identical receivers are safe
		if !types.Identical(g.Signature.Recv().Type(), t) && origin(g) == g {
			return f
		}
	}
	return g
}

func tPureExt(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "math.", "errors.", "fmt.Sprint", "fmt.Errorf", "bytes.", "sort.Search", "path.", "path/filepath.", "math/bits.", "time.Duration", "(time.", "(error).Error", "regexp.", "(*regexp.", "html.", "encoding/base64", "(*encoding/base64", "encoding/hex", "reflect.TypeOf", "github.com/unilibs/uniwidth", "github.com/rivo/uniseg"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (ev *TEval) unknownCall(st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term, target *ssa.Function) TOut {
	n := st.clone()
	pure := tPureExt(name)
	if target != nil && (ev.PureRepo || isRepoPath(pkgOf(target))) && ev.w.funcSet[target] {
		pure = pureFunc(ev.w, target)
	}
	var ret *Term
	if pure {
		ret = tOp("call "+name, args...)
	} else {
		n.n++
		n.epoch++
		n.events = append(n.events, Event{what: "call", name: name, args: args, at: at, fn: at.Parent()})
		ret = tOp("call "+name, append(append([]*Term{}, args...), tSym(fmt.Sprintf("#%d", n.n)))...)
		for _, a := range args {
			ev.escape(n, a, 0)
		}
		for k := range n.mem {
			if !isLocalCell(k) {
				delete(n.mem, k)
			}
		}
	}
	nr := c.Signature().Results().Len()
	if nr > 1 {
		var t []*Term
		for i := 0; i < nr; i++ {
			t = append(t, tOp(fmt.Sprintf("#%d", i), ret))
		}
		ret = tTuple(t...)
	}
	return TOut{st: n, ret: ret}
}

func (ev *TEval) escape(st *TState, a *Term, d int) {
	if a == nil || d > 4 {
		return
	}
	switch a.op {
	case "ref", "slice", "map":
		ev.forget(st, a.name)
	case "iface", "func", "struct", "tuple":
		for _, x := range a.args {
			ev.escape(st, x, d+1)
		}
	}
}

// pureFunc: the function writes no memory of its caller and does nothing else observable.
func pureFunc(w *World, f *ssa.Function) bool {
	for _, e := range w.Effects().Of(f) {
		_ = e
		return false
	}
	s := w.Prov().Sum(f)
	return s != nil && len(s.Mut) == 0
}

func (ev *TEval) builtin(at ssa.Instruction, name string, args []*Term, st *TState, c *ssa.CallCommon) TOut {
	switch name {
	case "len":
		a := args[0]
		if isString(c.Args[0].Type()) {
			if n, ok := textLen(a); ok {
				return TOut{st: st, ret: tInt(int64(n))}
			}
		}
		if s, ok := a.isStr(); ok {
			return TOut{st: st, ret: tInt(int64(len(s)))}
		}
		if a.op == "slice" {
			return TOut{st: st, ret: tInt(int64(a.n))}
		}
		if a.op == "nil" {
			return TOut{st: st, ret: tInt(0)}
		}
		if a.op == "op" && a.name == "make" {
			return TOut{st: st, ret: a.args[0]}
		}
		if a.op == "op" && strings.HasPrefix(a.name, "convert []byte") {
			return TOut{st: st, ret: tOp("len", a.args[0])}
		}
		return TOut{st: st, ret: tOp("len", a)}
	case "append":
		if len(args) < 2 {
			return TOut{st: st, ret: args[0]}
		}
		a, aok := ev.elems(st, args[0])
		b, bok := ev.elems(st, args[1])
		n := st.clone()
		if s, ok := args[1].isStr(); ok {
			b, bok = nil, true
			for i := 0; i < len(s); i++ {
				b = append(b, tConst(constant.MakeInt64(int64(s[i])), types.Typ[types.Byte]))
			}
		}
		if aok && bok && len(a)+len(b) < 500 {
			var et types.Type = types.Typ[types.Int]
			if t, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				et = t.Elem()
			}
			return TOut{st: n, ret: ev.newSlice(n, append(append([]*Term{}, a...), b...), et)}
		}
		if bok {
			return TOut{st: n, ret: tOp("append", append([]*Term{args[0]}, b...)...)}
		}
		return TOut{st: n, ret: tOp("append...", args[0], args[1])}
	case "copy":
		n := st.clone()
		if src, ok := ev.elems(st, args[1]); ok && args[0].op == "slice" {
			if w := st.mem[args[0].name]; w == nil || w.op != "sym" {
				k := 0
				for ; k < len(src) && k < args[0].n; k++ {
					ev.store(n, fmt.Sprintf("%s[%d]", args[0].name, args[0].lo+k), src[k])
				}
				return TOut{st: n, ret: tInt(int64(k))}
			}
		}
		ev.escape(n, args[0], 0)
		n.n++
		return TOut{st: n, ret: tOp("copy", args[0], args[1], tInt(int64(n.n)))}
	case "min", "max":
		if r := foldMinMax(name, args); r != nil {
			return TOut{st: st, ret: r}
		}
		return TOut{st: st, ret: tOp(name, args...)}
	case "delete":
		n := st.clone()
		if args[0].op == "map" {
			if args[1].isConst() && n.mem[args[0].name+"#open"] == nil {
				delete(n.mem, args[0].name+"{"+args[1].key()+"}")
			} else {
				n.mem[args[0].name+"#open"] = tBool(true)
			}
		} else {
			n.epoch++
			n.events = append(n.events, Event{what: "call", name: "delete", args: args, at: at, fn: at.Parent()})
		}
		return TOut{st: n, ret: tTuple()}
	case "close", "print", "println", "clear":
		n := st.clone()
		n.events = append(n.events, Event{what: "call", name: name, args: args, at: at, fn: at.Parent()})
		if name == "clear" {
			ev.escape(n, args[0], 0)
			n.epoch++
		}
		return TOut{st: n, ret: tTuple()}
	case "recover":
		return TOut{st: st, ret: tNil}
	}
	return TOut{st: st, ret: tOp(name, args...)}
}

func foldMinMax(name string, args []*Term) *Term {
	var best *Term
	for _, a := range args {
		if !a.isConst() {
			return nil
		}
		if best == nil || constant.Compare(a.c, map[string]token.Token{"min": token.LSS, "max": token.GTR}[name], best.c) {
			best = a
		}
	}
	return best
}

// std models the standard library operations whose results matter: text building and formatting.
func (ev *TEval) std(st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool) {
	one := func(s *TState, r *Term) ([]TOut, bool) { return []TOut{{st: s, ret: r}}, true }
	strs := func() ([]string, bool) {
		var out []string
		for _, a := range args {
			s, ok := a.isStr()
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		return out, true
	}
	if r, ok := ev.textModel(st, name, args); ok {
		return r, true
	}
	switch name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Errorf":
		vi := 1
		if name == "fmt.Sprint" {
			vi = 0
		}
		es, ok := ev.elems(st, args[vi])
		if !ok {
			return nil, false
		}
		for i := range es {
			if es[i].op == "iface" {
				es[i] = es[i].args[0]
			}
		}
		if name == "fmt.Sprintf" {
			if f, ok := args[0].isStr(); ok {
				if r := formatTerms(f, es); r != nil {
					return one(st, r)
				}
			}
		}
		return one(st, tOp("call "+name, append(append([]*Term{}, args[:vi]...), es...)...))
	case "strings.Join":
		if es, ok := ev.elems(st, args[0]); ok {
			var parts []*Term
			for i, e := range es {
				if i > 0 {
					parts = append(parts, args[1])
				}
				parts = append(parts, e)
			}
			return one(st, tCat(parts...))
		}
	case "strings.Repeat":
		s, ok1 := args[0].isStr()
		n, ok2 := args[1].isInt()
		if ok1 && ok2 && n >= 0 && n*int64(len(s)) < 10000 {
			return one(st, tStr(strings.Repeat(s, int(n))))
		}
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "strings.EqualFold":
		if s, ok := strs(); ok {
			switch name {
			case "strings.TrimPrefix":
				return one(st, tStr(strings.TrimPrefix(s[0], s[1])))
			case "strings.TrimSuffix":
				return one(st, tStr(strings.TrimSuffix(s[0], s[1])))
			case "strings.ToLower":
				return one(st, tStr(strings.ToLower(s[0])))
			case "strings.ToUpper":
				return one(st, tStr(strings.ToUpper(s[0])))
			case "strings.TrimSpace":
				return one(st, tStr(strings.TrimSpace(s[0])))
			case "strings.Contains":
				return one(st, tBool(strings.Contains(s[0], s[1])))
			case "strings.HasPrefix":
				return one(st, tBool(strings.HasPrefix(s[0], s[1])))
			case "strings.HasSuffix":
				return one(st, tBool(strings.HasSuffix(s[0], s[1])))
			case "strings.EqualFold":
				return one(st, tBool(strings.EqualFold(s[0], s[1])))
			}
		}
	case "strconv.Itoa":
		if n, ok := args[0].isInt(); ok {
			return one(st, tStr(fmt.Sprint(n)))
		}
		return one(st, tOp("decimal", args[0]))
	}
	if t, m, ok := strings.Cut(name, ")."); ok && (t == "(*strings.Builder" || t == "(*bytes.Buffer") && args[0].op == "ref" {
		cell := args[0].name + "#buf"
		cur := st.mem[cell]
		if cur == nil {
			cur = tStr("")
			if !isLocalCell(cell) {
				cur = tSym("text of " + cell)
			}
		}
		n := st.clone()
		switch m {
		case "WriteString":
			n.mem[cell] = tCat(cur, args[1])
			return one(n, tTuple(tOp("len", args[1]), tNil))
		case "WriteByte", "WriteRune":
			v := tOp("char", args[1])
			if k, ok := args[1].isInt(); ok {
				v = tStr(string(rune(k)))
			}
			n.mem[cell] = tCat(cur, v)
			if m == "WriteByte" {
				return one(n, tNil)
			}
			return one(n, tTuple(tOp("size", args[1]), tNil))
		case "Write":
			n.mem[cell] = tCat(cur, tOp("bytes", args[1]))
			return one(n, tTuple(tOp("len", args[1]), tNil))
		case "String":
			return one(st, cur)
		case "Len":
			if s, ok := cur.isStr(); ok {
				return one(st, tInt(int64(len(s))))
			}
			return one(st, tOp("len", cur))
		case "Reset":
			n.mem[cell] = tStr("")
			return one(n, tTuple())
		case "Grow":
			return one(st, tTuple())
		}
	}
	if strings.HasPrefix(name, "fmt.Fprint") && len(args) > 1 {
		w := args[0]
		if w.op == "iface" {
			w = w.args[0]
		}
		if w.op == "ref" && isLocalCell(w.name) {
			vi := len(args) - 1
			if es, ok := ev.elems(st, args[vi]); ok {
				for i := range es {
					if es[i].op == "iface" {
						es[i] = es[i].args[0]
					}
				}
				var r *Term
				if name == "fmt.Fprintf" {
					if f, ok := args[1].isStr(); ok {
						r = formatTerms(f, es)
					}
				} else {
					r = tCat(es...)
					if name == "fmt.Fprintln" {
						r = tCat(r, tStr("\n"))
					}
				}
				if r == nil {
					r = tOp("call "+name, append(args[1:vi:vi], es...)...)
				}
				n := st.clone()
				cur := st.mem[w.name+"#buf"]
				if cur == nil {
					cur = tStr("")
				}
				n.mem[w.name+"#buf"] = tCat(cur, r)
				return one(n, tTuple(tOp("len", r), tNil))
			}
		}
	}
	return nil, false
}

// formatTerms expands a format made of literal text and simple verbs.
func formatTerms(f string, es []*Term) *Term {
	var parts []*Term
	lit := ""
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		if i+1 >= len(f) {
			return nil
		}
		i++
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if n >= len(es) {
			return nil
		}
		e := es[n]
		n++
		switch f[i] {
		case 'd', 'v', 's', 'c':
			if s, ok := e.isStr(); ok && f[i] != 'd' {
				lit += s
				continue
			}
			if k, ok := e.isInt(); ok {
				if f[i] == 'c' {
					lit += string(rune(k))
				} else if f[i] == 'd' {
					lit += fmt.Sprint(k)
				} else {
					return nil
				}
				continue
			}
			parts = append(parts, tStr(lit))
			lit = ""
			switch f[i] {
			case 'd':
				parts = append(parts, tOp("decimal", e))
			case 'c':
				parts = append(parts, tOp("char", e))
			case 's':
				parts = append(parts, e)
			default:
				return nil
			}
		default:
			return nil
		}
	}
	if n != len(es) {
		return nil
	}
	parts = append(parts, tStr(lit))
	return tCat(parts...)
}

// consts lists the constants of an enumeration type, in order of value.
type enumConst struct {
	name string
	c    *types.Const
	val  int64
}

func enumConsts(n *types.Named) []enumConst {
	var out []enumConst
	if n.Obj().Pkg() == nil {
		return nil
	}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		c, ok := sc.Lookup(name).(*types.Const)
		if !ok || !types.Identical(c.Type(), n) {
			continue
		}
		v, ok := constant.Int64Val(constant.ToInt(c.Val()))
		if !ok {
			continue
		}
		out = append(out, enumConst{name, c, v})
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].val < out[j].val || out[i].val == out[j].val && out[i].name < out[j].name
	})
	return out
}
