package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Influence: which inputs and which fields (by owner type) can influence results, fields and the
// outside world. Function summaries are computed bottom up to a fixpoint; fields are one node per
// type; conditions influence what they decide.

// flowSet is a set of sources: 0..63 parameters, 64..127 free variables, then fields and globals.
type flowSet []uint64

const flowFields = 128

func (s flowSet) has(i int) bool { return i>>6 < len(s) && s[i>>6]&(1<<(i&63)) != 0 }

func (s *flowSet) add(i int) bool {
	for len(*s) <= i>>6 {
		*s = append(*s, 0)
	}
	if s.has(i) {
		return false
	}
	(*s)[i>>6] |= 1 << (i & 63)
	return true
}

func (s *flowSet) union(o flowSet) bool {
	for len(*s) < len(o) {
		*s = append(*s, 0)
	}
	ch := false
	for i, w := range o {
		if w&^(*s)[i] != 0 {
			(*s)[i] |= w
			ch = true
		}
	}
	return ch
}

func (s flowSet) without(i int) flowSet {
	if !s.has(i) {
		return s
	}
	c := append(flowSet{}, s...)
	c[i>>6] &^= 1 << (i & 63)
	return c
}

func (s flowSet) each(f func(i int)) {
	for i, w := range s {
		for b := 0; w != 0; b++ {
			if w&1 != 0 {
				f(i<<6 + b)
			}
			w >>= 1
		}
	}
}

func (s flowSet) empty() bool {
	for _, w := range s {
		if w != 0 {
			return false
		}
	}
	return true
}

// flowSum is what one function does with what it is given.
type flowSum struct {
	res    []flowSet       // sources of each result
	obj    []bool          // the result is an object: only its own sources count
	fields map[int]flowSet // field -> sources stored there
	given  map[int]flowSet // the same without copies of the same field
	set    map[int]bool    // fields given a value that is not a copy of the same field
	into   map[int]flowSet // parameter or free variable -> sources put into what it points to
	sink   flowSet         // sources that reach the outside world
	acts   bool            // reaches the outside world, or panics, at all
	io     bool            // reaches the outside world at all
}

type Flow struct {
	w     *World
	ids   map[string]int
	names []string
	sums  map[*ssa.Function]*flowSum
	ctl   map[*ssa.Function]map[*ssa.BasicBlock][]ssa.Value
}

func (w *World) Flow() *Flow {
	if w.flow == nil {
		fl := &Flow{w: w, ids: map[string]int{}, sums: map[*ssa.Function]*flowSum{}, ctl: map[*ssa.Function]map[*ssa.BasicBlock][]ssa.Value{}}
		for _, f := range w.Funcs {
			fl.sums[f] = newFlowSum(f)
		}
		callers := map[*ssa.Function]map[*ssa.Function]bool{}
		dep := func(g, f *ssa.Function) {
			if callers[g] == nil {
				callers[g] = map[*ssa.Function]bool{}
			}
			callers[g][f] = true
		}
		for _, f := range w.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						gs, _, _ := w.Callees(c)
						for _, g := range gs {
							dep(g, f)
						}
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							dep(origin(g), f)
						}
					}
				}
			}
		}
		work := append([]*ssa.Function{}, w.Funcs...)
		queued := map[*ssa.Function]bool{}
		for _, f := range work {
			queued[f] = true
		}
		for len(work) > 0 {
			f := work[0]
			work = work[1:]
			queued[f] = false
			if fl.analyse(f) {
				for g := range callers[f] {
					if !queued[g] {
						queued[g] = true
						work = append(work, g)
					}
				}
			}
		}
		w.flow = fl
	}
	return w.flow
}

// isObjType: a repository struct or a pointer to one; its contents are its fields.
func isObjType(t types.Type) bool {
	n := namedOf(deref(t))
	if n == nil || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
		return false
	}
	_, ok := n.Underlying().(*types.Struct)
	return ok
}

func (fl *Flow) id(name string) int {
	if i, ok := fl.ids[name]; ok {
		return i
	}
	i := flowFields + len(fl.names)
	fl.ids[name] = i
	fl.names = append(fl.names, name)
	return i
}

func (fl *Flow) Name(i int) string {
	if i >= flowFields {
		return fl.names[i-flowFields]
	}
	return ""
}

// fieldID: the node of a repository struct's field, or -1.
func (fl *Flow) fieldID(x types.Type, i int) int {
	t := deref(x)
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	n := namedOf(t)
	if n == nil {
		return fl.id(types.TypeString(t, nil) + "." + s.Field(i).Name())
	}
	if n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
		return -1
	}
	return fl.id(typeName(n.Origin()) + "." + s.Field(i).Name())
}

// conditions gives, for each block, the conditions that decide whether it runs: control dependence by
// post-domination, closed over the conditions' own blocks. Ways that end in a panic do not count.
func (fl *Flow) conditions(f *ssa.Function, cut func(*ssa.BasicBlock) []*ssa.BasicBlock) map[*ssa.BasicBlock][]ssa.Value {
	if m, ok := fl.ctl[f]; ok && cut == nil {
		return m
	}
	succs := cut
	if cut == nil {
		succs = func(b *ssa.BasicBlock) []*ssa.BasicBlock { return b.Succs }
	}
	m := map[*ssa.BasicBlock][]ssa.Value{}
	n := len(f.Blocks)
	panics := func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
		return ok
	}
	// pdom[i]: the blocks on every way from block i to a return
	words := (n + 63) / 64
	full := make(flowSet, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pdom := make([]flowSet, n)
	for i := range pdom {
		pdom[i] = append(flowSet{}, full...)
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			if panics(b) {
				continue
			}
			nw := make(flowSet, words)
			if len(succs(b)) > 0 {
				nw = append(flowSet{}, full...)
				for _, s := range succs(b) {
					for k := range nw {
						nw[k] &= pdom[s.Index][k]
					}
				}
			}
			nw.add(i)
			for k := range nw {
				if nw[k] != pdom[i][k] {
					pdom[i] = nw
					ch = true
					break
				}
			}
		}
	}
	dep := make([]flowSet, n) // block -> blocks whose condition decides it
	for _, c := range f.Blocks {
		if len(succs(c)) < 2 {
			continue
		}
		for _, s := range succs(c) {
			if panics(s) {
				continue
			}
			for i := 0; i < n; i++ {
				if pdom[s.Index].has(i) && (i == c.Index || !pdom[c.Index].has(i)) {
					dep[i].add(c.Index)
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := range dep {
			for j := 0; j < n; j++ {
				if dep[i].has(j) && dep[i].union(dep[j]) {
					ch = true
				}
			}
		}
	}
	for i := range dep {
		dep[i].each(func(j int) {
			if iff, ok := f.Blocks[j].Instrs[len(f.Blocks[j].Instrs)-1].(*ssa.If); ok {
				m[f.Blocks[i]] = append(m[f.Blocks[i]], iff.Cond)
			}
		})
	}
	if cut == nil {
		fl.ctl[f] = m
	}
	return m
}

type flowFn struct {
	fl   *Flow
	f    *ssa.Function
	s    *flowSum
	val  map[ssa.Value]*flowSet
	tup  map[ssa.Value][]flowSet
	ctl  map[*ssa.BasicBlock][]ssa.Value
	live map[*ssa.BasicBlock]bool // when some conditions are known
	cut  func(*ssa.BasicBlock) []*ssa.BasicBlock
	sum  func(*ssa.Function) *flowSum // what callees do, where it is not what they always do
	ch   bool                         // something local changed
	out  bool                         // the summary changed
}

func newFlowSum(f *ssa.Function) *flowSum {
	n := f.Signature.Results().Len()
	s := &flowSum{fields: map[int]flowSet{}, given: map[int]flowSet{}, set: map[int]bool{}, into: map[int]flowSet{}, res: make([]flowSet, n), obj: make([]bool, n)}
	for i := range s.obj {
		s.obj[i] = isObjType(f.Signature.Results().At(i).Type())
	}
	return s
}

func (fl *Flow) analyse(f *ssa.Function) bool {
	a := &flowFn{fl: fl, f: f, s: fl.sums[f], ctl: fl.conditions(f, nil)}
	a.run()
	return a.out
}

// Under is what a function does when some of its conditions are known.
func (fl *Flow) Under(f *ssa.Function, known func(cond ssa.Value) (val, ok bool), callee func(*ssa.Function) *flowSum) *flowSum {
	cut := func(b *ssa.BasicBlock) []*ssa.BasicBlock {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, ok := known(iff.Cond); ok {
				if v {
					return b.Succs[:1]
				}
				return b.Succs[1:2]
			}
		}
		return b.Succs
	}
	live := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if live[b] {
			return
		}
		live[b] = true
		for _, s := range cut(b) {
			walk(s)
		}
	}
	walk(f.Blocks[0])
	if f.Recover != nil {
		walk(f.Recover)
	}
	a := &flowFn{fl: fl, f: f, s: newFlowSum(f), ctl: fl.conditions(f, cut), live: live, cut: cut, sum: callee}
	a.run()
	return a.s
}

// Conds gives the fields each condition of a function is decided by.
func (fl *Flow) Conds(f *ssa.Function) map[ssa.Value]flowSet {
	a := &flowFn{fl: fl, f: f, s: newFlowSum(f), ctl: fl.conditions(f, nil)}
	a.run()
	m := map[ssa.Value]flowSet{}
	for _, b := range f.Blocks {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			m[iff.Cond] = a.src(iff.Cond)
		}
	}
	return m
}

func (a *flowFn) run() {
	f := a.f
	a.val, a.tup = map[ssa.Value]*flowSet{}, map[ssa.Value][]flowSet{}
	for i, p := range f.Params {
		a.put(p, flowSet{1 << min(i, 63)})
	}
	for i, p := range f.FreeVars {
		var s flowSet
		s.add(64 + min(i, 63))
		a.put(p, s)
	}
	for a.ch = true; a.ch; {
		a.ch = false
		for _, b := range f.Blocks {
			if a.live != nil && !a.live[b] {
				continue
			}
			ctl := a.ctlOf(b)
			for _, in := range b.Instrs {
				a.instr(in, ctl)
			}
		}
	}
}

func (a *flowFn) put(v ssa.Value, s flowSet) {
	p := a.val[v]
	if p == nil {
		p = &flowSet{}
		a.val[v] = p
	}
	if p.union(s) {
		a.ch = true
	}
}

func (a *flowFn) src(v ssa.Value) flowSet {
	switch x := v.(type) {
	case *ssa.Global:
		var s flowSet
		if x.Pkg != nil && isRepoPath(x.Pkg.Pkg.Path()) {
			s.add(a.fl.id("var " + relPath(x.Pkg.Pkg.Path()) + "." + x.Name()))
		}
		return s
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	}
	if p := a.val[v]; p != nil {
		return *p
	}
	return nil
}

func (a *flowFn) ctlOf(b *ssa.BasicBlock) flowSet {
	var s flowSet
	for _, c := range a.ctl[b] {
		s.union(a.src(c))
	}
	return s
}

func (a *flowFn) sink(s flowSet, io bool) {
	if io && !a.s.io {
		a.s.io, a.out, a.ch = true, true, true
	}
	if !a.s.acts {
		a.s.acts, a.out, a.ch = true, true, true
	}
	if a.s.sink.union(s) {
		a.out, a.ch = true, true
	}
}

func (a *flowFn) field(id int, s flowSet, set bool) {
	s = s.without(id)
	o := a.s.fields[id]
	if o.union(s) || a.s.fields[id] == nil {
		a.out, a.ch = true, true
	}
	if o == nil {
		o = flowSet{}
	}
	a.s.fields[id] = o
	if set {
		if !a.s.set[id] {
			a.s.set[id] = true
			a.out, a.ch = true, true
		}
		g := a.s.given[id]
		if g.union(s) {
			a.s.given[id] = g
			a.out, a.ch = true, true
		}
	}
}

func (a *flowFn) intoP(i int, s flowSet) {
	o := a.s.into[i]
	if o.union(s.without(i)) {
		a.s.into[i] = o
		a.out, a.ch = true, true
	}
}

// addTo puts sources into what a value holds or points to.
func (a *flowFn) addTo(v ssa.Value, s flowSet, seen map[ssa.Value]bool) {
	if seen[v] || s.empty() {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a.addTo(x.X, s, seen)
		}
	case *ssa.FieldAddr:
		if id := a.fl.fieldID(x.X.Type(), x.Field); id >= 0 {
			a.field(id, s, true)
		} else {
			a.addTo(x.X, s, seen)
		}
	case *ssa.Field:
		if id := a.fl.fieldID(x.X.Type(), x.Field); id >= 0 {
			a.field(id, s, true)
		}
	case *ssa.Global:
		a.src(v).each(func(i int) { a.field(i, s, true) })
	case *ssa.Parameter:
		for i, p := range a.f.Params {
			if p == x {
				a.intoP(min(i, 63), s)
			}
		}
		a.put(v, s)
	case *ssa.FreeVar:
		for i, p := range a.f.FreeVars {
			if p == x {
				a.intoP(64+min(i, 63), s)
			}
		}
		a.put(v, s)
	case *ssa.Phi:
		a.put(v, s)
		for _, e := range x.Edges {
			a.addTo(e, s, seen)
		}
	case *ssa.IndexAddr:
		a.addTo(x.X, s, seen)
	case *ssa.Slice:
		a.put(v, s)
		a.addTo(x.X, s, seen)
	case *ssa.ChangeType:
		a.put(v, s)
		a.addTo(x.X, s, seen)
	case *ssa.MakeInterface:
		a.put(v, s)
		a.addTo(x.X, s, seen)
	case *ssa.TypeAssert:
		a.put(v, s)
		a.addTo(x.X, s, seen)
	case *ssa.Extract:
		a.put(v, s)
		a.addTo(x.Tuple, s, seen)
	case *ssa.Lookup:
		a.put(v, s)
		a.addTo(x.X, s, seen)
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Call, *ssa.MakeClosure:
		a.put(v, s)
	}
}

func holds(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan:
		return true
	}
	return false
}

// pureCopy: the value is what the same field of some object holds.
func (a *flowFn) pureCopy(v ssa.Value, id int, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return a.fl.fieldID(fa.X.Type(), fa.Field) == id
		}
	case *ssa.Field:
		return a.fl.fieldID(x.X.Type(), x.Field) == id
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !a.pureCopy(e, id, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (a *flowFn) instr(in ssa.Instruction, ctl flowSet) {
	for _, op := range in.Operands(nil) {
		if g, ok := (*op).(*ssa.Function); ok && g.Parent() != nil && a.fl.sums[origin(g)] != nil {
			a.apply(a.fl.sums[origin(g)], nil, nil, ctl, false) // a literal that captures nothing
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		a.store(x, ctl)
	case *ssa.MapUpdate:
		s := append(flowSet{}, a.src(x.Key)...)
		s.union(a.src(x.Value))
		s.union(ctl)
		a.addTo(x.Map, s, map[ssa.Value]bool{})
	case *ssa.Return:
		for i, v := range x.Results {
			if i >= len(a.s.res) {
				break
			}
			s := append(flowSet{}, a.src(v)...)
			if !a.s.obj[i] {
				s.union(ctl)
			}
			if a.s.res[i].union(s) {
				a.out, a.ch = true, true
			}
		}
	case *ssa.Send:
		s := append(flowSet{}, a.src(x.X)...)
		s.union(a.src(x.Chan))
		s.union(ctl)
		a.addTo(x.Chan, s, map[ssa.Value]bool{})
		a.sink(s, true)
	case *ssa.Panic:
		s := append(flowSet{}, a.src(x.X)...)
		s.union(ctl)
		a.sink(s, false)
	case ssa.CallInstruction:
		a.call(x, ctl)
	case ssa.Value:
		a.value(x, ctl)
	}
}

func (a *flowFn) store(x *ssa.Store, ctl flowSet) {
	s := append(flowSet{}, a.src(x.Val)...)
	switch ad := x.Addr.(type) {
	case *ssa.FieldAddr:
		if id := a.fl.fieldID(ad.X.Type(), ad.Field); id >= 0 {
			if a.pureCopy(x.Val, id, 0) {
				// a copy: it matters whose
				if len(s) > 2 {
					s = s[:2]
				}
				a.field(id, s, false)
				return
			}
			s.union(ctl)
			a.field(id, s, true)
			return
		}
		s.union(ctl)
		a.addTo(ad.X, s, map[ssa.Value]bool{})
	case *ssa.Alloc:
		if !isObjType(x.Val.Type()) {
			s.union(ctl)
		}
		a.put(ad, s)
	default:
		s.union(ctl)
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			s.union(a.src(ia.Index))
		}
		a.addTo(x.Addr, s, map[ssa.Value]bool{})
	}
}

func (a *flowFn) value(v ssa.Value, ctl flowSet) {
	var s flowSet
	switch x := v.(type) {
	case *ssa.FieldAddr:
		s.union(a.src(x.X))
		if id := a.fl.fieldID(x.X.Type(), x.Field); id >= 0 {
			s.add(id)
		}
	case *ssa.Field:
		s.union(a.src(x.X))
		if id := a.fl.fieldID(x.X.Type(), x.Field); id >= 0 {
			s.add(id)
		}
	case *ssa.Alloc, *ssa.MakeMap:
		return
	case *ssa.Phi:
		var only ssa.Value
		same := true // whichever way it came, it is the same value
		for i, e := range x.Edges {
			if a.live == nil || a.takes(x.Block().Preds[i], x.Block()) {
				same = same && (only == nil || only == e)
				only = e
			}
		}
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			if a.live != nil && !a.takes(p, x.Block()) {
				continue
			}
			s.union(a.src(e))
			if same || isObjType(x.Type()) {
				continue
			}
			s.union(a.ctlOf(p))
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && (a.cut == nil || len(a.cut(p)) == 2) {
				s.union(a.src(iff.Cond))
			}
		}
	case *ssa.Extract:
		if t, ok := a.tup[x.Tuple]; ok {
			if x.Index < len(t) {
				s.union(t[x.Index])
			}
			s.union(a.src(x.Tuple))
		} else {
			s.union(a.src(x.Tuple))
		}
	case *ssa.MakeClosure:
		g := origin(x.Fn.(*ssa.Function))
		for _, b := range x.Bindings {
			s.union(a.src(b))
		}
		if sum := a.fl.sums[g]; sum != nil {
			a.apply(sum, nil, x.Bindings, ctl, false)
		} else if h := unwrap(x.Fn.(*ssa.Function)); h != nil && a.fl.sums[origin(h)] != nil {
			a.apply(a.fl.sums[origin(h)], x.Bindings, nil, ctl, false) // a bound method
		}
	default:
		in := v.(ssa.Instruction)
		for _, op := range in.Operands(nil) {
			if *op != nil {
				s.union(a.src(*op))
			}
		}
	}
	a.put(v, s)
}

// takes: the edge is not cut.
func (a *flowFn) takes(p, b *ssa.BasicBlock) bool {
	if a.live[p] {
		for _, s := range a.cut(p) {
			if s == b {
				return true
			}
		}
	}
	return false
}

// subst turns a callee's sources into ours.
func (a *flowFn) subst(s flowSet, args []flowSet, free []flowSet) flowSet {
	var out flowSet
	if len(s) > 2 {
		out.union(append(flowSet{0, 0}, s[2:]...))
	}
	if len(s) > 0 {
		s[:1].each(func(i int) {
			if i < len(args) {
				out.union(args[i])
			}
		})
	}
	if len(s) > 1 {
		(flowSet{s[1]}).each(func(i int) {
			if i < len(free) {
				out.union(free[i])
			}
		})
	}
	return out
}

// apply does what a callee's summary says, and gives the results.
func (a *flowFn) apply(sum *flowSum, args, free []ssa.Value, ctl flowSet, call bool) []flowSet {
	var as, fs []flowSet
	for _, v := range args {
		as = append(as, a.src(v))
	}
	for _, v := range free {
		fs = append(fs, a.src(v))
	}
	for id, s := range sum.fields {
		n := a.subst(s, as, fs)
		a.field(id, n, false)
		if sum.set[id] {
			n = a.subst(sum.given[id], as, fs)
			n.union(ctl)
			a.field(id, n, true)
		}
	}
	for i, s := range sum.into {
		n := a.subst(s, as, fs)
		n.union(ctl)
		switch {
		case i < 64 && i < len(args):
			a.addTo(args[i], n, map[ssa.Value]bool{})
		case i >= 64 && i-64 < len(free):
			a.addTo(free[i-64], n, map[ssa.Value]bool{})
		}
	}
	if sum.acts {
		n := a.subst(sum.sink, as, fs)
		if call {
			n.union(ctl)
		}
		a.sink(n, call && sum.io)
	}
	var res []flowSet
	for _, s := range sum.res {
		res = append(res, a.subst(s, as, fs))
	}
	return res
}

func (a *flowFn) call(c ssa.CallInstruction, ctl flowSet) {
	com := c.Common()
	var all flowSet
	var args []ssa.Value
	if com.IsInvoke() {
		args = append(args, com.Value)
	}
	args = append(args, com.Args...)
	for _, v := range args {
		all.union(a.src(v))
	}
	res, _ := c.(ssa.Value)
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "append":
			if b.Name() == "copy" {
				s := append(flowSet{}, a.src(args[1])...)
				s.union(ctl)
				a.addTo(args[0], s, map[ssa.Value]bool{})
			}
		case "delete", "clear":
			s := append(flowSet{}, ctl...)
			for _, v := range args[1:] {
				s.union(a.src(v))
			}
			a.addTo(args[0], s, map[ssa.Value]bool{})
		case "close", "print", "println":
			all.union(ctl)
			a.sink(all, true)
		}
		if res != nil {
			a.put(res, all)
		}
		return
	}
	gs, exts, unknown := a.fl.w.Callees(c)
	if com.IsInvoke() { // who is called decides what happens
		ctl = append(flowSet{}, ctl...)
		ctl.union(a.src(com.Value))
	}
	dynamic := !com.IsInvoke() && com.StaticCallee() == nil
	nr := com.Signature().Results().Len()
	rs := make([]flowSet, nr)
	for _, g := range gs {
		sum := a.fl.sums[g]
		if sum == nil {
			continue
		}
		if a.sum != nil {
			sum = a.sum(g)
		}
		var free []ssa.Value
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			free = mc.Bindings
		}
		r := a.apply(sum, args, free, ctl, true)
		for i := range r {
			if i < nr {
				rs[i].union(r[i])
				if com.IsInvoke() && !sum.obj[i] {
					rs[i].union(a.src(com.Value))
				}
			}
		}
	}
	if dynamic {
		fv := a.src(com.Value)
		for i := range rs {
			rs[i].union(fv)
		}
		if unknown {
			// an application's function sees its arguments
			s := append(flowSet{}, all...)
			s.union(fv)
			s.union(ctl)
			a.sink(s, true)
			for i := range rs {
				rs[i].union(all)
			}
		}
	}
	for _, m := range exts {
		for i := range rs {
			rs[i].union(all)
		}
		if com.IsInvoke() && len(gs) > 0 && !isIOIface(m) && extPkg(m) == "" {
			continue
		}
		kind, _ := a.fl.w.Effects().extEffect(c, m)
		if kind != "" {
			s := append(flowSet{}, all...)
			s.union(ctl)
			a.sink(s, true)
		}
		sig := m.Type().(*types.Signature)
		pk := extPkg(m)
		for i, v := range args {
			if !holds(v.Type()) || pk == "sync" {
				continue
			}
			if i == 0 && sig.Recv() != nil || i == 0 && (pk == "sort" || pk == "slices" || pk == "io" || pk == "fmt" && strings.HasPrefix(m.Name(), "F")) || pk == "encoding/json" {
				s := append(flowSet{}, all...)
				s.union(ctl)
				a.addTo(v, s, map[ssa.Value]bool{})
			}
		}
	}
	if com.IsInvoke() && len(gs) == 0 && len(exts) == 0 {
		// an interface only the application implements
		s := append(flowSet{}, all...)
		s.union(ctl)
		a.sink(s, true)
		for i := range rs {
			rs[i].union(all)
		}
	}
	if unknown && !dynamic {
		for i := range rs {
			rs[i].union(all)
		}
	}
	if res != nil {
		if nr == 1 {
			a.put(res, rs[0])
		} else if nr > 1 {
			old := a.tup[res]
			for i := range rs {
				if i < len(old) {
					if old[i].union(rs[i]) {
						a.ch = true
					}
				} else {
					old = append(old, rs[i])
					a.ch = true
				}
			}
			a.tup[res] = old
		}
	}
}

// Transfers: from which fields something flows into each field, in the functions asked for.
func (fl *Flow) Transfers(in func(*ssa.Function) bool, copies bool) map[int]flowSet {
	t := map[int]flowSet{}
	for f, s := range fl.sums {
		if in != nil && !in(f) {
			continue
		}
		from := s.given
		if copies {
			from = s.fields
		}
		for id, src := range from {
			o := t[id]
			o.union(src)
			t[id] = o
		}
	}
	return t
}

func (fl *Flow) Names(s flowSet) []string {
	var out []string
	s.each(func(i int) {
		if i >= flowFields {
			out = append(out, fl.Name(i))
		}
	})
	sort.Strings(out)
	return out
}
