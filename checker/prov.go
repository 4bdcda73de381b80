package main

// Provenance analysis: an abstract interpretation of the SSA form that computes, for every
// function, a summary saying
//   - which memory reachable from its parameters or globals it may write (Mut),
//   - which slices it may extend in place through spare capacity (Ext),
//   - for every leaf of its results, where the value comes from (Ret): the original content of a
//     parameter path, a parameter, a constant, the zero value, or a computation and what that
//     computation depends on; and which memory it shares.
// Locations are access paths: p0 (what parameter 0 points to), p0.f (its field f), p0.f* (what the
// reference stored there points to), p0.f*[] (its elements), f3... (allocated here), g:... (global).
// The analysis is flow-sensitive with strong updates on single locations, and interprocedural
// through summaries iterated to a fixed point; closures passed as arguments are resolved per context.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type strset map[string]bool

func (s strset) list() []string {
	var l []string
	for k := range s {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
func (s strset) String() string { return strings.Join(s.list(), ",") }
func union(a, b strset) strset {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	sub := true
	for k := range b {
		if !a[k] {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	o := make(strset, len(a)+len(b))
	for k := range a {
		o[k] = true
	}
	for k := range b {
		o[k] = true
	}
	return o
}
func ss(x ...string) strset {
	o := strset{}
	for _, k := range x {
		o[k] = true
	}
	return o
}

// AV is an abstract value. src tokens: "=path" the unchanged original content of path (or the
// parameter itself, "=p1"), "#c" a constant, "0" the zero value, "?" computed. dep: original paths
// and parameters the value is computed from.
type AV struct {
	pts    strset
	src    strset
	dep    strset
	fields map[string]*AV // struct values and tuples
	clos   map[*ssa.Function][]*AV
	capped bool // a slice whose capacity equals its length
	nilc   bool // the nil constant
}

func (a *AV) String() string {
	if a == nil {
		return "_"
	}
	s := "{" + a.src.String()
	if len(a.pts) > 0 {
		s += " ->" + a.pts.String()
	}
	if len(a.dep) > 0 {
		s += " dep " + a.dep.String()
	}
	if a.fields != nil {
		ks := []string{}
		for k := range a.fields {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s += " " + k + ":" + a.fields[k].String()
		}
	}
	return s + "}"
}

func joinAV(a, b *AV) *AV {
	if a == nil {
		return b
	}
	if b == nil || a == b {
		return a
	}
	o := &AV{pts: union(a.pts, b.pts), src: union(a.src, b.src), dep: union(a.dep, b.dep)}
	if a.nilc {
		o.capped = b.capped
	} else if b.nilc {
		o.capped = a.capped
	} else {
		o.capped = a.capped && b.capped
	}
	o.nilc = a.nilc && b.nilc
	if a.fields != nil || b.fields != nil {
		o.fields = map[string]*AV{}
		for k, v := range a.fields {
			o.fields[k] = joinAV(v, b.fields[k])
		}
		for k, v := range b.fields {
			if _, ok := a.fields[k]; !ok {
				o.fields[k] = v
			}
		}
	}
	if a.clos != nil || b.clos != nil {
		o.clos = map[*ssa.Function][]*AV{}
		for k, v := range a.clos {
			o.clos[k] = v
		}
		for k, v := range b.clos {
			if w, ok := o.clos[k]; ok {
				n := make([]*AV, len(v))
				for i := range v {
					n[i] = joinAV(w[i], v[i])
				}
				o.clos[k] = n
			} else {
				o.clos[k] = v
			}
		}
	}
	return o
}

func eqAV(a, b *AV) bool { return a == b || a.key() == b.key() }
func (a *AV) key() string {
	if a == nil {
		return "_"
	}
	s := a.String()
	if a.capped {
		s += "!"
	}
	return s
}

// allDeps is everything the value is or is computed from.
func (a *AV) allDeps() strset {
	o := strset{}
	var rec func(a *AV, d int)
	rec = func(a *AV, d int) {
		if a == nil || d > 6 {
			return
		}
		for k := range a.dep {
			o[k] = true
		}
		for k := range a.src {
			if strings.HasPrefix(k, "=") {
				o[k[1:]] = true
			}
		}
		for _, f := range a.fields {
			rec(f, d+1)
		}
	}
	rec(a, 0)
	return o
}

func (a *AV) allPts() strset {
	o := strset{}
	var rec func(a *AV, d int)
	rec = func(a *AV, d int) {
		if a == nil || d > 6 {
			return
		}
		for k := range a.pts {
			o[k] = true
		}
		for _, f := range a.fields {
			rec(f, d+1)
		}
	}
	rec(a, 0)
	return o
}

const maxPath = 9

var debugProv = os.Getenv("PHX_DEBUG") != ""

func ext(loc, step string) string {
	if strings.HasSuffix(loc, "~") || loc == "x" {
		return loc
	}
	if strings.Count(loc, ".")+strings.Count(loc, "*")+strings.Count(loc, "[") >= maxPath {
		return loc + "~"
	}
	return loc + step
}

func rootOf(loc string) string {
	if i := strings.IndexAny(loc, ".*[~"); i >= 0 && !strings.HasPrefix(loc, "g:") {
		return loc[:i]
	}
	if strings.HasPrefix(loc, "g:") {
		return "g"
	}
	return loc
}

func isFresh(loc string) bool { return strings.HasPrefix(loc, "f") }

type Effect struct {
	Loc  string
	Pos  token.Pos
	What string
	In   *ssa.Function
}

type Summary struct {
	Mut    map[string]Effect
	Ext    map[string]Effect
	Ret    []*AV
	Heap   map[string]*AV // content of fresh locations reachable from Ret or Stores
	Stores map[string]*AV // values stored into parameter memory
	Types  map[string]types.Type
	key    string
	name   string
}

func (s *Summary) computeKey() string {
	var b strings.Builder
	ks := []string{}
	for k := range s.Mut {
		ks = append(ks, "M"+k)
	}
	for k := range s.Ext {
		ks = append(ks, "E"+k)
	}
	for k, v := range s.Heap {
		ks = append(ks, "H"+k+v.key())
	}
	for k, v := range s.Stores {
		ks = append(ks, "S"+k+v.key())
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte(';')
	}
	for _, r := range s.Ret {
		b.WriteString(r.key())
		b.WriteByte(';')
	}
	return b.String()
}

type Prov struct {
	w       *World
	sums    map[string]*Summary
	busy    map[string]bool
	dirty   bool
	pass    int
	done    map[string]int
	verbose bool
}

func NewProv(w *World) *Prov {
	p := &Prov{w: w, sums: map[string]*Summary{}, busy: map[string]bool{}, done: map[string]int{}}
	for p.pass = 1; p.pass <= 8; p.pass++ {
		p.dirty = false
		for _, fn := range w.Funcs {
			p.summary(fn, nil)
		}
		if !p.dirty {
			break
		}
	}
	return p
}

// Sum returns the final summary of a function.
func (p *Prov) Sum(fn *ssa.Function) *Summary { return p.sums[ctxKey(origin(fn), nil)] }

func ctxKey(fn *ssa.Function, cl map[int]map[*ssa.Function][]*AV) string {
	k := fnName(fn) + fmt.Sprintf("@%d", fn.Pos())
	if len(cl) > 0 {
		var is []int
		for i := range cl {
			is = append(is, i)
		}
		sort.Ints(is)
		for _, i := range is {
			var ns []string
			for f := range cl[i] {
				ns = append(ns, fnName(f)+fmt.Sprintf("@%d", f.Pos()))
			}
			sort.Strings(ns)
			k += fmt.Sprintf("|%d:%s", i, strings.Join(ns, ","))
		}
	}
	return k
}

func (p *Prov) summary(fn *ssa.Function, cl map[int]map[*ssa.Function][]*AV) *Summary {
	k := ctxKey(fn, cl)
	if p.busy[k] || p.done[k] == p.pass {
		if s := p.sums[k]; s != nil {
			return s
		}
		return &Summary{} // recursion: bottom, refined in the next pass
	}
	p.busy[k] = true
	a := &provFn{p: p, fn: fn, env: map[ssa.Value]*AV{}, cl: cl, freshIDs: map[string]string{}, sum: &Summary{Mut: map[string]Effect{}, Ext: map[string]Effect{}, Heap: map[string]*AV{}, Stores: map[string]*AV{}, Types: map[string]types.Type{}}, types: map[string]types.Type{}}
	a.run()
	delete(p.busy, k)
	p.done[k] = p.pass
	s := a.sum
	s.key = s.computeKey()
	s.name = k
	if old := p.sums[k]; old == nil || old.key != s.key {
		p.dirty = true
		if debugProv && p.pass >= 5 {
			fmt.Println("dirty", p.pass, k, "\n  OLD", p.sums[k].key, "\n  NEW", s.key)
		}
		p.sums[k] = s
	}
	return p.sums[k]
}

// keyStep is the pseudo-field holding the keys of a map.
const keyStep = ".@k"

type provState map[string]*AV

type provFn struct {
	p        *Prov
	fn       *ssa.Function
	env      map[ssa.Value]*AV
	cl       map[int]map[*ssa.Function][]*AV
	freshIDs map[string]string
	nfresh   int
	sum      *Summary
	types    map[string]types.Type
	out      map[*ssa.BasicBlock]provState
	changed  bool
	snapSeen map[string]bool
	snapKeys []string // sorted keys of the state being recorded
}

var allocMark = &AV{}

// alloc is fresh for memory allocated at this point of the path.
func (a *provFn) alloc(st provState, key string) string {
	id := a.fresh(key)
	st["@"+id] = allocMark
	return id
}

func (a *provFn) fresh(key string) string {
	if id, ok := a.freshIDs[key]; ok {
		return id
	}
	a.nfresh++
	id := fmt.Sprintf("f%d", a.nfresh)
	a.freshIDs[key] = id
	return id
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// symbolic is the original content of a location of the given type.
func (a *provFn) symbolic(loc string, t types.Type, depth int) *AV {
	if t == nil {
		if isFresh(loc) {
			return &AV{src: ss("0"), nilc: true}
		}
		return &AV{src: ss("=" + loc)}
	}
	if isFresh(loc) {
		if s := structOf(t); s != nil && depth < 4 {
			av := &AV{fields: map[string]*AV{}}
			for i := 0; i < s.NumFields(); i++ {
				av.fields[s.Field(i).Name()] = a.symbolic(ext(loc, "."+s.Field(i).Name()), s.Field(i).Type(), depth+1)
			}
			return av
		}
		return &AV{src: ss("0"), nilc: true}
	}
	if s := structOf(t); s != nil && depth < 4 {
		av := &AV{fields: map[string]*AV{}}
		for i := 0; i < s.NumFields(); i++ {
			av.fields[s.Field(i).Name()] = a.symbolic(ext(loc, "."+s.Field(i).Name()), s.Field(i).Type(), depth+1)
		}
		return av
	}
	av := &AV{src: ss("=" + loc)}
	if isRef(t) {
		av.pts = ss(ext(loc, "*"))
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		av.pts = ss(loc)
	}
	return av
}

func (a *provFn) loadLoc(st provState, loc string, t types.Type, depth int) *AV {
	if s := structOf(t); s != nil && depth < 4 {
		if v, ok := st[loc]; ok && v.fields == nil {
			return v
		}
		av := &AV{fields: map[string]*AV{}}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			av.fields[f.Name()] = a.loadLoc(st, ext(loc, "."+f.Name()), f.Type(), depth+1)
		}
		if s.NumFields() == 0 {
			av.src = ss("0")
		}
		return av
	}
	if v, ok := st[loc]; ok {
		return v
	}
	if isFresh(loc) && st["@"+rootOf(loc)] == nil {
		return &AV{} // not allocated yet on this path: a stale iteration
	}
	return a.symbolic(loc, t, depth)
}

func (a *provFn) storeLoc(st provState, loc string, t types.Type, v *AV, strong bool, depth int) {
	if strings.HasSuffix(loc, "[]") || strings.HasSuffix(loc, "~") || loc == "x" {
		strong = false
	}
	if strings.Contains(loc, "[]") || strings.HasSuffix(loc, keyStep) {
		strong = false
	}
	if s := structOf(t); s != nil && depth < 4 && v.fields != nil {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			fv := v.fields[f.Name()]
			if fv == nil {
				fv = &AV{src: ss("?")}
			}
			a.storeLoc(st, ext(loc, "."+f.Name()), f.Type(), fv, strong, depth+1)
		}
		return
	}
	a.types[loc] = t
	if strong {
		st[loc] = v
		return
	}
	st[loc] = joinAV(a.loadLoc(st, loc, t, 4), v)
}

func (a *provFn) opaque(deps ...*AV) *AV {
	d := strset{}
	for _, x := range deps {
		if x != nil {
			d = union(d, x.allDeps())
		}
	}
	return &AV{src: ss("?"), dep: d}
}

func (a *provFn) val(v ssa.Value) *AV {
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return &AV{src: ss("0"), nilc: true}
		}
		if x.Value == nil {
			if s := structOf(x.Type()); s != nil {
				return zeroAV(x.Type(), 0)
			}
			return &AV{src: ss("0")}
		}
		if isZeroConst(x) {
			return &AV{src: ss("0")}
		}
		return &AV{src: ss("#" + x.Value.ExactString())}
	case *ssa.Global:
		return &AV{pts: ss("g:" + relPath(x.Pkg.Pkg.Path()) + "/" + x.Name()), src: ss("?")}
	case *ssa.Function:
		return &AV{src: ss("#" + fnName(x)), clos: map[*ssa.Function][]*AV{origin(unwrap(x)): nil}}
	case *ssa.Builtin:
		return &AV{src: ss("?")}
	}
	if av, ok := a.env[v]; ok {
		return av
	}
	return &AV{}
}

func isZeroConst(x *ssa.Const) bool {
	if x.Value == nil {
		return true
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return !constant.BoolVal(x.Value)
	case constant.String:
		return constant.StringVal(x.Value) == ""
	case constant.Int, constant.Float:
		return constant.Sign(x.Value) == 0
	}
	return false
}

func zeroAV(t types.Type, depth int) *AV {
	if s := structOf(t); s != nil && depth < 4 && s.NumFields() > 0 {
		av := &AV{fields: map[string]*AV{}}
		for i := 0; i < s.NumFields(); i++ {
			av.fields[s.Field(i).Name()] = zeroAV(s.Field(i).Type(), depth+1)
		}
		return av
	}
	return &AV{src: ss("0"), nilc: true}
}

func (a *provFn) set(v ssa.Value, av *AV) {
	old := a.env[v]
	n := joinAV(old, av)
	if !eqAV(old, n) {
		a.env[v] = n
		a.changed = true
	}
}

// paramAV is the abstract value of a parameter at entry.
func (a *provFn) paramAV(root string, t types.Type, depth int) *AV {
	if s := structOf(t); s != nil && depth < 4 {
		av := &AV{fields: map[string]*AV{}}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			av.fields[f.Name()] = a.symbolic(ext(root, "."+f.Name()), f.Type(), depth+1)
		}
		if s.NumFields() == 0 {
			av.src = ss("=" + root)
		}
		return av
	}
	av := &AV{src: ss("=" + root)}
	if isRef(t) {
		av.pts = ss(root)
	}
	return av
}

func (a *provFn) run() {
	fn := a.fn
	for i, prm := range fn.Params {
		av := a.paramAV(fmt.Sprintf("p%d", i), prm.Type(), 0)
		if c, ok := a.cl[i]; ok {
			av.clos = map[*ssa.Function][]*AV{}
			for f, bs := range c {
				n := make([]*AV, len(bs))
				for j := range bs {
					n[j] = a.paramAV(fmt.Sprintf("c%d_%d", i, j), f.FreeVars[j].Type(), 0)
				}
				av.clos[f] = n
			}
		}
		a.env[prm] = av
	}
	for i, fv := range fn.FreeVars {
		a.env[fv] = a.paramAV(fmt.Sprintf("v%d", i), fv.Type(), 0)
	}
	a.out = map[*ssa.BasicBlock]provState{}
	for iter := 0; iter < 12; iter++ {
		a.changed = false
		for _, b := range rpo(fn) {
			in := a.inState(b)
			if in == nil {
				continue
			}
			st := in
			for _, ins := range b.Instrs {
				a.step(st, ins)
			}
			if !sameState(a.out[b], st) {
				a.out[b] = st
				a.changed = true
			}
		}
		if !a.changed {
			break
		}
	}
	a.finishRet()
}

// rpo lists the blocks in reverse postorder (unreached ones, like recover blocks, last).
func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				rec(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) == 0 {
		return nil
	}
	rec(fn.Blocks[0])
	var out []*ssa.BasicBlock
	for i := len(post) - 1; i >= 0; i-- {
		out = append(out, post[i])
	}
	for _, b := range fn.Blocks {
		if !seen[b] {
			out = append(out, b)
		}
	}
	return out
}

func sameState(a, b provState) bool {
	if a == nil || len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !eqAV(v, w) {
			return false
		}
	}
	return true
}

func (a *provFn) inState(b *ssa.BasicBlock) provState {
	if b.Index == 0 {
		return provState{}
	}
	if a.fn.Recover == b && len(b.Preds) == 0 {
		// reached after a recovered panic: join of everything
		return a.joinStates(a.fn.Blocks)
	}
	return a.joinStates(b.Preds)
}

func (a *provFn) joinStates(preds []*ssa.BasicBlock) provState {
	var st provState
	var outs []provState
	for _, p := range preds {
		if o := a.out[p]; o != nil {
			outs = append(outs, o)
		}
	}
	if len(outs) == 0 {
		return nil
	}
	st = provState{}
	if len(outs) == 1 {
		for k, v := range outs[0] {
			st[k] = v
		}
		return st
	}
	keys := map[string]bool{}
	for _, o := range outs {
		for k := range o {
			keys[k] = true
		}
	}
	for k := range keys {
		if strings.HasPrefix(k, "@") {
			st[k] = allocMark
			continue
		}
		var v *AV
		for _, o := range outs {
			if x, ok := o[k]; ok {
				v = joinAV(v, x)
			} else if r := rootOf(k); isFresh(r) && o["@"+r] == nil {
				continue // not allocated on that path
			} else {
				v = joinAV(v, a.symbolic(k, a.types[k], 4))
			}
		}
		if v == nil {
			v = &AV{}
		}
		st[k] = v
	}
	return st
}

func (a *provFn) mutate(loc string, pos token.Pos, what string, in *ssa.Function) {
	if isFresh(loc) || loc == "x" {
		return
	}
	if _, ok := a.sum.Mut[loc]; !ok {
		a.sum.Mut[loc] = Effect{loc, pos, what, in}
	}
}
func (a *provFn) extend(loc string, pos token.Pos, what string, in *ssa.Function) {
	if isFresh(loc) || loc == "x" {
		return
	}
	if _, ok := a.sum.Ext[loc]; !ok {
		a.sum.Ext[loc] = Effect{loc, pos, what, in}
	}
}

func (a *provFn) load(st provState, addr *AV, t types.Type) *AV {
	var r *AV
	for _, l := range addr.pts.list() {
		r = joinAV(r, a.loadLoc(st, l, t, 0))
	}
	if r == nil {
		r = a.opaque(addr)
	}
	return r
}

func (a *provFn) store(st provState, addr *AV, t types.Type, v *AV, pos token.Pos) {
	strong := len(addr.pts) == 1
	for l := range addr.pts {
		a.mutate(l, pos, "store", a.fn)
		a.storeLoc(st, l, t, v, strong, 0)
		if !isFresh(l) {
			a.sum.Stores[l] = joinAV(a.sum.Stores[l], v)
			a.sum.Types[l] = t
		}
	}
}

func (a *provFn) step(st provState, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		id := a.alloc(st, fmt.Sprintf("a%p", x))
		// a new object: forget what a previous iteration stored
		if !a.loopCarried(id) {
			for k := range st {
				if rootOf(k) == id && k != "@"+id {
					delete(st, k)
				}
			}
		}
		a.set(x, &AV{pts: ss(id), src: ss("?")})
	case *ssa.FieldAddr:
		base := a.val(x.X)
		_, fv, _ := fieldOf(x)
		av := &AV{src: ss("?"), dep: base.dep}
		av.pts = strset{}
		for l := range base.pts {
			av.pts[ext(l, "."+fv.Name())] = true
		}
		a.set(x, av)
	case *ssa.Field:
		base := a.val(x.X)
		_, fv, _ := fieldOf(x)
		if base.fields != nil && base.fields[fv.Name()] != nil {
			a.set(x, base.fields[fv.Name()])
		} else {
			o := a.opaque(base)
			if isRef(x.Type()) {
				o.pts = base.pts
			}
			a.set(x, o)
		}
	case *ssa.IndexAddr:
		base := a.val(x.X)
		av := &AV{src: ss("?"), pts: strset{}}
		for l := range base.pts {
			av.pts[ext(l, "[]")] = true
		}
		a.set(x, av)
	case *ssa.Index:
		base, idx := a.val(x.X), a.val(x.Index)
		o := a.opaque(base, idx)
		if isRef(x.Type()) {
			o.pts = base.pts
		}
		a.set(x, o)
	case *ssa.UnOp:
		v := a.val(x.X)
		switch x.Op {
		case token.MUL:
			a.set(x, a.load(st, v, x.Type()))
		case token.ARROW:
			o := a.opaque(v)
			if isRef(x.Type()) {
				o.pts = ss("x")
			}
			a.set(x, o)
		default:
			a.set(x, a.opaque(v))
		}
	case *ssa.BinOp:
		a.set(x, a.opaque(a.val(x.X), a.val(x.Y)))
	case *ssa.Store:
		a.store(st, a.val(x.Addr), x.Val.Type(), a.val(x.Val), x.Pos())
	case *ssa.Phi:
		var r *AV
		for i, e := range x.Edges {
			if a.out[x.Block().Preds[i]] == nil {
				continue
			}
			ev := a.val(e)
			if cn, ok := e.(*ssa.Const); ok && cn.IsNil() {
				if o := a.nilTwin(x.Block().Preds[i], x.Block()); o != nil {
					ev = o
				}
			}
			if a.clampEdge(x, i) {
				continue
			}
			r = joinAV(r, ev)
		}
		if r != nil {
			a.set(x, r)
		}
	case *ssa.MakeSlice:
		id := a.alloc(st, fmt.Sprintf("a%p", x))
		a.set(x, &AV{pts: ss(id), src: ss("?"), dep: a.opaque(a.val(x.Len)).dep})
	case *ssa.MakeMap, *ssa.MakeChan:
		id := a.alloc(st, fmt.Sprintf("a%p", x))
		a.set(x.(ssa.Value), &AV{pts: ss(id), src: ss("?")})
	case *ssa.Slice:
		base := a.val(x.X)
		av := &AV{src: ss("?"), dep: base.allDeps(), pts: base.pts}
		for _, v := range []ssa.Value{x.Low, x.High, x.Max} {
			if v != nil {
				av.dep = union(av.dep, a.val(v).allDeps())
			}
		}
		if x.Max != nil && x.High != nil && sameVal(x.Max, x.High) {
			av.capped = true
		}
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			// slicing an array: elements live in the array
			av.pts = base.pts
			if x.Low == nil && x.High == nil {
				av.capped = true
			}
		}
		if base.nilc {
			av.nilc = true
		}
		if _, isStr := x.X.Type().Underlying().(*types.Basic); !isStr && (x.Low != nil || x.High != nil) {
			if _, arr := x.X.Type().Underlying().(*types.Pointer); !arr {
				av.src = ss("/")
				if hc, ok := x.High.(*ssa.Const); ok && isZeroConst(hc) {
					av.src = ss("0")
				}
			}
		}
		if x.Low == nil && x.High == nil && x.Max == nil {
			av.src = base.src
			if len(av.src) == 0 {
				av.src = ss("?")
			}
		}
		a.set(x, av)
	case *ssa.ChangeType:
		a.set(x, a.val(x.X))
	case *ssa.ChangeInterface:
		a.set(x, a.val(x.X))
	case *ssa.MakeInterface:
		a.set(x, a.val(x.X))
	case *ssa.TypeAssert:
		v := a.val(x.X)
		if x.CommaOk {
			a.set(x, &AV{fields: map[string]*AV{"0": a.narrow(v, x.AssertedType), "1": a.opaque(v)}})
		} else {
			a.set(x, a.narrow(v, x.AssertedType))
		}
	case *ssa.Convert:
		v := a.val(x.X)
		if bi, ok := x.Type().Underlying().(*types.Basic); ok {
			if bs, ok2 := x.X.Type().Underlying().(*types.Basic); ok2 && bi.Info()&types.IsNumeric != 0 && bs.Info()&types.IsNumeric != 0 {
				a.set(x, &AV{src: v.src, dep: v.dep})
				return
			}
			a.set(x, a.opaque(v))
			return
		}
		o := a.opaque(v)
		if isRef(x.Type()) {
			o.pts = ss(a.alloc(st, fmt.Sprintf("a%p", x)))
		}
		a.set(x, o)
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		v := ins.(ssa.Value)
		var rands [4]*ssa.Value
		ops := ins.Operands(rands[:0])
		a.set(v, a.val(*ops[0]))
	case *ssa.Extract:
		t := a.val(x.Tuple)
		if t.fields != nil {
			if f := t.fields[fmt.Sprint(x.Index)]; f != nil {
				a.set(x, f)
				return
			}
		}
		o := a.opaque(t)
		if isRef(x.Type()) {
			o.pts = ss("x")
		}
		a.set(x, o)
	case *ssa.Lookup:
		m := a.val(x.X)
		var v *AV
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			for l := range m.pts {
				v = joinAV(v, a.loadLoc(st, ext(l, "[]"), mt.Elem(), 0))
			}
			if v == nil {
				v = a.opaque(m)
			}
		} else {
			v = a.opaque(m, a.val(x.Index))
		}
		if x.CommaOk {
			a.set(x, &AV{fields: map[string]*AV{"0": v, "1": a.opaque(m, a.val(x.Index))}})
		} else {
			a.set(x, v)
		}
	case *ssa.MapUpdate:
		m := a.val(x.Map)
		mt := x.Map.Type().Underlying().(*types.Map)
		for l := range m.pts {
			a.mutate(ext(l, "[]"), x.Pos(), "map write", a.fn)
			a.storeLoc(st, ext(l, "[]"), mt.Elem(), a.val(x.Value), false, 0)
			a.storeLoc(st, ext(l, keyStep), mt.Key(), a.val(x.Key), false, 0)
			if !isFresh(l) {
				for step, sv := range map[string]ssa.Value{"[]": x.Value, keyStep: x.Key} {
					k := ext(l, step)
					a.sum.Stores[k] = joinAV(a.sum.Stores[k], a.val(sv))
					a.sum.Types[k] = sv.Type()
				}
			}
		}
	case *ssa.Range:
		a.set(x, a.val(x.X))
	case *ssa.Next:
		r := a.val(x.Iter)
		var v, kv *AV
		if rg, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
			if mt, ok := rg.X.Type().Underlying().(*types.Map); ok {
				for l := range r.pts {
					v = joinAV(v, a.loadLoc(st, ext(l, "[]"), mt.Elem(), 0))
					kv = joinAV(kv, a.loadLoc(st, ext(l, keyStep), mt.Key(), 0))
				}
			}
		}
		if kv == nil {
			kv = a.opaque(r)
		}
		if v == nil {
			v = a.opaque(r)
		}
		a.set(x, &AV{fields: map[string]*AV{"0": a.opaque(r), "1": kv, "2": v}})
	case *ssa.MakeClosure:
		f := origin(x.Fn.(*ssa.Function))
		bs := make([]*AV, len(x.Bindings))
		dep := strset{}
		for i, b := range x.Bindings {
			bs[i] = a.val(b)
			dep = union(dep, bs[i].allDeps())
			for l := range bs[i].pts { // captured variables: what they hold now
				if isFresh(l) {
					dep = union(dep, a.loadLoc(st, l, deref(b.Type()), 0).allDeps())
				}
			}
		}
		g := unwrap(f)
		if g != f {
			// bound method value: bindings are the receiver
			a.set(x, &AV{src: ss("?"), dep: dep, clos: map[*ssa.Function][]*AV{}})
			return
		}
		a.set(x, &AV{src: ss("?"), dep: dep, clos: map[*ssa.Function][]*AV{f: bs}})
		// the closure may run at any time: its writes count here
		if s := a.p.summary(f, nil); s != nil {
			a.applyEffects(st, s, nil, bs, x.Pos(), nil)
		}
	case *ssa.Call:
		r := a.call(st, x, x)
		if r != nil {
			a.set(x, r)
		}
	case *ssa.Defer:
		a.call(st, x, nil)
	case *ssa.Go:
		a.call(st, x, nil)
	case *ssa.Select:
		a.set(x, &AV{src: ss("?"), pts: ss("x")})
	case *ssa.Return:
		a.snapSeen = map[string]bool{}
		a.snapKeys = sortedKeys(st)
		for k, v := range st {
			if k[0] != '@' && !isFresh(k) {
				a.snapshotAny(st, v, 0) // stored into memory the caller can see
			}
		}
		for i, v := range x.Results {
			for len(a.sum.Ret) <= i {
				a.sum.Ret = append(a.sum.Ret, nil)
			}
			av := a.val(v)
			if cn, ok := v.(*ssa.Const); ok && cn.IsNil() {
				if o := a.nilTwin(x.Block(), nil); o != nil {
					av = o
				}
			}
			if o := a.clampRet(x, i); o != nil {
				av = o
			}
			a.sum.Ret[i] = joinAV(a.sum.Ret[i], av)
			a.snapshot(st, av, v.Type(), 0)
		}
	}
}

// nilTwin returns the value known to be nil in block b (or on its edge to succ), so that a nil
// constant there is that value's own content: "nil if nil" copies keep the attribute.
func (a *provFn) nilTwin(b, succ *ssa.BasicBlock) *AV {
	try := func(p, s *ssa.BasicBlock) *AV {
		if len(p.Instrs) == 0 {
			return nil
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			return nil
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			return nil
		}
		want := p.Succs[0]
		if bo.Op == token.NEQ {
			want = p.Succs[1]
		}
		if want != s {
			return nil
		}
		v := bo.X
		c, ok := bo.Y.(*ssa.Const)
		if !ok || !c.IsNil() {
			return nil
		}
		av := a.val(v)
		if len(av.src) == 0 {
			return nil
		}
		return &AV{src: av.src, dep: av.dep, nilc: true}
	}
	if succ != nil {
		if r := try(b, succ); r != nil {
			return r
		}
	}
	if len(b.Preds) == 1 {
		return try(b.Preds[0], b)
	}
	return nil
}

// loopCarried reports whether an object of an earlier iteration is still reachable from a phi.
func (a *provFn) loopCarried(id string) bool {
	for v, av := range a.env {
		if _, ok := v.(*ssa.Phi); ok && av != nil && av.pts[id] {
			return true
		}
	}
	return false
}

// clampRet is clampEdge for "if v < 0 { return 0 }; return v".
func (a *provFn) clampRet(x *ssa.Return, i int) *AV {
	c, ok := x.Results[i].(*ssa.Const)
	if !ok || c.IsNil() || c.Value == nil || c.Value.Kind() != constant.Int {
		return nil
	}
	b := onlyPred(x.Block())
	if b == nil || len(b.Instrs) == 0 {
		return nil
	}
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	switch bo.Op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
	default:
		return nil
	}
	v := bo.X
	if _, ok := bo.X.(*ssa.Const); ok {
		v = bo.Y
	}
	for _, o := range a.fn.Blocks {
		if r, ok := o.Instrs[len(o.Instrs)-1].(*ssa.Return); ok && r != x && r.Results[i] == v {
			return a.val(v)
		}
	}
	return nil
}

// clampEdge reports whether edge i of the phi is a constant taken only because another edge's
// value compared unfavourably with a constant: "if v < 0 { v = 0 }". The phi is then that value,
// clamped, and counts as the value itself.
func (a *provFn) clampEdge(x *ssa.Phi, i int) bool {
	c, ok := x.Edges[i].(*ssa.Const)
	if !ok || c.IsNil() || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	pred := x.Block().Preds[i]
	// the block holding the test: pred itself or its only predecessor
	for _, b := range []*ssa.BasicBlock{pred, onlyPred(pred)} {
		if b == nil || len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch bo.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
		default:
			continue
		}
		var v ssa.Value
		if _, ok := bo.Y.(*ssa.Const); ok {
			v = bo.X
		} else if _, ok := bo.X.(*ssa.Const); ok {
			v = bo.Y
		}
		for j, e := range x.Edges {
			if j != i && e == v {
				return true
			}
		}
	}
	return false
}

func onlyPred(b *ssa.BasicBlock) *ssa.BasicBlock {
	if len(b.Preds) == 1 {
		return b.Preds[0]
	}
	return nil
}

func sameVal(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	if cx, ok := x.(*ssa.Const); ok {
		if cy, ok := y.(*ssa.Const); ok {
			return cx.Value != nil && cy.Value != nil && constant.Compare(cx.Value, token.EQL, cy.Value)
		}
	}
	if lx, ok := lenArg(x); ok {
		if ly, ok := lenArg(y); ok {
			return lx == ly || sameLoad(lx, ly)
		}
	}
	return false
}

func sameLoad(x, y ssa.Value) bool {
	ux, ok1 := x.(*ssa.UnOp)
	uy, ok2 := y.(*ssa.UnOp)
	if !ok1 || !ok2 || ux.Op != token.MUL || uy.Op != token.MUL {
		return false
	}
	fx, ok1 := ux.X.(*ssa.FieldAddr)
	fy, ok2 := uy.X.(*ssa.FieldAddr)
	return ok1 && ok2 && fx.X == fy.X && fx.Field == fy.Field
}

func lenArg(v ssa.Value) (ssa.Value, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return c.Call.Args[0], true
	}
	return nil, false
}

// narrow adapts the value held in an interface to the asserted type.
func (a *provFn) narrow(v *AV, t types.Type) *AV {
	if structOf(t) != nil && v.fields == nil {
		// original content of an interface: its struct fields are reached through it
		var r *AV
		for l := range v.pts {
			r = joinAV(r, a.symbolic(l, t, 0))
		}
		if r != nil {
			return r
		}
		return a.opaque(v)
	}
	return v
}

// snapshot records the content of fresh memory reachable from a returned value.
func (a *provFn) snapshot(st provState, v *AV, t types.Type, depth int) {
	if v == nil || depth > 5 {
		return
	}
	if v.fields != nil {
		if s := structOf(t); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				a.snapshot(st, v.fields[s.Field(i).Name()], s.Field(i).Type(), depth+1)
			}
		} else {
			for _, f := range v.fields {
				a.snapshotAny(st, f, depth+1)
			}
		}
	}
	a.snapshotAny(st, v, depth)
}

func (a *provFn) snapshotAny(st provState, v *AV, depth int) {
	if v == nil || depth > 5 {
		return
	}
	for _, f := range v.fields {
		a.snapshotAny(st, f, depth+1)
	}
	for l := range v.pts {
		if !isFresh(l) {
			continue
		}
		a.snapshotLoc(st, l, depth)
	}
}

func (a *provFn) snapshotLoc(st provState, l string, depth int) {
	if a.snapSeen[l] {
		return
	}
	a.snapSeen[l] = true
	for i := sort.SearchStrings(a.snapKeys, l); i < len(a.snapKeys) && strings.HasPrefix(a.snapKeys[i], l); i++ {
		k := a.snapKeys[i]
		c := st[k]
		if k == l || k[len(l)] == '.' || k[len(l)] == '[' {
			n := joinAV(a.sum.Heap[k], c)
			if !eqAV(a.sum.Heap[k], n) {
				a.sum.Heap[k] = n
				a.p.noteType(a, k)
			}
			a.snapshotAny(st, c, depth+1)
		}
	}
	a.sum.Heap["@"+l] = &AV{}
}

func (p *Prov) noteType(a *provFn, k string) { a.sum.Types[k] = a.types[k] }

func (a *provFn) finishRet() {}

// call applies a call's effects and returns its abstract result.
func (a *provFn) call(st provState, c ssa.CallInstruction, res ssa.Value) *AV {
	com := c.Common()
	args := make([]*AV, 0, len(com.Args)+1)
	if com.IsInvoke() {
		args = append(args, a.val(com.Value))
	}
	for _, v := range com.Args {
		args = append(args, a.val(v))
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return a.builtin(st, c, b.Name(), args)
	}
	nres := com.Signature().Results().Len()
	var result *AV
	apply := func(f *ssa.Function, args []*AV, free []*AV) {
		cl := map[int]map[*ssa.Function][]*AV{}
		for i, v := range args {
			if v != nil && len(v.clos) > 0 && len(v.clos) <= 3 && i < len(f.Params) {
				if _, ok := f.Params[i].Type().Underlying().(*types.Signature); ok {
					cl[i] = v.clos
				}
			}
		}
		if len(cl) == 0 || len(a.cl) > 0 && len(a.p.busy) > 12 {
			cl = nil
		}
		s := a.p.summary(f, cl)
		r := a.applyEffects(st, s, args, free, c.Pos(), cl)
		if o := selectorArg(s, com.Args, args); o != nil {
			r = o
		}
		result = joinAV(result, r)
	}
	if !com.IsInvoke() && com.StaticCallee() == nil {
		fv := a.val(com.Value)
		for _, f := range sortedFns(fv.clos) {
			if a.p.w.funcSet[f] {
				apply(f, args, fv.clos[f])
			}
		}
		if len(fv.clos) == 0 {
			result = joinAV(result, a.externResult(st, c, append(args, fv), nres))
		}
		return result
	}
	if f := com.StaticCallee(); f != nil {
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			free := make([]*AV, len(mc.Bindings))
			for i, b := range mc.Bindings {
				free[i] = a.val(b)
			}
			apply(origin(f), args, free)
			return result
		}
	}
	in, exts, _ := a.p.w.Callees(c)
	for _, f := range in {
		apply(f, args, nil)
	}
	if len(exts) > 0 {
		result = joinAV(result, a.extern(st, c, exts[0], args, nres))
	}
	if result == nil && nres > 0 {
		result = a.externResult(st, c, args, nres)
	}
	return result
}

// selectorArg recognises a call like max(0, v) or clamp(v, 0, 100) written as a function: it returns
// one of its arguments, all but one of which are constants. The result is that argument, clamped.
func selectorArg(s *Summary, vals []ssa.Value, args []*AV) *AV {
	if s == nil || len(s.Ret) != 1 || s.Ret[0] == nil || len(s.Mut) > 0 || len(s.Stores) > 0 || len(vals) < 2 || len(vals) != len(args) {
		return nil
	}
	r := s.Ret[0]
	if len(r.src) < 2 || len(r.dep) > 0 || r.fields != nil || len(r.pts) > 0 {
		return nil
	}
	for k := range r.src {
		if !strings.HasPrefix(k, "=p") || k[1:] != rootOf(k[1:]) {
			return nil
		}
	}
	var only *AV
	n := 0
	for i, v := range vals {
		b, ok := v.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsNumeric == 0 {
			return nil
		}
		if _, ok := v.(*ssa.Const); !ok {
			only = args[i]
			n++
		}
	}
	if n == 1 {
		return only
	}
	return nil
}

func sortedFns(m map[*ssa.Function][]*AV) []*ssa.Function {
	var l []*ssa.Function
	for f := range m {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Pos() < l[j].Pos() })
	return l
}

// applyEffects instantiates a callee summary at a call site.
func (a *provFn) applyEffects(st provState, s *Summary, args, free []*AV, pos token.Pos, cl map[int]map[*ssa.Function][]*AV) *AV {
	ren := map[string]string{}
	site := fmt.Sprintf("c%d@%s", pos, s.name)
	in := &inst{a: a, st: st, args: args, free: free, cl: cl, ren: ren, site: site, memo: map[string]*AV{}}
	for _, e := range sortedEff(s.Mut) {
		for l := range in.locs(e.Loc) {
			if !isFresh(l) && l != "x" {
				if _, ok := a.sum.Mut[l]; !ok {
					a.sum.Mut[l] = Effect{l, e.Pos, e.What, e.In}
				}
			}
		}
	}
	for _, e := range sortedEff(s.Ext) {
		for l := range in.locs(e.Loc) {
			if isFresh(l) || l == "x" {
				continue
			}
			if in.cappedArg(e.Loc) {
				continue
			}
			if _, ok := a.sum.Ext[l]; !ok {
				a.sum.Ext[l] = Effect{l, e.Pos, e.What, e.In}
			}
		}
	}
	// fresh memory of the callee
	var hk []string
	for k := range s.Heap {
		hk = append(hk, k)
	}
	sort.Strings(hk)
	// new objects: forget earlier instances
	fresh := map[string]bool{}
	for _, k := range hk {
		if strings.HasPrefix(k, "@") {
			fresh[in.fresh(rootOf(k[1:]))] = true
		}
	}
	type upd struct {
		l string
		v *AV
	}
	var ups []upd
	var upk []string
	for _, k := range hk {
		if strings.HasPrefix(k, "@") {
			continue
		}
		ups = append(ups, upd{in.renameFresh(k), in.av(s.Heap[k], 0)})
		upk = append(upk, k)
	}
	var sk []string
	for k := range s.Stores {
		sk = append(sk, k)
	}
	sort.Strings(sk)
	type wupd struct {
		l string
		v *AV
		t types.Type
	}
	var wups []wupd
	for _, k := range sk {
		ls := in.locs(k)
		for l := range ls {
			wups = append(wups, wupd{l, in.av(s.Stores[k], 0), s.Types[k]})
		}
	}
	var rets []*AV
	for _, r := range s.Ret {
		rets = append(rets, in.av(r, 0))
	}
	if len(fresh) > 0 {
		for k := range st {
			if fresh[rootOf(k)] && k[0] != '@' {
				delete(st, k)
			}
		}
		for id := range fresh {
			st["@"+id] = allocMark
		}
	}
	for i, u := range ups {
		if u.v != nil {
			st[u.l] = u.v
			a.types[u.l] = s.Types[upk[i]]
		}
	}
	for _, u := range wups {
		if u.v == nil {
			continue
		}
		old, ok := st[u.l]
		if u.v.fields != nil {
			if u.t != nil {
				a.storeLoc(st, u.l, u.t, u.v, false, 0)
				if !isFresh(u.l) {
					a.sum.Stores[u.l] = joinAV(a.sum.Stores[u.l], u.v)
					a.sum.Types[u.l] = u.t
				}
			} else {
				a.storeTree(st, u.l, u.v, 0)
			}
			continue
		}
		if !ok && !isFresh(u.l) {
			// parameter memory of this function: keep the original content too
			old = &AV{src: ss("=" + u.l), pts: ss(ext(u.l, "*"))}
			if a.types[u.l] == nil {
				a.types[u.l] = u.t
			}
		}
		if !ok && isFresh(u.l) {
			if a.types[u.l] == nil {
				a.types[u.l] = u.t
			}
			st[u.l] = u.v
		} else {
			st[u.l] = joinAV(old, u.v)
		}
		if !isFresh(u.l) {
			a.sum.Stores[u.l] = joinAV(a.sum.Stores[u.l], u.v)
			a.sum.Types[u.l] = u.t
		}
	}
	switch len(rets) {
	case 0:
		return nil
	case 1:
		return rets[0]
	}
	t := &AV{fields: map[string]*AV{}}
	for i, r := range rets {
		t.fields[fmt.Sprint(i)] = r
	}
	return t
}

func (a *provFn) storeTree(st provState, l string, v *AV, d int) {
	for k, f := range v.fields {
		nl := ext(l, "."+k)
		if f != nil && f.fields != nil && d < 4 {
			a.storeTree(st, nl, f, d+1)
			continue
		}
		if old, ok := st[nl]; ok {
			st[nl] = joinAV(old, f)
		} else {
			st[nl] = f
		}
		if !isFresh(nl) {
			a.sum.Stores[nl] = joinAV(a.sum.Stores[nl], f)
		}
	}
}

func sortedEff(m map[string]Effect) []Effect {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var o []Effect
	for _, k := range ks {
		o = append(o, m[k])
	}
	return o
}

func sortedFields(m map[string]*AV) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// inst substitutes actual arguments for the parameters of a summary.
type inst struct {
	a          *provFn
	st         provState
	args, free []*AV
	cl         map[int]map[*ssa.Function][]*AV
	ren        map[string]string
	site       string
	memo       map[string]*AV
}

func (in *inst) fresh(root string) string {
	if r, ok := in.ren[root]; ok {
		return r
	}
	r := in.a.fresh(in.site + "/" + root)
	in.ren[root] = r
	return r
}

func (in *inst) renameFresh(k string) string {
	r := rootOf(k)
	return in.fresh(r) + k[len(r):]
}

func (in *inst) rootAV(root string) *AV {
	var i, j int
	if strings.HasPrefix(root, "p") {
		fmt.Sscanf(root, "p%d", &i)
		if i < len(in.args) {
			return in.args[i]
		}
	} else if strings.HasPrefix(root, "v") {
		fmt.Sscanf(root, "v%d", &i)
		if i < len(in.free) {
			return in.free[i]
		}
	} else if strings.HasPrefix(root, "c") {
		fmt.Sscanf(root, "c%d_%d", &i, &j)
		if i < len(in.args) && in.args[i] != nil {
			for _, bs := range in.args[i].clos {
				if j < len(bs) {
					return bs[j]
				}
			}
		}
	}
	return nil
}

// tokens splits a location path into steps.
func pathSteps(s string) []string {
	var out []string
	for len(s) > 0 {
		switch s[0] {
		case '.':
			e := strings.IndexAny(s[1:], ".*[~")
			if e < 0 {
				out = append(out, s)
				return out
			}
			out = append(out, s[:e+1])
			s = s[e+1:]
		case '*':
			out = append(out, "*")
			s = s[1:]
		case '[':
			out = append(out, "[]")
			s = s[2:]
		case '~':
			out = append(out, "~")
			s = s[1:]
		default:
			return append(out, s)
		}
	}
	return out
}

// resolve follows a callee path from the actual argument. It returns the abstract value *stored* at
// the path (content) and the set of locations the path itself denotes.
func (in *inst) resolve(loc string) (locs strset, content *AV) {
	root := rootOf(loc)
	if root == "g" || root == "x" {
		return ss(loc), nil
	}
	if isFresh(root) {
		return ss(in.renameFresh(loc)), nil
	}
	av := in.rootAV(root)
	if av == nil {
		return strset{"x": true}, &AV{src: ss("?")}
	}
	steps := pathSteps(loc[len(root):])
	// value mode: walking inside a struct value; location mode: locs is a set of regions
	cur := av
	locs = av.pts
	inLoc := av.fields == nil
	content = av
	for _, s := range steps {
		switch {
		case strings.HasPrefix(s, ".") && !inLoc:
			f := cur.fields[s[1:]]
			if f == nil {
				return ss("x"), &AV{src: ss("?"), dep: cur.allDeps()}
			}
			cur = f
			content = f
			if f.fields == nil {
				locs = strset{}
				inLoc = false
			}
		case s == "*" && !inLoc:
			// the reference held in a value
			locs = cur.pts
			inLoc = true
			content = nil
		case s == "[]" && !inLoc:
			locs = addStep(cur.pts, "[]")
			inLoc = true
			content = nil
		case strings.HasPrefix(s, "."):
			locs = addStep(locs, s)
			content = nil
		case s == "[]":
			locs = addStep(locs, "[]")
			content = nil
		case s == "*":
			n := strset{}
			for l := range locs {
				if c, ok := in.st[l]; ok {
					if c.fields != nil {
						// struct stored behind an interface
						n[ext(l, "*")] = true
					}
					for k := range c.pts {
						n[k] = true
					}
				} else if !isFresh(l) {
					n[ext(l, "*")] = true
				}
			}
			locs = n
			content = nil
		case s == "~":
			n := strset{}
			for l := range locs {
				n[l] = true
				if !strings.HasSuffix(l, "~") {
					n[l+"~"] = true
				}
			}
			locs = n
			content = nil
		}
		if cur != nil && cur.fields == nil && !inLoc {
			// a leaf value
			locs = strset{}
		}
	}
	return locs, content
}

func addStep(s strset, step string) strset {
	n := strset{}
	for l := range s {
		n[ext(l, step)] = true
	}
	return n
}

func (in *inst) locs(loc string) strset {
	l, _ := in.resolve(loc)
	return l
}

func (in *inst) cappedArg(loc string) bool {
	root := rootOf(loc)
	if loc == root {
		if av := in.rootAV(root); av != nil {
			return av.capped
		}
	}
	return false
}

// content is the value stored at a callee path before the call.
func (in *inst) content(loc string) *AV {
	if m, ok := in.memo[loc]; ok {
		return m
	}
	root := rootOf(loc)
	var r *AV
	if root == "g" || root == "x" {
		r = &AV{src: ss("=" + loc)}
		in.memo[loc] = r
		return r
	}
	if loc == root {
		r = in.rootAV(root)
		if r == nil {
			r = &AV{src: ss("?")}
		}
		in.memo[loc] = r
		return r
	}
	locs, c := in.resolve(loc)
	if c != nil {
		in.memo[loc] = c
		return c
	}
	for _, l := range locs.list() {
		if v, ok := in.st[l]; ok {
			r = joinAV(r, v)
		} else if isFresh(l) {
			if in.st["@"+rootOf(l)] != nil {
				r = joinAV(r, &AV{src: ss("0")})
			} else if r == nil {
				r = &AV{}
			}
		} else {
			r = joinAV(r, &AV{src: ss("=" + l)})
		}
	}
	if r == nil {
		r = &AV{src: ss("?")}
	}
	in.memo[loc] = r
	return r
}

func addAll(a, b strset) {
	for k := range b {
		a[k] = true
	}
}

func (in *inst) av(v *AV, d int) *AV {
	if v == nil {
		return nil
	}
	o := &AV{capped: v.capped, nilc: v.nilc}
	if len(v.pts) > 0 {
		o.pts = strset{}
		for _, l := range v.pts.list() {
			addAll(o.pts, in.locs(l))
		}
	}
	if len(v.src) > 0 {
		o.src = strset{}
		for _, s := range v.src.list() {
			if strings.HasPrefix(s, "=") {
				c := in.content(s[1:])
				if c.fields != nil {
					o.fields = joinAV(&AV{fields: o.fields}, &AV{fields: c.fields}).fields
					continue
				}
				addAll(o.src, c.src)
				o.dep = union(o.dep, c.dep)
				if c.clos != nil {
					o.clos = c.clos
				}
			} else {
				o.src[s] = true
			}
		}
	}
	if len(v.dep) > 0 {
		dep := make(strset, len(v.dep)+len(o.dep))
		addAll(dep, o.dep)
		for s := range v.dep {
			addAll(dep, in.content(s).allDeps())
		}
		o.dep = dep
	}
	if v.fields != nil && d < 6 {
		if o.fields == nil {
			o.fields = map[string]*AV{}
		}
		for _, k := range sortedFields(v.fields) {
			o.fields[k] = joinAV(o.fields[k], in.av(v.fields[k], d+1))
		}
	}
	for f, bs := range v.clos {
		n := make([]*AV, len(bs))
		for i, b := range bs {
			n[i] = in.av(b, d+1)
		}
		if o.clos == nil {
			o.clos = map[*ssa.Function][]*AV{}
		}
		o.clos[f] = n
	}
	return o
}

func (a *provFn) builtin(st provState, c ssa.CallInstruction, name string, args []*AV) *AV {
	com := c.Common()
	switch name {
	case "append":
		s, t := args[0], args[1]
		id := a.alloc(st, fmt.Sprintf("ap%p", c))
		if !s.capped {
			for l := range s.pts {
				a.extend(l, c.Pos(), "append", a.fn)
			}
		}
		elem := com.Args[0].Type().Underlying().(*types.Slice).Elem()
		loc := ext(id, "[]")
		for l := range s.pts {
			a.storeLoc(st, loc, elem, a.loadLoc(st, ext(l, "[]"), elem, 0), false, 0)
		}
		if _, isStr := com.Args[1].Type().Underlying().(*types.Basic); !isStr {
			for l := range t.pts {
				v := a.loadLoc(st, ext(l, "[]"), elem, 0)
				a.storeLoc(st, loc, elem, v, false, 0)
				for m := range s.pts {
					a.storeLoc(st, ext(m, "[]"), elem, v, false, 0)
				}
			}
		}
		pts := ss(id)
		if !s.capped {
			pts = union(pts, s.pts)
		}
		d := union(s.allDeps(), t.allDeps())
		for l := range pts {
			if v, ok := st[ext(l, "[]")]; ok {
				d = union(d, v.allDeps())
			}
		}
		if sl, ok := com.Args[1].(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				av := a.val(al)
				for l := range av.pts {
					for k, v := range st {
						if k == ext(l, "[]") || strings.HasPrefix(k, ext(l, "[]")+".") {
							d = union(d, v.allDeps())
						}
					}
				}
			}
		}
		src := ss("?")
		if s.src["/"] || t.src["/"] {
			src = ss("/")
		}
		return &AV{src: src, dep: d, pts: pts}
	case "copy":
		dst, src := args[0], args[1]
		if sl, ok := com.Args[0].Type().Underlying().(*types.Slice); ok {
			for l := range dst.pts {
				a.mutate(ext(l, "[]"), c.Pos(), "copy into", a.fn)
				for m := range src.pts {
					a.storeLoc(st, ext(l, "[]"), sl.Elem(), a.loadLoc(st, ext(m, "[]"), sl.Elem(), 0), false, 0)
				}
			}
		}
		return a.opaque(args...)
	case "delete", "clear":
		for l := range args[0].pts {
			a.mutate(ext(l, "[]"), c.Pos(), name, a.fn)
			if mt, ok := com.Args[0].Type().Underlying().(*types.Map); ok {
				d := a.opaque(args[1:]...)
				d.src = ss("/")
				a.storeLoc(st, ext(l, keyStep), mt.Key(), d, false, 0)
				if !isFresh(l) {
					a.sum.Stores[ext(l, keyStep)] = joinAV(a.sum.Stores[ext(l, keyStep)], d)
					a.sum.Types[ext(l, keyStep)] = mt.Key()
				}
			}
		}
		return nil
	case "min", "max":
		var only *AV
		n := 0
		for i, v := range com.Args {
			if _, ok := v.(*ssa.Const); !ok {
				only = args[i]
				n++
			}
		}
		if n == 1 {
			return only
		}
		// one of them
		var r *AV
		for i, v := range com.Args {
			if cv, ok := v.(*ssa.Const); ok {
				r = joinAV(r, a.val(cv))
			} else {
				r = joinAV(r, args[i])
			}
		}
		return r
	case "len", "cap":
		return a.opaque(args...)
	case "recover":
		return &AV{src: ss("?"), pts: ss("x")}
	}
	if com.Signature() != nil && com.Signature().Results().Len() > 0 {
		return a.opaque(args...)
	}
	return nil
}

// extStep is the pseudo-field holding what library code was given to put into an object.
const extStep = ".@x"

// contentDeps is everything the memory built here and reachable from v is computed from.
func (a *provFn) contentDeps(st provState, v *AV) strset {
	d := strset{}
	seen := map[string]bool{}
	var walk func(v *AV, n int)
	walk = func(v *AV, n int) {
		if v == nil || n > 4 {
			return
		}
		for l := range v.allPts() {
			r := rootOf(l)
			if !isFresh(l) || seen[r] {
				continue
			}
			seen[r] = true
			for k, c := range st {
				if k[0] != '@' && rootOf(k) == r {
					for x := range c.allDeps() {
						d[x] = true
					}
					walk(c, n+1)
				}
			}
		}
	}
	walk(v, 0)
	return d
}

func (a *provFn) externResult(st provState, c ssa.CallInstruction, args []*AV, nres int) *AV {
	o := a.opaque(args...)
	for _, v := range args {
		o.dep = union(o.dep, a.contentDeps(st, v))
	}
	// what a library object was given comes out of it later
	for i, v := range args {
		if v == nil || i > 0 {
			break
		}
		for l := range v.pts {
			if isFresh(l) && len(o.dep) > 0 {
				k := ext(l, extStep)
				n := joinAV(st[k], &AV{src: ss("?"), dep: o.dep})
				st[k] = n
			}
		}
	}
	// content reachable from the arguments matters too (formatting, joining)
	o.pts = ss("x")
	if nres <= 1 {
		return o
	}
	t := &AV{fields: map[string]*AV{}}
	for i := 0; i < nres; i++ {
		t.fields[fmt.Sprint(i)] = o
	}
	return t
}

// extern models the library calls that write through or alias their arguments.
func (a *provFn) extern(st provState, c ssa.CallInstruction, f *types.Func, args []*AV, nres int) *AV {
	name := f.FullName()
	elemT := func(i int) types.Type {
		if i < len(c.Common().Args) {
			if s, ok := c.Common().Args[i].Type().Underlying().(*types.Slice); ok {
				return s.Elem()
			}
		}
		return nil
	}
	mutElems := func(i int) {
		for l := range args[i].pts {
			a.mutate(ext(l, "[]"), c.Pos(), name, a.fn)
		}
	}
	switch {
	case strings.HasPrefix(name, "sort.") && len(args) > 0 && nres == 0,
		strings.HasPrefix(name, "slices.Sort") && nres == 0, name == "slices.Reverse", name == "maps.Copy", name == "maps.DeleteFunc":
		mutElems(0)
		return nil
	case name == "slices.Clone", name == "maps.Clone", name == "bytes.Clone":
		id := a.alloc(st, fmt.Sprintf("ap%p", c))
		var et types.Type
		switch u := c.Common().Args[0].Type().Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Map:
			et = u.Elem()
		}
		if et != nil {
			for l := range args[0].pts {
				a.storeLoc(st, ext(id, "[]"), et, a.loadLoc(st, ext(l, "[]"), et, 0), false, 0)
			}
		}
		return &AV{src: ss("?"), dep: args[0].allDeps(), pts: ss(id)}
	case name == "slices.Clip":
		return &AV{src: args[0].src, dep: args[0].dep, pts: args[0].pts, capped: true}
	case name == "slices.Delete", name == "slices.DeleteFunc", name == "slices.Compact", name == "slices.CompactFunc",
		name == "slices.Replace", name == "slices.Insert", name == "slices.Grow":
		if !args[0].capped || name != "slices.Grow" && name != "slices.Insert" {
			mutElems(0)
			for l := range args[0].pts {
				a.extend(l, c.Pos(), name, a.fn)
			}
		}
		id := a.alloc(st, fmt.Sprintf("ap%p", c))
		return &AV{src: ss("?"), dep: a.opaque(args...).dep, pts: union(args[0].pts, ss(id))}
	case name == "slices.Concat":
		id := a.alloc(st, fmt.Sprintf("ap%p", c))
		return &AV{src: ss("?"), dep: a.opaque(args...).dep, pts: ss(id)}
	}
	_ = elemT
	r := a.externResult(st, c, args, nres)
	if nres == 0 {
		return nil
	}
	return r
}
