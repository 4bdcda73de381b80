package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The bounds prover: decides linear inequalities between integers and lengths at a program point,
// from dominating conditions, loop induction, the values functions return, and field invariants.
// Demand driven; no value is enumerated.

// bFrame is a function in a calling context; the outermost frame has no known caller.
type bFrame struct {
	fn    *ssa.Function
	call  ssa.CallInstruction
	up    *bFrame
	id    string
	depth int
	cloUp *bFrame // frame in which a closure was made, for its free variables
	mc    *ssa.MakeClosure
}

type bSel struct {
	field *types.Var
	owner string
	index *bLin  // element
	fn    string // a pure function of the value
	tag   string
}

func (s bSel) key() string {
	if s.field != nil {
		return "." + s.field.Name() + s.tag
	}
	if s.fn != "" {
		return "|" + s.fn
	}
	return "[" + s.index.key() + "]" + s.tag
}

// bObj is a value: an SSA value in a frame (result idx of a call), and a path of fields and elements.
type bObj struct {
	fr   *bFrame
	v    ssa.Value
	idx  int
	sels []bSel
}

func (o bObj) key() string {
	var b strings.Builder
	switch x := o.v.(type) {
	case *ssa.Const:
		fmt.Fprintf(&b, "const:%s", x.Value)
	case *ssa.Global:
		b.WriteString("global:" + x.String())
	default:
		fmt.Fprintf(&b, "%s/%p#%d", o.fr.id, o.v, o.idx)
	}
	for _, s := range o.sels {
		b.WriteString(s.key())
	}
	return b.String()
}

func (o bObj) String() string {
	s := ""
	if o.v != nil {
		s = o.v.Name()
		if c, ok := o.v.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil {
				s += ":" + f.Name() + "()"
			}
		}
	}
	if o.fr != nil && o.fr.up != nil {
		s = o.fr.fn.Name() + ":" + s
	}
	for _, x := range o.sels {
		if x.field != nil {
			s += "." + x.field.Name()
		} else if x.fn != "" {
			s += "|" + x.fn
		} else {
			s += "[…]"
		}
	}
	return s
}

type bAtom struct {
	o     bObj
	isLen bool
	runes bool // the number of characters of a string
	k     string
}

type bLin struct {
	c int64
	t map[string]int64
	a map[string]*bAtom
	s string
}

func bConst(c int64) *bLin { return &bLin{c: c} }

func (l *bLin) key() string {
	if l.s == "" {
		ks := make([]string, 0, len(l.t))
		for k := range l.t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		fmt.Fprintf(&b, "%d", l.c)
		for _, k := range ks {
			fmt.Fprintf(&b, "%+d{%s}", l.t[k], k)
		}
		l.s = b.String()
	}
	return l.s
}

func (l *bLin) String() string {
	ks := make([]string, 0, len(l.t))
	for k := range l.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		a := l.a[k]
		n := a.o.String()
		if a.runes {
			n = "chars(" + n + ")"
		} else if a.isLen {
			n = "len(" + n + ")"
		}
		switch l.t[k] {
		case 1:
			s += " + " + n
		case -1:
			s += " - " + n
		default:
			s += fmt.Sprintf(" %+d*%s", l.t[k], n)
		}
	}
	if l.c != 0 || s == "" {
		s += fmt.Sprintf(" %+d", l.c)
	}
	return strings.TrimPrefix(strings.TrimSpace(s), "+ ")
}

func bAtomLin(a *bAtom) *bLin {
	return &bLin{t: map[string]int64{a.k: 1}, a: map[string]*bAtom{a.k: a}}
}

func (l *bLin) addScaled(m *bLin, k int64) *bLin {
	if k == 0 {
		return l
	}
	r := &bLin{c: l.c + k*m.c, t: map[string]int64{}, a: map[string]*bAtom{}}
	for x, c := range l.t {
		r.t[x], r.a[x] = c, l.a[x]
	}
	for x, c := range m.t {
		r.t[x] += k * c
		r.a[x] = m.a[x]
		if r.t[x] == 0 {
			delete(r.t, x)
			delete(r.a, x)
		}
	}
	return r
}

func (l *bLin) scale(k int64) *bLin { return bConst(0).addScaled(l, k) }
func (l *bLin) add(m *bLin) *bLin   { return l.addScaled(m, 1) }
func (l *bLin) sub(m *bLin) *bLin   { return l.addScaled(m, -1) }
func (l *bLin) plus(c int64) *bLin  { return l.addScaled(bConst(1), c) }
func (l *bLin) isConst() bool       { return len(l.t) == 0 }
func bOverflows(l *bLin) bool       { return l.c > 1<<40 || l.c < -(1<<40) || len(l.t) > 12 }

// bFact: l >= 0, or l != 0.
type bFact struct {
	l   *bLin
	neq bool
}

type bFacts struct {
	lins  []bFact
	flags map[string]string // object key -> "nil", "nonnil", "true", "false"
	ors   [][]*bFacts       // one of each list holds
}

func (f *bFacts) String() string {
	out := ""
	for _, x := range f.lins {
		op := ">=0"
		if x.neq {
			op = "!=0"
		}
		out += "{" + x.l.String() + op + "}"
	}
	return out
}

func (f *bFacts) clone() *bFacts {
	n := &bFacts{lins: append([]bFact{}, f.lins...), flags: map[string]string{}, ors: append([][]*bFacts{}, f.ors...)}
	for k, v := range f.flags {
		n.flags[k] = v
	}
	return n
}

func (f *bFacts) merge(g *bFacts) {
	f.lins = append(f.lins, g.lins...)
	f.ors = append(f.ors, g.ors...)
	for k, v := range g.flags {
		f.flags[k] = v
	}
}

// BProver holds the caches.
type BProver struct {
	w         *World
	frames    map[string]*bFrame
	facts     map[string]*bFacts
	fresh     map[string]int8 // function#result
	mods      map[*ssa.Function]map[string]bool
	unfrozen  map[string]bool
	tags      map[string]string
	budget    int
	Steps     int
	inv       map[string]*bInvState
	invOrder  []string
	stores    map[string][]*ssa.Store // "T.f" -> stores
	allocs    map[string][]*ssa.Alloc // T -> allocs of T
	exposed   map[string]bool         // T.f the application can set itself
	declared  map[string][2]int64     // declared invariants, used without search
	assumed   map[string]bool
	debug     bool
	pures     map[*ssa.Function]int8
	pureLow   map[string]bool
	cuts      map[any]bool
	maxSplit  int
	allUsed   bool
	exempt    func(*ssa.Function) bool
	noOrs     bool
	trace     bool
	linCache  map[string]*bLin
	rels      map[string][]bRel
	ors       map[string][][]*bFacts
	lenAlias  map[string]*bLin
	phis      map[string][]bFact
	elems     map[bElemKey]bool
	mems      map[bMemKey]*bMem
	memDepth  int
	invs      map[string][]*objInv
	changes   map[bMemKey]bool
	helperSet map[*ssa.Function]bool
	goalHyps  map[*bLin][]*bLin
}

func NewBProver(w *World) *BProver {
	p := &BProver{w: w, frames: map[string]*bFrame{}, facts: map[string]*bFacts{}, fresh: map[string]int8{}, tags: map[string]string{}, inv: map[string]*bInvState{}, linCache: map[string]*bLin{}, rels: map[string][]bRel{}, ors: map[string][][]*bFacts{}, lenAlias: map[string]*bLin{}, pures: map[*ssa.Function]int8{}, pureLow: map[string]bool{}, elems: map[bElemKey]bool{}, phis: map[string][]bFact{}, mems: map[bMemKey]*bMem{}, changes: map[bMemKey]bool{}, goalHyps: map[*bLin][]*bLin{}}
	p.computeMods()
	p.collectStores()
	return p
}

func (p *BProver) frame(fn *ssa.Function, call ssa.CallInstruction, up *bFrame) *bFrame {
	fn = origin(fn)
	id := ""
	if call != nil {
		id = fmt.Sprintf("%s>%p:%p", up.id, call, fn)
	} else {
		id = fmt.Sprintf("%p", fn)
	}
	if f := p.frames[id]; f != nil {
		return f
	}
	f := &bFrame{fn: fn, call: call, up: up, id: id}
	if up != nil {
		f.depth = up.depth + 1
	}
	p.frames[id] = f
	if call != nil {
		if mc, ok := call.Common().Value.(*ssa.MakeClosure); ok {
			f.cloUp, f.mc = up, mc
		}
	}
	if f.mc == nil && fn.Parent() != nil {
		if mcs := makersOf(fn); len(mcs) == 1 {
			if up != nil && up.fn == fn.Parent() {
				f.cloUp, f.mc = up, mcs[0]
			} else {
				f.cloUp, f.mc = p.frame(fn.Parent(), nil, nil), mcs[0]
			}
		}
	}
	return f
}

func makersOf(fn *ssa.Function) []*ssa.MakeClosure {
	var out []*ssa.MakeClosure
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(fn) {
				out = append(out, m)
			}
		}
	}
	return out
}

// argOf is the caller's value for a parameter.
func (fr *bFrame) argOf(par *ssa.Parameter) (ssa.Value, bool) {
	if fr.call == nil {
		return nil, false
	}
	i := -1
	for k, q := range fr.fn.Params {
		if q == par {
			i = k
		}
	}
	if i < 0 {
		return nil, false
	}
	com := fr.call.Common()
	if com.IsInvoke() {
		if i == 0 {
			return com.Value, true
		}
		i--
	}
	if i < len(com.Args) {
		return com.Args[i], true
	}
	return nil, false
}

// ---- memory effects ----

func fieldKeyOf(fa *ssa.FieldAddr) (string, *types.Var) {
	st := deref(fa.X.Type())
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	fv := s.Field(fa.Field)
	if n := namedOf(st); n != nil {
		return typeName(n.Origin()) + "." + fv.Name(), fv
	}
	return st.String() + "." + fv.Name(), fv
}

func fieldKeyT(t types.Type, i int) (string, *types.Var) {
	st := deref(t)
	s, ok := st.Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	fv := s.Field(i)
	if n := namedOf(st); n != nil {
		return typeName(n.Origin()) + "." + fv.Name(), fv
	}
	return st.String() + "." + fv.Name(), fv
}

func elemKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return "[]" + types.TypeString(u.Elem(), nil)
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return "[]" + types.TypeString(a.Elem(), nil)
		}
	case *types.Array:
		return "[]" + types.TypeString(u.Elem(), nil)
	}
	return "[]?"
}

// isFresh: the value is an object made in this function (or by a function that makes its results).
func (p *BProver) isFresh(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.MakeSlice:
		return true
	case *ssa.Call:
		if x.Call.IsInvoke() {
			return false
		}
		if g := x.Call.StaticCallee(); g != nil {
			g = origin(unwrap(g))
			return p.w.funcSet[g] && p.freshResult(g, 0)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && !c.Call.IsInvoke() {
			if g := c.Call.StaticCallee(); g != nil {
				g = origin(unwrap(g))
				return p.w.funcSet[g] && p.freshResult(g, x.Index)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Phi); ok || !p.isFresh(e) {
				return false
			}
		}
		return true
	case *ssa.FieldAddr:
		return p.isFresh(x.X)
	case *ssa.IndexAddr:
		// element of an array made here
		if a, ok := x.X.(*ssa.Alloc); ok {
			_ = a
			return true
		}
		if _, ok := x.X.(*ssa.MakeSlice); ok {
			return true
		}
	}
	return false
}

func (p *BProver) freshResult(g *ssa.Function, i int) bool {
	k := fmt.Sprintf("%p#%d", g, i)
	if v, ok := p.fresh[k]; ok {
		return v == 1
	}
	p.fresh[k] = 0
	n := 0
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if i >= len(r.Results) {
				return false
			}
			if c, ok := r.Results[i].(*ssa.Const); ok && c.Value == nil {
				continue
			}
			if !p.isFresh(r.Results[i]) {
				return false
			}
			n++
		}
	}
	if n > 0 {
		p.fresh[k] = 1
	}
	return n > 0
}

// structFields lists the field keys of a struct type, nested structs included.
func structFields(t types.Type, out map[string]bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		k, fv := fieldKeyT(t, i)
		out[k] = true
		structFields(fv.Type(), out)
	}
}

func (p *BProver) directMods(f *ssa.Function) map[string]bool {
	m := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for k := range p.instrMods(in) {
				m[k] = true
			}
		}
	}
	return m
}

// instrMods: what a single instruction (not a call) changes in objects that are not fresh.
func (p *BProver) instrMods(in ssa.Instruction) map[string]bool {
	m := map[string]bool{}
	switch x := in.(type) {
	case *ssa.Store:
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr:
			if !p.isFresh(a.X) {
				k, fv := fieldKeyOf(a)
				m[k] = true
				structFields(fv.Type(), m)
			}
		case *ssa.IndexAddr:
			if !p.isFresh(a) {
				m[elemKey(a.X.Type())] = true
				structFields(deref(a.Type()), m)
			}
		case *ssa.Alloc:
		case *ssa.Global:
			m["global:"+a.String()] = true
			structFields(deref(a.Type()), m)
		default:
			structFields(deref(x.Addr.Type()), m)
			m["*"+types.TypeString(deref(x.Addr.Type()), nil)] = true
		}
	case *ssa.MapUpdate:
		m["map"] = true
	case *ssa.Call:
		if isBuiltin(x, "copy") && !p.isFresh(x.Call.Args[0]) {
			m[elemKey(x.Call.Args[0].Type())] = true
		}
		if isBuiltin(x, "append") {
			if sl, ok := x.Call.Args[0].(*ssa.Slice); ok && sl.High != nil && !p.isFresh(sl.X) {
				m[elemKey(sl.Type())] = true
			}
		}
		if e := extCallee(x); e != nil && (extPkg(e) == "sort" || extPkg(e) == "slices") && len(x.Call.Args) > 0 {
			a := x.Call.Args[0]
			if mi, ok := a.(*ssa.MakeInterface); ok {
				a = mi.X
			}
			m[elemKey(a.Type())] = true
		}
	}
	return m
}

func (p *BProver) computeMods() {
	p.mods = map[*ssa.Function]map[string]bool{}
	callees := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.w.Funcs {
		p.mods[f] = p.directMods(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					ins, _, _ := p.w.Callees(c)
					callees[f] = append(callees[f], ins...)
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.w.Funcs {
			for _, g := range callees[f] {
				for k := range p.mods[g] {
					if !p.mods[f][k] {
						p.mods[f][k] = true
						changed = true
					}
				}
			}
		}
	}
	p.unfrozen = map[string]bool{}
	for _, f := range p.w.Funcs {
		for k := range p.directMods(f) {
			p.unfrozen[k] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if k := elemMods(in); k != "" {
					p.unfrozen[k] = true
				}
			}
		}
		// a field whose address is used for more than loads and stores can change anywhere
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, isStruct := deref(fa.Type()).Underlying().(*types.Struct); isStruct {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch y := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef, *ssa.IndexAddr, *ssa.Slice:
					case *ssa.Store:
						if y.Val == ssa.Value(fa) {
							k, _ := fieldKeyOf(fa)
							p.unfrozen[k] = true
						}
					default:
						k, _ := fieldKeyOf(fa)
						p.unfrozen[k] = true
					}
				}
			}
		}
	}
}

// elemMods: element stores, also into slices made in this function.
func elemMods(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Store:
		if a, ok := x.Addr.(*ssa.IndexAddr); ok {
			if _, lit := a.X.(*ssa.Alloc); !lit {
				return elemKey(a.X.Type())
			}
		}
	case *ssa.Call:
		if isBuiltin(x, "copy") {
			return elemKey(x.Call.Args[0].Type())
		}
		if isBuiltin(x, "append") {
			if sl, ok := x.Call.Args[0].(*ssa.Slice); ok && sl.High != nil {
				return elemKey(sl.Type())
			}
		}
	}
	return ""
}

func (p *BProver) mayModify(in ssa.Instruction, key string) bool {
	if strings.HasPrefix(key, "[]") && elemMods(in) == key {
		return true
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		if isBuiltin(c, "copy") {
			return p.instrMods(in)[key]
		}
		ins, ext, _ := p.w.Callees(c)
		for _, g := range ins {
			if p.mods[g][key] {
				return true
			}
		}
		if len(ext) > 0 {
			return p.instrMods(in)[key]
		}
		return false
	}
	return p.instrMods(in)[key]
}

// tag is the version of a piece of memory at an instruction: "" when nothing can have changed it since
// the outermost function was entered.
func (p *BProver) tag(fr *bFrame, at ssa.Instruction, key string) string {
	if !p.unfrozen[key] {
		return ""
	}
	ck := fmt.Sprintf("%s|%p|%s", fr.id, at, key)
	if t, ok := p.tags[ck]; ok {
		return t
	}
	var last ssa.Instruction
	n := 0
	entry := false
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, from int)
	scan = func(b *ssa.BasicBlock, from int) {
		for i := from; i >= 0; i-- {
			if p.mayModify(b.Instrs[i], key) {
				if last != b.Instrs[i] {
					n++
				}
				last = b.Instrs[i]
				return
			}
		}
		if len(b.Preds) == 0 {
			entry = true
		}
		for _, q := range b.Preds {
			if !seen[q] {
				seen[q] = true
				scan(q, len(q.Instrs)-1)
			}
		}
	}
	scan(at.Block(), instrIndex(at)-1)
	t := ""
	switch {
	case n == 0:
		if fr.call != nil {
			t = p.tag(fr.up, fr.call, key)
		}
	case n == 1 && !entry && instrDominates(last, at):
		t = fmt.Sprintf("@%s:%p", fr.id, last)
	default:
		t = fmt.Sprintf("@%s:%p", fr.id, at)
	}
	p.tags[ck] = t
	return t
}

// ---- values ----

func (p *BProver) simpleCallee(c *ssa.Call) *ssa.Function {
	if c.Call.IsInvoke() {
		return nil
	}
	g := c.Call.StaticCallee()
	if g == nil {
		return nil
	}
	g = origin(unwrap(g))
	if !p.w.funcSet[g] || len(g.Blocks) != 1 {
		return nil
	}
	if _, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return); !ok {
		return nil
	}
	return g
}

const bMaxDepth = 9

func (fr *bFrame) has(fn *ssa.Function) bool {
	n := 0
	for f := fr; f != nil; f = f.up {
		if f.fn == fn {
			n++
		}
	}
	return n > 0
}

func bRoot(fr *bFrame, v ssa.Value, idx int) bObj { return bObj{fr: fr, v: v, idx: idx} }

func (p *BProver) obj(fr *bFrame, v ssa.Value) bObj {
	switch x := v.(type) {
	case *bVal:
		return x.o
	case *ssa.Parameter:
		if a, ok := fr.argOf(x); ok {
			return p.obj(fr.up, a)
		}
	case *ssa.FreeVar:
		if fr.mc != nil {
			for i, fv := range fr.fn.FreeVars {
				if fv == x && i < len(fr.mc.Bindings) {
					return p.obj(fr.cloUp, fr.mc.Bindings[i])
				}
			}
		}
	case *ssa.ChangeType:
		return p.obj(fr, x.X)
	case *ssa.MakeInterface:
		return p.obj(fr, x.X)
	case *ssa.ChangeInterface:
		return p.obj(fr, x.X)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return p.obj(fr, x.X)
		}
	case *ssa.Convert:
		if isInteger(x.X.Type()) && isInteger(x.Type()) && bWidens(x.X.Type(), x.Type()) {
			return p.obj(fr, x.X)
		}
	case *ssa.Field:
		_, fv := fieldKeyT(x.X.Type(), x.Field)
		return p.sel(p.obj(fr, x.X), bSel{field: fv, owner: typeKey(x.X.Type())}, nil)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return p.load(fr, x)
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return p.obj(fr, ta.X)
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return p.callResult(fr, c, x.Index)
		}
	case *ssa.Call:
		return p.callResult(fr, x, 0)
	case *ssa.Phi:
		if len(x.Edges) > 0 && loopOf(x.Block()) == nil {
			k := ""
			var first bObj
			same := true
			for i, e := range x.Edges {
				if _, ok := e.(*ssa.Phi); ok {
					same = false
					break
				}
				o := p.obj(fr, e)
				if i == 0 {
					first, k = o, o.key()
				} else if o.key() != k {
					same = false
					break
				}
			}
			if same {
				return first
			}
		}
	}
	return bRoot(fr, v, 0)
}

func typeKey(t types.Type) string {
	t = deref(t)
	if n := namedOf(t); n != nil {
		return typeName(n.Origin())
	}
	return t.String()
}

func bWidens(from, to types.Type) bool {
	size := func(t types.Type) (int, bool) {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return 0, false
		}
		uns := b.Info()&types.IsUnsigned != 0
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8, uns
		case types.Int16, types.Uint16:
			return 16, uns
		case types.Int32, types.Uint32:
			return 32, uns
		}
		return 64, uns
	}
	a, au := size(from)
	b, bu := size(to)
	if au == bu {
		return b >= a
	}
	return au && b > a
}

func (p *BProver) callResult(fr *bFrame, c *ssa.Call, idx int) bObj {
	if a, name := p.pureCall(c); a != nil {
		return p.sel(p.obj(fr, a), bSel{fn: name}, nil)
	}
	if g := p.simpleCallee(c); g != nil && fr.depth < bMaxDepth && !fr.has(g) {
		ret := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
		if idx < len(ret.Results) {
			return p.obj(p.frame(g, c, fr), ret.Results[idx])
		}
	}
	return bRoot(fr, c, idx)
}

// sel applies a field or element selection; at is the instruction that reads memory, nil for values.
func (p *BProver) sel(o bObj, s bSel, at ssa.Instruction) bObj {
	if s.field != nil && len(o.sels) == 0 {
		switch x := o.v.(type) {
		case *ssa.Const:
			return bObj{fr: o.fr, v: zeroConst(s.field.Type())}
		case *ssa.UnOp:
			if st, ok := deref(x.X.Type()).Underlying().(*types.Struct); ok && x.Op == token.MUL {
				if i := bFieldIndex(st, s.field); i >= 0 {
					if _, isAlloc := x.X.(*ssa.Alloc); isAlloc || p.isFresh(x.X) {
						key, fv := fieldKeyT(x.X.Type(), i)
						return p.readField(o.fr, x.X, i, key, fv, x)
					}
				}
			}
		}
	}
	sels := append(append([]bSel{}, o.sels...), s)
	return bObj{fr: o.fr, v: o.v, idx: o.idx, sels: sels}
}

func (p *BProver) load(fr *bFrame, u *ssa.UnOp) bObj {
	switch a := u.X.(type) {
	case *ssa.FieldAddr:
		return p.loadField(fr, a.X, a, u)
	case *ssa.IndexAddr:
		if al, ok := a.X.(*ssa.Alloc); ok {
			if v := p.arrayElem(fr, al, a.Index, u); v != nil {
				return p.obj(fr, v)
			}
		}
		return p.loadElem(fr, a, u)
	case *ssa.Alloc:
		if v := p.reachCell(fr, a, u); v != nil {
			return p.obj(fr, v)
		}
		if l := p.firstLoad(a, u); l != nil {
			return bRoot(fr, l, 0)
		}
		return bRoot(fr, u, 0)
	case *ssa.Global:
		if !p.unfrozen["global:"+a.String()] {
			return bRoot(fr, a, 0)
		}
		return bRoot(fr, u, 0)
	case *ssa.FreeVar:
		if fr.mc != nil {
			for i, fv := range fr.fn.FreeVars {
				if fv != a || i >= len(fr.mc.Bindings) {
					continue
				}
				if al, ok := fr.mc.Bindings[i].(*ssa.Alloc); ok {
					if st := onlyStore(al); st != nil && instrDominates(st, fr.mc) {
						return p.obj(fr.cloUp, st.Val)
					}
					if fn, _ := fr.mc.Fn.(*ssa.Function); fn != nil && !storesFree(fn, fr.mc, al) {
						if o, ok := p.capturedAt(fr, al); ok {
							return o
						}
					}
				}
			}
		}
		return bRoot(fr, u, 0)
	case *ssa.Parameter, *ssa.Call, *ssa.Phi, *ssa.UnOp, *ssa.Extract, *ssa.TypeAssert:
		if st, ok := deref(u.X.Type()).Underlying().(*types.Struct); ok {
			_ = st
			o := p.obj(fr, u.X)
			fs := map[string]bool{}
			structFields(deref(u.X.Type()), fs)
			for k := range fs {
				if p.unfrozen[k] && p.tag(fr, u, k) != "" {
					return bRoot(fr, u, 0)
				}
			}
			if len(o.sels) == 0 && p.isFresh(o.v) {
				return bRoot(fr, u, 0)
			}
			return o
		}
	}
	return bRoot(fr, u, 0)
}

// loadField reads field fa of the object base points to, at instruction at of frame fr.
func (p *BProver) loadField(fr *bFrame, base ssa.Value, fa *ssa.FieldAddr, at ssa.Instruction) bObj {
	key, fv := fieldKeyOf(fa)
	return p.readField(fr, base, fa.Field, key, fv, at)
}

func (p *BProver) readField(fr *bFrame, base ssa.Value, field int, key string, fv *types.Var, at ssa.Instruction) bObj {
	own := strings.TrimSuffix(key, "."+fv.Name())
	opaque := func() bObj {
		if v, ok := at.(ssa.Value); ok {
			return bRoot(fr, v, 0)
		}
		return bObj{fr: fr, v: base, sels: []bSel{{field: fv, owner: own, tag: fmt.Sprintf("@%s:%p", fr.id, at)}}}
	}
	switch b := base.(type) {
	case *ssa.Parameter:
		if a, ok := fr.argOf(b); ok {
			if p.unfrozen[key] {
				if t := p.localMod(fr, at, key); t {
					if o, ok := p.memAt(fr, b, field, key, fv, at); ok {
						return o
					}
					return opaque()
				}
			}
			return p.readField(fr.up, a, field, key, fv, fr.call)
		}
		if p.unfrozen[key] && p.localMod(fr, at, key) {
			if o, ok := p.memAt(fr, b, field, key, fv, at); ok {
				return o
			}
		}
	case *ssa.ChangeType:
		return p.readField(fr, b.X, field, key, fv, at)
	case *ssa.Alloc, *ssa.Call, *ssa.Extract, *ssa.Phi:
		if p.isFresh(b) {
			if _, isStruct := fv.Type().Underlying().(*types.Struct); isStruct && nestedStores(b) {
				return opaque()
			}
			kind, val := p.reachField(fr, b, field, key, at)
			switch kind {
			case 'v': // stored value
				return p.obj(fr, val)
			case 'w': // whole store
				if u, ok := val.(*ssa.UnOp); ok && u.Op == token.MUL {
					return p.readField(fr, u.X, field, key, fv, u)
				}
				return p.sel(p.obj(fr, val), bSel{field: fv, owner: own}, nil)
			case 'z':
				return bObj{fr: fr, v: zeroConst(fv.Type())}
			case 'o':
				if c, idx := asCall(b); c != nil {
					// the object the callee returned, as it was then
					if g := p.simpleCallee(c); g != nil && fr.depth < bMaxDepth && !fr.has(g) {
						ret := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
						return p.readField(p.frame(g, c, fr), ret.Results[idx], field, key, fv, ret)
					}
					return p.sel(bRoot(fr, c, idx), bSel{field: fv, owner: own}, nil)
				}
				return p.sel(bRoot(fr, b, 0), bSel{field: fv, owner: own}, nil)
			}
			if o, ok := p.memAt(fr, b, field, key, fv, at); ok {
				return o
			}
			return opaque()
		}
	case *ssa.FieldAddr: // nested struct
		k2, fv2 := fieldKeyOf(b)
		if root := freshRoot(b); root != nil && nestedStores(root) {
			return opaque()
		}
		o := p.readField(fr, b.X, b.Field, k2, fv2, at)
		return p.sel(o, bSel{field: fv, owner: own, tag: p.tag(fr, at, key)}, at)
	case *ssa.IndexAddr:
		o := p.loadElem(fr, b, at)
		return p.sel(o, bSel{field: fv, owner: own, tag: p.tag(fr, at, key)}, at)
	case *ssa.Global:
		return p.sel(bRoot(fr, b, 0), bSel{field: fv, owner: own, tag: p.tag(fr, at, key)}, at)
	case *ssa.FreeVar:
		if fr.mc != nil {
			for i, x := range fr.fn.FreeVars {
				if x == b && i < len(fr.mc.Bindings) {
					if al, ok := fr.mc.Bindings[i].(*ssa.Alloc); ok && fr.call != nil && fr.call.Common().Value == ssa.Value(fr.mc) && readsFree(fr.fn, i) {
						return p.readField(fr.cloUp, al, field, key, fv, fr.call)
					}
					o := p.obj(fr.cloUp, fr.mc.Bindings[i])
					return p.sel(o, bSel{field: fv, owner: own, tag: p.tag(fr, at, key)}, at)
				}
			}
		}
	}
	o := p.obj(fr, base)
	// the base may itself resolve to an object made in some frame
	if len(o.sels) == 0 && o.v != base {
		if _, isp := o.v.(*ssa.Parameter); !isp && p.isFresh(o.v) {
			if in, ok := o.v.(ssa.Instruction); ok && o.fr.fn == in.Parent() {
				pt := p.pointIn(o.fr, fr, at)
				if pt != nil {
					return p.readField(o.fr, o.v, field, key, fv, pt)
				}
				// an object returned by a callee: as it was at the return
				if rets := returnsOf(o.fr.fn); len(rets) == 1 && o.fr.call != nil {
					return p.readField(o.fr, o.v, field, key, fv, rets[0])
				}
			}
		}
	}
	return p.sel(o, bSel{field: fv, owner: own, tag: p.tag(fr, at, key)}, at)
}

func returnsOf(f *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			out = append(out, r)
		}
	}
	return out
}

// pointIn: the instruction of frame outer that is being executed when frame fr is at `at`.
func (p *BProver) pointIn(outer, fr *bFrame, at ssa.Instruction) ssa.Instruction {
	for f := fr; f != nil; f = f.up {
		if f == outer {
			return at
		}
		if f.call == nil {
			return nil
		}
		at = f.call
	}
	return nil
}

func asCall(v ssa.Value) (*ssa.Call, int) {
	switch x := v.(type) {
	case *ssa.Call:
		return x, 0
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, x.Index
		}
	}
	return nil, 0
}

func zeroConst(t types.Type) ssa.Value {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			return ssa.NewConst(constant.MakeInt64(0), t)
		case b.Info()&types.IsString != 0:
			return ssa.NewConst(constant.MakeString(""), t)
		case b.Info()&types.IsBoolean != 0:
			return ssa.NewConst(constant.MakeBool(false), t)
		}
	}
	return ssa.NewConst(nil, t)
}

func freshRoot(fa *ssa.FieldAddr) ssa.Value {
	for {
		switch x := fa.X.(type) {
		case *ssa.FieldAddr:
			fa = x
		default:
			return x
		}
	}
}

// nestedStores: something is stored into a struct that is a field of the object.
func nestedStores(root ssa.Value) bool {
	var rec func(v ssa.Value, depth int) bool
	rec = func(v ssa.Value, depth int) bool {
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.FieldAddr:
				if x.X == v && rec(x, depth+1) {
					return true
				}
			case *ssa.Store:
				if x.Addr == v && depth >= 2 {
					return true
				}
			}
		}
		return false
	}
	return rec(root, 0)
}

func (p *BProver) localMod(fr *bFrame, at ssa.Instruction, key string) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, from int) bool
	scan = func(b *ssa.BasicBlock, from int) bool {
		for i := from; i >= 0; i-- {
			if p.mayModify(b.Instrs[i], key) {
				return true
			}
		}
		for _, q := range b.Preds {
			if !seen[q] {
				seen[q] = true
				if scan(q, len(q.Instrs)-1) {
					return true
				}
			}
		}
		return false
	}
	return scan(at.Block(), instrIndex(at)-1)
}

// reachField: the definition of base.field that reaches the instruction.
// 'v' value stored, 'w' whole value stored, 'z' zero value, 'o' as the object was made, '?' several.
func (p *BProver) reachField(fr *bFrame, base ssa.Value, field int, key string, at ssa.Instruction) (byte, ssa.Value) {
	type def struct {
		k byte
		v ssa.Value
	}
	var defs []def
	add := func(d def) {
		for _, e := range defs {
			if e == d {
				return
			}
		}
		defs = append(defs, d)
	}
	baseIn, _ := base.(ssa.Instruction)
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, from int)
	scan = func(b *ssa.BasicBlock, from int) {
		for i := from; i >= 0; i-- {
			in := b.Instrs[i]
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == base && fa.Field == field {
					add(def{'v', st.Val})
					return
				}
				if st.Addr == base {
					add(def{'w', st.Val})
					return
				}
			}
			if in == baseIn {
				if _, ok := base.(*ssa.Alloc); ok {
					add(def{'z', nil})
				} else {
					add(def{'o', nil})
				}
				return
			}
			if c, ok := in.(ssa.CallInstruction); ok && p.unfrozen[key] && p.mayModify(in, key) {
				// only if the object is known to the callee or has been stored away
				for _, a := range c.Common().Args {
					if a == base {
						add(def{'?', nil})
						return
					}
				}
				if c.Common().IsInvoke() && c.Common().Value == base || escapes(base) {
					add(def{'?', nil})
					return
				}
			}
		}
		for _, q := range b.Preds {
			if !seen[q] {
				seen[q] = true
				scan(q, len(q.Instrs)-1)
			}
		}
	}
	scan(at.Block(), instrIndex(at)-1)
	if len(defs) == 1 {
		return defs[0].k, defs[0].v
	}
	return '?', nil
}

// escapes: the address is stored or captured somewhere.
func escapes(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == v {
				return true
			}
		case *ssa.MakeClosure, *ssa.MakeInterface, *ssa.Phi, *ssa.Send, *ssa.MapUpdate:
			return true
		}
	}
	return false
}

// reachCell: the value a local variable's cell holds.
func (p *BProver) reachCell(fr *bFrame, al *ssa.Alloc, at ssa.Instruction) ssa.Value {
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store, *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
		case *ssa.MakeClosure:
			// captured: fine if no closure stores to it
			fn, _ := x.Fn.(*ssa.Function)
			if fn == nil || storesFree(fn, x, al) {
				return nil
			}
		default:
			return nil
		}
	}
	if _, ok := deref(al.Type()).Underlying().(*types.Struct); ok {
		for _, r := range *al.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok {
				for _, q := range *fa.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
						return nil
					}
				}
			}
		}
	}
	var vals []ssa.Value
	zero := false
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, from int)
	scan = func(b *ssa.BasicBlock, from int) {
		for i := from; i >= 0; i-- {
			in := b.Instrs[i]
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
				for _, v := range vals {
					if v == st.Val {
						return
					}
				}
				vals = append(vals, st.Val)
				return
			}
			if in == ssa.Instruction(al) {
				zero = true
				return
			}
		}
		for _, q := range b.Preds {
			if !seen[q] {
				seen[q] = true
				scan(q, len(q.Instrs)-1)
			}
		}
	}
	scan(at.Block(), instrIndex(at)-1)
	if len(vals) == 1 && !zero {
		return vals[0]
	}
	if len(vals) == 0 && zero {
		return zeroConst(deref(al.Type()))
	}
	return nil
}

// onlyStore: the one store a captured variable ever gets.
func onlyStore(al *ssa.Alloc) *ssa.Store {
	var out *ssa.Store
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) || out != nil {
				return nil
			}
			out = x
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn, _ := x.Fn.(*ssa.Function)
			if fn == nil || storesFree(fn, x, al) {
				return nil
			}
		default:
			return nil
		}
	}
	return out
}

// readsFree: the closure only reads (fields of) the captured variable.
func readsFree(fn *ssa.Function, i int) bool {
	for _, r := range *fn.FreeVars[i].Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, q := range *x.Referrers() {
				switch q.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func storesFree(fn *ssa.Function, mc *ssa.MakeClosure, al *ssa.Alloc) bool {
	for i, b := range mc.Bindings {
		if b != ssa.Value(al) || i >= len(fn.FreeVars) {
			continue
		}
		for _, r := range *fn.FreeVars[i].Referrers() {
			switch r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return true
			}
		}
	}
	return false
}

// arrayElem: the single store to a constant element of a local array (variadic arguments).
func (p *BProver) arrayElem(fr *bFrame, al *ssa.Alloc, idx ssa.Value, at ssa.Instruction) ssa.Value {
	c, ok := idx.(*ssa.Const)
	if !ok {
		return nil
	}
	var out ssa.Value
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		ic, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		if ic.Int64() != c.Int64() {
			continue
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				if out != nil {
					return nil
				}
				out = st.Val
			}
		}
	}
	return out
}

// ---- linear forms ----

func (p *BProver) atom(o bObj, isLen bool) *bLin {
	k := o.key()
	if isLen {
		k = "len:" + k
	}
	return bAtomLin(&bAtom{o: o, isLen: isLen, k: k})
}

func (p *BProver) lin(fr *bFrame, v ssa.Value) *bLin { return p.linObj(p.obj(fr, v)) }

func (p *BProver) linObj(o bObj) *bLin {
	if len(o.sels) > 0 {
		return p.atom(o, false)
	}
	fr := o.fr
	switch x := o.v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(x.Value); ok {
				return bConst(n)
			}
		}
		if x.Value == nil && isInteger(x.Type()) {
			return bConst(0)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			if isInteger(x.Type()) {
				return p.lin(fr, x.X).add(p.lin(fr, x.Y))
			}
		case token.SUB:
			if isInteger(x.Type()) && !isUnsigned(x.Type()) {
				return p.lin(fr, x.X).sub(p.lin(fr, x.Y))
			}
		case token.MUL:
			if isInteger(x.Type()) {
				a, b := p.lin(fr, x.X), p.lin(fr, x.Y)
				if a.isConst() {
					return b.scale(a.c)
				}
				if b.isConst() {
					return a.scale(b.c)
				}
			}
		case token.SHL:
			if b := p.lin(fr, x.Y); b.isConst() && b.c >= 0 && b.c < 30 && !isUnsigned(x.Type()) {
				return p.lin(fr, x.X).scale(1 << b.c)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.SUB && isInteger(x.Type()) {
			return p.lin(fr, x.X).scale(-1)
		}
	case *ssa.Call:
		if isBuiltin(x, "len") {
			if _, isMap := x.Call.Args[0].Type().Underlying().(*types.Map); isMap {
				return p.atom(bRoot(fr, x, 0), true) // of that moment: maps grow in place
			}
			return p.lenOf(fr, x.Call.Args[0])
		}
		if e := extCallee(x); e != nil && e.FullName() == "unicode/utf8.RuneCountInString" {
			return p.runesObj(p.obj(fr, x.Call.Args[0]))
		}
	}
	return p.atom(o, false)
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (p *BProver) lenOf(fr *bFrame, v ssa.Value) *bLin {
	switch x := v.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr: // address of an array
		if a, ok := deref(v.Type()).Underlying().(*types.Array); ok {
			return bConst(a.Len())
		}
		_ = x
	}
	return p.lenObj(p.obj(fr, v))
}

func (p *BProver) lenObj(o bObj) *bLin {
	t := o.typ()
	if t != nil {
		u := t.Underlying()
		if pt, ok := u.(*types.Pointer); ok {
			u = pt.Elem().Underlying()
		}
		if a, ok := u.(*types.Array); ok {
			return bConst(a.Len())
		}
	}
	if len(o.sels) > 0 {
		if l := p.lenAlias[o.key()]; l != nil {
			return l
		}
		return p.atom(o, true)
	}
	fr := o.fr
	switch x := o.v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return bConst(0)
		}
		if x.Value.Kind() == constant.String {
			return bConst(int64(len(constant.StringVal(x.Value))))
		}
	case *ssa.MakeSlice:
		return p.lin(fr, x.Len)
	case *ssa.Slice:
		lo := bConst(0)
		if x.Low != nil {
			lo = p.lin(fr, x.Low)
		}
		hi := p.lenOf(fr, x.X)
		if x.High != nil {
			hi = p.lin(fr, x.High)
		}
		return hi.sub(lo)
	case *ssa.Convert:
		from, to := x.X.Type().Underlying(), x.Type().Underlying()
		if (isString(from) && isByteSlice(to)) || (isByteSlice(from) && isString(to)) {
			return p.lenOf(fr, x.X)
		}
		if isString(from) && isRuneSlice(to) {
			return p.runesObj(p.obj(fr, x.X))
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isString(x.Type()) {
			return p.lenOf(fr, x.X).add(p.lenOf(fr, x.Y))
		}
	case *ssa.Call:
		if isBuiltin(x, "append") {
			if len(x.Call.Args) == 1 {
				return p.lenOf(fr, x.Call.Args[0])
			}
			return p.lenOf(fr, x.Call.Args[0]).add(p.lenOf(fr, x.Call.Args[1]))
		}
		if e := extCallee(x); e != nil {
			switch e.FullName() {
			case "strings.Repeat":
				a, n := p.lenOf(fr, x.Call.Args[0]), p.lin(fr, x.Call.Args[1])
				if a.isConst() {
					return n.scale(a.c)
				}
			case "bytes.Clone", "strings.Clone", "slices.Clone":
				return p.lenOf(fr, x.Call.Args[0])
			}
		}
	}
	return p.atom(o, true)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// typ is the static type of the object, nil when not known.
func (o bObj) typ() types.Type {
	if n := len(o.sels); n > 0 {
		if o.sels[n-1].field != nil {
			return o.sels[n-1].field.Type()
		}
		if o.sels[n-1].fn != "" {
			return types.Typ[types.Int]
		}
		q := bObj{fr: o.fr, v: o.v, idx: o.idx, sels: o.sels[:n-1]}
		if t := q.typ(); t != nil {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				return u.Elem()
			case *types.Array:
				return u.Elem()
			case *types.Pointer:
				if a, ok := u.Elem().Underlying().(*types.Array); ok {
					return a.Elem()
				}
			}
		}
		return nil
	}
	if c, ok := o.v.(*ssa.Call); ok {
		res := c.Call.Signature().Results()
		if o.idx < res.Len() {
			return res.At(o.idx).Type()
		}
		return nil
	}
	if g, ok := o.v.(*ssa.Global); ok {
		return deref(g.Type())
	}
	return o.v.Type()
}
