package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- elements of slices made in the program ----

// elemAt: the element idx of the slice o as it is at instruction at of frame fr, when one store or copy decides it.
func (p *BProver) elemAt(fr *bFrame, o bObj, idx *bLin, key string, at ssa.Instruction) (bObj, bool) {
	return p.elemScan(fr, o, idx, key, at, 0)
}

func (p *BProver) elemScan(fr *bFrame, o bObj, idx *bLin, key string, at ssa.Instruction, depth int) (bObj, bool) {
	if len(o.sels) > 0 || depth > 6 {
		return bObj{}, false
	}
	ms, ok := o.v.(*ssa.MakeSlice)
	if !ok {
		return bObj{}, false
	}
	// where the slice came to be, seen from fr
	var stop ssa.Instruction
	var child *bFrame
	if fr == o.fr {
		stop = ms
	} else {
		for x := o.fr; x != nil && x.up != nil; x = x.up {
			if x.up == fr {
				stop, child = x.call, x
			}
		}
	}
	var mods []ssa.Instruction
	reachedEntry, reachedStop := false, false
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, from int)
	scan = func(b *ssa.BasicBlock, from int) {
		for i := from; i >= 0; i-- {
			in := b.Instrs[i]
			if in == stop {
				reachedStop = true
				return
			}
			if p.mayModify(in, key) {
				for _, m := range mods {
					if m == in {
						return
					}
				}
				mods = append(mods, in)
				return
			}
		}
		if len(b.Preds) == 0 {
			reachedEntry = true
		}
		for _, q := range b.Preds {
			if !seen[q] {
				seen[q] = true
				scan(q, len(q.Instrs)-1)
			}
		}
	}
	scan(at.Block(), instrIndex(at)-1)
	if len(mods) == 0 {
		if stop != nil {
			if reachedEntry || child == nil {
				return bObj{}, false
			}
			rets := returnsOf(child.fn)
			if len(rets) != 1 {
				return bObj{}, false
			}
			return p.elemScan(child, o, idx, key, rets[0], depth+1)
		}
		if fr.call != nil {
			return p.elemScan(fr.up, o, idx, key, fr.call, depth+1)
		}
		return bObj{}, false
	}
	if len(mods) > 1 || reachedStop || reachedEntry || !instrDominates(mods[0], at) {
		return bObj{}, false
	}
	switch m := mods[0].(type) {
	case *ssa.Store:
		ia, ok := m.Addr.(*ssa.IndexAddr)
		if !ok || p.obj(fr, ia.X).key() != o.key() || p.lin(fr, ia.Index).key() != idx.key() {
			return bObj{}, false
		}
		return p.obj(fr, m.Val), true
	case *ssa.Call:
		if !isBuiltin(m, "copy") {
			return bObj{}, false
		}
		d, s := p.obj(fr, m.Call.Args[0]), p.obj(fr, m.Call.Args[1])
		if d.key() != o.key() || p.lenObj(d).key() != p.lenObj(s).key() || s.key() == o.key() {
			return bObj{}, false
		}
		if r, ok := p.elemScan(fr, s, idx, key, m, depth+1); ok {
			return r, true
		}
		return p.sel(s, bSel{index: idx, tag: p.tag(fr, m, key)}, m), true
	}
	return bObj{}, false
}

// uniformLen: every element of the slice made by ms has the same length, once its filling loop is over.
type bUniform struct {
	l    *bLin
	loop *natLoop
	ok   bool
}

func (p *BProver) uniform(fr *bFrame, ms *ssa.MakeSlice) *bUniform {
	u := &bUniform{}
	fn := ms.Parent()
	key := elemKey(ms.Type())
	var stores []*ssa.Store
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok && ia.X == ssa.Value(ms) {
					stores = append(stores, st)
					continue
				}
			}
			if p.mayModify(in, key) {
				return u
			}
		}
	}
	if len(stores) != 1 {
		return u
	}
	st := stores[0]
	lp := p.fillLoop(fr, ms, st)
	if lp == nil {
		return u
	}
	l := p.lenOf(fr, st.Val)
	if linInLoop(l, fr, lp, nil) {
		return u
	}
	return &bUniform{l: l, loop: lp, ok: true}
}

// fillLoop: the loop that stores every element of ms once.
func (p *BProver) fillLoop(fr *bFrame, ms *ssa.MakeSlice, st *ssa.Store) *natLoop {
	ia := st.Addr.(*ssa.IndexAddr)
	for h := st.Block(); h != nil; h = h.Idom() {
		lp := loopOf(h)
		if lp == nil || !lp.body[st.Block()] || lp.body[ms.Block()] {
			continue
		}
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok || !lp.body[h.Succs[0]] || lp.body[h.Succs[1]] {
			continue
		}
		// every round stores, and only the header leaves the loop
		good := true
		for _, q := range h.Preds {
			if lp.body[q] && !st.Block().Dominates(q) {
				good = false
			}
		}
		for b := range lp.body {
			for _, s := range b.Succs {
				if !lp.body[s] && b != h {
					good = false
				}
			}
		}
		if !good {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS && cmp.Op != token.NEQ || p.lin(fr, cmp.Y).key() != p.lin(fr, ms.Len).key() {
			continue
		}
		// the index counts from 0 by 1
		iv := ia.Index
		if cmp.X != iv {
			continue
		}
		var ph *ssa.Phi
		first, off := int64(0), int64(0)
		switch x := iv.(type) {
		case *ssa.Phi:
			ph = x
		case *ssa.BinOp: // range loops: t = phi[-1, t] + 1
			q, ok := x.X.(*ssa.Phi)
			if c := p.lin(fr, x.Y); ok && x.Op == token.ADD && c.isConst() && c.c == 1 {
				ph, off = q, 1
			}
		}
		if ph == nil || ph.Block() != h {
			continue
		}
		first = -off
		good = true
		self := p.lin(fr, ph)
		for i, e := range ph.Edges {
			d := p.lin(fr, e)
			if lp.body[h.Preds[i]] {
				d = d.sub(self)
				if !d.isConst() || d.c != 1 {
					good = false
				}
			} else if !d.isConst() || d.c != first {
				good = false
			}
		}
		if good {
			return lp
		}
	}
	return nil
}

// uniformElem: the length of an element of a slice, read at instruction at of frame fr.
func (p *BProver) uniformElem(fr *bFrame, o bObj, at ssa.Instruction) *bLin {
	if len(o.sels) > 0 {
		return nil
	}
	ms, ok := o.v.(*ssa.MakeSlice)
	if !ok {
		return nil
	}
	u := p.uniform(o.fr, ms)
	if !u.ok {
		return nil
	}
	// reads in the same frame must come after the loop
	if fr == o.fr && !p.afterLoop(u.loop, at) {
		return nil
	}
	for x := fr; x != nil; x = x.up {
		if x.up == o.fr && !p.afterLoop(u.loop, x.call) {
			return nil
		}
	}
	if fr != o.fr && !fr.under(o.fr) && !o.fr.under(fr) {
		return nil
	}
	// nothing else writes elements of this kind
	return u.l
}

func (fr *bFrame) under(up *bFrame) bool {
	for x := fr; x != nil; x = x.up {
		if x == up {
			return true
		}
	}
	return false
}

func (p *BProver) afterLoop(lp *natLoop, at ssa.Instruction) bool {
	b := at.Block()
	if lp.body[b] {
		return false
	}
	return lp.head.Dominates(b)
}

// ---- relations between the fields of one object ----

type bRel struct {
	slice, num *types.Var
	elem       bool
}

// relsOf: proved relations of a struct type.
func (p *BProver) relsOf(owner string) []bRel {
	if r, ok := p.rels[owner]; ok {
		return r
	}
	p.rels[owner] = nil
	n := p.w.typeByName(owner)
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []bRel
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		sl, ok := f.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		for j := 0; j < st.NumFields(); j++ {
			g := st.Field(j)
			if !isInteger(g.Type()) {
				continue
			}
			if r := (bRel{f, g, false}); p.relHolds(owner, r) {
				out = append(out, r)
			}
			if _, ok := sl.Elem().Underlying().(*types.Slice); ok {
				if r := (bRel{f, g, true}); p.relHolds(owner, r) {
					out = append(out, r)
				}
			}
		}
	}
	p.rels[owner] = out
	return out
}

// relHolds: every object of the type is made with the relation, and the fields are not stored to afterwards.
func (p *BProver) relHolds(owner string, r bRel) bool {
	fk, gk := owner+"."+r.slice.Name(), owner+"."+r.num.Name()
	if p.unfrozen[fk] || p.unfrozen[gk] || len(p.stores[fk]) == 0 || len(p.stores[gk]) == 0 {
		return false
	}
	if (r.slice.Exported() || r.num.Exported()) && p.publicType(owner) {
		return false
	}
	made := map[*ssa.Alloc]bool{}
	for _, k := range []string{fk, gk} {
		for _, st := range p.stores[k] {
			al, ok := st.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc)
			if !ok {
				return false
			}
			made[al] = true
		}
	}
	if r.elem {
		// rows are stored only while the slice that holds them is filled
		ek := elemKey(r.slice.Type())
		for _, f := range p.w.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if !p.instrMods(in)[ek] && elemMods(in) != ek {
						continue
					}
					st, ok := in.(*ssa.Store)
					if !ok {
						return false
					}
					ms, ok := st.Addr.(*ssa.IndexAddr).X.(*ssa.MakeSlice)
					if !ok || !p.uniform(p.frame(f, nil, nil), ms).ok {
						return false
					}
				}
			}
		}
	}
	for al := range made {
		fr := p.frame(al.Parent(), nil, nil)
		var sv, nv ssa.Value
		var last ssa.Instruction
		for _, q := range *al.Referrers() {
			switch x := q.(type) {
			case *ssa.FieldAddr:
				_, fv := fieldKeyOf(x)
				for _, y := range *x.Referrers() {
					if s, ok := y.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
						switch fv.Name() {
						case r.slice.Name():
							if sv != nil {
								return false
							}
							sv, last = s.Val, s
						case r.num.Name():
							if nv != nil {
								return false
							}
							nv = s.Val
						}
					}
				}
			case *ssa.Return, *ssa.DebugRef:
			default:
				return false
			}
		}
		if sv == nil || nv == nil {
			return false
		}
		var d *bLin
		if r.elem {
			d = p.uniformElem(fr, p.obj(fr, sv), last)
			if d == nil {
				return false
			}
		} else {
			d = p.lenOf(fr, sv)
		}
		d = d.sub(p.lin(fr, nv))
		if !d.isConst() || d.c != 0 {
			return false
		}
	}
	return len(made) > 0
}

func (w *World) typeByName(name string) *types.Named {
	if w.namedIdx == nil {
		w.namedIdx = map[string]*types.Named{}
		for _, pk := range w.Pkgs {
			sc := pk.Types.Scope()
			for _, n := range sc.Names() {
				if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
					if nt := namedOf(tn.Type()); nt != nil {
						w.namedIdx[typeName(nt.Origin())] = nt.Origin()
					}
				}
			}
		}
	}
	return w.namedIdx[name]
}

// relations: facts about a field (or the length of one, or of an element of one) and the other fields of the object.
func (p *BProver) relations(st *bState, a *bAtom, depth int) []bFact {
	var out []bFact
	eq := func(x, y *bLin) { out = append(out, bFact{l: x.sub(y)}, bFact{l: y.sub(x)}) }
	self := bAtomLin(a)
	sels := a.o.sels
	n := len(sels)
	sib := func(k int, f *types.Var, owner string) bObj {
		return bObj{fr: a.o.fr, v: a.o.v, idx: a.o.idx, sels: append(append([]bSel{}, sels[:k]...), bSel{field: f, owner: owner})}
	}
	last := sels[n-1]
	switch {
	case a.isLen && last.field != nil:
		for _, r := range p.relsOf(last.owner) {
			if !r.elem && r.slice.Name() == last.field.Name() {
				eq(self, p.linObj(sib(n-1, r.num, last.owner)))
			}
		}
	case a.isLen && last.index != nil && n > 1 && sels[n-2].field != nil:
		f := sels[n-2]
		for _, r := range p.relsOf(f.owner) {
			if r.elem && r.slice.Name() == f.field.Name() {
				eq(self, p.linObj(sib(n-2, r.num, f.owner)))
			}
		}
	}
	out = append(out, p.invFacts(st, a, depth)...)
	return append(out, p.declaredRel(st, a)...)
}

// declaredRel: relations the analysis assumes of the objects an operation is given (DESIGN.md, C10).
func (p *BProver) declaredRel(st *bState, a *bAtom) []bFact {
	sels := a.o.sels
	n := len(sels)
	if n < 2 || a.isLen || sels[n-1].field == nil || sels[n-2].field == nil {
		return nil
	}
	last, cur := sels[n-1], sels[n-2]
	if !strings.HasSuffix(cur.owner, "textarea/domain/model.TextArea") || cur.field.Name() != "cursor" {
		return nil
	}
	owner := p.w.typeByName(cur.owner)
	if owner == nil {
		return nil
	}
	stt := owner.Underlying().(*types.Struct)
	bi := bFieldIndexName(stt, "buffer")
	if bi < 0 {
		return nil
	}
	bt := namedOf(deref(stt.Field(bi).Type()))
	if bt == nil {
		return nil
	}
	bst, ok := bt.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	li := bFieldIndexName(bst, "lines")
	if li < 0 {
		return nil
	}
	base := sels[:n-2]
	mk := func(x ...bSel) bObj {
		return bObj{fr: a.o.fr, v: a.o.v, idx: a.o.idx, sels: append(append([]bSel{}, base...), x...)}
	}
	lines := mk(bSel{field: stt.Field(bi), owner: cur.owner}, bSel{field: bst.Field(li), owner: typeName(bt.Origin())})
	self := bAtomLin(a)
	switch last.field.Name() {
	case "row":
		return []bFact{{l: self}, {l: p.lenObj(lines).sub(self).plus(-1)}}
	case "col":
		cs := deref(cur.field.Type()).Underlying().(*types.Struct)
		ri := bFieldIndexName(cs, "row")
		if ri < 0 {
			return nil
		}
		row := p.linObj(mk(cur, bSel{field: cs.Field(ri), owner: last.owner, tag: last.tag}))
		line := p.sel(lines, bSel{index: row}, nil)
		return []bFact{{l: self}, {l: p.runesObj(line).sub(self)}}
	}
	return nil
}

func bFieldIndexName(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// runesObj: the number of characters of a string.
func (p *BProver) runesObj(o bObj) *bLin {
	if len(o.sels) == 0 {
		fr := o.fr
		switch x := o.v.(type) {
		case *ssa.Const:
			if x.Value != nil {
				return bConst(int64(len([]rune(constStr(x)))))
			}
		case *ssa.Convert:
			from := x.X.Type().Underlying()
			if isRuneSlice(from) {
				return p.lenOf(fr, x.X)
			}
			if isInteger(from) {
				return bConst(1)
			}
		}
	}
	k := "runes:" + o.key()
	return bAtomLin(&bAtom{o: o, isLen: true, runes: true, k: k})
}

// ---- facts of a comparison function ----

// lessFacts: the arguments of a comparison closure of package sort are indexes of the slice.
func (p *BProver) lessFacts(fr *bFrame, out *bFacts) {
	if fr.call != nil || fr.mc == nil || fr.cloUp == nil {
		return
	}
	c := soleCall(fr.mc)
	if c == nil {
		return
	}
	e := extCallee(c)
	if e == nil || len(c.Call.Args) < 2 {
		return
	}
	switch e.FullName() {
	case "sort.Slice", "sort.SliceStable", "sort.SliceIsSorted":
	default:
		return
	}
	n := p.lenOf(fr.cloUp, c.Call.Args[0])
	for _, q := range fr.fn.Params {
		if isInteger(q.Type()) {
			l := p.lin(fr, q)
			out.lins = append(out.lins, bFact{l: l}, bFact{l: n.sub(l).plus(-1)})
		}
	}
}

// orFacts: at a join that is not a loop, one of the incoming edges was taken.
func (p *BProver) orFacts(fr *bFrame, b *ssa.BasicBlock) [][]*bFacts {
	k := fr.id + "|" + b.String() + "|or"
	if r, ok := p.ors[k]; ok {
		return r
	}
	p.ors[k] = nil
	out := p.joinFacts(fr, b, 4)
	if fr.call != nil && len(out) < 4 {
		out = append(out, p.orFacts(fr.up, fr.call.Block())...)
	}
	p.ors[k] = out
	return out
}

// joinFacts: the joins inside the function.
func (p *BProver) joinFacts(fr *bFrame, b *ssa.BasicBlock, limit int) [][]*bFacts {
	var out [][]*bFacts
	for d := b; d != nil && len(out) < limit; d = d.Idom() {
		if len(d.Preds) < 2 || len(d.Preds) > 4 || loopOf(d) != nil {
			continue
		}
		var alts []*bFacts
		idom := d.Idom()
		for _, q := range d.Preds {
			f := &bFacts{flags: map[string]string{}}
			p.edgeFacts(fr, q, d, f)
			for x := q; x != nil && x != idom; x = x.Idom() {
				if len(x.Preds) == 1 {
					p.edgeFacts(fr, x.Preds[0], x, f)
				}
			}
			alts = append(alts, f)
		}
		useful := true
		for _, f := range alts {
			if len(f.lins) == 0 {
				useful = false
			}
		}
		if useful {
			out = append(out, alts)
		}
	}
	return out
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			out = append(out, ph)
		}
	}
	return out
}

func constStr(c *ssa.Const) string {
	if c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return ""
}

// loadElem: the element ia points to, read at instruction at.
func (p *BProver) loadElem(fr *bFrame, ia *ssa.IndexAddr, at ssa.Instruction) bObj {
	k := elemKey(ia.X.Type())
	o := p.obj(fr, ia.X)
	idx := p.lin(fr, ia.Index)
	if r, ok := p.elemAt(fr, o, idx, k, at); ok {
		return r
	}
	r := p.sel(o, bSel{index: idx, tag: p.tag(fr, at, k)}, at)
	if l := p.uniformElem(fr, o, at); l != nil {
		if len(r.sels) > 0 && p.lenAlias[r.key()] == nil {
			p.lenAlias[r.key()] = l
		}
	}
	return r
}

// soleCall: the one call a closure is handed to.
func soleCall(mc *ssa.MakeClosure) *ssa.Call {
	var out *ssa.Call
	for _, r := range *mc.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			if out != nil {
				return nil
			}
			out = x
		default:
			return nil
		}
	}
	return out
}

// capturedAt: what a captured variable holds while the call runs the closure.
func (p *BProver) capturedAt(fr *bFrame, al *ssa.Alloc) (bObj, bool) {
	if c, ok := fr.call.(*ssa.Call); ok && c.Call.Value == ssa.Value(fr.mc) {
		if v := p.reachCell(fr.cloUp, al, c); v != nil {
			return p.obj(fr.cloUp, v), true
		}
		if l := p.firstLoad(al, c); l != nil {
			return bRoot(fr.cloUp, l, 0), true
		}
		return bObj{}, false
	}
	c := soleCall(fr.mc)
	if c == nil {
		return bObj{}, false
	}
	e := extCallee(c)
	if e == nil {
		return bObj{}, false
	}
	switch extPkg(e) {
	case "sort", "slices", "strings", "bytes":
	default:
		return bObj{}, false
	}
	if v := p.reachCell(fr.cloUp, al, c); v != nil {
		return p.obj(fr.cloUp, v), true
	}
	if l := p.firstLoad(al, c); l != nil {
		return bRoot(fr.cloUp, l, 0), true
	}
	return bObj{}, false
}

// firstLoad: an earlier read of the local variable that every path to the instruction passes, with no change since.
func (p *BProver) firstLoad(al *ssa.Alloc, at ssa.Instruction) *ssa.UnOp {
	var found ssa.Instruction
	bad := false
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, from int)
	scan = func(b *ssa.BasicBlock, from int) {
		for i := from; i >= 0 && !bad; i-- {
			in := b.Instrs[i]
			u, isLoad := in.(*ssa.UnOp)
			st, isStore := in.(*ssa.Store)
			isLoad = isLoad && u.Op == token.MUL && u.X == ssa.Value(al)
			isStore = isStore && st.Addr == ssa.Value(al)
			_, isCall := in.(ssa.CallInstruction)
			if isCall && !isBuiltinCall(in) && cellShared(al) {
				bad = true
				return
			}
			if isStore || in == ssa.Instruction(al) {
				bad = true
				return
			}
			if isLoad {
				if found != nil && found != in {
					bad = true
				}
				found = in
				return
			}
		}
		if len(b.Preds) == 0 {
			bad = true
		}
		for _, q := range b.Preds {
			if !seen[q] {
				seen[q] = true
				scan(q, len(q.Instrs)-1)
			}
		}
	}
	scan(at.Block(), instrIndex(at)-1)
	if bad || found == nil || !instrDominates(found, at) {
		return nil
	}
	l := found.(*ssa.UnOp)
	if e := p.firstLoad(al, l); e != nil {
		return e
	}
	return l
}

func isBuiltinCall(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	_, ok = c.Call.Value.(*ssa.Builtin)
	return ok
}

// cellShared: someone other than the function itself can store to the variable.
func cellShared(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == ssa.Value(al) {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn, _ := x.Fn.(*ssa.Function)
			if fn == nil || storesFree(fn, x, al) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// refuted: one of the facts contradicts what is known.
func (p *BProver) refuted(st *bState, facts []bFact, depth int) bool {
	if depth > 7 {
		return false
	}
	var base *bElim
	run := func(g *bLin) bool {
		if g.isConst() {
			return g.c >= 0
		}
		if base == nil {
			df := p.domFacts(st.fr, st.blk)
			base = &bElim{p: p, st: st, intr: map[string]bool{}, depth: depth + 1}
			base.facts = append(append(base.facts, st.hyps.lins...), df.lins...)
		}
		base.seen, base.steps, base.resid = map[string]bool{}, 0, nil
		return base.run(g, 2)
	}
	for i, f := range facts {
		if i > 8 || p.budget <= 0 {
			break
		}
		p.budget--
		if f.neq {
			if run(f.l) && run(f.l.scale(-1)) {
				return true
			}
		} else if run(f.l.scale(-1).plus(-1)) {
			return true
		}
	}
	return false
}

// countdown: a loop that divides a number by a constant until it is zero runs a bounded number of times.
func (p *BProver) countdown(fr *bFrame, x *ssa.Phi) (int64, bool) {
	h := x.Block()
	lp := loopOf(h)
	if lp == nil {
		return 0, false
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || !lp.body[h.Succs[0]] || lp.body[h.Succs[1]] {
		return 0, false
	}
	ph, ok := cmp.X.(*ssa.Phi)
	if c := p.lin(fr, cmp.Y); !ok || ph.Block() != h || !c.isConst() || c.c != 0 || cmp.Op != token.GTR && cmp.Op != token.NEQ {
		return 0, false
	}
	for i, e := range ph.Edges {
		if !lp.body[h.Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.QUO || b.X != ssa.Value(ph) {
			return 0, false
		}
		c := p.lin(fr, b.Y)
		if !c.isConst() || c.c < 2 {
			return 0, false
		}
		n, v := int64(0), uint64(1<<64-1)
		if !isUnsigned(ph.Type()) {
			v = 1<<63 - 1
		}
		for k, f := range ph.Edges {
			if lp.body[h.Preds[k]] {
				continue
			}
			if l := p.lin(fr, f); l.isConst() && l.c >= 0 {
				v = uint64(l.c)
			}
		}
		for v > 0 {
			v /= uint64(c.c)
			n++
		}
		return n, true
	}
	return 0, false
}
