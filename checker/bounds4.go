package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- pure functions of one string ----

// pureCall: the call computes a number from one text and nothing else; its argument and a name for the function.
func (p *BProver) pureCall(c *ssa.Call) (ssa.Value, string) {
	if c.Call.IsInvoke() || !isInteger(c.Type()) {
		return nil, ""
	}
	args := c.Call.Args
	if e := extCallee(c); e != nil && !isRepoPath(extPkg(e)) {
		if len(args) == 1 && widthExt(e) {
			p.pureLow[e.FullName()] = true
			return args[0], e.FullName()
		}
		if len(args) == 1 && e.Name() == "GraphemeClusterCount" {
			p.pureLow[graphemesFn] = true
			return args[0], graphemesFn
		}
		return nil, ""
	}
	g := c.Call.StaticCallee()
	if g == nil {
		return nil, ""
	}
	g = origin(unwrap(g))
	if !p.pureFn(g) {
		return nil, ""
	}
	// a function that only passes its text on is the one it calls
	h := g
	for i := 0; i < 4; i++ {
		next := p.forwards(h)
		if next == nil {
			break
		}
		h = next
	}
	if p.countsGraphemes(h) {
		p.pureLow[graphemesFn] = true
		return args[len(args)-1], graphemesFn
	}
	return args[len(args)-1], h.String()
}

// graphemesFn stands for the number of grapheme clusters of a text, however it is counted.
const graphemesFn = "graphemes"

// countsGraphemes: the function counts the clusters of its text, one by one or with the library's function.
func (p *BProver) countsGraphemes(g *ssa.Function) bool {
	text := g.Params[len(g.Params)-1]
	rets := returnsOf(g)
	if len(rets) != 1 {
		return false
	}
	switch x := rets[0].Results[0].(type) {
	case *ssa.Call:
		e := extCallee(x)
		return e != nil && e.Name() == "GraphemeClusterCount" && len(x.Call.Args) == 1 && x.Call.Args[0] == ssa.Value(text)
	case *ssa.Phi:
		if len(x.Edges) != 2 {
			return false
		}
		zero, one := false, false
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Int64() == 0 {
				zero = true
			}
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(x) {
				if c, ok := b.Y.(*ssa.Const); ok && c.Int64() == 1 {
					one = true
				}
			}
		}
		// the loop goes on as long as there is another cluster of the text, and does nothing else
		lp := loopOf(x.Block())
		iff, ok := x.Block().Instrs[len(x.Block().Instrs)-1].(*ssa.If)
		if !zero || !one || lp == nil || !ok || len(lp.body) != 2 {
			return false
		}
		nx, ok := iff.Cond.(*ssa.Call)
		if !ok || !clusterCall(nx, "Next") {
			return false
		}
		mk, ok := nx.Call.Args[0].(*ssa.Call)
		return ok && clusterCall(mk, "NewGraphemes") && mk.Call.Args[0] == ssa.Value(text) && lp.body[iff.Block().Succs[0]]
	}
	return false
}

// clusterCall: a call of the grapheme iterator of the text library.
func clusterCall(c *ssa.Call, name string) bool {
	e := extCallee(c)
	return e != nil && e.Name() == name && strings.HasSuffix(extPkg(e), "rivo/uniseg")
}

func widthExt(e *types.Func) bool {
	return e.Name() == "StringWidth" && !isRepoPath(extPkg(e)) && strings.Contains(extPkg(e), "uni")
}

// pureFn: one text (besides an empty receiver) to one number, without memory.
func (p *BProver) pureFn(g *ssa.Function) bool {
	if s := p.pures[g]; s != 0 {
		return s == 1
	}
	p.pures[g] = 2
	if p.pureBody(g) {
		p.pures[g] = 1
		name := g.String()
		low := true
		fr := p.frame(g, nil, nil)
		saved, ms := p.budget, p.maxSplit
		for _, r := range returnsOf(g) {
			low = low && p.Prove(fr, r.Block(), p.lin(fr, r.Results[0]))
		}
		p.budget, p.maxSplit = saved, ms
		if low {
			p.pureLow[name] = true
		}
	}
	return p.pures[g] == 1
}

func (p *BProver) pureBody(g *ssa.Function) bool {
	if !p.w.funcSet[g] || len(g.Blocks) == 0 || len(g.Blocks) > 40 || len(g.FreeVars) > 0 || g.Signature.Results().Len() != 1 || !isInteger(g.Signature.Results().At(0).Type()) {
		return false
	}
	n := len(g.Params)
	if g.Signature.Recv() != nil {
		st, ok := deref(g.Signature.Recv().Type()).Underlying().(*types.Struct)
		if !ok || st.NumFields() > 0 {
			return false
		}
		n--
	}
	if n != 1 || !isString(g.Params[len(g.Params)-1].Type()) {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType, *ssa.Slice, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.Extract:
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if gl, ok := x.X.(*ssa.Global); !ok || p.unfrozen["global:"+gl.String()] {
						return false
					}
				}
			case *ssa.Call:
				if isBuiltin(x, "len") || isBuiltin(x, "max") || isBuiltin(x, "min") {
					continue
				}
				if clusterCall(x, "NewGraphemes") || clusterCall(x, "Next") || clusterCall(x, "GraphemeClusterCount") {
					continue
				}
				if e := extCallee(x); e != nil && !isRepoPath(extPkg(e)) {
					if !widthExt(e) {
						return false
					}
					continue
				}
				h := x.Call.StaticCallee()
				if h == nil || !p.pureFn(origin(unwrap(h))) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// forwards: the repository function g hands its text to, and returns the result of, unchanged.
func (p *BProver) forwards(g *ssa.Function) *ssa.Function {
	if len(g.Blocks) != 1 {
		return nil
	}
	r, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) != 1 {
		return nil
	}
	c, ok := r.Results[0].(*ssa.Call)
	if !ok {
		return nil
	}
	h := c.Call.StaticCallee()
	if h == nil || len(c.Call.Args) == 0 || c.Call.Args[len(c.Call.Args)-1] != ssa.Value(g.Params[len(g.Params)-1]) {
		return nil
	}
	if h = origin(unwrap(h)); p.pureFn(h) {
		return h
	}
	return nil
}

// ---- grapheme clusters ----

// clusterFacts: in a loop over the clusters of a text, the lengths of the clusters gone by add up to at most its length.
func (p *BProver) clusterFacts(fr *bFrame, x *ssa.Phi, self *bLin) []bFact {
	lp := loopOf(x.Block())
	if lp == nil {
		return nil
	}
	var next *ssa.Call
	for b := range lp.body {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if e := extCallee(c); e != nil && e.Name() == "Next" && strings.HasSuffix(extPkg(e), "uniseg") {
					if next != nil {
						return nil
					}
					next = c
				}
			}
		}
	}
	if next == nil || next.Block() != x.Block() {
		return nil
	}
	iff, ok := x.Block().Instrs[len(x.Block().Instrs)-1].(*ssa.If)
	if !ok || iff.Cond != ssa.Value(next) || !lp.body[x.Block().Succs[0]] || lp.body[x.Block().Succs[1]] {
		return nil
	}
	gr, ok := next.Call.Args[0].(*ssa.Call)
	if !ok || lp.body[gr.Block()] {
		return nil
	}
	if e := extCallee(gr); e == nil || e.Name() != "NewGraphemes" {
		return nil
	}
	var texts []*ssa.Call
	for _, q := range *gr.Referrers() {
		switch c := q.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			e := extCallee(c)
			if e == nil || c.Call.Args[0] != ssa.Value(gr) {
				return nil
			}
			switch e.Name() {
			case "Bytes", "Str":
				texts = append(texts, c)
			case "Next":
				if c != next {
					return nil
				}
			case "Runes", "Width", "Positions", "IsWordBoundary", "IsSentenceBoundary", "LineBreak":
			default:
				return nil
			}
		default:
			return nil
		}
	}
	isText := func(v ssa.Value) bool {
		for _, t := range texts {
			if v == ssa.Value(t) && lp.body[t.Block()] {
				in := loopOf(t.Block())
				return in == nil || in == lp
			}
		}
		return false
	}
	var step func(v ssa.Value, added bool) bool
	step = func(v ssa.Value, added bool) bool {
		if v == ssa.Value(x) {
			return true
		}
		switch y := v.(type) {
		case *ssa.Phi:
			if !lp.body[y.Block()] || loopOf(y.Block()) != nil {
				return false
			}
			for _, e := range y.Edges {
				if !step(e, added) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			if y.Op != token.ADD || added {
				return false
			}
			for _, o := range [][2]ssa.Value{{y.X, y.Y}, {y.Y, y.X}} {
				if c, ok := o[1].(*ssa.Call); ok && isBuiltin(c, "len") && isText(c.Call.Args[0]) {
					return step(o[0], true)
				}
			}
		}
		return false
	}
	for i, e := range x.Edges {
		if lp.body[x.Block().Preds[i]] {
			if !step(e, false) {
				return nil
			}
		} else if l := p.lin(fr, e); !l.isConst() || l.c != 0 {
			return nil
		}
	}
	total := p.lenOf(fr, gr.Call.Args[0])
	out := []bFact{{l: total.sub(self)}, {l: self}}
	for _, t := range texts {
		// also in a block the loop does not come back from
		if isText(t) || x.Block().Succs[0].Dominates(t.Block()) && !lp.body[t.Block()] {
			out = append(out, bFact{l: total.sub(self).sub(p.lenOf(fr, t))})
		}
	}
	return out
}

// ---- maxima ----

// isMaximum: big is the maximum a finished loop computed over all elements of a slice, small belongs to one of them.
func (p *BProver) isMaximum(st *bState, big, small *bAtom) bool {
	m, ok := big.o.v.(*ssa.Phi)
	if !ok || big.isLen || big.runes || len(big.o.sels) > 0 || big.o.fr != st.fr {
		return false
	}
	lp := loopOf(m.Block())
	if lp == nil || lp.body[st.blk] && st.blk != m.Block() || !m.Block().Dominates(st.blk) || st.blk == m.Block() {
		return false
	}
	sels := small.o.sels
	n := len(sels)
	fn := ""
	if n > 0 && sels[n-1].fn != "" {
		fn = sels[n-1].fn
		n--
	}
	if n == 0 || sels[n-1].index == nil || fn == "" && !small.isLen {
		return false
	}
	base := bObj{fr: small.o.fr, v: small.o.v, idx: small.o.idx, sels: sels[:n-1]}
	h := m.Block()
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !lp.body[h.Succs[0]] || lp.body[h.Succs[1]] {
		return false
	}
	for b := range lp.body {
		for _, s := range b.Succs {
			if !lp.body[s] && b != h {
				return false
			}
		}
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	fr := st.fr
	if p.lin(fr, cmp.Y).key() != p.lenObj(base).key() {
		return false
	}
	// the index runs from 0 in steps of one
	var idx *ssa.Phi
	for _, ph := range phisOf(h) {
		if d := p.lin(fr, cmp.X).sub(p.lin(fr, ph)); d.isConst() && isInteger(ph.Type()) {
			idx = ph
			for i, e := range ph.Edges {
				if lp.body[h.Preds[i]] {
					if s := p.lin(fr, e).sub(p.lin(fr, ph)); !s.isConst() || s.c != 1 {
						return false
					}
				} else if s := p.lin(fr, e).add(d); !s.isConst() || s.c != 0 {
					return false
				}
			}
		}
	}
	if idx == nil {
		return false
	}
	sel := bSel{index: p.lin(fr, cmp.X), tag: sels[n-1].tag}
	cur := bObj{fr: base.fr, v: base.v, idx: base.idx, sels: append(append([]bSel{}, base.sels...), sel)}
	var val *bLin
	if fn != "" {
		cur.sels = append(cur.sels, bSel{fn: fn})
		val = p.atom(cur, false)
	} else {
		val = p.lenObj(cur)
	}
	saved := p.budget
	defer func() { p.budget = saved }()
	for i, e := range m.Edges {
		q := h.Preds[i]
		if !lp.body[q] {
			continue
		}
		hyps := &bFacts{flags: map[string]string{}}
		p.edgeFacts(fr, q, h, hyps)
		for _, g := range []*bLin{p.lin(fr, e).sub(p.lin(fr, m)), p.lin(fr, e).sub(val)} {
			ns := &bState{fr: fr, blk: q, hyps: hyps, seen: map[string]bool{}}
			p.budget = 500
			ms := p.maxSplit
			p.maxSplit = 4
			ok := p.prove(ns, g, 0)
			p.maxSplit = ms
			if !ok {
				return false
			}
		}
	}
	return true
}

// ---- self recursion ----

// recursion: what holds for the parameters of a function also holds for those it passes when it calls itself.
func (p *BProver) recursion(fr *bFrame, c ssa.CallInstruction, failed *bLin, goals func(fr *bFrame) []*bLin, budget int) bool {
	fn := fr.fn
	onlyParams := true
	for _, a := range failed.a {
		pa, ok := a.o.v.(*ssa.Parameter)
		onlyParams = onlyParams && ok && pa.Parent() == fn
	}
	if !onlyParams || c.Common().IsInvoke() {
		return false
	}
	s := func(o bObj) (*bFrame, ssa.Value, ssa.Instruction, bool) {
		if pa, ok := o.v.(*ssa.Parameter); ok && o.fr == fr {
			for i, q := range fn.Params {
				if q == pa && i < len(c.Common().Args) {
					return fr, c.Common().Args[i], c, true
				}
			}
		}
		return nil, nil, nil, false
	}
	g, _ := p.substLin(failed, s)
	h := &bFacts{flags: map[string]string{}, lins: []bFact{{l: failed}}}
	return p.deepen(&bState{fr: fr, blk: c.Block(), hyps: h, seen: map[string]bool{}}, g, budget)
}

// ---- elements of slices and maps ----

// elemsLow: elemLow, decided once for each slice; a slice whose elements are still being looked at gives nothing.
func (p *BProver) elemsLow(fr *bFrame, v ssa.Value, idx int) bool {
	k := bElemKey{fr, v, idx}
	if r, ok := p.elems[k]; ok {
		return r
	}
	p.elems[k] = false
	saved, ms := p.budget, p.maxSplit
	r := p.elemLow(fr, v, idx, map[ssa.Value]bool{})
	p.budget, p.maxSplit = saved, ms
	p.elems[k] = r
	return r
}

type bElemKey struct {
	fr  *bFrame
	v   ssa.Value
	idx int
}

// elemLow: no element of the slice is negative.
func (p *BProver) elemLow(fr *bFrame, v ssa.Value, idx int, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	sl, ok := v.Type().Underlying().(*types.Slice)
	if !ok || !isInteger(sl.Elem()) || len(seen) > 12 {
		return false
	}
	if isUnsigned(sl.Elem()) {
		return true
	}
	if !p.elemUses(fr, v) {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeSlice:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.elemLow(fr, e, 0, seen) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return p.elemLow(fr, x.X, 0, seen)
		}
		for _, q := range *al.Referrers() {
			switch r := q.(type) {
			case *ssa.Slice, *ssa.DebugRef:
			case *ssa.IndexAddr:
				for _, u := range *r.Referrers() {
					st, ok := u.(*ssa.Store)
					if !ok || !p.Prove(fr, st.Block(), p.lin(fr, st.Val)) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	case *ssa.Call:
		if isBuiltin(x, "append") {
			for _, a := range x.Call.Args {
				if !p.elemLow(fr, a, 0, seen) {
					return false
				}
			}
			return true
		}
		cs := p.calleesOf(fr, x)
		for _, g := range cs {
			gf := p.frame(g, x, fr)
			for _, r := range returnsOf(g) {
				if idx >= len(r.Results) || !p.elemLow(gf, r.Results[idx], 0, seen) {
					return false
				}
			}
		}
		return len(cs) > 0
	}
	return false
}

// elemUses: the slice is only read, sorted, extended or returned.
func (p *BProver) elemUses(fr *bFrame, v ssa.Value) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, q := range *v.Referrers() {
		switch r := q.(type) {
		case *ssa.DebugRef, *ssa.Phi, *ssa.Return, *ssa.Slice, *ssa.Range:
		case *ssa.IndexAddr:
			for _, u := range *r.Referrers() {
				switch s := u.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if s.Addr != ssa.Value(r) || !p.Prove(fr, s.Block(), p.lin(fr, s.Val)) {
						return false
					}
				default:
					return false
				}
			}
		case *ssa.Call:
			if isBuiltin(r, "append") || isBuiltin(r, "len") || isBuiltin(r, "cap") {
				continue
			}
			if e := extCallee(r); e != nil && (extPkg(e) == "sort" || extPkg(e) == "slices" && strings.HasPrefix(e.Name(), "Sort")) {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

// mapLow: no key (or value) of the map kept in a field is negative.
func (p *BProver) mapLow(m ssa.Value, key bool) bool {
	u, ok := m.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	fk, fv := fieldKeyOf(fa)
	mt, ok := fv.Type().Underlying().(*types.Map)
	if !ok || fv.Exported() {
		return false
	}
	what := mt.Elem()
	if key {
		what = mt.Key()
	}
	if !isInteger(what) {
		return false
	}
	k := fk + "|map|"
	if key {
		k += "key"
	}
	if st := p.inv[k]; st != nil {
		return st.state == 1 || st.state == 2
	}
	st := &bInvState{state: 1, seq: len(p.invOrder)}
	p.inv[k] = st
	p.invOrder = append(p.invOrder, k)
	saved, ms := p.budget, p.maxSplit
	ok = p.mapLowAll(fa.Parent().Pkg, fv.Type(), key)
	p.budget, p.maxSplit = saved, ms
	if ok {
		st.state = 2
		return true
	}
	for i := st.seq + 1; i < len(p.invOrder); i++ {
		if q := p.inv[p.invOrder[i]]; q != nil && q.state == 2 {
			delete(p.inv, p.invOrder[i])
		}
	}
	st.state = 3
	p.phis = map[string][]bFact{}
	p.elems = map[bElemKey]bool{}
	return false
}

// mapLowAll: maps of the type stay inside the package, and none is given a negative key (or value).
func (p *BProver) mapLowAll(pkg *ssa.Package, t types.Type, key bool) bool {
	if pkg == nil {
		return false
	}
	for _, f := range p.w.Funcs {
		if f.Pkg != pkg {
			continue
		}
		for _, par := range f.Params {
			if types.Identical(par.Type(), t) {
				return false
			}
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if types.Identical(res.At(i).Type(), t) {
				return false
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if !types.Identical(x.Map.Type(), t) {
						continue
					}
					v := x.Value
					if key {
						v = x.Key
					}
					if !p.ProveSite(x, func(fr *bFrame) []*bLin { return []*bLin{p.lin(fr, v)} }, 1000) {
						return false
					}
				case ssa.CallInstruction:
					if _, ok := x.Common().Value.(*ssa.Builtin); ok {
						continue
					}
					for _, a := range x.Common().Args {
						if types.Identical(a.Type(), t) {
							return false
						}
					}
					if v := x.Value(); v != nil && types.Identical(v.Type(), t) {
						return false
					}
				case *ssa.MakeInterface:
					if types.Identical(x.X.Type(), t) {
						return false
					}
				}
			}
		}
	}
	return true
}
