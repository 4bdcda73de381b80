package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// ---- the number of clusters of a text that is put together ----

// clusterSum: relations of the number of clusters of a text that was made from others.
func (p *BProver) clusterSum(st *bState, a *bAtom, self *bLin, depth int) []bFact {
	n := len(a.o.sels)
	if n != 1 || a.o.sels[0].fn != graphemesFn {
		return nil
	}
	fr := a.o.fr
	count := func(o bObj) *bLin { return p.linObj(p.sel(o, bSel{fn: graphemesFn}, nil)) }
	var out []bFact
	// a beginning that has at least k clusters if the text it was cut from has
	cut := func(f2 *bFrame, text, k ssa.Value) {
		kl := p.lin(f2, k)
		if p.sub(st, count(p.obj(f2, text)).sub(kl), depth) {
			out = append(out, bFact{l: self.sub(kl)})
		}
	}
	switch x := a.o.v.(type) {
	case *ssa.BinOp:
		// a text does not have fewer clusters than what it begins with: a boundary depends on one character to its right
		if x.Op == token.ADD && isString(x.Type()) {
			out = append(out, bFact{l: self.sub(count(p.obj(fr, x.X)))})
		}
	case *ssa.Slice:
		if x.Low == nil && x.High != nil {
			h := p.obj(fr, x.High)
			if c, ok := h.v.(*ssa.Call); ok && len(h.sels) == 0 {
				if text, k, ok := p.cutCall(c, 0, false); ok && p.obj(h.fr, text).key() == p.obj(fr, x.X).key() {
					cut(h.fr, text, k)
				}
			}
		}
	case *ssa.Call:
		if text, k, ok := p.cutCall(x, a.o.idx, true); ok {
			cut(fr, text, k)
		}
	}
	return out
}

// cutCall: a call of a function that finds where the k-th cluster of a text begins, or cuts it there.
func (p *BProver) cutCall(c *ssa.Call, idx int, piece bool) (text, k ssa.Value, ok bool) {
	g := c.Call.StaticCallee()
	if g == nil {
		return nil, nil, false
	}
	g = origin(unwrap(g))
	if !p.w.funcSet[g] || len(g.Blocks) == 0 || idx >= g.Signature.Results().Len() || len(g.Params) != len(c.Call.Args) {
		return nil, nil, false
	}
	ti, ki := -1, -1
	for i, q := range g.Params {
		switch {
		case isString(q.Type()) && ti < 0:
			ti = i
		case isInteger(q.Type()) && ki < 0:
			ki = i
		case i > 0:
			return nil, nil, false
		}
	}
	if ti < 0 || ki < 0 {
		return nil, nil, false
	}
	type key struct {
		g     *ssa.Function
		idx   int
		piece bool
	}
	if p.cuts == nil {
		p.cuts = map[any]bool{}
	}
	good, done := p.cuts[key{g, idx, piece}]
	if !done {
		p.cuts[key{g, idx, piece}] = false
		good = p.cutsAt(g, g.Params[ti], g.Params[ki], idx, piece)
		p.cuts[key{g, idx, piece}] = good
	}
	return c.Call.Args[ti], c.Call.Args[ki], good
}

func (p *BProver) cutsAt(g *ssa.Function, text, k *ssa.Parameter, idx int, piece bool) bool {
	fr := p.frame(g, nil, nil)
	kl := p.lin(fr, k)
	saved, ms := p.budget, p.maxSplit
	defer func() { p.budget, p.maxSplit = saved, ms }()
	prove := func(r *ssa.Return, l *bLin) bool {
		p.budget, p.maxSplit = 300, 4
		return p.Prove(fr, r.Block(), l)
	}
	for _, r := range returnsOf(g) {
		if idx >= len(r.Results) {
			return false
		}
		v := r.Results[idx]
		if piece {
			if v == ssa.Value(text) {
				continue
			}
			if sl, ok := v.(*ssa.Slice); ok && sl.X == ssa.Value(text) && sl.Low == nil && sl.High != nil {
				v = sl.High
			} else if c, ok := v.(*ssa.Const); ok && isString(c.Type()) {
				if prove(r, kl.scale(-1)) {
					continue
				}
				return false
			} else {
				return false
			}
		}
		if c, ok := v.(*ssa.Call); ok && isBuiltin(c, "len") && c.Call.Args[0] == ssa.Value(text) {
			continue
		}
		if ph, ok := v.(*ssa.Phi); ok {
			if f := p.clusterFacts(fr, ph, p.lin(fr, ph)); len(f) > 0 && p.clustersOf(ph, text) {
				good := false
				for _, cnt := range phisOf(ph.Block()) {
					if cnt != ph && isInteger(cnt.Type()) && p.countsAlong(fr, ph, cnt) && prove(r, p.lin(fr, cnt).sub(kl)) {
						good = true
					}
				}
				if good {
					continue
				}
			}
			return false
		}
		if c, ok := v.(*ssa.Const); ok && isInteger(c.Type()) && c.Int64() >= 0 && prove(r, kl.scale(-1)) {
			continue
		}
		return false
	}
	return true
}

// clustersOf: the loop of the offset goes over the clusters of this text.
func (p *BProver) clustersOf(ph *ssa.Phi, text ssa.Value) bool {
	for _, in := range ph.Block().Instrs {
		if c, ok := in.(*ssa.Call); ok && clusterCall(c, "Next") {
			mk, ok := c.Call.Args[0].(*ssa.Call)
			return ok && clusterCall(mk, "NewGraphemes") && mk.Call.Args[0] == text
		}
	}
	return false
}

// countsAlong: the count starts at 0 and grows by one on every way round on which the offset grows, and only there.
func (p *BProver) countsAlong(fr *bFrame, off, cnt *ssa.Phi) bool {
	lp := loopOf(off.Block())
	for i, e := range cnt.Edges {
		if lp.body[off.Block().Preds[i]] {
			if d := p.lin(fr, e).sub(p.lin(fr, cnt)); !d.isConst() || d.c != 1 {
				return false
			}
			if b, ok := off.Edges[i].(*ssa.BinOp); !ok || b.Op != token.ADD || b.X != ssa.Value(off) && b.Y != ssa.Value(off) {
				return false
			}
		} else if l := p.lin(fr, e); !l.isConst() || l.c != 0 {
			return false
		}
	}
	return true
}
