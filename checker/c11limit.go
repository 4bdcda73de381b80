package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// limited: a set kept in a map that must not hold more than a limit kept beside it (0: no limit).
var limitedSets = []struct{ owner, set, limit string }{
	{"components/multiselect/internal/domain/value.Selection", "indices", "max"},
}

// checkLimited: an entry is only added to such a set when there is room.
func checkLimited(p *BProver, r *Report, f *ssa.Function, budget int) {
	for _, ls := range limitedSets {
		// the maps that become the set of an object, and that object
		owners := map[ssa.Value]ssa.Value{}
		fieldOf := func(v ssa.Value) (*ssa.FieldAddr, bool) {
			fa, ok := v.(*ssa.FieldAddr)
			if !ok || typeKey(fa.X.Type()) != ls.owner {
				return nil, false
			}
			_, fv := fieldKeyOf(fa)
			return fa, fv != nil && fv.Name() == ls.set
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := fieldOf(x.Addr); ok {
						owners[x.Val] = fa.X
					}
				case *ssa.UnOp:
					if fa, ok := fieldOf(x.X); ok {
						owners[ssa.Value(x)] = fa.X
					}
				}
			}
		}
		isSet := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			if !ok {
				return false
			}
			_, ok = fieldOf(u.X)
			return ok
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || owners[mu.Map] == nil {
					continue
				}
				con := fnName(f) + ": " + ls.owner + "." + ls.set
				if !isSet(mu.Map) && copied(mu, isSet) {
					r.OK("limited", con)
					continue
				}
				r.Check(p.hasRoom(f, mu, owners[mu.Map], ls.limit, isSet, budget), "limited", con, p.w.InstrPos(mu), "%s adds to %s without making sure that there is room: the set can exceed the limit in %s", fnName(f), ls.set, ls.limit)
			}
		}
	}
}

// copied: the key is one of a set of the same kind that is being copied.
func copied(mu *ssa.MapUpdate, isSet func(ssa.Value) bool) bool {
	ex, ok := mu.Key.(*ssa.Extract)
	if !ok {
		return false
	}
	nx, ok := ex.Tuple.(*ssa.Next)
	if !ok {
		return false
	}
	rg, ok := nx.Iter.(*ssa.Range)
	return ok && isSet(rg.X)
}

func (p *BProver) hasRoom(f *ssa.Function, mu *ssa.MapUpdate, owner ssa.Value, limit string, isSet func(ssa.Value) bool, budget int) bool {
	t := deref(owner.Type())
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	i := bFieldIndexName(st, limit)
	if i < 0 {
		return false
	}
	key, fv := fieldKeyT(t, i)
	limits := func(fr *bFrame) []*bLin {
		var out []*bLin
		if _, isAlloc := owner.(*ssa.Alloc); !isAlloc {
			return append(out, p.linObj(p.readField(fr, owner, i, key, fv, mu)))
		}
		for _, ret := range returnsOf(f) {
			if p.reaches(owner, ret) {
				out = append(out, p.linObj(p.readField(fr, owner, i, key, fv, ret)))
			}
		}
		return out
	}
	prove := func(value func(fr *bFrame) *bLin) bool {
		fr := p.frame(f, nil, nil)
		ls := limits(fr)
		for _, l := range ls {
			goal := l.sub(value(fr)).plus(-1)
			hyps := &bFacts{flags: map[string]string{}, lins: []bFact{{l: l.plus(-1)}}}
			if !p.deepen(&bState{fr: fr, blk: mu.Block(), hyps: hyps, seen: map[string]bool{}}, goal, budget) {
				return false
			}
		}
		return len(ls) > 0
	}
	// fewer than the limit are in it, whichever way the place is reached
	fr0 := p.frame(f, nil, nil)
	// only ways on which there is a limit matter
	noLimit := func(from, to *ssa.BasicBlock) bool {
		if len(from.Succs) < 2 {
			return false
		}
		for _, l := range limits(fr0) {
			h := &bFacts{flags: map[string]string{}, lins: []bFact{{l: l.plus(-1)}}}
			p.edgeFacts(fr0, from, to, h)
			if !opposed(h.lins) {
				return false
			}
		}
		return true
	}
	var roomAt func(b *ssa.BasicBlock, facts *bFacts, depth int) bool
	roomAt = func(b *ssa.BasicBlock, facts *bFacts, depth int) bool {
		ls := limits(fr0)
		hyps := func(l *bLin) *bFacts {
			h := facts.clone()
			h.lins = append(h.lins, bFact{l: l.plus(-1)})
			return h
		}
		holds := func(goal func(l *bLin) *bLin) bool {
			for _, l := range ls {
				if !p.deepen(&bState{fr: fr0, blk: b, hyps: hyps(l), seen: map[string]bool{}}, goal(l), budget) {
					return false
				}
			}
			return len(ls) > 0
		}
		if holds(func(*bLin) *bLin { return bConst(-1) }) {
			return true // there is no limit
		}
		for _, x := range f.Blocks {
			for _, in := range x.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !(x == b || x.Dominates(b)) {
					continue
				}
				for _, m := range p.measures(fr0, c, mu.Map, isSet, 3) {
					if grownSince(c, m.ofSet, mu, isSet, noLimit) {
						continue
					}
					if holds(func(l *bLin) *bLin { return l.sub(m.n).plus(-1) }) {
						return true
					}
				}
			}
		}
		if depth == 0 || len(b.Preds) == 0 {
			return false
		}
		if lp := loopOf(b); lp != nil && len(b.Preds) > 1 {
			for _, q := range b.Preds {
				if b.Dominates(q) {
					return false
				}
			}
		}
		for _, q := range b.Preds {
			h := &bFacts{flags: map[string]string{}}
			p.edgeFacts(fr0, q, b, h)
			if !roomAt(q, h, depth-1) {
				return false
			}
		}
		return true
	}
	if roomAt(mu.Block(), &bFacts{flags: map[string]string{}}, 3) {
		return true
	}
	// every key is a different number from 0 to the limit
	mk, ok := mu.Map.(*ssa.MakeMap)
	if !ok {
		return false
	}
	for _, q := range *mk.Referrers() {
		if o, ok := q.(*ssa.MapUpdate); ok && o != mu {
			return false
		}
		if c, ok := q.(ssa.CallInstruction); ok {
			if _, isB := c.Common().Value.(*ssa.Builtin); !isB {
				return false
			}
		}
	}
	if bt, ok := mu.Key.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
		return false
	}
	fr := p.frame(f, nil, nil)
	if !p.deepen(&bState{fr: fr, blk: mu.Block(), hyps: &bFacts{flags: map[string]string{}}, seen: map[string]bool{}}, p.lin(fr, mu.Key), budget) {
		return false
	}
	return prove(func(fr *bFrame) *bLin { return p.lin(fr, mu.Key) })
}

type measure struct {
	n     *bLin
	ofSet bool // of an object's set, not of the map that is filled
}

// measures: the sizes of the map, or of the set of an object, that a call takes, itself or in what it calls.
func (p *BProver) measures(fr *bFrame, c *ssa.Call, m ssa.Value, isSet func(ssa.Value) bool, depth int) []measure {
	if isBuiltin(c, "len") {
		a := c.Call.Args[0]
		if _, ok := a.Type().Underlying().(*types.Map); ok && (m != nil && a == m || isSet(a)) {
			return []measure{{p.lin(fr, c), isSet(a)}}
		}
		return nil
	}
	g := c.Call.StaticCallee()
	if g == nil || depth == 0 {
		return nil
	}
	if g = origin(unwrap(g)); !p.w.funcSet[g] || len(g.Params) != len(c.Call.Args) || fr.has(g) || !onlyLooks(g, depth) {
		return nil
	}
	var inner ssa.Value
	for i, a := range c.Call.Args {
		if m != nil && a == m {
			inner = g.Params[i]
		}
	}
	var out []measure
	gf := p.frame(g, c, fr)
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Call); ok {
				out = append(out, p.measures(gf, x, inner, isSet, depth-1)...)
			}
		}
	}
	return out
}

// onlyLooks: the function stores nothing and calls only functions that do not either.
func onlyLooks(g *ssa.Function, depth int) bool {
	if len(g.Blocks) == 0 || depth == 0 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate, *ssa.Store, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.MakeClosure:
				return false
			case *ssa.Call:
				if isBuiltin(x, "len") || isBuiltin(x, "min") || isBuiltin(x, "max") {
					continue
				}
				h := x.Call.StaticCallee()
				if h == nil || !onlyLooks(origin(unwrap(h)), depth-1) {
					return false
				}
			}
		}
	}
	return true
}

// grownSince: after the length was taken, and before it is taken again, entries other than copies can be added ahead
// of the place, on ways that are not dead.
func grownSince(c *ssa.Call, ofSet bool, mu *ssa.MapUpdate, isSet func(ssa.Value) bool, dead func(from, to *ssa.BasicBlock) bool) bool {
	grows := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			return x.Map == mu.Map && !(copied(x, isSet) && ofSet)
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if a == mu.Map && !isBuiltin(x, "len") && !isBuiltin(x, "delete") {
					g := x.Call.StaticCallee()
					return g == nil || !onlyLooks(origin(unwrap(g)), 3)
				}
			}
		}
		return false
	}
	// what comes after an instruction, up to c
	after := func(from ssa.Instruction, visit func(in ssa.Instruction)) {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock, i int)
		walk = func(b *ssa.BasicBlock, i int) {
			for ; i < len(b.Instrs); i++ {
				if b.Instrs[i] == ssa.Instruction(c) {
					return
				}
				visit(b.Instrs[i])
			}
			for _, q := range b.Succs {
				if !seen[q] && !dead(b, q) {
					seen[q] = true
					walk(q, 0)
				}
			}
		}
		walk(from.Block(), instrIndex(from)+1)
	}
	bad := false
	after(c, func(in ssa.Instruction) {
		if bad || !grows(in) {
			return
		}
		after(in, func(x ssa.Instruction) {
			if x == ssa.Instruction(mu) {
				bad = true
			}
		})
	})
	return bad
}
