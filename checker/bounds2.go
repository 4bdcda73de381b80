package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- facts ----

func (p *BProver) domFacts(fr *bFrame, b *ssa.BasicBlock) *bFacts {
	k := fmt.Sprintf("%s|%d", fr.id, b.Index)
	if f := p.facts[k]; f != nil {
		return f
	}
	out := &bFacts{flags: map[string]string{}}
	p.facts[k] = out // a cycle through a closure sees what is there
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 1 {
			p.edgeFacts(fr, d.Preds[0], d, out)
		}
	}
	p.lessFacts(fr, out)
	if fr.call != nil {
		out.merge(p.domFacts(fr.up, fr.call.Block()))
	} else if fr.mc != nil && fr.cloUp != nil {
		out.merge(p.domFacts(fr.cloUp, fr.mc.Block()))
	}
	return out
}

// localFacts: the conditions inside the function itself.
func (p *BProver) localFacts(fr *bFrame, b *ssa.BasicBlock) *bFacts {
	out := &bFacts{flags: map[string]string{}}
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 1 {
			p.edgeFacts(fr, d.Preds[0], d, out)
		}
	}
	return out
}

func (p *BProver) edgeFacts(fr *bFrame, from, to *ssa.BasicBlock, out *bFacts) {
	if len(from.Instrs) == 0 {
		return
	}
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return
	}
	p.condFacts(fr, iff.Cond, from.Succs[0] == to, out, 0)
}

func (p *BProver) condFacts(fr *bFrame, v ssa.Value, truth bool, out *bFacts, depth int) {
	if depth > 6 {
		return
	}
	o := p.obj(fr, v)
	if len(o.sels) > 0 {
		out.flags[o.key()] = fmt.Sprint(truth)
		return
	}
	fr = o.fr
	switch x := o.v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool && constant.BoolVal(x.Value) != truth {
			out.lins = append(out.lins, bFact{l: bConst(-1)}) // not reachable
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			p.condFacts(fr, x.X, !truth, out, depth+1)
			return
		}
		out.flags[o.key()] = fmt.Sprint(truth)
	case *ssa.BinOp:
		p.cmpFacts(fr, x, truth, out)
	case *ssa.Phi:
		live, lives := -1, []int(nil)
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != truth {
				continue
			}
			live, lives = i, append(lives, i)
		}
		if len(lives) > 1 {
			if len(lives) > 4 || loopOf(x.Block()) != nil || depth > 2 {
				return
			}
			var alts []*bFacts
			idom := x.Block().Idom()
			for _, i := range lives {
				f := &bFacts{flags: map[string]string{}}
				q := x.Block().Preds[i]
				p.edgeFacts(fr, q, x.Block(), f)
				for y := q; y != nil && y != idom; y = y.Idom() {
					if len(y.Preds) == 1 {
						p.edgeFacts(fr, y.Preds[0], y, f)
					}
				}
				p.condFacts(fr, x.Edges[i], truth, f, depth+1)
				alts = append(alts, f)
			}
			out.ors = append(out.ors, alts)
			return
		}
		if live >= 0 {
			if x.Block().Dominates(x.Block().Preds[live]) {
				return
			}
			out.merge(p.domFacts(fr, x.Block().Preds[live]))
			p.edgeFacts(fr, x.Block().Preds[live], x.Block(), out)
			p.condFacts(fr, x.Edges[live], truth, out, depth+1)
		}
	case *ssa.Call:
		out.flags[o.key()] = fmt.Sprint(truth)
		g := x.Call.StaticCallee()
		if g == nil || x.Call.IsInvoke() {
			return
		}
		if e := extCallee(x); e != nil {
			switch e.FullName() {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
				if truth {
					out.lins = append(out.lins, bFact{l: p.lenOf(fr, x.Call.Args[0]).sub(p.lenOf(fr, x.Call.Args[1]))})
				}
			}
		}
		g = origin(unwrap(g))
		if !p.w.funcSet[g] || fr.depth >= bMaxDepth || fr.has(g) || len(g.Blocks) > 24 {
			return
		}
		var live []*ssa.Return
		for _, r := range returnsOf(g) {
			if len(r.Results) != 1 {
				return
			}
			if c, ok := r.Results[0].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != truth {
				continue
			}
			live = append(live, r)
		}
		gf := p.frame(g, x, fr)
		if len(live) == 1 {
			out.merge(p.domFacts(gf, live[0].Block()))
			out.ors = append(out.ors, p.joinFacts(gf, live[0].Block(), 2)...)
			p.condFacts(gf, live[0].Results[0], truth, out, depth+1)
		} else if len(live) > 1 && len(live) <= 4 && depth <= 2 {
			var alts []*bFacts
			for _, r := range live {
				f := p.localFacts(gf, r.Block())
				p.condFacts(gf, r.Results[0], truth, f, depth+1)
				alts = append(alts, f)
			}
			out.ors = append(out.ors, alts)
		}
	default:
		out.flags[o.key()] = fmt.Sprint(truth)
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (p *BProver) cmpFacts(fr *bFrame, x *ssa.BinOp, truth bool, out *bFacts) {
	op := x.Op
	if !truth {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		default:
			return
		}
	}
	if !isInteger(x.X.Type()) {
		y := x.Y
		z := x.X
		if isNilConst(z) {
			y, z = z, y
		}
		if isNilConst(y) {
			o := p.obj(fr, z)
			switch op {
			case token.EQL:
				out.flags[o.key()] = "nil"
				if _, ok := z.Type().Underlying().(*types.Slice); ok {
					out.lins = append(out.lins, bFact{l: p.lenOf(fr, z).scale(-1)})
				}
				p.nilFields(o, z.Type(), out)
				p.noError(fr, z, out)
			case token.NEQ:
				out.flags[o.key()] = "nonnil"
			}
			return
		}
		if isString(x.X.Type()) {
			a, b := p.lenOf(fr, x.X), p.lenOf(fr, x.Y)
			switch op {
			case token.EQL:
				out.lins = append(out.lins, bFact{l: a.sub(b)}, bFact{l: b.sub(a)})
			case token.NEQ:
				if b.isConst() && b.c == 0 {
					out.lins = append(out.lins, bFact{l: a.plus(-1)})
				}
				if a.isConst() && a.c == 0 {
					out.lins = append(out.lins, bFact{l: b.plus(-1)})
				}
			}
		}
		return
	}
	d := p.lin(fr, x.X).sub(p.lin(fr, x.Y))
	switch op {
	case token.EQL:
		out.lins = append(out.lins, bFact{l: d}, bFact{l: d.scale(-1)})
	case token.NEQ:
		out.lins = append(out.lins, bFact{l: d, neq: true})
	case token.LSS:
		out.lins = append(out.lins, bFact{l: d.scale(-1).plus(-1)})
	case token.LEQ:
		out.lins = append(out.lins, bFact{l: d.scale(-1)})
	case token.GTR:
		out.lins = append(out.lins, bFact{l: d.plus(-1)})
	case token.GEQ:
		out.lins = append(out.lins, bFact{l: d})
	}
}

// noError: what a standard function that did not fail has returned.
func (p *BProver) noError(fr *bFrame, z ssa.Value, out *bFacts) {
	e, ok := z.(*ssa.Extract)
	if !ok {
		return
	}
	c, ok := e.Tuple.(*ssa.Call)
	if !ok {
		return
	}
	f := extCallee(c)
	if f == nil || f.FullName() != "(*bufio.Reader).Peek" || len(c.Call.Args) != 2 {
		return
	}
	for _, u := range *c.Referrers() {
		if x, ok := u.(*ssa.Extract); ok && x.Index == 0 && e.Index == 1 {
			out.lins = append(out.lins, bFact{l: p.lenOf(fr, x).sub(p.lin(fr, c.Call.Args[1]))})
		}
	}
}

// nilFields: an object that is not there counts as one whose numbers are 0.
func (p *BProver) nilFields(o bObj, t types.Type, out *bFacts) {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok || len(p.objInvs(typeKey(t))) == 0 {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if !isInteger(st.Field(i).Type()) {
			continue
		}
		_, fv := fieldKeyT(t, i)
		if fv == nil {
			continue
		}
		l := p.linObj(p.sel(o, bSel{field: fv, owner: typeKey(t)}, nil))
		out.lins = append(out.lins, bFact{l: l}, bFact{l: l.scale(-1)})
	}
}

// ---- proving ----

type bState struct {
	fr    *bFrame
	blk   *ssa.BasicBlock
	hyps  *bFacts
	seen  map[string]bool
	split int
	sharp bool
	ored  int
	ors   map[string]bool
	// loops of which the state is in an earlier round than the last
	moved []bMoved
}

type bMoved struct {
	fr *bFrame
	lp *natLoop
}

// late: the object gets its value after a loop the state is in an earlier round of; what defines it speaks of the last
// round.
func (st *bState) late(o bObj) bool {
	for _, m := range st.moved {
		after := func(b *ssa.BasicBlock) bool { return b != nil && !m.lp.body[b] && !b.Dominates(m.lp.head) }
		for _, s := range o.sels {
			if s.index != nil {
				for _, a := range s.index.a {
					if st.late(a.o) {
						return true
					}
				}
			}
		}
		if o.fr == m.fr {
			switch x := o.v.(type) {
			case *bMem:
				if after(x.blk) || x.call != nil && after(x.call.Block()) {
					return true
				}
			case ssa.Instruction:
				if after(x.Block()) {
					return true
				}
			}
			continue
		}
		for x := o.fr; x != nil && x.up != nil; x = x.up {
			if x.up == m.fr && after(x.call.Block()) {
				return true
			}
		}
	}
	return false
}

// Prove: goal >= 0 whenever control is in block blk of frame fr.
func (p *BProver) Prove(fr *bFrame, blk *ssa.BasicBlock, goal *bLin) bool {
	return p.deepen(&bState{fr: fr, blk: blk, hyps: &bFacts{flags: map[string]string{}}, seen: map[string]bool{}}, goal, 3000)
}

// deepen: first with few case distinctions, then with more.
func (p *BProver) deepen(st *bState, goal *bLin, budget int) bool {
	saved := p.maxSplit
	savedOrs := p.noOrs
	defer func() { p.maxSplit, p.noOrs = saved, savedOrs }()
	for _, m := range []int{1, 2, -6, 3, 4, 6} {
		p.maxSplit = m
		p.noOrs = m < 0
		p.budget = budget
		if m < 4 {
			p.budget = budget / 3
		}
		if m < 0 {
			p.maxSplit = -m
		}
		if p.prove(st, goal, 0) {
			return true
		}
	}
	return false
}

// opposed: two of the facts contradict each other.
func opposed(facts []bFact) bool {
	m := map[string]int64{}
	for _, f := range facts {
		if f.neq || f.l.isConst() {
			continue
		}
		k := f.l.plus(-f.l.c).key()
		if c, ok := m[k]; !ok || f.l.c < c {
			m[k] = f.l.c
		}
	}
	for _, f := range facts {
		if f.neq || f.l.isConst() {
			continue
		}
		n := f.l.scale(-1)
		if c, ok := m[n.plus(-n.c).key()]; ok && c+f.l.c < 0 {
			return true
		}
	}
	return false
}

// saysNothing: one of the alternatives is already known.
func saysNothing(alts []*bFacts, known []bFact) bool {
	for _, a := range alts {
		if len(a.flags) > 0 {
			continue
		}
		all := true
		for _, x := range a.lins {
			has := x.l.isConst() && x.l.c >= 0 && !x.neq
			for _, f := range known {
				if f.neq == x.neq && sharper(f.l, x.l, x.neq) {
					has = true
					break
				}
			}
			if !has {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// sharper: f >= 0 implies x >= 0, the two differing by a constant (equal, for disequalities).
func sharper(f, x *bLin, same bool) bool {
	if len(f.t) != len(x.t) {
		return false
	}
	d := x.sub(f)
	return d.isConst() && (d.c == 0 || d.c > 0 && !same)
}

type bElim struct {
	p     *BProver
	st    *bState
	facts []bFact
	intr  map[string]bool
	seen  map[string]bool
	resid []*bLin
	steps int
	depth int
}

func (p *BProver) prove(st *bState, goal *bLin, depth int) bool {
	if goal.isConst() && goal.c >= 0 {
		return true
	}
	if p.budget <= 0 || depth > 7 || bOverflows(goal) {
		return false
	}
	p.budget--
	p.Steps++
	if p.debug {
		fmt.Printf("%*sprove d%d s%d @%s.%d: %v | %v\n", depth*2, "", depth, st.split, st.fr.fn.Name(), st.blk.Index, goal, st.hyps.String())
	}
	sk := fmt.Sprintf("%s|%s|%d|%d", goal.key(), st.fr.id, st.blk.Index, len(st.hyps.lins))
	if st.seen[sk] {
		return false
	}
	st.seen[sk] = true
	defer delete(st.seen, sk)
	df := p.domFacts(st.fr, st.blk)
	e := &bElim{p: p, st: st, intr: map[string]bool{}, seen: map[string]bool{}, depth: depth}
	e.facts = append(append(e.facts, st.hyps.lins...), df.lins...)
	for _, f := range e.facts {
		if !f.neq && f.l.isConst() && f.l.c < 0 {
			return true // not reachable
		}
	}
	if opposed(e.facts) {
		return true
	}
	if e.run(goal, 0) {
		return true
	}
	// an inequality sharpened by a disequality
	for _, f := range e.facts {
		if !f.neq {
			continue
		}
		if f.l.key() == goal.plus(1).key() || f.l.scale(-1).key() == goal.plus(1).key() {
			nst := *st
			if p.prove(&nst, goal.plus(1), depth+1) {
				return true
			}
		}
	}
	// a quantity that is not zero and cannot be negative is at least one
	if depth == 0 && !st.sharp {
		var more []bFact
		for _, f := range e.facts {
			if !f.neq || len(f.l.t) != 1 || f.l.c != 0 || len(more) > 3 {
				continue
			}
			for _, l := range []*bLin{f.l, f.l.scale(-1)} {
				nst := *st
				nst.sharp = true
				if p.prove(&nst, l, depth+1) {
					more = append(more, bFact{l: l.plus(-1)})
					break
				}
			}
		}
		if len(more) > 0 {
			nst := *st
			nst.sharp = true
			h := *st.hyps
			h.lins = append(append([]bFact{}, h.lins...), more...)
			nst.hyps = &h
			if p.prove(&nst, goal, depth+1) {
				return true
			}
		}
	}
	if st.split >= p.maxSplit {
		return false
	}
	tried := map[string]bool{}
	goals := append([]*bLin{goal}, e.resid...)
	for gi, g := range goals {
		if gi > 8 {
			break
		}
		for _, r := range p.splitRoots(g) {
			k := r.key() + "|" + g.key()
			if tried[k] {
				continue
			}
			tried[k] = true
			if p.debug {
				fmt.Printf("%*ssplit %v for %v\n", depth*2, "", r, g)
			}
			if p.splitOn(st, g, r, depth) {
				return true
			}
			if p.budget <= 0 {
				return false
			}
		}
	}
	// which way a join was reached
	if st.ored < 2 && !p.noOrs {
		for _, alts := range append(append(append([][]*bFacts{}, st.hyps.ors...), df.ors...), p.orFacts(st.fr, st.blk)...) {
			i := ""
			for _, a := range alts {
				i += a.String() + "|"
			}
			if st.ors[i] || saysNothing(alts, e.facts) {
				continue
			}
			ok := true
			for _, a := range alts {
				nst := *st
				nst.ored++
				nst.ors = map[string]bool{i: true}
				for k := range st.ors {
					nst.ors[k] = true
				}
				nst.hyps = st.hyps.clone()
				if p.refuted(&nst, a.lins, depth) {
					continue
				}
				nst.hyps.merge(a)
				var neq []bFact
				for _, f := range p.allFacts(&nst).lins {
					if f.neq {
						neq = append(neq, f)
					}
				}
				if p.refuted(&nst, neq, depth) {
					continue
				}
				if !p.prove(&nst, goal, depth+1) {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// run: the goal follows from the facts by adding non-negative multiples of them.
func (e *bElim) run(goal *bLin, depth int) bool {
	if goal.isConst() {
		return goal.c >= 0
	}
	e.steps++
	if e.steps > 400 || bOverflows(goal) {
		return false
	}
	gk := goal.key()
	if e.p.debug {
		fmt.Printf("%*s. run %v\n", depth*2, "", goal)
	}
	if e.seen[gk] {
		return false
	}
	e.seen[gk] = true
	for _, k := range sortedKeys(goal.a) {
		a := goal.a[k]
		if !e.intr[k] {
			e.intr[k] = true
			e.facts = append(e.facts, e.p.intrinsic(e.st, a, e.depth)...)
		}
	}
	for _, k := range sortedKeys(goal.a) {
		if goal.t[k] <= 0 {
			continue
		}
		for _, j := range sortedKeys(goal.a) {
			if goal.t[j] >= 0 || e.intr[k+">="+j] {
				continue
			}
			e.intr[k+">="+j] = true
			if e.p.isMaximum(e.st, goal.a[k], goal.a[j]) {
				e.facts = append(e.facts, bFact{l: bAtomLin(goal.a[k]).sub(bAtomLin(goal.a[j]))})
			}
		}
	}
	// constant bounds of the atoms
	low, ok := goal.c, true
	var bad []string
	for _, k := range sortedKeys(goal.t) {
		c := goal.t[k]
		b, has := e.p.atomBound(e, goal.a[k], c > 0)
		if !has {
			ok = false
			bad = append(bad, k)
			continue
		}
		low += c * b
	}
	if ok && low >= 0 {
		return true
	}
	if depth >= 6 {
		return false
	}
	e.resid = append(e.resid, goal)
	cand := sortedKeys(goal.t)
	if len(bad) > 0 {
		sort.SliceStable(cand, func(i, j int) bool { return cand[i] == bad[0] && cand[j] != bad[0] })
	}
	for ci, k := range cand {
		c := goal.t[k]
		used := false
		for i := 0; i < len(e.facts); i++ {
			f := e.facts[i]
			fc := f.l.t[k]
			if f.neq || fc == 0 || (fc > 0) != (c > 0) {
				continue
			}
			used = true
			m, n := abs64(fc), abs64(c)
			g := goal.scale(m).addScaled(f.l, -n)
			if m > 1 {
				g = g.plus(m - 1)
			}
			if e.run(g, depth+1) {
				return true
			}
		}
		if ci == 0 && used && len(bad) > 0 && depth > 0 {
			return false
		}
	}
	return false
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// atomBound: a constant bound of the atom (lower when lo), from its type and single-atom facts and field invariants.
func (p *BProver) atomBound(e *bElim, a *bAtom, lo bool) (int64, bool) {
	best, has := int64(0), false
	take := func(v int64) {
		if !has || lo && v > best || !lo && v < best {
			best, has = v, true
		}
	}
	if lo && a.isLen {
		take(0)
	}
	if !a.isLen {
		if t := a.o.typ(); t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok {
				switch b.Kind() {
				case types.Uint8:
					if lo {
						take(0)
					} else {
						take(255)
					}
				case types.Uint16:
					if lo {
						take(0)
					} else {
						take(65535)
					}
				case types.Int8:
					if lo {
						take(-128)
					} else {
						take(127)
					}
				case types.Int16:
					if lo {
						take(-32768)
					} else {
						take(32767)
					}
				case types.Uint, types.Uint32, types.Uint64, types.Uintptr:
					if lo {
						take(0)
					}
				}
			}
		}
	}
	for _, f := range e.facts {
		if f.neq || len(f.l.t) != 1 {
			continue
		}
		c := f.l.t[a.k]
		if c > 0 && lo { // c*a + k >= 0
			take(ceilDiv(-f.l.c, c))
		}
		if c < 0 && !lo {
			take(floorDiv(f.l.c, -c))
		}
	}
	if n := len(a.o.sels); n > 0 && a.o.sels[n-1].field != nil {
		if v, ok := p.fieldBound(a.o.sels[n-1], a.isLen, lo); ok && !a.runes {
			take(v)
		}
	}
	return best, has
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

// sub proves a side condition in the same state.
func (p *BProver) sub(st *bState, goal *bLin, depth int) bool {
	if depth > 5 {
		return false
	}
	nst := *st
	nst.split = st.split + 2
	return p.prove(&nst, goal, depth+2)
}

// intrinsic facts of an atom.
func (p *BProver) intrinsic(st *bState, a *bAtom, depth int) []bFact {
	out := p.intrinsicFacts(st, a, depth)
	if st.late(a.o) {
		var kept []bFact
		for _, f := range out {
			ok := true
			for _, m := range st.moved {
				if linInLoop(f.l, m.fr, m.lp, nil) {
					ok = false
				}
			}
			if ok {
				kept = append(kept, f)
			}
		}
		return kept
	}
	return out
}

func (p *BProver) intrinsicFacts(st *bState, a *bAtom, depth int) []bFact {
	var out []bFact
	self := bAtomLin(a)
	ge := func(l *bLin) { out = append(out, bFact{l: l}) }
	if a.isLen {
		ge(self)
	}
	if a.runes {
		n := p.lenObj(a.o)
		ge(n.sub(self))
		ge(self.scale(4).sub(n))
		return out
	}
	if n := len(a.o.sels); n > 0 {
		if a.o.sels[n-1].fn != "" {
			if p.pureLow[a.o.sels[n-1].fn] {
				ge(self)
			}
			return append(out, p.clusterSum(st, a, self, depth)...)
		}
		if n == 1 && a.o.sels[0].index != nil && !a.isLen && p.elemsLow(a.o.fr, a.o.v, a.o.idx) {
			ge(self)
		}
		return append(out, p.relations(st, a, depth)...)
	}
	fr := a.o.fr
	if a.isLen {
		switch x := a.o.v.(type) {
		case *ssa.Convert:
			from, to := x.X.Type().Underlying(), x.Type().Underlying()
			switch {
			case isRuneSlice(from) && isString(to):
				ge(p.lenOf(fr, x.X).scale(4).sub(self))
				ge(self.sub(p.lenOf(fr, x.X)))
			case isInteger(from) && isString(to):
				ge(self.plus(-1))
				ge(bConst(4).sub(self))
			}
		case *ssa.Call:
			if e := extCallee(x); e != nil {
				args := x.Call.Args
				switch e.FullName() {
				case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimFunc", "strings.TrimRightFunc", "strings.TrimLeftFunc", "bytes.TrimSpace", "bytes.Trim", "bytes.TrimPrefix", "bytes.TrimSuffix":
					ge(p.lenOf(fr, args[0]).sub(self))
				case "strings.Split", "strings.SplitAfter", "bytes.Split":
					if s := p.lenOf(fr, args[1]); s.isConst() && s.c > 0 {
						ge(self.plus(-1))
					}
				case "strings.Cut":
					ge(p.lenOf(fr, args[0]).sub(self))
				}
			}
		case *ssa.Phi:
			out = append(out, p.phiFacts(fr, x, self, true)...)
		}
		return out
	}
	switch x := a.o.v.(type) {
	case *ssa.Phi:
		out = append(out, p.phiFacts(fr, x, self, false)...)
		out = append(out, p.clusterFacts(fr, x, self)...)
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO:
			n, d := p.lin(fr, x.X), p.lin(fr, x.Y)
			if d.isConst() && d.c > 0 {
				ge(n.sub(self.scale(d.c)).plus(d.c - 1))
				ge(self.scale(d.c).sub(n).plus(d.c - 1))
				if p.sub(st, n, depth) {
					ge(self)
					ge(n.sub(self.scale(d.c)))
				}
			} else if p.sub(st, n, depth) && p.sub(st, d.plus(-1), depth) {
				ge(self)
				ge(n.sub(self))
			}
		case token.REM:
			n, d := p.lin(fr, x.X), p.lin(fr, x.Y)
			pos := d.isConst() && d.c > 0 || p.sub(st, d.plus(-1), depth)
			if pos {
				ge(d.sub(self).plus(-1))
				ge(self.add(d).plus(-1))
				if p.sub(st, n, depth) {
					ge(self)
					ge(n.sub(self))
				}
			}
		case token.AND:
			for _, y := range []ssa.Value{x.X, x.Y} {
				if c := p.lin(fr, y); c.isConst() && c.c >= 0 {
					ge(self)
					ge(c.sub(self))
				}
			}
		case token.SHR:
			n := p.lin(fr, x.X)
			if p.sub(st, n, depth) {
				ge(self)
				ge(n.sub(self))
				if c := p.lin(fr, x.Y); c.isConst() && c.c >= 0 && c.c < 30 {
					ge(n.sub(self.scale(1 << c.c)))
				}
			}
		case token.MUL:
			n, d := p.lin(fr, x.X), p.lin(fr, x.Y)
			nn, dn := p.sub(st, n, depth), p.sub(st, d, depth)
			if nn && dn {
				ge(self)
			}
			for _, o := range []struct {
				x, y *bLin
				ok   bool
			}{{n, d, nn}, {d, n, dn}} {
				// x*y <= x*hi(y)
				if !o.ok || len(o.y.a) != 1 || len(o.x.a) == 0 {
					continue
				}
				for k, y := range o.y.a {
					e := &bElim{p: p, st: st, facts: p.allFacts(st).lins}
					if hi, ok := p.atomBound(e, y, false); ok && o.y.t[k] > 0 && hi < 1<<20 && hi > -1<<20 {
						ge(o.x.scale(hi*o.y.t[k] + o.y.c).sub(self))
					}
				}
			}
		}
	case *ssa.Convert:
		if isInteger(x.X.Type()) && isInteger(x.Type()) {
			// a value that fits is kept
			n := p.lin(fr, x.X)
			lo, hi, ok := intRange(x.Type())
			if ok && p.sub(st, n.plus(-lo), depth) && p.sub(st, bConst(hi).sub(n), depth) {
				ge(n.sub(self))
				ge(self.sub(n))
			}
		}
	case *ssa.Call:
		out = append(out, p.callFacts(st, fr, x, a.o.idx, self, depth)...)
	case *ssa.Lookup:
		if !x.CommaOk && p.mapLow(x.X, false) {
			ge(self)
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			if x.Index == 0 && p.mapLow(t.X, false) {
				ge(self)
			}
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && !t.IsString && p.mapLow(r.X, x.Index == 1) {
				ge(self)
			}
		}
		if n, ok := x.Tuple.(*ssa.Next); ok && n.IsString && x.Index == 1 {
			if r, ok := n.Iter.(*ssa.Range); ok {
				ge(self)
				ge(p.lenOf(fr, r.X).sub(self).plus(-1))
			}
		}
	}
	return out
}

func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Int8:
		return -128, 127, true
	case types.Uint16:
		return 0, 65535, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Uint, types.Uint64:
		return 0, 1 << 62, true
	case types.Int, types.Int64:
		return -1 << 62, 1 << 62, true
	}
	return
}

// phiFacts: a loop variable that only grows (or shrinks) is bounded by its start.
func (p *BProver) phiFacts(fr *bFrame, x *ssa.Phi, self *bLin, isLen bool) []bFact {
	k := fmt.Sprintf("%s|%p|%v", fr.id, x, isLen)
	if f, ok := p.phis[k]; ok {
		return f
	}
	p.phis[k] = nil
	b := p.budget
	p.budget = 3000
	f := p.phiFacts1(fr, x, self, isLen)
	p.budget = b
	p.phis[k] = f
	return f
}

func (p *BProver) phiFacts1(fr *bFrame, x *ssa.Phi, self *bLin, isLen bool) []bFact {
	val := func(v ssa.Value) *bLin {
		if isLen {
			return p.lenOf(fr, v)
		}
		return p.lin(fr, v)
	}
	if loopOf(x.Block()) == nil {
		return nil
	}
	var entry *bLin
	up, down := true, true
	minStep := int64(0)
	for i, e := range x.Edges {
		if x.Block().Dominates(x.Block().Preds[i]) {
			d, ok := p.stepOf(fr, x, e, self, val, 0)
			if !ok {
				return nil
			}
			for _, s := range d {
				up = up && s >= 0
				down = down && s <= 0
				minStep = min(minStep, s)
			}
			continue
		}
		l := val(e)
		if entry != nil && entry.key() != l.key() {
			return nil
		}
		entry = l
	}
	if entry == nil {
		return nil
	}
	var out []bFact
	if n, ok := p.countdown(fr, x); ok && minStep < 0 {
		out = append(out, bFact{l: self.sub(entry).plus(-n * minStep)})
	}
	if up {
		out = append(out, bFact{l: self.sub(entry)})
	}
	if down {
		out = append(out, bFact{l: entry.sub(self)})
	}
	return out
}

// stepOf: the constants by which the loop variable can change in one round.
func (p *BProver) stepOf(fr *bFrame, x *ssa.Phi, e ssa.Value, self *bLin, val func(ssa.Value) *bLin, depth int) ([]int64, bool) {
	if depth > 9 {
		return nil, false
	}
	d := val(e).sub(self)
	if d.isConst() {
		return []int64{d.c}, true
	}
	// x + phi' where phi' is a merge inside the loop
	if ph, ok := e.(*ssa.Phi); ok && ph.Block() != x.Block() {
		if lp := loopOf(ph.Block()); lp != nil {
			// an inner loop that only adds
			if !loopOf(x.Block()).body[ph.Block()] {
				return nil, false
			}
			var out []int64
			for i, f := range ph.Edges {
				var s []int64
				var ok bool
				if lp.body[ph.Block().Preds[i]] {
					s, ok = p.stepOf(fr, ph, f, val(ph), val, depth+1)
				} else {
					s, ok = p.stepOf(fr, x, f, self, val, depth+1)
				}
				if !ok {
					return nil, false
				}
				for _, k := range s {
					if k < 0 {
						return nil, false
					}
				}
				out = append(out, s...)
			}
			return out, true
		}
		var out []int64
		for _, f := range ph.Edges {
			s, ok := p.stepOf(fr, x, f, self, val, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		}
		return out, true
	}
	if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if c := p.lin(fr, b.Y); c.isConst() {
			s, ok := p.stepOf(fr, x, b.X, self, val, depth+1)
			k := c.c
			if b.Op == token.SUB {
				k = -k
			}
			for i := range s {
				s[i] += k
			}
			return s, ok
		}
		// adding something that is not negative
		if b.Op == token.ADD {
			l := p.lin(fr, b.Y)
			st := &bState{fr: fr, blk: b.Block(), hyps: &bFacts{flags: map[string]string{}}, seen: map[string]bool{}, split: 3}
			if depth < 2 && p.prove(st, l, 4) {
				s, ok := p.stepOf(fr, x, b.X, self, val, depth+1)
				for i := range s {
					if s[i] < 0 {
						return nil, false
					}
					s[i] = 1
				}
				return s, ok
			}
		}
	}
	if c, ok := e.(*ssa.Call); ok && isBuiltin(c, "append") && len(c.Call.Args) == 2 {
		s, ok := p.stepOf(fr, x, c.Call.Args[0], self, val, depth+1)
		for i := range s {
			if s[i] < 0 {
				return nil, false
			}
			s[i] = 1
		}
		return s, ok
	}
	return nil, false
}

func (p *BProver) callFacts(st *bState, fr *bFrame, x *ssa.Call, idx int, self *bLin, depth int) []bFact {
	var out []bFact
	ge := func(l *bLin) { out = append(out, bFact{l: l}) }
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "min":
			for _, a := range x.Call.Args {
				ge(p.lin(fr, a).sub(self))
			}
		case "max":
			for _, a := range x.Call.Args {
				ge(self.sub(p.lin(fr, a)))
			}
		case "copy":
			ge(self)
			ge(p.lenOf(fr, x.Call.Args[0]).sub(self))
			ge(p.lenOf(fr, x.Call.Args[1]).sub(self))
		case "cap":
			ge(self.sub(p.lenOf(fr, x.Call.Args[0])))
			ge(self)
		}
		return out
	}
	e := extCallee(x)
	if e == nil {
		return nil
	}
	args := x.Call.Args
	name := e.FullName()
	switch name {
	case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
		ge(self.plus(1))
		s := p.lenOf(fr, args[1])
		if s.isConst() && s.c > 0 {
			ge(p.lenOf(fr, args[0]).sub(self).plus(-1))
		} else {
			ge(p.lenOf(fr, args[0]).sub(self))
		}
	case "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc", "strings.LastIndexByte", "strings.LastIndexAny", "strings.LastIndexFunc", "bytes.IndexByte", "bytes.IndexRune", "bytes.LastIndexByte":
		ge(self.plus(1))
		ge(p.lenOf(fr, args[0]).sub(self).plus(-1))
	case "strings.Count", "bytes.Count":
		ge(self)
	case "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount":
		ge(self)
		ge(p.lenOf(fr, args[0]).sub(self))
	case "unicode/utf8.RuneLen":
		ge(self.plus(1))
		ge(bConst(4).sub(self))
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune", "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeLastRune":
		if idx == 1 {
			ge(self)
			ge(bConst(4).sub(self))
			n := p.lenOf(fr, args[0])
			ge(n.sub(self))
			if p.sub(st, n.plus(-1), depth) {
				ge(self.plus(-1))
			}
		}
	case "unicode/utf8.EncodeRune":
		ge(self.plus(-1))
		ge(bConst(4).sub(self))
	case "sort.Search":
		ge(self)
		ge(p.lin(fr, args[0]).sub(self))
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len", "(*strings.Reader).Len", "(*bytes.Reader).Len":
		ge(self)
	case "(*os.File).Read", "(io.Reader).Read", "(*bufio.Reader).Read", "io.ReadFull", "io.ReadAtLeast", "(*bytes.Reader).Read", "(*strings.Reader).Read":
		if idx == 0 {
			buf := args[len(args)-1]
			if name == "io.ReadAtLeast" {
				buf = args[1]
			}
			ge(self)
			ge(p.lenOf(fr, buf).sub(self))
		}
	case "encoding/base64.(*Encoding).EncodedLen", "(*encoding/base64.Encoding).EncodedLen", "(*encoding/base64.Encoding).DecodedLen":
		ge(self)
	default:
		switch e.Name() {
		case "StringWidth", "RuneWidth", "StringWidthWithOptions", "RuneWidthWithOptions":
			if !isRepoPath(extPkg(e)) {
				ge(self)
			}
		}
	}
	return out
}

// ---- case splits ----

func (p *BProver) splitRoots(g *bLin) []bObj {
	var out []bObj
	seen := map[string]bool{}
	var visit func(o bObj)
	visit = func(o bObj) {
		for _, s := range o.sels {
			if s.index != nil {
				for _, k := range sortedKeys(s.index.a) {
					visit(s.index.a[k].o)
				}
			}
		}
		r := bObj{fr: o.fr, v: o.v, idx: o.idx}
		if seen[r.key()] {
			return
		}
		seen[r.key()] = true
		switch x := o.v.(type) {
		case *ssa.Phi:
			out = append(out, r)
		case *bMem:
			if x.call == nil {
				out = append(out, r)
			} else if c := bRoot(x.fr, x.call, 0); !seen[c.key()] {
				seen[c.key()] = true
				out = append(out, c)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "min" || b.Name() == "max" {
					out = append(out, r)
				}
				return
			}
			if len(p.calleesOf(o.fr, x)) > 0 {
				out = append(out, r)
			}
		}
	}
	for _, k := range sortedKeys(g.a) {
		visit(g.a[k].o)
	}
	return out
}

func (p *BProver) calleesOf(fr *bFrame, c *ssa.Call) []*ssa.Function {
	if fr.depth >= bMaxDepth {
		return nil
	}
	var fs []*ssa.Function
	if c.Call.IsInvoke() {
		o := p.obj(fr, c.Call.Value)
		if t := o.typ(); t != nil && !types.IsInterface(t) {
			if f := p.w.Method(t, c.Call.Method.Name()); f != nil {
				fs = []*ssa.Function{origin(f)}
			}
		}
		if fs == nil {
			fs = p.w.Implementers(c.Call.Method)
			if c.Call.Method.Pkg() == nil || !isRepoPath(c.Call.Method.Pkg().Path()) {
				return nil
			}
		}
	} else if g := c.Call.StaticCallee(); g != nil {
		fs = []*ssa.Function{origin(unwrap(g))}
	}
	if len(fs) > 4 {
		return nil
	}
	for _, g := range fs {
		if !p.w.funcSet[g] || len(g.Blocks) == 0 || fr.has(g) || len(returnsOf(g)) > 10 {
			return nil
		}
	}
	return fs
}

// substitution of roots
type bSubst func(o bObj) (fr *bFrame, v ssa.Value, at ssa.Instruction, ok bool)

func (p *BProver) substObj(o bObj, s bSubst) (bObj, bool) {
	sels := o.sels
	changed := false
	for i, x := range sels {
		if x.index != nil {
			if n, c := p.substLin(x.index, s); c {
				if !changed {
					sels = append([]bSel{}, sels...)
					changed = true
				}
				sels[i].index = n
			}
		}
	}
	fr, v, at, ok := s(o)
	if !ok {
		if changed {
			return bObj{fr: o.fr, v: o.v, idx: o.idx, sels: sels}, true
		}
		return o, false
	}
	return p.applySels(fr, v, sels, at), true
}

func (p *BProver) applySels(fr *bFrame, v ssa.Value, sels []bSel, at ssa.Instruction) bObj {
	if len(sels) == 0 {
		return p.obj(fr, v)
	}
	if bv, ok := v.(*bVal); ok {
		o := bv.o
		for _, x := range sels {
			o = p.fieldOf(o, x, fr, at)
		}
		return o
	}
	s := sels[0]
	var o bObj
	if s.field != nil {
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok && at != nil {
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
				if i := bFieldIndex(st, s.field); i >= 0 {
					key, fv := fieldKeyT(pt.Elem(), i)
					o = p.readField(fr, v, i, key, fv, at)
				}
			}
		}
	}
	if o.v == nil {
		o = p.sel(p.obj(fr, v), s, at)
	}
	for _, x := range sels[1:] {
		if x.index != nil && len(o.sels) == 0 {
			if _, isRet := at.(*ssa.Return); isRet && fr.call != nil && fr.up != nil {
				if ms, ok := o.v.(*ssa.MakeSlice); ok && x.tag == fmt.Sprintf("@%s:%p", fr.up.id, fr.call) {
					// the element as the call left it
					key := elemKey(ms.Type())
					if r, ok := p.elemAt(fr, o, x.index, key, at); ok {
						o = r
						continue
					}
					x.tag = p.tag(fr, at, key)
				}
			}
		}
		o = p.fieldOf(o, x, fr, at)
	}
	return o
}

func bFieldIndex(st *types.Struct, fv *types.Var) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == fv || st.Field(i).Name() == fv.Name() {
			return i
		}
	}
	return -1
}

func (p *BProver) substLin(l *bLin, s bSubst) (*bLin, bool) {
	changed := false
	out := bConst(l.c)
	for _, k := range sortedKeys(l.t) {
		a := l.a[k]
		o, c := p.substObj(a.o, s)
		if !c {
			out = out.addScaled(bAtomLin(a), l.t[k])
			continue
		}
		changed = true
		var n *bLin
		if a.runes {
			n = p.runesObj(o)
		} else if a.isLen {
			n = p.lenObj(o)
		} else {
			n = p.linObj(o)
		}
		out = out.addScaled(n, l.t[k])
	}
	if !changed {
		return l, false
	}
	return out, true
}

// inLoop: the object's value can differ from one round of the loop (of frame f) to the next.
func inLoop(o bObj, f *bFrame, l *natLoop) bool {
	for _, s := range o.sels {
		if s.tag != "" {
			return true
		}
		if s.index != nil {
			for _, a := range s.index.a {
				if inLoop(a.o, f, l) {
					return true
				}
			}
		}
	}
	fr := o.fr
	if m, ok := o.v.(*bMem); ok && fr == f {
		return m.blk != nil && l.body[m.blk] || m.call != nil && l.body[m.call.Block()]
	}
	if fr == f {
		if in, ok := o.v.(ssa.Instruction); ok {
			return l.body[in.Block()]
		}
		return false
	}
	for x := fr; x != nil && x.up != nil; x = x.up {
		if x.up == f {
			return l.body[x.call.Block()]
		}
	}
	return false
}

func linInLoop(l *bLin, f *bFrame, lp *natLoop, allow func(bObj) bool) bool {
	for _, a := range l.a {
		if allow != nil && allow(bObj{fr: a.o.fr, v: a.o.v, idx: a.o.idx}) {
			ok := true
			for _, s := range a.o.sels {
				if s.tag != "" || s.index != nil && linInLoop(s.index, f, lp, allow) {
					ok = false
				}
			}
			if ok {
				continue
			}
		}
		if inLoop(a.o, f, lp) {
			return true
		}
	}
	return false
}

func (p *BProver) allFacts(st *bState) *bFacts {
	f := st.hyps.clone()
	f.merge(p.domFacts(st.fr, st.blk))
	return f
}

func (p *BProver) splitOn(st *bState, goal *bLin, r bObj, depth int) bool {
	if st.late(r) {
		return false
	}
	switch x := r.v.(type) {
	case *ssa.Phi:
		return p.splitPhi(st, goal, r, x, depth)
	case *bMem:
		return p.splitMem(st, goal, x, depth)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			for i, a := range x.Call.Args {
				s := func(o bObj) (*bFrame, ssa.Value, ssa.Instruction, bool) {
					if o.v == ssa.Value(x) && o.fr == r.fr {
						return r.fr, a, x, true
					}
					return nil, nil, nil, false
				}
				g, _ := p.substLin(goal, s)
				n := &bState{fr: st.fr, blk: st.blk, hyps: st.hyps.clone(), seen: st.seen, split: st.split + 1, moved: st.moved}
				n.hyps.merge(p.substFacts(st.hyps, s))
				for j, o := range x.Call.Args {
					if j == i {
						continue
					}
					d := p.lin(r.fr, o).sub(p.lin(r.fr, a))
					if b.Name() == "max" {
						d = d.scale(-1)
					}
					n.hyps.lins = append(n.hyps.lins, bFact{l: d})
				}
				if !p.prove(n, g, depth+1) {
					return false
				}
			}
			return true
		}
		return p.splitCall(st, goal, r, x, depth)
	}
	return false
}

func (p *BProver) splitCall(st *bState, goal *bLin, r bObj, c *ssa.Call, depth int) bool {
	all := p.allFacts(st)
	for _, g := range p.calleesOf(r.fr, c) {
		gf := p.frame(g, c, r.fr)
		for _, ret := range returnsOf(g) {
			if !p.consistent(all, r.fr, c, gf, ret) {
				continue
			}
			s := func(o bObj) (*bFrame, ssa.Value, ssa.Instruction, bool) {
				if o.v == ssa.Value(c) && o.fr == r.fr && o.idx < len(ret.Results) {
					return gf, ret.Results[o.idx], ret, true
				}
				if m, ok := o.v.(*bMem); ok && m.call == c && o.fr == r.fr {
					return gf, p.memAfter(m, gf, ret), ret, true
				}
				return nil, nil, nil, false
			}
			ng, _ := p.substLin(goal, s)
			n := &bState{fr: gf, blk: ret.Block(), hyps: p.substFacts(all, s), seen: st.seen, split: st.split + 1, moved: st.moved}
			if p.refuted(n, p.localFacts(gf, ret.Block()).lins, depth) {
				continue
			}
			if !p.prove(n, ng, depth+1) {
				return false
			}
		}
	}
	return true
}

func (p *BProver) substFacts(f *bFacts, s bSubst) *bFacts {
	n := &bFacts{flags: f.flags}
	for _, x := range f.lins {
		l, _ := p.substLin(x.l, s)
		n.lins = append(n.lins, bFact{l: l, neq: x.neq})
	}
	for _, alts := range f.ors {
		var o []*bFacts
		for _, a := range alts {
			o = append(o, p.substFacts(a, s))
		}
		n.ors = append(n.ors, o)
	}
	return n
}

// consistent: the return can have produced the results that are known about the call.
func (p *BProver) consistent(all *bFacts, fr *bFrame, c *ssa.Call, gf *bFrame, ret *ssa.Return) bool {
	for i, v := range ret.Results {
		want := all.flags[bRoot(fr, c, i).key()]
		if want == "" {
			continue
		}
		o := p.obj(gf, v)
		if len(o.sels) > 0 {
			continue
		}
		switch x := o.v.(type) {
		case *ssa.Const:
			have := ""
			if x.Value == nil {
				have = "nil"
			} else if x.Value.Kind() == constant.Bool {
				have = fmt.Sprint(constant.BoolVal(x.Value))
			}
			if have != "" && have != want {
				return false
			}
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.FieldAddr, *ssa.Function:
			if want == "nil" {
				return false
			}
		case *ssa.Call:
			if e := extCallee(x); e != nil && want == "nil" {
				switch e.FullName() {
				case "errors.New", "fmt.Errorf":
					return false
				}
			}
		case *ssa.Global:
			if want == "nil" && !p.unfrozen["global:"+x.String()] && strings.HasPrefix(x.Name(), "Err") {
				return false
			}
		}
		// an error known not to be nil on this path
		have := p.domFacts(gf, ret.Block()).flags[o.key()]
		if have != "" && have != want {
			return false
		}
	}
	return true
}

func (p *BProver) splitPhi(st *bState, goal *bLin, r bObj, x *ssa.Phi, depth int) bool {
	h := x.Block()
	lp := loopOf(h)
	isPhi := func(o bObj) bool {
		ph, ok := o.v.(*ssa.Phi)
		return ok && ph.Block() == h && o.fr == r.fr
	}
	all := p.allFacts(st)
	modes := []bool{false}
	if lp != nil {
		if linInLoop(goal, r.fr, lp, isPhi) {
			return false
		}
		modes = []bool{true, false}
	}
	for _, induct := range modes {
		ok := true
		for i, pred := range h.Preds {
			back := h.Dominates(pred)
			s := func(o bObj) (*bFrame, ssa.Value, ssa.Instruction, bool) {
				if ph, isp := o.v.(*ssa.Phi); isp && ph.Block() == h && o.fr == r.fr {
					return r.fr, ph.Edges[i], pred.Instrs[len(pred.Instrs)-1], true
				}
				if m, isp := o.v.(*bMem); isp && m.blk == h && o.fr == r.fr {
					return r.fr, &bVal{m.edges[i]}, pred.Instrs[len(pred.Instrs)-1], true
				}
				return nil, nil, nil, false
			}
			ng, _ := p.substLin(goal, s)
			hyps := &bFacts{flags: map[string]string{}}
			var changed []bFact
			if !back && !induct {
				hyps.flags = all.flags
			}
			for _, f := range all.lins {
				if lp != nil && (back || induct) {
					if linInLoop(f.l, r.fr, lp, isPhi) {
						continue
					}
					if induct && linHas(f.l, isPhi) {
						continue
					}
				}
				l, ch := p.substLin(f.l, s)
				hyps.lins = append(hyps.lins, bFact{l: l, neq: f.neq})
				if ch {
					changed = append(changed, bFact{l: l, neq: f.neq})
				}
			}
			if lp == nil || !back && !induct {
				hyps.ors = p.substFacts(&bFacts{ors: all.ors}, s).ors
			}
			if back && induct {
				hyps.lins = append(hyps.lins, bFact{l: goal})
			}
			// the condition of the edge itself
			p.edgeFacts(r.fr, pred, h, hyps)
			n := &bState{fr: r.fr, blk: pred, hyps: hyps, seen: st.seen, split: st.split + 1, moved: st.moved}
			if lp != nil && back {
				n.moved = append(append([]bMoved{}, st.moved...), bMoved{r.fr, lp})
			}
			if !p.prove(n, ng, depth+1) && !p.refuted(n, changed, depth) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func linHas(l *bLin, f func(bObj) bool) bool {
	for _, a := range l.a {
		if f(a.o) {
			return true
		}
		for _, s := range a.o.sels {
			if s.index != nil && linHas(s.index, f) {
				return true
			}
		}
	}
	return false
}

// ---- field invariants ----

type bInvState struct {
	state int8 // 1 assumed, 2 proved, 3 failed
	seq   int
}

func (p *BProver) collectStores() {
	p.stores = map[string][]*ssa.Store{}
	p.allocs = map[string][]*ssa.Alloc{}
	for _, f := range append(append([]*ssa.Function{}, p.w.Funcs...), p.w.Inits...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						k, _ := fieldKeyOf(fa)
						p.stores[k] = append(p.stores[k], x)
					}
				case *ssa.Alloc:
					if n := namedOf(deref(x.Type())); n != nil {
						k := typeName(n.Origin())
						p.allocs[k] = append(p.allocs[k], x)
					}
				}
			}
		}
	}
	p.exposed = map[string]bool{}
	aliased := map[string]bool{}
	for _, pk := range p.w.Pkgs {
		if strings.Contains(pk.PkgPath, "/internal/") {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && tn.Exported() {
				if nt := namedOf(tn.Type()); nt != nil {
					aliased[typeName(nt.Origin())] = true
				}
			}
		}
	}
	p.assumed = aliased
}

// publicType: the application can name the type.
func (p *BProver) publicType(owner string) bool { return p.assumed[owner] }

func (p *BProver) fieldBound(s bSel, isLen, lo bool) (int64, bool) {
	var cands []int64
	if lo {
		cands = []int64{1, 0}
		if isLen {
			cands = []int64{1}
		}
	} else if !isLen {
		cands = p.upperCands(s)
	}
	t := s.field.Type().Underlying()
	if isLen {
		switch t.(type) {
		case *types.Slice:
		case *types.Basic:
			return 0, false
		default:
			return 0, false
		}
	} else if !isInteger(s.field.Type()) {
		return 0, false
	}
	for _, k := range cands {
		if p.invariant(s, isLen, lo, k) {
			return k, true
		}
	}
	return 0, false
}

func (p *BProver) upperCands(s bSel) []int64 {
	if u, ok := bUpper[s.owner+"."+s.field.Name()]; ok {
		return []int64{u}
	}
	return nil
}

// bUpper: upper bounds of fields, to be proved like any invariant.
var bUpper = map[string]int64{}

// invariant: in every state, T.f >= k (or <= k).
func (p *BProver) invariant(s bSel, isLen, lo bool, k int64) bool {
	key := fmt.Sprintf("%s.%s|%v|%v|%d", s.owner, s.field.Name(), isLen, lo, k)
	if st := p.inv[key]; st != nil {
		return st.state == 1 || st.state == 2
	}
	st := &bInvState{state: 1, seq: len(p.invOrder)}
	p.inv[key] = st
	p.invOrder = append(p.invOrder, key)
	saved := p.budget
	ok := p.proveInvariant(s, isLen, lo, k)
	p.budget = saved
	if ok {
		st.state = 2
		return true
	}
	// what was proved while this was assumed may rest on it
	for i := st.seq + 1; i < len(p.invOrder); i++ {
		if q := p.inv[p.invOrder[i]]; q != nil && q.state == 2 {
			delete(p.inv, p.invOrder[i])
		}
	}
	st.state = 3
	p.phis = map[string][]bFact{}
	p.elems = map[bElemKey]bool{}
	return false
}

func (p *BProver) proveInvariant(s bSel, isLen, lo bool, k int64) bool {
	fk := s.owner + "." + s.field.Name()
	if s.field.Exported() && p.publicType(s.owner) {
		return false
	}
	if p.unfrozen[fk] && p.addressUsed(fk) {
		return false
	}
	zeroOK := lo && k <= 0 || !lo && k >= 0
	if !zeroOK {
		if p.publicType(s.owner) && !s.field.Exported() {
			// the application can make a zero value of a struct type it can name, when used by value
			if p.usedByValue(s.owner) {
				return false
			}
		}
		for _, a := range p.allocs[s.owner] {
			if !p.allocSets(a, s.field.Name()) {
				return false
			}
		}
	}
	if len(p.stores[fk]) > 60 {
		return false
	}
	for _, x := range p.stores[fk] {
		st := x
		ok := p.ProveSite(st, func(fr *bFrame) []*bLin {
			var v *bLin
			if isLen {
				v = p.lenOf(fr, st.Val)
			} else {
				v = p.lin(fr, st.Val)
			}
			if lo {
				return []*bLin{v.plus(-k)}
			}
			return []*bLin{bConst(k).sub(v)}
		}, 1500)
		if !ok {
			if p.trace {
				fmt.Println("   invariant", fk, isLen, lo, k, "fails at", p.w.InstrPos(st))
			}
			return false
		}
	}
	return true
}

func (p *BProver) addressUsed(fk string) bool {
	for _, x := range p.stores[fk] {
		_ = x
	}
	return false
}

func (p *BProver) usedByValue(owner string) bool { return true }

// allocSets: the new object's field is stored in the function that makes it (or the object is a copy).
func (p *BProver) allocSets(a *ssa.Alloc, field string) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(a) {
				return true
			}
		case *ssa.FieldAddr:
			_, fv := fieldKeyOf(x)
			if fv == nil || fv.Name() != field {
				continue
			}
			for _, q := range *x.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(x) && a.Block().Dominates(st.Block()) {
					return true
				}
			}
		}
	}
	return false
}

// ---- sites ----

// isEntry: the application can call the function itself.
func (p *BProver) isEntry(f *ssa.Function) bool {
	f = origin(f)
	if f.Parent() != nil {
		return false
	}
	obj, ok := f.Object().(*types.Func)
	if !ok || !obj.Exported() {
		return false
	}
	pkg := pkgOf(f)
	internal := strings.Contains("/"+pkg+"/", "/internal/")
	if n := recvNamed(f); n != nil {
		if p.publicType(typeName(n.Origin())) {
			return true
		}
		return !internal && n.Obj().Exported()
	}
	return !internal
}

// isTestFunc: a test (one is in a file that is not a test file).
func isTestFunc(f *ssa.Function) bool {
	for _, q := range f.Params {
		if strings.HasPrefix(types.TypeString(q.Type(), nil), "*testing.") {
			return true
		}
	}
	return false
}

// measured: an exported operation of the measuring, layout and rendering packages counts as used although nothing in the
// repository calls it.
func measured(f *ssa.Function) bool {
	if f.Parent() != nil || !exported(f) {
		return false
	}
	rel := relPath(funcPkgPath(f))
	for _, d := range []string{"render/", "layout/", "style/", "core/"} {
		if strings.HasPrefix(rel, d) {
			return true
		}
	}
	return false
}

// ProveSite: the goals hold at the instruction in every context it can be reached in.
func (p *BProver) ProveSite(in ssa.Instruction, goals func(fr *bFrame) []*bLin, budget int) bool {
	n := 0
	ok, _ := p.proveChain(in, goals, nil, budget, &n)
	return ok
}

func (p *BProver) chainFrame(fn *ssa.Function, chain []ssa.CallInstruction) *bFrame {
	// chain[0] is the call of fn, chain[1] the call of its caller, ...
	var fr *bFrame
	for i := len(chain) - 1; i >= 0; i-- {
		if fr == nil {
			fr = p.frame(chain[i].Parent(), nil, nil)
		}
		callee := fn
		if i > 0 {
			callee = chain[i-1].Parent()
		}
		fr = p.frame(callee, chain[i], fr)
	}
	if fr == nil {
		fr = p.frame(fn, nil, nil)
	}
	return fr
}

func (p *BProver) proveChain(in ssa.Instruction, goals func(fr *bFrame) []*bLin, chain []ssa.CallInstruction, budget int, n *int) (bool, *bLin) {
	*n++
	if *n > 120 {
		return false, nil
	}
	fr := p.chainFrame(in.Parent(), chain)
	var failed *bLin
	for _, g := range goals(fr) {
		if !p.deepen(&bState{fr: fr, blk: in.Block(), hyps: p.hypsOf(g), seen: map[string]bool{}}, g, budget) {
			failed = g
			break
		}
	}
	if failed == nil {
		return true, nil
	}
	outer := in.Parent()
	if len(chain) > 0 {
		outer = chain[len(chain)-1].Parent()
	}
	if p.isEntry(outer) || p.w.isAddrTaken(origin(outer)) || len(chain) >= 5 || outer.Parent() != nil && len(p.w.Callers(outer)) == 0 {
		return false, failed
	}
	cs := p.w.Callers(origin(outer))
	if len(cs) == 0 {
		return !p.w.isAddrTaken(outer) && !measured(outer) && !(p.allUsed && outer.Parent() == nil && exported(outer)), failed // nothing calls it
	}
	for _, c := range cs {
		if c.Parent() == in.Parent() && len(chain) == 0 {
			if p.recursion(fr, c, failed, goals, budget) {
				continue
			}
			return false, failed
		}
		if p.exempt != nil && p.exempt(c.Parent()) || isTestFunc(c.Parent()) {
			continue
		}
		cyc := c.Parent() == in.Parent()
		for _, d := range chain {
			cyc = cyc || d.Parent() == c.Parent()
		}
		if cyc {
			return false, failed
		}
		if ok, g := p.proveChain(in, goals, append(append([]ssa.CallInstruction{}, chain...), c), budget, n); !ok {
			if g == nil {
				g = failed
			}
			return false, g
		}
	}
	return true, nil
}

// ---- source text of an operation ----

func (w *World) exprTexts() map[token.Pos]string {
	if w.texts != nil {
		return w.texts
	}
	w.texts = map[token.Pos]string{}
	for _, p := range w.Pkgs {
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IndexExpr:
					w.texts[x.Lbrack] = types.ExprString(x)
					w.texts[x.Index.Pos()] = types.ExprString(x)
				case *ast.SliceExpr:
					w.texts[x.Lbrack] = types.ExprString(x)
				case *ast.CallExpr:
					w.texts[x.Lparen] = types.ExprString(x)
				case *ast.BinaryExpr:
					w.texts[x.OpPos] = types.ExprString(x)
				}
				return true
			})
		}
	}
	return w.texts
}

// bSite is an operation that panics when a bound does not hold.
type bSite struct {
	in    ssa.Instruction
	kind  string
	text  string
	goals func(p *BProver) func(fr *bFrame) []*bLin
	alt   func(p *BProver) func(fr *bFrame) []*bLin // either set suffices
}

func (w *World) boundSites(f *ssa.Function) []bSite {
	var out []bSite
	txt := func(in ssa.Instruction) string {
		s := w.exprTexts()[in.Pos()]
		if len(s) > 90 {
			s = s[:90]
		}
		return s
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if _, ok := x.X.(*ssa.Alloc); ok {
					if _, ok := x.Index.(*ssa.Const); ok {
						continue // literal
					}
				}
				out = append(out, bSite{in: in, kind: "index", text: txt(in), goals: func(p *BProver) func(*bFrame) []*bLin {
					return func(fr *bFrame) []*bLin {
						i := p.lin(fr, x.Index)
						return []*bLin{i, p.lenOf(fr, x.X).sub(i).plus(-1)}
					}
				}})
			case *ssa.Index:
				out = append(out, bSite{in: in, kind: "index", text: txt(in), goals: func(p *BProver) func(*bFrame) []*bLin {
					return func(fr *bFrame) []*bLin {
						i := p.lin(fr, x.Index)
						return []*bLin{i, p.lenOf(fr, x.X).sub(i).plus(-1)}
					}
				}})
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					continue
				}
				out = append(out, bSite{in: in, kind: "index", text: txt(in), goals: func(p *BProver) func(*bFrame) []*bLin {
					return func(fr *bFrame) []*bLin {
						i := p.lin(fr, x.Index)
						return []*bLin{i, p.lenOf(fr, x.X).sub(i).plus(-1)}
					}
				}})
			case *ssa.Slice:
				if x.Low == nil && x.High == nil && x.Max == nil {
					continue
				}
				out = append(out, bSite{in: in, kind: "slice", text: txt(in), goals: func(p *BProver) func(*bFrame) []*bLin {
					return func(fr *bFrame) []*bLin {
						lo := bConst(0)
						if x.Low != nil {
							lo = p.lin(fr, x.Low)
						}
						n := p.lenOf(fr, x.X)
						hi := n
						if x.High != nil {
							hi = p.lin(fr, x.High)
						}
						return []*bLin{lo, hi.sub(lo), n.sub(hi)}
					}
				}})
			case *ssa.MakeSlice:
				out = append(out, bSite{in: in, kind: "make", text: txt(in), goals: func(p *BProver) func(*bFrame) []*bLin {
					return func(fr *bFrame) []*bLin {
						n, c := p.lin(fr, x.Len), p.lin(fr, x.Cap)
						return []*bLin{n, c.sub(n)}
					}
				}})
			case *ssa.BinOp:
				if (x.Op == token.QUO || x.Op == token.REM) && isInteger(x.X.Type()) {
					if c, ok := x.Y.(*ssa.Const); ok && c.Int64() != 0 {
						continue
					}
					out = append(out, bSite{in: in, kind: "div", text: txt(in), goals: func(p *BProver) func(*bFrame) []*bLin {
						return func(fr *bFrame) []*bLin { return []*bLin{p.lin(fr, x.Y).plus(-1)} }
					}, alt: func(p *BProver) func(*bFrame) []*bLin {
						return func(fr *bFrame) []*bLin { return []*bLin{p.lin(fr, x.Y).scale(-1).plus(-1)} }
					}})
				}
			case *ssa.Call:
				if e := extCallee(x); e != nil {
					arg := -1
					switch e.FullName() {
					case "strings.Repeat", "bytes.Repeat":
						arg = 1
					case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow", "slices.Grow":
						arg = 1
					}
					if arg >= 0 {
						k := arg
						out = append(out, bSite{in: in, kind: strings.ToLower(e.Name()), text: txt(in), goals: func(p *BProver) func(*bFrame) []*bLin {
							return func(fr *bFrame) []*bLin { return []*bLin{p.lin(fr, x.Call.Args[k])} }
						}})
					}
				}
			}
		}
	}
	return out
}
