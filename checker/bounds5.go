package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values of fields where the history of an object joins, or after an operation that changes it; and relations
// between the fields of an object that hold whenever nobody is working on it.

// bMem is the value of a field of an object at the start of a block several ways lead to, or after a call.
type bMem struct {
	fr    *bFrame
	base  ssa.Value
	field int
	key   string
	fv    *types.Var
	blk   *ssa.BasicBlock
	edges []bObj
	call  *ssa.Call
	param int
}

func (m *bMem) Name() string                  { return "mem" }
func (m *bMem) String() string                { return "mem." + m.fv.Name() }
func (m *bMem) Type() types.Type              { return m.fv.Type() }
func (m *bMem) Parent() *ssa.Function         { return m.fr.fn }
func (m *bMem) Referrers() *[]ssa.Instruction { return nil }
func (m *bMem) Pos() token.Pos                { return token.NoPos }

// bVal stands for an object in a place that takes a value.
type bVal struct{ o bObj }

func (m *bVal) Name() string   { return "val" }
func (m *bVal) String() string { return "val" }
func (m *bVal) Type() types.Type {
	if t := m.o.typ(); t != nil {
		return t
	}
	return types.Typ[types.Int]
}
func (m *bVal) Parent() *ssa.Function         { return m.o.fr.fn }
func (m *bVal) Referrers() *[]ssa.Instruction { return nil }
func (m *bVal) Pos() token.Pos                { return token.NoPos }

type bMemKey struct {
	fr   string
	base ssa.Value
	key  string
	at   any
}

// memAt: the field of the object base points to, at an instruction, when no single definition reaches it.
func (p *BProver) memAt(fr *bFrame, base ssa.Value, field int, key string, fv *types.Var, at ssa.Instruction) (bObj, bool) {
	if p.memDepth > 40 {
		return bObj{}, false
	}
	p.memDepth++
	defer func() { p.memDepth-- }()
	return p.memScan(fr, base, field, key, fv, at.Block(), instrIndex(at)-1)
}

func (p *BProver) memScan(fr *bFrame, base ssa.Value, field int, key string, fv *types.Var, b *ssa.BasicBlock, from int) (bObj, bool) {
	own := strings.TrimSuffix(key, "."+fv.Name())
	none := bObj{}
	_, isParam := base.(*ssa.Parameter)
	baseIn, _ := base.(ssa.Instruction)
	for {
		for i := from; i >= 0; i-- {
			in := b.Instrs[i]
			switch p.touches(in, base, field, key) {
			case 1: // stored
				return p.obj(fr, in.(*ssa.Store).Val), true
			case 2: // stored as a whole
				v := in.(*ssa.Store).Val
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					return p.readField(fr, u.X, field, key, fv, u), true
				}
				return p.sel(p.obj(fr, v), bSel{field: fv, owner: own}, nil), true
			case 3: // by a call
				return p.memCall(fr, in, base, field, key, fv)
			case 4:
				return none, false
			}
			if in == baseIn {
				switch x := base.(type) {
				case *ssa.Alloc:
					return bObj{fr: fr, v: zeroConst(fv.Type())}, true
				case *ssa.Phi:
					return p.sel(bRoot(fr, x, 0), bSel{field: fv, owner: own}, nil), true
				}
				if c, idx := asCall(base); c != nil {
					if g := p.simpleCallee(c); g != nil && fr.depth < bMaxDepth && !fr.has(g) {
						ret := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
						return p.readField(p.frame(g, c, fr), ret.Results[idx], field, key, fv, ret), true
					}
					return p.sel(bRoot(fr, c, idx), bSel{field: fv, owner: own}, nil), true
				}
				return none, false
			}
		}
		switch len(b.Preds) {
		case 0:
			if !isParam {
				return none, false
			}
			if a, ok := fr.argOf(base.(*ssa.Parameter)); ok {
				return p.readField(fr.up, a, field, key, fv, fr.call), true
			}
			return p.sel(bRoot(fr, base, 0), bSel{field: fv, owner: own}, nil), true
		case 1:
			b = b.Preds[0]
			from = len(b.Instrs) - 1
			continue
		}
		if lp := loopOf(b); lp != nil {
			var entry *ssa.BasicBlock
			n := 0
			for _, q := range b.Preds {
				if !b.Dominates(q) {
					entry = q
					n++
				}
			}
			header := n < len(b.Preds)
			if header {
				for lb := range lp.body {
					for _, in := range lb.Instrs {
						if p.touches(in, base, field, key) != 0 || in == baseIn {
							return none, false
						}
					}
				}
				if n != 1 {
					return none, false
				}
				b = entry
				from = len(b.Instrs) - 1
				continue
			}
		}
		mk := bMemKey{fr.id, base, key, b}
		if m, ok := p.mems[mk]; ok {
			if m == nil {
				return none, false
			}
			return p.memResult(m), true
		}
		p.mems[mk] = nil
		m := &bMem{fr: fr, base: base, field: field, key: key, fv: fv, blk: b}
		for _, q := range b.Preds {
			o, ok := p.memScan(fr, base, field, key, fv, q, len(q.Instrs)-1)
			if !ok {
				return none, false
			}
			m.edges = append(m.edges, o)
		}
		p.mems[mk] = m
		return p.memResult(m), true
	}
}

func (p *BProver) memResult(m *bMem) bObj {
	same := true
	for _, e := range m.edges[1:] {
		same = same && e.key() == m.edges[0].key()
	}
	if same {
		return m.edges[0]
	}
	return bRoot(m.fr, m, 0)
}

// touches: 0 nothing, 1 stores the field, 2 stores the whole object, 3 a call that is given the object and may change the
// field, 4 the field may have changed in a way that is not followed.
func (p *BProver) touches(in ssa.Instruction, base ssa.Value, field int, key string) int {
	switch x := in.(type) {
	case *ssa.Store:
		if x.Addr == base {
			return 2
		}
		fa, ok := x.Addr.(*ssa.FieldAddr)
		if !ok {
			return 0
		}
		if fa.X == base && fa.Field == field {
			return 1
		}
		if in, ok := fa.X.(*ssa.FieldAddr); ok { // a field of a struct that is a field
			for {
				if in.X == base && in.Field == field {
					return 4
				}
				up, ok := in.X.(*ssa.FieldAddr)
				if !ok {
					break
				}
				in = up
			}
		}
		if k, _ := fieldKeyOf(fa); k == key && fa.X != base {
			if _, isPhi := fa.X.(*ssa.Phi); !isPhi && p.isFresh(fa.X) {
				return 0
			}
			if _, isPhi := fa.X.(*ssa.Phi); !isPhi && p.isFresh(base) && !escapes(base) {
				return 0
			}
			return 4
		}
	case ssa.CallInstruction:
		if !p.unfrozen[key] || !p.mayModify(in, key) {
			return 0
		}
		n := 0
		for _, a := range x.Common().Args {
			if a == base {
				n++
			}
		}
		_, isCall := in.(*ssa.Call)
		switch {
		case n == 1 && isCall && !x.Common().IsInvoke():
			return 3
		case n > 0 || x.Common().IsInvoke() && x.Common().Value == base:
			return 4
		case p.isFresh(base) && !escapes(base):
			return 0
		}
		return 4
	}
	return 0
}

// memCall: the field after a call that is given the object.
func (p *BProver) memCall(fr *bFrame, in ssa.Instruction, base ssa.Value, field int, key string, fv *types.Var) (bObj, bool) {
	c, ok := in.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil {
		return bObj{}, false
	}
	fs := p.calleesOf(fr, c)
	if len(fs) != 1 {
		return bObj{}, false
	}
	g := fs[0]
	k := -1
	for i, a := range c.Call.Args {
		if a == base {
			k = i
		}
	}
	if k < 0 || k >= len(g.Params) {
		return bObj{}, false
	}
	rets := returnsOf(g)
	if len(rets) == 1 {
		return p.memAt(p.frame(g, c, fr), g.Params[k], field, key, fv, rets[0])
	}
	mk := bMemKey{fr.id, base, key, c}
	m := p.mems[mk]
	if m == nil {
		m = &bMem{fr: fr, base: base, field: field, key: key, fv: fv, call: c, param: k}
		p.mems[mk] = m
	}
	return bRoot(fr, m, 0), true
}

// memAfter: the value of m when its call returns at ret.
func (p *BProver) memAfter(m *bMem, gf *bFrame, ret *ssa.Return) ssa.Value {
	o, ok := p.memAt(gf, gf.fn.Params[m.param], m.field, m.key, m.fv, ret)
	if !ok {
		own := strings.TrimSuffix(m.key, "."+m.fv.Name())
		o = bObj{fr: gf, v: gf.fn.Params[m.param], sels: []bSel{{field: m.fv, owner: own, tag: fmt.Sprintf("@%s:%p", gf.id, ret)}}}
	}
	return &bVal{o}
}

// splitMem: by the way the block was reached.
func (p *BProver) splitMem(st *bState, goal *bLin, m *bMem, depth int) bool {
	all := p.allFacts(st)
	lp := loopOf(m.blk)
	if lp != nil {
		here := func(o bObj) bool {
			if o.fr != m.fr {
				return false
			}
			switch x := o.v.(type) {
			case *ssa.Phi:
				return x.Block() == m.blk
			case *bMem:
				return x.blk == m.blk
			}
			return false
		}
		if linInLoop(goal, m.fr, lp, here) {
			return false
		}
		of := &bFacts{flags: map[string]string{}}
		for _, f := range all.lins {
			if !linInLoop(f.l, m.fr, lp, here) {
				of.lins = append(of.lins, f)
			}
		}
		all = of
	}
	for i, pred := range m.blk.Preds {
		s := p.edgeSubst(m.fr, m.blk, i)
		ng, _ := p.substLin(goal, s)
		hyps := p.substFacts(all, s)
		changed := append([]bFact{}, hyps.lins...)
		p.edgeFacts(m.fr, pred, m.blk, hyps)
		n := &bState{fr: m.fr, blk: pred, hyps: hyps, seen: st.seen, split: st.split + 1, moved: st.moved}
		if lp != nil && m.blk.Dominates(pred) {
			n.moved = append(append([]bMoved{}, st.moved...), bMoved{m.fr, lp})
		}
		if !p.prove(n, ng, depth+1) && !p.refuted(n, changed, depth) {
			return false
		}
	}
	return true
}

// edgeSubst: what the phis and fields of a block are when it is entered by its i-th way.
func (p *BProver) edgeSubst(fr *bFrame, h *ssa.BasicBlock, i int) bSubst {
	return func(o bObj) (*bFrame, ssa.Value, ssa.Instruction, bool) {
		if o.fr != fr {
			return nil, nil, nil, false
		}
		pred := h.Preds[i]
		at := pred.Instrs[len(pred.Instrs)-1]
		switch x := o.v.(type) {
		case *ssa.Phi:
			if x.Block() == h {
				return fr, x.Edges[i], at, true
			}
		case *bMem:
			if x.blk == h {
				return fr, &bVal{x.edges[i]}, at, true
			}
		}
		return nil, nil, nil, false
	}
}

// fieldOf: a field of an object that has been resolved; at is an instruction of frame fr.
func (p *BProver) fieldOf(o bObj, s bSel, fr *bFrame, at ssa.Instruction) bObj {
	if s.field != nil && len(o.sels) == 0 && at != nil {
		if _, isp := o.v.(*ssa.Parameter); !isp && p.isFresh(o.v) {
			t := o.v.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
					if i := bFieldIndex(st, s.field); i >= 0 {
						key, fv := fieldKeyT(pt.Elem(), i)
						if pt := p.pointIn(o.fr, fr, at); pt != nil {
							return p.readField(o.fr, o.v, i, key, fv, pt)
						}
						if rets := returnsOf(o.fr.fn); len(rets) == 1 && o.fr.call != nil {
							return p.readField(o.fr, o.v, i, key, fv, rets[0])
						}
					}
				}
			}
		}
	}
	return p.sel(o, s, at)
}

// ---- relations between the fields of an object ----

type invTerm struct {
	kind string // "", "len", "runes"
	path []invSel
	k    int64
}

type invSel struct {
	field string
	index []invTerm // sum
}

type invCond struct {
	l []invTerm // sum >= c
	c int64
}

type objInv struct {
	owner string
	text  string
	pre   []invCond
	post  invCond
}

type invParser struct {
	s string
	i int
}

func (q *invParser) ws() {
	for q.i < len(q.s) && q.s[q.i] == ' ' {
		q.i++
	}
}
func (q *invParser) eat(t string) bool {
	q.ws()
	if strings.HasPrefix(q.s[q.i:], t) {
		q.i += len(t)
		return true
	}
	return false
}
func (q *invParser) ident() string {
	q.ws()
	j := q.i
	for j < len(q.s) && (q.s[j] == '_' || q.s[j] >= 'a' && q.s[j] <= 'z' || q.s[j] >= 'A' && q.s[j] <= 'Z' || q.s[j] >= '0' && q.s[j] <= '9') {
		j++
	}
	t := q.s[q.i:j]
	q.i = j
	return t
}
func (q *invParser) path() []invSel {
	var out []invSel
	out = append(out, invSel{field: q.ident()})
	for {
		if q.eat(".") {
			out = append(out, invSel{field: q.ident()})
		} else if q.eat("[") {
			x := q.sum(1)
			if !q.eat("]") {
				panic("invariant: " + q.s)
			}
			out = append(out, invSel{index: x})
		} else {
			return out
		}
	}
}
func (q *invParser) sum(sign int64) []invTerm {
	var out []invTerm
	k := sign
	for {
		q.ws()
		c := q.s[q.i]
		switch {
		case c >= '0' && c <= '9':
			n, err := strconv.ParseInt(q.ident(), 10, 64)
			if err != nil {
				panic(q.s)
			}
			out = append(out, invTerm{kind: "const", k: k * n})
		case q.eat("len("):
			out = append(out, invTerm{kind: "len", path: q.path(), k: k})
			q.eat(")")
		case q.eat("graphemes("):
			out = append(out, invTerm{kind: "graphemes", path: q.path(), k: k})
			q.eat(")")
		case q.eat("runes("):
			out = append(out, invTerm{kind: "runes", path: q.path(), k: k})
			q.eat(")")
		default:
			out = append(out, invTerm{path: q.path(), k: k})
		}
		if q.eat("+") {
			k = sign
		} else if q.eat("-") {
			k = -sign
		} else {
			return out
		}
	}
}
func (q *invParser) cond() invCond {
	l := q.sum(1)
	switch {
	case q.eat(">="):
		return invCond{l: append(l, q.sum(-1)...)}
	case q.eat("<="):
		neg(l)
		return invCond{l: append(l, q.sum(1)...)}
	case q.eat("<"):
		neg(l)
		return invCond{l: append(l, q.sum(1)...), c: 1}
	case q.eat(">"):
		return invCond{l: append(l, q.sum(-1)...), c: 1}
	}
	panic("invariant: " + q.s)
}
func neg(l []invTerm) {
	for i := range l {
		l[i].k = -l[i].k
	}
}

func parseInv(owner, text string) *objInv {
	v := &objInv{owner: owner, text: text}
	parts := strings.Split(text, "=>")
	for i, s := range parts {
		q := &invParser{s: strings.TrimSpace(s) + " "}
		for {
			c := q.cond()
			if i == len(parts)-1 {
				v.post = c
			} else {
				v.pre = append(v.pre, c)
			}
			if !q.eat("&&") {
				break
			}
		}
	}
	return v
}

// invRead: a path of fields from an object, at an instruction of a frame.
func (p *BProver) invRead(fr *bFrame, base ssa.Value, t types.Type, path []invSel, at ssa.Instruction) (bObj, bool) {
	var o bObj
	cur := deref(t)
	for n, s := range path {
		if s.index != nil {
			l, ok := p.invSum(fr, base, t, s.index, at)
			if !ok {
				return o, false
			}
			key := elemKey(cur)
			if r, ok := p.elemAt(fr, o, l, key, at); ok {
				o = r
			} else {
				o = p.sel(o, bSel{index: l, tag: p.tag(fr, at, key)}, at)
			}
			switch u := cur.Underlying().(type) {
			case *types.Slice:
				cur = u.Elem()
			case *types.Array:
				cur = u.Elem()
			}
			continue
		}
		st, ok := deref(cur).Underlying().(*types.Struct)
		if !ok {
			return o, false
		}
		i := bFieldIndexName(st, s.field)
		if i < 0 {
			return o, false
		}
		key, fv := fieldKeyT(deref(cur), i)
		if n == 0 {
			if _, isPtr := base.Type().Underlying().(*types.Pointer); isPtr {
				o = p.readField(fr, base, i, key, fv, at)
			} else {
				o = p.sel(p.obj(fr, base), bSel{field: fv, owner: strings.TrimSuffix(key, "."+fv.Name())}, nil)
			}
		} else {
			tag := ""
			if _, isPtr := cur.Underlying().(*types.Pointer); isPtr {
				tag = p.tag(fr, at, key)
			}
			o = p.fieldOf(o, bSel{field: fv, owner: strings.TrimSuffix(key, "."+fv.Name()), tag: tag}, fr, at)
		}
		cur = fv.Type()
	}
	return o, true
}

func (p *BProver) invSum(fr *bFrame, base ssa.Value, t types.Type, sum []invTerm, at ssa.Instruction) (*bLin, bool) {
	out := bConst(0)
	for _, x := range sum {
		if x.kind == "const" {
			out = out.plus(x.k)
			continue
		}
		o, ok := p.invRead(fr, base, t, x.path, at)
		if !ok {
			return nil, false
		}
		switch x.kind {
		case "len":
			out = out.addScaled(p.lenObj(o), x.k)
		case "runes":
			out = out.addScaled(p.runesObj(o), x.k)
		case "graphemes":
			p.pureLow[graphemesFn] = true
			out = out.addScaled(p.linObj(p.sel(o, bSel{fn: graphemesFn}, nil)), x.k)
		default:
			out = out.addScaled(p.linObj(o), x.k)
		}
	}
	return out, true
}

// objInvs: the declared relations of a type.
func (p *BProver) objInvs(owner string) []*objInv {
	if p.invs == nil {
		p.invs = map[string][]*objInv{}
		for _, x := range objInvariants {
			for _, t := range x.inv {
				p.invs[x.owner] = append(p.invs[x.owner], parseInv(x.owner, t))
			}
		}
	}
	return p.invs[owner]
}

// invFacts: what the declared relations say about an atom that is a field (of a field) of a finished object.
func (p *BProver) invFacts(st *bState, a *bAtom, depth int) []bFact {
	var out []bFact
	sels := a.o.sels
	if !p.finished(a.o) {
		return nil
	}
	for k := range sels {
		if sels[k].field == nil {
			continue
		}
		for _, v := range p.objInvs(sels[k].owner) {
			if !v.mentions(a, sels[k:]) {
				continue
			}
			base := bObj{fr: a.o.fr, v: a.o.v, idx: a.o.idx, sels: sels[:k]}
			post, ok := p.invAt(base, v.owner, v.post)
			if !ok {
				continue
			}
			good := true
			for _, c := range v.pre {
				l, ok := p.invAt(base, v.owner, c)
				if !ok || !p.sub(st, l, depth) {
					good = false
					break
				}
			}
			if good {
				out = append(out, bFact{l: post})
			}
		}
	}
	return out
}

func (v *objInv) mentions(a *bAtom, sels []bSel) bool {
	for _, x := range v.post.l {
		if x.kind == "const" || (x.kind != "") != a.isLen || (x.kind == "runes") != a.runes || len(x.path) != len(sels) {
			continue
		}
		same := true
		for i, s := range x.path {
			if sels[i].tag != "" || (s.index != nil) != (sels[i].index != nil) || s.field != "" && (sels[i].field == nil || sels[i].field.Name() != s.field) {
				same = false
			}
		}
		if same {
			return true
		}
	}
	return false
}

// invAt: a condition on the fields of a finished object.
func (p *BProver) invAt(base bObj, owner string, c invCond) (*bLin, bool) {
	n := p.w.typeByName(owner)
	if n == nil {
		return nil, false
	}
	l, ok := p.invSumAt(base, n, c.l)
	if !ok {
		return nil, false
	}
	return l.plus(-c.c), true
}

func (p *BProver) invSumAt(base bObj, t types.Type, sum []invTerm) (*bLin, bool) {
	out := bConst(0)
	for _, x := range sum {
		if x.kind == "const" {
			out = out.plus(x.k)
			continue
		}
		o, cur := base, t
		for _, s := range x.path {
			if s.index != nil {
				l, ok := p.invSumAt(base, t, s.index)
				if !ok {
					return nil, false
				}
				o = p.sel(o, bSel{index: l}, nil)
				if u, ok := cur.Underlying().(*types.Slice); ok {
					cur = u.Elem()
				}
				continue
			}
			st, ok := deref(cur).Underlying().(*types.Struct)
			if !ok {
				return nil, false
			}
			i := bFieldIndexName(st, s.field)
			if i < 0 {
				return nil, false
			}
			key, fv := fieldKeyT(deref(cur), i)
			o = p.sel(o, bSel{field: fv, owner: strings.TrimSuffix(key, "."+fv.Name())}, nil)
			cur = fv.Type()
		}
		switch x.kind {
		case "len":
			out = out.addScaled(p.lenObj(o), x.k)
		case "runes":
			out = out.addScaled(p.runesObj(o), x.k)
		case "graphemes":
			p.pureLow[graphemesFn] = true
			out = out.addScaled(p.linObj(p.sel(o, bSel{fn: graphemesFn}, nil)), x.k)
		default:
			out = out.addScaled(p.linObj(o), x.k)
		}
	}
	return out, true
}

// finished: nobody is in the middle of changing the object the path starts from.
func (p *BProver) finished(o bObj) bool {
	switch x := o.v.(type) {
	case *ssa.Parameter:
		if o.fr.call != nil {
			return false
		}
		return !p.helpers()[o.fr.fn]
	case *ssa.Call, *ssa.Extract, *ssa.Lookup, *ssa.TypeAssert, *ssa.Global:
		return true
	case *ssa.UnOp:
		switch x.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
			return true
		}
	case *ssa.FreeVar:
		return true
	}
	return false
}

// helpers: functions that are given an object that is still being made, and change it.
func (p *BProver) helpers() map[*ssa.Function]bool {
	if p.helperSet != nil {
		return p.helperSet
	}
	p.helperSet = map[*ssa.Function]bool{}
	cand := map[*ssa.Function]bool{}
	for _, f := range p.w.Funcs {
		for i, q := range f.Params {
			if _, isPtr := q.Type().Underlying().(*types.Pointer); !isPtr || len(p.objInvs(typeKey(q.Type()))) == 0 {
				continue
			}
			_ = i
			if p.changesParam(f, q) {
				cand[f] = true
			}
		}
	}
	// given only fresh objects, or what another of them was given
	for changed := true; changed; {
		changed = false
		for f := range cand {
			ok := !exported(f) && f.Parent() == nil && !p.w.isAddrTaken(f)
			cs := p.w.Callers(f)
			for _, c := range cs {
				if c.Common().IsInvoke() {
					ok = false
					break
				}
				for i, q := range f.Params {
					if len(p.objInvs(typeKey(q.Type()))) == 0 || !p.changesParam(f, q) {
						continue
					}
					a := c.Common().Args[i]
					if par, isPar := a.(*ssa.Parameter); isPar && cand[par.Parent()] {
						continue
					}
					if !p.isFresh(a) {
						ok = false
					}
				}
			}
			if !ok || len(cs) == 0 {
				delete(cand, f)
				changed = true
			}
		}
	}
	p.helperSet = cand
	return cand
}

// changesParam: the function (or one it hands the object to) stores into the object.
func (p *BProver) changesParam(f *ssa.Function, q *ssa.Parameter) bool {
	k := bMemKey{"", q, "changes", nil}
	if v, ok := p.changes[k]; ok {
		return v
	}
	p.changes[k] = false
	res := false
	for _, r := range *q.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			res = res || storedTo(x)
		case *ssa.Store:
			res = res || x.Addr == ssa.Value(q)
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil {
				g = origin(unwrap(g))
				for i, a := range x.Call.Args {
					if a == ssa.Value(q) && p.w.funcSet[g] && i < len(g.Params) && p.changesParam(g, g.Params[i]) {
						res = true
					}
				}
			}
		}
	}
	p.changes[k] = res
	return res
}

// storedTo: something is stored at the address or into a struct that is there.
func storedTo(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == ssa.Value(fa) {
				return true
			}
		case *ssa.FieldAddr:
			if storedTo(x) {
				return true
			}
		}
	}
	return false
}

// hypsOf: what a goal may assume.
func (p *BProver) hypsOf(g *bLin) *bFacts {
	f := &bFacts{flags: map[string]string{}}
	for _, h := range p.goalHyps[g] {
		f.lins = append(f.lins, bFact{l: h})
	}
	return f
}
