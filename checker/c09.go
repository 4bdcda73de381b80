package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C09"] = checkC09
	checks["C10"] = checkC10
}

// boundWorlds: the functions to look at, each in one platform that builds it.
func boundWorlds(c *Ctx) []*World {
	return []*World{c.World("linux", "amd64"), c.World("windows", "amd64"), c.World("darwin", "amd64")}
}

// decodes: the function reads what a terminal, a clipboard or an application's text brings in (C09); everything else
// that computes with sizes belongs to C10.
func decodes(w *World, f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := relPath(funcPkgPath(f))
	switch {
	case strings.HasPrefix(p, "tea/internal/infrastructure/input"), strings.HasPrefix(p, "tea/internal/infrastructure/ansi"), strings.HasPrefix(p, "mouse"), strings.HasPrefix(p, "clipboard"):
		return true
	case p == "style/internal/domain/value":
		sig := f.Signature
		isColor := func(t types.Type) bool { n := namedOf(deref(t)); return n != nil && n.Obj().Name() == "Color" }
		if sig.Recv() != nil && isColor(sig.Recv().Type()) {
			return true
		}
		for _, tu := range []*types.Tuple{sig.Params(), sig.Results()} {
			for i := 0; i < tu.Len(); i++ {
				if isColor(tu.At(i).Type()) {
					return true
				}
			}
		}
	}
	return false
}

func funcPkgPath(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func checkC09(c *Ctx, r *Report) { checkBounds(c, r, true) }
func checkC10(c *Ctx, r *Report) { checkBounds(c, r, false) }

func checkBounds(c *Ctx, r *Report, decoders bool) {
	r.Rule("in-range", "an index or slice expression stays within its operand, a repetition count and an allocation size are not negative, a divisor is not zero: proved by linear arithmetic over the conditions that dominate the operation, the facts about its operands (lengths, loop variables, results of calls, invariants of fields that are proved at every store), and, where the function alone does not decide it, in every context it is called in")
	r.Rule("assertion", "a type assertion that is not tested asserts the only type the value can have")
	if decoders {
		r.Rule("present", "a pointer, map entry or interface that a call can return as nil is not used before it, or the error or flag returned with it, has been tested")
	}
	r.Assume = append(r.Assume, "integer arithmetic does not wrap around; a text area's cursor names an existing line and a position within it (decided by C11's relation, declared here)")
	budget := 2500
	if c.Tier == "thorough" {
		budget = 12000
	}
	type done struct{ fn, pos string }
	seen := map[done]bool{}
	steps, fns := 0, 0
	for _, w := range boundWorlds(c) {
		p := NewBProver(w)
		var fs []*ssa.Function
		for _, f := range w.Funcs {
			if decodes(w, f) != decoders {
				continue
			}
			k := done{fnName(f), w.Pos(f.Pos())}
			if seen[k] {
				continue
			}
			seen[k] = true
			fs = append(fs, f)
		}
		sort.SliceStable(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
		fns += len(fs)
		for _, f := range fs {
			for _, s := range w.boundSites(f) {
				text := s.text
				if text == "" {
					text = "(range)"
				}
				con := fnName(f) + ": " + s.kind + " " + text
				n := 0
				ok, g := p.proveChain(s.in, s.goals(p), nil, budget, &n)
				if !ok && s.alt != nil {
					ok, _ = p.proveChain(s.in, s.alt(p), nil, budget, &n)
				}
				if !ok { // once more with more steps, before it is reported
					n = 0
					ok, g = p.proveChain(s.in, s.goals(p), nil, 12000, &n)
				}
				if ok {
					r.OK("in-range", con)
				} else {
					why := ""
					if g != nil {
						why = fmt.Sprintf(" (not shown to be at least zero: %v)", g)
					}
					r.Bad("in-range", con, w.InstrPos(s.in), "%s %s in %s can be out of range%s", boundText[s.kind], text, fnName(f), why)
				}
			}
			checkAsserts(w, r, f)
			if decoders {
				checkPresent(w, r, f)
			}
		}
		steps += p.Steps
	}
	if decoders {
		r.Floor("in-range", 45)
		r.Floor("present", 8)
	} else {
		r.Floor("in-range", 280)
	}
	r.Units["functions in scope"] = fns
	r.Units["proof steps"] = steps
}

var boundText = map[string]string{"index": "the index", "slice": "the slice expression", "repeat": "the repetition", "make": "the allocation", "div": "the divisor", "grow": "the growth"}

// checkAsserts: x.(T) without ok.
func checkAsserts(w *World, r *Report, f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ta, ok := in.(*ssa.TypeAssert)
			if !ok || ta.CommaOk {
				continue
			}
			con := fnName(f) + ": " + types.TypeString(ta.AssertedType, func(p *types.Package) string { return p.Name() })
			good, why := w.assertHolds(ta)
			r.Check(good, "assertion", con, w.InstrPos(ta), "the assertion in %s panics for any other type: %s", fnName(f), why)
		}
	}
}

// assertHolds: what a pool hands out is what its New makes and what is put into it.
func (w *World) assertHolds(ta *ssa.TypeAssert) (bool, string) {
	if mi, ok := ta.X.(*ssa.MakeInterface); ok && types.Identical(mi.X.Type(), ta.AssertedType) {
		return true, ""
	}
	c, ok := ta.X.(*ssa.Call)
	if !ok {
		return false, "the value is not known"
	}
	e := extCallee(c)
	if e == nil || e.FullName() != "(*sync.Pool).Get" {
		return false, "the value is not known"
	}
	same := func(v ssa.Value) bool {
		mi, ok := v.(*ssa.MakeInterface)
		return ok && types.Identical(mi.X.Type(), ta.AssertedType)
	}
	n := 0
	for _, f := range w.Funcs {
		if f.Pkg != ta.Parent().Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call, *ssa.Defer:
					e := extCallee(x.(ssa.CallInstruction))
					if e != nil && e.FullName() == "(*sync.Pool).Put" && !same(x.(ssa.CallInstruction).Common().Args[1]) {
						return false, "something else is put into a pool of the package in " + fnName(f)
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if n2 := namedOf(deref(fa.X.Type())); n2 == nil || n2.Obj().Pkg() == nil || n2.Obj().Pkg().Path() != "sync" || n2.Obj().Name() != "Pool" {
						continue
					}
					var g *ssa.Function
					switch y := x.Val.(type) {
					case *ssa.Function:
						g = y
					case *ssa.MakeClosure:
						g, _ = y.Fn.(*ssa.Function)
					}
					if g == nil {
						return false, "the pool's New is not known"
					}
					for _, ret := range returnsOf(g) {
						if !same(ret.Results[0]) {
							return false, "New of a pool of the package makes something else"
						}
					}
					n++
				}
			}
		}
	}
	if n == 0 {
		return false, "the pool has no New"
	}
	return true, ""
}

// checkPresent: results that can be nil.
func checkPresent(w *World, r *Report, f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var used []ssa.Value
			switch x := in.(type) {
			case *ssa.FieldAddr:
				used = append(used, x.X)
			case *ssa.UnOp:
				if x.Op == token.MUL {
					used = append(used, x.X)
				}
			case *ssa.Store:
				used = append(used, x.Addr)
			case *ssa.MapUpdate:
				used = append(used, x.Map)
			case ssa.CallInstruction:
				com := x.Common()
				if com.IsInvoke() {
					used = append(used, com.Value)
				} else if g := com.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(com.Args) > 0 {
					if _, ok := com.Args[0].Type().Underlying().(*types.Pointer); ok && derefsParam(g, 0) {
						used = append(used, com.Args[0])
					}
				} else if g == nil {
					used = append(used, com.Value)
				}
			}
			for _, v := range used {
				src, what := w.nilSource(v, map[ssa.Value]bool{})
				if src == nil {
					continue
				}
				con := fnName(f) + ": " + what
				r.Check(w.testedFor(in.Block(), v, src), "present", con, w.InstrPos(in), "%s uses the result of %s, which can be nil, without having tested it", fnName(f), what)
			}
		}
	}
}

// derefsParam: the function uses its parameter without testing it first.
func derefsParam(g *ssa.Function, i int) bool {
	if len(g.Blocks) == 0 {
		return true
	}
	if i >= len(g.Params) {
		return false
	}
	for _, q := range *g.Params[i].Referrers() {
		switch x := q.(type) {
		case *ssa.FieldAddr:
			if x.Block() == g.Blocks[0] {
				return true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && x.Block() == g.Blocks[0] {
				return true
			}
		}
	}
	return false
}

// nilSource: the call or map lookup the value comes from, when it can bring nil.
func (w *World) nilSource(v ssa.Value, seen map[ssa.Value]bool) (ssa.Value, string) {
	if seen[v] {
		return nil, ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s, what := w.nilSource(e, seen); s != nil {
				return s, what
			}
		}
	case *ssa.ChangeType:
		return w.nilSource(x.X, seen)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok && nilable(x.Type()) && !x.CommaOk {
			return x, "a map lookup"
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			if x.Index == 0 && nilable(x.Type()) {
				return t, "a map lookup"
			}
		case *ssa.Call:
			if w.mayReturnNil(t, x.Index) {
				return t, calleeName(t)
			}
		}
	case *ssa.Call:
		if w.mayReturnNil(x, 0) {
			return x, calleeName(x)
		}
	}
	return nil, ""
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func calleeName(c *ssa.Call) string {
	if g := c.Call.StaticCallee(); g != nil {
		return fnName(origin(g))
	}
	if c.Call.IsInvoke() {
		return c.Call.Method.Name()
	}
	return "a function value"
}

// mayReturnNil: some return of a callee gives the constant nil.
func (w *World) mayReturnNil(c *ssa.Call, idx int) bool {
	t := c.Type()
	if tu, ok := t.(*types.Tuple); ok {
		if idx >= tu.Len() {
			return false
		}
		t = tu.At(idx).Type()
	}
	if !nilable(t) || isErrorType(t) {
		return false
	}
	for _, g := range repoCallees(w, c) {
		for _, ret := range returnsOf(g) {
			if idx < len(ret.Results) && isNilConst(ret.Results[idx]) {
				return true
			}
		}
	}
	return false
}

// testedFor: on every way to the block, the value was compared with nil, or the error or flag that comes with it was.
func (w *World) testedFor(b *ssa.BasicBlock, v, src ssa.Value) bool {
	isOf := func(x ssa.Value) bool {
		for i := 0; i < 4; i++ {
			if x == v || x == src {
				return true
			}
			if e, ok := x.(*ssa.Extract); ok && e.Tuple == src {
				return true
			}
			if ct, ok := x.(*ssa.ChangeType); ok {
				x = ct.X
				continue
			}
			break
		}
		return false
	}
	for d := b; d != nil; d = d.Idom() {
		up := d.Idom()
		if up == nil {
			break
		}
		iff, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If)
		if !ok || up.Succs[0] == up.Succs[1] || len(d.Preds) != 1 {
			continue
		}
		truth := up.Succs[0] == d
		cond := iff.Cond
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, truth = u.X, !truth
				continue
			}
			break
		}
		if e, ok := cond.(*ssa.Extract); ok && e.Tuple == src && truth {
			return w.nilOnly(src, e.Index, false)
		}
		cmp, ok := cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y := cmp.X, cmp.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if !isNilConst(y) || !isOf(x) {
			continue
		}
		eq := (cmp.Op == token.EQL) == truth
		if isErrorType(x.Type()) {
			if e, ok := x.(*ssa.Extract); ok && eq {
				return w.nilOnly(src, e.Index, true)
			}
			continue
		}
		if !eq {
			return true
		}
	}
	return false
}

// nilOnly: a nil result always comes with an error (or, for a flag, with false).
func (w *World) nilOnly(src ssa.Value, k int, isErr bool) bool {
	c, ok := src.(*ssa.Call)
	if !ok {
		return true // v, ok := m[k]
	}
	for _, g := range repoCallees(w, c) {
		for _, ret := range returnsOf(g) {
			if k >= len(ret.Results) {
				return false
			}
			none := false
			for i, x := range ret.Results {
				if i != k && isNilConst(x) && nilable(x.Type()) {
					none = true
				}
			}
			if !none {
				continue
			}
			if isErr && isNilConst(ret.Results[k]) {
				return false
			}
			if !isErr {
				if q, ok := ret.Results[k].(*ssa.Const); !ok || q.Value == nil || constant.BoolVal(q.Value) {
					return false
				}
			}
		}
	}
	return true
}

func repoCallees(w *World, c ssa.CallInstruction) []*ssa.Function {
	in, _, _ := w.Callees(c)
	return in
}
