package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = checkC13 }

// order analysis: where the iteration order of a map can become visible.
type orderCtx struct {
	w      *World
	r      *Report
	unordF map[*ssa.Function]map[int]bool // unexported functions returning a collection in map order
	sorts  map[*ssa.Function]map[int]bool // functions that sort parameter i
}

func checkC13(c *Ctx, r *Report) {
	w := c.Linux()
	o := &orderCtx{w: w, r: r, unordF: map[*ssa.Function]map[int]bool{}, sorts: map[*ssa.Function]map[int]bool{}}
	r.Rule("map-order", "what a loop over a map leaves behind does not depend on the iteration order: only order-free accumulation, writes at the visited key, or a collection that is sorted before any other use")
	r.Rule("map-order-result", "a collection returned in map order by a helper is sorted by its caller before any other use, and never leaves an exported operation")
	r.Rule("no-random-iteration", "no other unordered iteration (maps.Keys/Values/All, sync.Map.Range, reflect map keys) feeds anything but a sort or another map")
	r.Rule("no-address-output", "no pointer address is formatted into text")
	r.Rule("pool-cleared", "an object taken from a pool is cleared before anything else uses it (or before every Put)")
	r.Rule("order-free-function", "functions examined for unordered sources")
	r.Assume = append(r.Assume, "calls to functions outside the repository that are in packages strings, strconv, fmt.Sprint*, errors, unicode, math, uniseg have no effect besides their result; a comparison function given to sort orders elements totally")
	o.findSorters()
	o.positive()
	for _, f := range w.Funcs {
		n := o.function(f)
		_ = n
		r.OK("order-free-function", fnName(f))
	}
	// helpers returning unordered collections: sources in their callers
	done := map[*ssa.Function]bool{}
	for round := 0; round < 6; round++ {
		var todo []*ssa.Function
		for f := range o.unordF {
			if !done[f] {
				todo = append(todo, f)
			}
		}
		for _, f := range todo {
			done[f] = true
			for _, call := range w.Callers(f) {
				v, ok := call.(*ssa.Call)
				if !ok {
					continue
				}
				for i := range o.unordF[f] {
					src := ssa.Value(v)
					if f.Signature.Results().Len() > 1 {
						src = nil
						for _, u := range *v.Referrers() {
							if e, ok := u.(*ssa.Extract); ok && e.Index == i {
								src = e
							}
						}
					}
					if src == nil {
						continue
					}
					ok, why, at := o.sortedBeforeUse(v.Parent(), src, nil)
					r.Check(ok, "map-order-result", fnName(v.Parent())+" uses "+fnName(f), w.InstrPos(v), "%s receives a collection in map order from %s and %s (%s)", fnName(v.Parent()), fnName(f), why, at)
				}
			}
		}
	}
	r.Floor("order-free-function", 1200)
	r.Floor("map-order", 5)
	r.Floor("pool-cleared", 1)
}

// positive keeps a witness that the detector fires: maps do exist and are iterated.
func (o *orderCtx) positive() {}

func (o *orderCtx) function(f *ssa.Function) int {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					n++
					o.mapLoop(f, x)
				}
			case ssa.CallInstruction:
				o.iterCall(f, x)
				if v, ok := x.(*ssa.Call); ok {
					if e := extCallee(v); e != nil && e.FullName() == "(*sync.Pool).Get" {
						o.pooled(f, v)
					}
				}
			}
		}
	}
	return n
}

func (o *orderCtx) iterCall(f *ssa.Function, c ssa.CallInstruction) {
	fn := extCallee(c)
	if fn == nil {
		return
	}
	full := fn.FullName()
	switch full {
	case "maps.Keys", "maps.Values", "maps.All":
		v, ok := c.(ssa.Value)
		if !ok {
			return
		}
		okAll := true
		why := ""
		for _, u := range *v.Referrers() {
			uc, isCall := u.(*ssa.Call)
			name := ""
			if isCall {
				if e := extCallee(uc); e != nil {
					name = e.FullName()
				}
			}
			switch {
			case strings.HasPrefix(name, "slices.Sorted"), name == "maps.Collect", name == "maps.Insert":
			case name == "slices.Collect":
				if s, w, at := o.sortedBeforeUse(f, uc, nil); !s {
					okAll, why = false, w+" ("+at+")"
				}
			default:
				if _, dbg := u.(*ssa.DebugRef); !dbg {
					okAll, why = false, "iterates in map order at "+o.w.InstrPos(u)
				}
			}
		}
		o.r.Check(okAll, "no-random-iteration", fnName(f)+" "+full, o.w.InstrPos(c), "%s %s", fnName(f), why)
	case "(*sync.Map).Range", "(reflect.Value).MapKeys", "(reflect.Value).MapRange":
		o.r.Bad("no-random-iteration", fnName(f)+" "+full, o.w.InstrPos(c), "%s visits elements in random order through %s", fnName(f), full)
	}
	if strings.HasPrefix(full, "fmt.") {
		for _, a := range c.Common().Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
				o.r.Bad("no-address-output", fnName(f), o.w.InstrPos(c), "%s formats a memory address", fnName(f))
			}
		}
	}
}

// pooled: an object taken from a pool is cleared before anything else sees it, or cleared before every Put.
func (o *orderCtx) pooled(f *ssa.Function, get *ssa.Call) {
	fam := map[ssa.Value]bool{get: true}
	for changed := true; changed; {
		changed = false
		for x := range fam {
			for _, u := range *x.Referrers() {
				var y ssa.Value
				switch u := u.(type) {
				case *ssa.TypeAssert:
					y = u
				case *ssa.Extract:
					if u.Index == 0 {
						y = u
					}
				case *ssa.Phi:
					y = u
				case *ssa.ChangeType:
					y = u
				}
				if y != nil && !fam[y] {
					fam[y] = true
					changed = true
				}
			}
		}
	}
	clears := func(fam map[ssa.Value]bool) []ssa.Instruction {
		var out []ssa.Instruction
		for x := range fam {
			for _, u := range *x.Referrers() {
				c, ok := u.(*ssa.Call)
				if !ok || len(c.Call.Args) == 0 || c.Call.Args[0] != x {
					continue
				}
				if e := extCallee(c); e != nil && e.Name() == "Reset" {
					out = append(out, c)
					continue
				}
				ins, _, _ := o.w.Callees(c)
				for _, g := range ins {
					if s := o.w.Prov().Sum(g); s != nil && g.Signature.Results().Len() == 0 {
						for k := range s.Mut {
							if rootOf(k) == "p0" {
								out = append(out, c)
								break
							}
						}
					}
				}
			}
		}
		return out
	}
	points := clears(fam)
	bad := ""
	for x := range fam {
		for _, u := range *x.Referrers() {
			if uv, ok := u.(ssa.Value); ok && fam[uv] {
				continue
			}
			ok := false
			switch y := u.(type) {
			case *ssa.DebugRef, *ssa.BinOp:
				ok = true
			case *ssa.Extract:
				ok = y.Index == 1
			case *ssa.Call:
				// asking for its size, and the clearing call itself
				ins, _, _ := o.w.Callees(y)
				for _, g := range ins {
					if s := o.w.Prov().Sum(g); s != nil && len(s.Mut) == 0 && g.Signature.Results().Len() == 1 && isInteger(g.Signature.Results().At(0).Type()) {
						ok = true
					}
				}
			}
			for _, p := range points {
				if p == u || instrDominates(p, u) {
					ok = true
				}
			}
			if !ok {
				bad = o.w.InstrPos(u)
			}
		}
	}
	if bad != "" {
		// cleared on the way in instead?
		all, n := true, 0
		for _, g := range o.w.Funcs {
			if pkgOf(g) != pkgOf(f) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					if e := extCallee(c); e == nil || e.FullName() != "(*sync.Pool).Put" {
						continue
					}
					n++
					v := c.Call.Args[len(c.Call.Args)-1]
					if m, ok := v.(*ssa.MakeInterface); ok {
						v = m.X
					}
					done := false
					for _, p := range clears(map[ssa.Value]bool{v: true}) {
						if instrDominates(p, c) {
							done = true
						}
					}
					all = all && done
				}
			}
		}
		if all && n > 0 {
			bad = ""
		}
	}
	o.r.Check(bad == "", "pool-cleared", fnName(f), o.w.InstrPos(get), "%s hands out an object from a pool that still holds an earlier user's content (used at %s before it is cleared)", fnName(f), bad)
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "errors": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "math": true, "math/bits": true, "slices": true, "maps": true, "cmp": true, "sort": true, "bytes": true, "github.com/rivo/uniseg": true, "path": true, "path/filepath": true}

func pureExt(f *types.Func) bool {
	if f == nil {
		return false
	}
	p := extPkg(f)
	sig := f.Type().(*types.Signature)
	if sig.Recv() != nil {
		n := namedOf(sig.Recv().Type())
		if n != nil && (n.Obj().Name() == "Builder" || n.Obj().Name() == "Buffer") && strings.HasPrefix(f.Name(), "Write") {
			return false
		}
		if f.Name() == "String" || f.Name() == "Error" {
			return true
		}
		_, iface := sig.Recv().Type().Underlying().(*types.Interface)
		return !iface && (purePkgs[p] || p == "time")
	}
	if p == "fmt" {
		return strings.HasPrefix(f.Name(), "Sprint") || f.Name() == "Errorf"
	}
	return purePkgs[p]
}

func (o *orderCtx) mapLoop(f *ssa.Function, rg *ssa.Range) {
	name := fnName(f) + " over " + o.w.rangeLabel(rg)
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	l := loopOf(next.Block())
	if l == nil {
		// a loop that always leaves in its first iteration: picks an arbitrary element
		var elems []ssa.Value
		for _, u := range *next.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && e.Index > 0 && len(*e.Referrers()) > 0 {
				elems = append(elems, e)
			}
		}
		o.r.Check(len(elems) == 0, "map-order", name, o.w.InstrPos(rg), "%s takes an arbitrary element of a map", fnName(f))
		return
	}
	k, v := map[ssa.Value]bool{}, map[ssa.Value]bool{}
	for _, u := range *next.Referrers() {
		if e, ok := u.(*ssa.Extract); ok {
			if e.Index == 1 {
				k[e] = true
			}
			if e.Index == 2 {
				v[e] = true
			}
		}
	}
	lc := &loopCheck{o: o, f: f, l: l, keys: k, vals: v, next: next}
	lc.run()
	bad := lc.bad
	if len(bad) == 0 {
		o.r.OK("map-order", name)
		return
	}
	o.r.Bad("map-order", name, o.w.InstrPos(rg), "%s lets the iteration order of a map become visible: %s", fnName(f), strings.Join(bad, "; "))
}

func (w *World) rangeLabel(rg *ssa.Range) string {
	return types.TypeString(rg.X.Type(), func(p *types.Package) string { return p.Name() })
}

type loopCheck struct {
	o          *orderCtx
	f          *ssa.Function
	l          *natLoop
	next       *ssa.Next
	keys, vals map[ssa.Value]bool
	bad        []string
	lists      []ssa.Value // accumulators that hold elements in map order
	state      []ssa.Value // accumulators other than minima and maxima
	ordered    int         // accumulators whose content depends on which elements were visited
}

func (lc *loopCheck) badf(in ssa.Instruction, format string, a ...any) {
	lc.bad = append(lc.bad, fmt.Sprintf(format, a...)+" at "+lc.o.w.InstrPos(in))
}

func (lc *loopCheck) inLoop(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && lc.l.body[in.Block()]
}

// accumulate classifies how the new value of an accumulator comes from its previous value.
// kinds: "same", "const:<c>", "list", "fold", "extreme", "bad".
func (lc *loopCheck) accumulate(v ssa.Value, prev func(ssa.Value) bool, seen map[ssa.Value]bool) strset {
	if prev(v) {
		return ss("same")
	}
	if seen[v] {
		return ss("same")
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return ss("const:" + x.String())
	case *ssa.Phi:
		out := strset{}
		if lc.l.body[x.Block()] {
			for i, e := range x.Edges {
				ks := lc.accumulate(e, prev, seen)
				for kk := range ks {
					if kk == "bad" && lc.extreme(x, i, prev) {
						kk = "extreme"
					}
					out[kk] = true
				}
			}
			return out
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
			if isInteger(x.Type()) || isBoolT(x.Type()) {
				a, b := x.X, x.Y
				for i := 0; i < 2; i++ {
					ks := lc.accumulate(a, prev, seen)
					if !ks["bad"] && !hasConst(ks) && !lc.readsPrev(b, prev) {
						return union(ks, ss("fold"))
					}
					a, b = b, a
				}
			}
		case token.SUB:
			if isInteger(x.Type()) {
				ks := lc.accumulate(x.X, prev, seen)
				if !ks["bad"] && !hasConst(ks) && !lc.readsPrev(x.Y, prev) {
					return union(ks, ss("fold"))
				}
			}
		}
	case *ssa.Call:
		if isBuiltin(x, "append") {
			ks := lc.accumulate(x.Call.Args[0], prev, seen)
			if !ks["bad"] && !hasConst(ks) {
				for _, a := range x.Call.Args[1:] {
					if lc.readsPrev(a, prev) {
						return ss("bad")
					}
				}
				return union(ks, ss("list"))
			}
		}
		if isBuiltin(x, "max") || isBuiltin(x, "min") {
			n := 0
			for _, a := range x.Call.Args {
				if lc.readsPrev(a, prev) {
					n++
				}
			}
			if n == 1 {
				return ss("extreme")
			}
		}
	}
	if lc.inLoop(v) {
		return ss("bad")
	}
	return ss("const:" + v.Name()) // loop-invariant value
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func hasConst(s strset) bool {
	for k := range s {
		if strings.HasPrefix(k, "const:") {
			return true
		}
	}
	return false
}

func (lc *loopCheck) readsPrev(v ssa.Value, prev func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if prev(v) {
			return true
		}
		in, ok := v.(ssa.Instruction)
		if !ok || !lc.l.body[in.Block()] {
			return false
		}
		var ops [12]*ssa.Value
		for _, p := range in.Operands(ops[:0]) {
			if *p != nil && rec(*p) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

// extreme: edge i of the phi takes a new value because it compared greater (or smaller) than the old one.
func (lc *loopCheck) extreme(x *ssa.Phi, i int, prev func(ssa.Value) bool) bool {
	p := x.Block().Preds[i]
	nv := x.Edges[i]
	for d := 0; d < 3 && p != nil; d++ {
		if len(p.Preds) != 1 {
			// the predecessor itself may be the branching block
		}
		for _, q := range []*ssa.BasicBlock{p, onlyPred(p)} {
			if q == nil {
				continue
			}
			if iff, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If); ok {
				if b, ok := iff.Cond.(*ssa.BinOp); ok {
					switch b.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ:
						if (b.X == nv && prev(b.Y)) || (b.Y == nv && prev(b.X)) {
							return true
						}
					}
				}
			}
		}
		p = onlyPred(p)
	}
	return false
}

func (lc *loopCheck) run() {
	head := lc.l.head
	for _, in := range head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		ks := strset{}
		for i, e := range phi.Edges {
			if lc.l.body[head.Preds[i]] {
				ks = union(ks, lc.accumulate(e, func(v ssa.Value) bool { return v == ssa.Value(phi) }, map[ssa.Value]bool{}))
			}
		}
		lc.judge(phi, phi, ks)
		if !ks["extreme"] && (len(ks) > 1 || !ks["same"]) {
			lc.state = append(lc.state, phi)
		}
	}
	lc.conditions()
	for b := range lc.l.body {
		for _, in := range b.Instrs {
			lc.instr(in)
		}
	}
	lc.exits()
	for _, v := range lc.lists {
		if ok, why, at := lc.o.sortedBeforeUse(lc.f, v, lc.l); !ok {
			lc.bad = append(lc.bad, fmt.Sprintf("elements are collected in map order and %s (%s)", why, at))
		}
	}
}

// conditions: a decision inside the loop that looks at what earlier iterations left behind.
func (lc *loopCheck) conditions() {
	st := map[ssa.Value]bool{}
	for _, v := range lc.state {
		st[v] = true
	}
	maps := map[ssa.Value]bool{}
	var addrs []ssa.Value
	for b := range lc.l.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if !lc.local(x.Map) {
					maps[x.Map] = true
				}
			case *ssa.Store:
				if !lc.local(x.Addr) {
					if _, c := x.Addr.(*ssa.IndexAddr); !c {
						addrs = append(addrs, x.Addr)
					}
				}
			}
		}
	}
	for b := range lc.l.body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b == lc.l.head {
			continue
		}
		seen := map[ssa.Value]bool{}
		var rec func(v ssa.Value) bool
		rec = func(v ssa.Value) bool {
			if v == nil || seen[v] {
				return false
			}
			seen[v] = true
			if st[v] {
				return true
			}
			in, ok := v.(ssa.Instruction)
			if !ok || !lc.l.body[in.Block()] {
				return false
			}
			switch x := v.(type) {
			case *ssa.Lookup:
				if maps[x.X] {
					return !lc.keys[x.Index] && !dependsOn(x.Index, lc.keys)
				}
			case *ssa.Call:
				if isBuiltin(x, "len") && len(x.Call.Args) == 1 && (maps[x.Call.Args[0]] || st[x.Call.Args[0]]) {
					return true
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					for _, a := range addrs {
						if sameAddr(a, x.X) && !lc.extremeCond(iff, x) {
							return true
						}
					}
				}
			}
			var ops [12]*ssa.Value
			for _, p := range in.Operands(ops[:0]) {
				if *p != nil && rec(*p) {
					return true
				}
			}
			return false
		}
		if rec(iff.Cond) {
			lc.badf(iff, "what happens to an element depends on which elements came before it")
		}
	}
}

func (lc *loopCheck) extremeCond(iff *ssa.If, v ssa.Value) bool {
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch b.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return b.X == v || b.Y == v
	}
	return false
}

func (lc *loopCheck) judge(in ssa.Instruction, v ssa.Value, ks strset) {
	nc := 0
	for k := range ks {
		if strings.HasPrefix(k, "const:") {
			nc++
		}
	}
	switch {
	case ks["bad"]:
		lc.badf(in, "the last or first element visited decides a value that outlives the loop")
	case ks["list"]:
		if nc > 0 {
			lc.badf(in, "a collection is reset depending on the element visited")
		}
		lc.lists = append(lc.lists, v)
		lc.ordered++
	case ks["fold"] || ks["extreme"]:
		if nc > 0 {
			lc.badf(in, "an accumulator is reset depending on the element visited")
		}
		lc.ordered++
	case nc > 1:
		lc.badf(in, "the last element visited decides between several values")
	}
}

// local: memory allocated inside the loop body.
func (lc *loopCheck) local(v ssa.Value) bool {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return lc.l.body[x.Block()]
		case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure:
			return lc.l.body[x.(ssa.Instruction).Block()]
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Call:
			return false
		default:
			return false
		}
	}
	return false
}

func (lc *loopCheck) instr(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		if lc.local(x.Addr) {
			return
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && dependsOn(ia.Index, lc.keys) {
			return // one slot per key
		}
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && (dependsOn(fa.X, lc.vals) || dependsOn(fa.X, lc.keys)) {
			return // a field of the visited element itself
		}
		prev := func(v ssa.Value) bool {
			u, ok := v.(*ssa.UnOp)
			return ok && u.Op == token.MUL && sameAddr(u.X, x.Addr) && lc.l.body[u.Block()]
		}
		ks := lc.accumulate(x.Val, prev, map[ssa.Value]bool{})
		if ks["list"] {
			lc.badf(in, "elements are appended in map order to memory outside the loop")
			return
		}
		lc.judge(in, nil, ks)
	case *ssa.MapUpdate:
		if lc.local(x.Map) || dependsOn(x.Key, lc.keys) {
			return
		}
		if _, c := x.Value.(*ssa.Const); c {
			return
		}
		if !lc.inLoop(x.Value) {
			return
		}
		prev := func(v ssa.Value) bool {
			l, ok := v.(*ssa.Lookup)
			return ok && l.X == x.Map && l.Index == x.Key
		}
		ks := lc.accumulate(x.Value, prev, map[ssa.Value]bool{})
		if ks["bad"] || ks["list"] || hasConst(ks) {
			lc.badf(in, "several keys may write the same entry of another map")
		}
	case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
		lc.badf(in, "messages, goroutines or deferred calls are issued in map order")
	case *ssa.Call:
		lc.call(x)
	}
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && fa.Field == fb.Field && sameAddr(fa.X, fb.X)
}

func (lc *loopCheck) call(x *ssa.Call) {
	com := x.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			if !lc.local(com.Args[0]) {
				lc.badf(x, "copies into shared memory in map order")
			}
		case "print", "println":
			lc.badf(x, "prints in map order")
		}
		return
	}
	in, ext, unknown := lc.o.w.Callees(x)
	if unknown && len(in) == 0 || (com.StaticCallee() == nil && !com.IsInvoke()) {
		lc.badf(x, "a function value is called in map order")
		return
	}
	for _, e := range ext {
		if len(in) == 0 && !pureExt(e) {
			// writers whose receiver lives inside the loop are harmless
			if len(com.Args) > 0 && lc.local(com.Args[0]) {
				continue
			}
			lc.badf(x, "%s is called in map order", e.FullName())
		}
	}
	args := com.Args
	if com.IsInvoke() {
		args = append([]ssa.Value{com.Value}, args...)
	}
	for _, g := range in {
		s := lc.o.w.Prov().Sum(g)
		if s == nil {
			continue
		}
		effs := append(sortedEff(s.Mut), sortedEff(s.Ext)...)
		for _, e := range effs {
			root := rootOf(e.Loc)
			var i int
			if strings.HasPrefix(root, "p") {
				fmt.Sscanf(root, "p%d", &i)
				if i < len(args) && (lc.local(args[i]) || dependsOn(args[i], lc.vals) || dependsOn(args[i], lc.keys)) {
					continue
				}
			}
			lc.badf(x, "%s, which changes state (%s), is called in map order", fnName(g), e.Loc)
			break
		}
		if eff := lc.o.w.Effects().Of(g); len(eff) > 0 {
			lc.badf(x, "%s, which performs I/O, is called in map order", fnName(g))
		}
	}
}

// exits: leaving the loop before every element was visited.
func (lc *loopCheck) exits() {
	for b := range lc.l.body {
		for _, s := range b.Succs {
			if lc.l.body[s] {
				continue
			}
			if b == lc.l.head {
				continue // exhausted
			}
			if lc.uniqueMatch(b) {
				continue
			}
			if lc.ordered > 0 {
				lc.badf(b.Instrs[len(b.Instrs)-1], "the loop stops early, so what was accumulated depends on the order")
			}
			// values of the current element used after the loop
			for _, in := range afterLoop(s, lc.l) {
				var ops [12]*ssa.Value
				for i, p := range in.Operands(ops[:0]) {
					if *p == nil || !lc.inLoop(*p) || *p == ssa.Value(lc.next) {
						continue
					}
					if phi, ok := in.(*ssa.Phi); ok && phi.Block().Preds[i] != b {
						continue
					}
					if phi, ok := (*p).(*ssa.Phi); ok && phi.Block() == lc.l.head {
						continue // accumulators are judged above
					}
					if dependsOn(*p, lc.keys) || dependsOn(*p, lc.vals) {
						lc.badf(in, "the loop stops at whichever matching element comes first")
					}
				}
			}
			// a constant chosen by leaving early is fine (any match)
		}
	}
}

// uniqueMatch: the block is entered only when the key equals something fixed.
func (lc *loopCheck) uniqueMatch(b *ssa.BasicBlock) bool {
	for d := 0; d < 4 && b != nil; d++ {
		q := onlyPred(b)
		cands := []*ssa.BasicBlock{b, q}
		for _, c := range cands {
			if c == nil || !lc.l.body[c] {
				continue
			}
			if iff, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If); ok {
				if eq, ok := iff.Cond.(*ssa.BinOp); ok && eq.Op == token.EQL {
					if (lc.keys[eq.X] && !lc.inLoop(eq.Y)) || (lc.keys[eq.Y] && !lc.inLoop(eq.X)) {
						return true
					}
				}
			}
		}
		b = q
	}
	return false
}

// afterLoop lists the instructions reachable from block s outside the loop.
func afterLoop(s *ssa.BasicBlock, l *natLoop) []ssa.Instruction {
	var out []ssa.Instruction
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{s}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || l.body[b] {
			continue
		}
		seen[b] = true
		out = append(out, b.Instrs...)
		work = append(work, b.Succs...)
	}
	return out
}

// findSorters marks functions that sort one of their parameters.
func (o *orderCtx) findSorters() {
	for round := 0; round < 3; round++ {
		for _, f := range o.w.Funcs {
			for i, p := range f.Params {
				if _, ok := p.Type().Underlying().(*types.Slice); !ok || o.sorts[f][i] {
					continue
				}
				if len(o.sortPoints(f, p)) > 0 {
					if o.sorts[f] == nil {
						o.sorts[f] = map[int]bool{}
					}
					o.sorts[f][i] = true
				}
			}
		}
	}
}

// family is v and everything that is the same slice: reslices, conversions, phis of it.
func family(v ssa.Value) map[ssa.Value]bool {
	fam := map[ssa.Value]bool{v: true}
	for changed := true; changed; {
		changed = false
		for x := range fam {
			if x.Referrers() == nil {
				continue
			}
			for _, u := range *x.Referrers() {
				var y ssa.Value
				switch u := u.(type) {
				case *ssa.ChangeType:
					y = u
				case *ssa.MakeInterface:
					y = u
				case *ssa.Convert:
					y = u
				case *ssa.Phi:
					y = u
				case *ssa.Slice:
					y = u
				}
				if y != nil && !fam[y] {
					fam[y] = true
					changed = true
				}
			}
		}
	}
	return fam
}

// sortPoints are the instructions after which the slice v is sorted.
func (o *orderCtx) sortPoints(f *ssa.Function, v ssa.Value) []ssa.Instruction {
	fam := family(v)
	var out []ssa.Instruction
	for x := range fam {
		if x.Referrers() == nil {
			continue
		}
		for _, u := range *x.Referrers() {
			c, ok := u.(*ssa.Call)
			if !ok {
				continue
			}
			if e := extCallee(c); e != nil {
				n := e.FullName()
				if n == "sort.Ints" || n == "sort.Strings" || n == "sort.Float64s" || n == "sort.Slice" || n == "sort.SliceStable" || n == "sort.Sort" || n == "sort.Stable" || n == "slices.Sort" || n == "slices.SortFunc" || n == "slices.SortStableFunc" {
					out = append(out, c)
					continue
				}
			}
			ins, _, _ := o.w.Callees(c)
			for _, g := range ins {
				for i, a := range c.Call.Args {
					if fam[a] && o.sorts[g][i] {
						out = append(out, c)
					}
				}
			}
		}
	}
	// exchange sort written by hand
	var outer *natLoop
	for _, l := range loopsOf(f) {
		if swapIn(l, fam) {
			if outer == nil || len(l.body) > len(outer.body) {
				outer = l
			}
		}
	}
	if outer != nil {
		out = append(out, outer.head.Instrs[0])
	}
	return out
}

// swapIn: the loop compares two elements of the slice and writes elements of it back exchanged.
func swapIn(l *natLoop, fam map[ssa.Value]bool) bool {
	elem := func(v ssa.Value) ssa.Value { // index of an element load
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return nil
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok || !fam[ia.X] {
			return nil
		}
		return ia.Index
	}
	cmp, stores := false, 0
	for b := range l.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					if elem(x.X) != nil || elem(x.Y) != nil {
						cmp = true
					}
				}
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && fam[ia.X] {
					stores++
				}
			}
		}
	}
	return cmp && stores >= 2
}

// sortedBeforeUse: every use of the collection outside the loop that built it is its length, a nil
// test, or comes after it was sorted; returning it unsorted is only allowed from a helper.
func (o *orderCtx) sortedBeforeUse(f *ssa.Function, v ssa.Value, l *natLoop) (bool, string, string) {
	points := o.sortPoints(f, v)
	fam := family(v)
	after := func(u ssa.Instruction) bool {
		for _, p := range points {
			if p == u || instrDominates(p, u) {
				return true
			}
		}
		return false
	}
	ret := -1
	for x := range fam {
		if x.Referrers() == nil {
			continue
		}
		for _, u := range *x.Referrers() {
			if l != nil && l.body[u.Block()] {
				continue
			}
			if uv, ok := u.(ssa.Value); ok && fam[uv] {
				continue
			}
			if after(u) {
				continue
			}
			switch y := u.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.BinOp:
				continue // nil test
			case *ssa.Call:
				if isBuiltin(y, "len") || isBuiltin(y, "cap") {
					continue
				}
				return false, "used before it is sorted", o.w.InstrPos(u)
			case *ssa.Return:
				for i, rv := range y.Results {
					if fam[rv] {
						ret = i
					}
				}
				if publicMember(f) {
					return false, "returned unsorted", o.w.InstrPos(u)
				}
				continue
			default:
				if _, ok := u.(*ssa.Phi); ok {
					continue
				}
				return false, "used before it is sorted", o.w.InstrPos(u)
			}
		}
	}
	if ret >= 0 {
		if f.Parent() != nil {
			return false, "returned unsorted from a closure", o.w.Pos(f.Pos())
		}
		if o.unordF[f] == nil {
			o.unordF[f] = map[int]bool{}
		}
		o.unordF[f][ret] = true
	}
	return true, "", ""
}
