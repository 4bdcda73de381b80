package main

import (
	"bytes"
	"compress/gzip"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = checkC14 }

//go:embed tables/c14.json.gz
var c14Table []byte

type c14 struct {
	w     *World
	r     *Report
	fl    *Flow
	trans map[int]flowSet // field -> fields that flow into it
	acc   map[*ssa.Function]int
	eff   flowSet // fields that influence some behaviour

	ops     map[string]*ssa.Function
	given   map[string]*option
	behave  []*ssa.Function
	options []option
	fwd     map[string]map[int]flowSet
	fresh   map[string][]flowCase
	keptBy  map[string]flowSet // option -> the fields it sets, or that are set from them
	pairs   map[*ssa.Function]map[[2]flowCase]*flowSum
	loneIDs flowSet
	holds   map[int]string
	tell    map[*ssa.Function]map[flowCase]bool
	belows  map[below]map[flowCase]bool
	inCase  map[calleeCase]*flowSum
	under   map[*ssa.Function]map[flowCase]*flowSum
}

// surface: the exported operations a user can name: those of public packages, and the methods of
// every type such operations take or give.
func surface(w *World) []*ssa.Function {
	pub := func(path string) bool {
		return path != "" && !strings.Contains(path, "internal") && !strings.Contains(path, "examples") && !strings.Contains(path, "benchmarks")
	}
	types_ := map[*types.Named]bool{}
	var visit func(t types.Type, d int)
	visit = func(t types.Type, d int) {
		if d > 4 || t == nil {
			return
		}
		switch u := types.Unalias(t).(type) {
		case *types.Named:
			if u.Obj().Pkg() != nil && isRepoPath(u.Obj().Pkg().Path()) {
				types_[u.Origin()] = true
			}
		case *types.Pointer:
			visit(u.Elem(), d+1)
		case *types.Slice:
			visit(u.Elem(), d+1)
		case *types.Map:
			visit(u.Elem(), d+1)
		}
	}
	for _, p := range w.Pkgs {
		if p.Types == nil || !pub(relPath(p.Types.Path())) || !isRepoPath(p.Types.Path()) {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && tn.Exported() {
				visit(tn.Type(), 0)
			}
		}
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range w.Funcs {
			if seen[f] || f.Parent() != nil || !exported(f) || len(f.Blocks) == 0 {
				continue
			}
			if rv := f.Signature.Recv(); rv != nil {
				n := namedOf(rv.Type())
				if n == nil || !types_[n.Origin()] {
					continue
				}
			} else if !pub(pkgOf(f)) {
				continue
			}
			seen[f] = true
			ch = true
			out = append(out, f)
			for i := 0; i < f.Signature.Results().Len(); i++ {
				visit(f.Signature.Results().At(i).Type(), 0)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// accessor: gives back what is kept, deciding nothing.
func (t *c14) accessor(f *ssa.Function) bool {
	if v, ok := t.acc[f]; ok {
		return v == 1
	}
	t.acc[f] = 0
	if len(f.Params) != 1 || f.Signature.Recv() == nil || f.Signature.Results().Len() == 0 || t.fl.sums[f] == nil || t.fl.sums[f].acts {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr, *ssa.Field, *ssa.UnOp, *ssa.Return, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Alloc, *ssa.Store, *ssa.Extract, *ssa.MakeSlice, *ssa.Slice, *ssa.IndexAddr, *ssa.DebugRef, *ssa.Jump, *ssa.Phi, *ssa.Convert, *ssa.MakeMap, *ssa.MapUpdate, *ssa.Range, *ssa.Next:
			case *ssa.BinOp, *ssa.If:
				if len(f.Blocks) == 1 {
					return false
				}
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil || !t.accessor(origin(g)) {
					return false
				}
			default:
				return false
			}
		}
	}
	if loops := len(f.Blocks); loops > 1 {
		// a copy of a collection, or a check for nil: no decision about values
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if bo, ok := in.(*ssa.BinOp); ok {
					if c, ok := bo.Y.(*ssa.Const); ok && !c.IsNil() {
						if c.Value.Kind() != constant.Int || c.Int64() > 1 {
							return false
						}
					}
				}
			}
		}
	}
	t.acc[f] = 1
	return true
}

// option: a configuration input: a parameter of an operation, or the operation itself (par < 0).
type option struct {
	f      *ssa.Function
	par    int // -1: the operation itself, -2: a field of what it is given
	key    string
	owners []*types.Named
	fields flowSet // where it is kept
	direct bool    // it also decides what the operation does there and then
}

func checkC14(c *Ctx, r *Report) {
	r.Rule("effective", "what an exported operation is given as a parameter, or what an option without parameter sets, decides a result, reaches the outside world, or is kept in a field from which some exported operation's behaviour is decided")
	r.Rule("consulted", "each operation, and each step it is made of, that on the reviewed tree was decided by what an option sets still is, also in each of the cases (kind of message, enumeration value, flag) it tells apart (tables/c14.json.gz)")
	r.Rule("narrowed", "no such operation gains a condition, on a field that did not decide it before, under which it ignores the option")
	r.Rule("kept", "once options have been applied to an object, the function that applied them does not set what they set again, unless it looks at what they left there")
	r.Rule("combined", "following the graphic rendition through style.Render, for every combination of text attributes, all colours and texts: the text is written with exactly the attributes set, in the colours set, and nothing stays switched on after it")
	r.Assume = append(r.Assume,
		"influence, not value: an option that is consulted and then acted on wrongly is not seen",
		"fields are one node per type; a value that passes through a collection or an interface keeps its influence")
	w := c.Linux()
	t := newC14(w)
	t.r = r
	ref := c14Ref{}
	z, err := gzip.NewReader(bytes.NewReader(c14Table))
	if err == nil {
		err = json.NewDecoder(z).Decode(&ref)
	}
	if err != nil {
		r.Bad("consulted", "table", "-", "c14.json.gz: %v", err)
	}
	known := map[string]bool{}
	for _, f := range ref.Fields {
		known[f] = true
	}
	deciders := map[string]map[string]bool{}
	for g, l := range ref.Deciders {
		deciders[g] = map[string]bool{}
		for _, i := range l {
			if i < len(ref.Fields) {
				deciders[g][ref.Fields[i]] = true
			}
		}
	}
	now := map[string]option{}
	for _, o := range t.options {
		now[o.key] = o
		t.effective(o)
	}
	for _, k := range sortedKeys(ref.Options) {
		o, ok := now[k]
		if !ok {
			continue // renamed or removed: C23's and C17's business
		}
		have := map[string]bool{}
		for _, b := range t.consulting(o) {
			have[b] = true
		}
		for _, b := range ref.Options[k] {
			name, c, cond := strings.Cut(b, " | ")
			g := t.ops[name]
			if g == nil {
				continue // renamed or removed
			}
			if cond && !t.tells(g, c) {
				continue // no longer told apart here
			}
			r.Check(have[b], "consulted", k+" > "+b, w.Pos(g.Pos()), "%s is no longer decided by what %s sets", strings.Replace(b, " | ", ", where ", 1), k)
			if cond || !have[b] {
				continue
			}
			fresh := t.newConds(g, known, deciders[b])
			for _, c := range fresh {
				r.Check(have[b+" | "+c.name+" = "+c.val], "narrowed", k+" > "+b+" | "+c.name+" = "+c.val, w.Pos(g.Pos()), "%s ignores what %s sets where %s = %s, on which it did not depend before", b, k, c.name, c.val)
			}
			if len(fresh) == 0 {
				r.OK("narrowed", k+" > "+b)
				continue
			}
			for d := range t.told(g) { // a new condition together with an old one
				for _, c := range fresh {
					rest := b + " | " + d.name + " = " + d.val
					if d.name == c.name || !have[rest] || !have[b+" | "+c.name+" = "+c.val] {
						continue
					}
					n := rest + " & " + c.name + " = " + c.val
					r.Check(t.decided(k, t.both(g, c, d)), "narrowed", k+" > "+n, w.Pos(g.Pos()), "%s ignores what %s sets where %s = %s and %s = %s, on which it did not depend before", b, k, d.name, d.val, c.name, c.val)
				}
			}
			r.OK("narrowed", k+" > "+b)
		}
	}
	t.kept()
	styleCombos(w, r)
	r.Units["exported operations"] = len(t.ops)
	r.Units["options"] = len(t.options)
	r.Units["fields"] = len(t.fl.names)
	r.Floor("effective", 300)
	r.Floor("consulted", 20000)
	r.Floor("narrowed", 1500)
}

func newC14(w *World) *c14 {
	t := &c14{w: w, fl: w.Flow(), acc: map[*ssa.Function]int{}, ops: map[string]*ssa.Function{}, given: map[string]*option{}, fwd: map[string]map[int]flowSet{}, fresh: map[string][]flowCase{}, keptBy: map[string]flowSet{}, pairs: map[*ssa.Function]map[[2]flowCase]*flowSum{}, under: map[*ssa.Function]map[flowCase]*flowSum{}, tell: map[*ssa.Function]map[flowCase]bool{}, belows: map[below]map[flowCase]bool{}, inCase: map[calleeCase]*flowSum{}}
	t.trans = t.fl.Transfers(nil, true)
	ops := surface(w)
	active := map[*types.Named]bool{}
	for _, f := range ops {
		t.ops[fnName(f)] = f
		s := t.fl.sums[f]
		if t.accessor(f) {
			continue
		}
		does := s.io
		for i := range s.obj {
			does = does || isString(f.Signature.Results().At(i).Type())
		}
		if !does {
			continue
		}
		for _, p := range f.Params {
			if n := namedOf(deref(p.Type())); n != nil {
				active[n.Origin()] = true
			}
		}
	}
	for i, n := range t.fl.names {
		if k := strings.LastIndexByte(n, '.'); exportedName(n[k+1:]) {
			t.eff.add(i + flowFields)
		}
	}
	for _, f := range ops {
		s := t.fl.sums[f]
		if t.accessor(f) && active[namedOf(deref(f.Params[0].Type())).Origin()] {
			continue
		}
		t.eff.union(s.sink)
		for _, x := range s.res {
			t.eff.union(x)
		}
		if !t.accessor(f) {
			t.behave = append(t.behave, f)
		}
	}
	back(t.trans, &t.eff)
	for _, f := range w.Funcs { // the steps behaviours are made of
		if pk := pkgOf(f); f.Parent() == nil && len(f.Blocks) > 0 && t.ops[fnName(f)] == nil && len(f.Params) > 0 && !strings.Contains(pk, "examples") && !strings.Contains(pk, "benchmarks") && !t.accessor(f) && f.Synthetic == "" {
			t.behave = append(t.behave, f)
			t.ops[fnName(f)] = f
		}
	}
	for _, f := range ops {
		s := t.fl.sums[f]
		for j, p := range f.Params {
			if j == 0 && f.Signature.Recv() != nil || p.Name() == "" || j > 62 {
				continue
			}
			o := option{f: f, par: j, key: fmt.Sprintf("%s #%d", fnName(f), j)}
			o.direct = s.sink.has(j)
			for i := range s.res {
				o.direct = o.direct || s.res[i].has(j)
			}
			for _, src := range s.into {
				o.direct = o.direct || src.has(j)
			}
			for id, src := range s.fields {
				if src.has(j) {
					o.fields.add(id)
				}
			}
			t.options = append(t.options, o)
		}
		for j, p := range f.Params {
			if j > 0 || f.Signature.Recv() == nil {
				t.settings(f, p.Type())
			}
		}
		if t.isOption(f) && len(s.set) > 0 {
			o := option{f: f, par: -1, key: fnName(f)}
			for id := range s.set {
				o.fields.add(id)
			}
			t.options = append(t.options, o)
		}
	}
	for _, k := range sortedKeys(t.given) {
		t.options = append(t.options, *t.given[k])
	}
	return t
}

// settings: the exported fields of a plain struct an operation is given are options too.
func (t *c14) settings(f *ssa.Function, p types.Type) {
	if sl, ok := p.Underlying().(*types.Slice); ok {
		p = sl.Elem()
	}
	n := namedOf(deref(p))
	if n == nil || !isObjType(n) || handlesMsg(f) || strings.HasSuffix(n.Obj().Name(), "Msg") || strings.HasSuffix(n.Obj().Name(), "Event") {
		return
	}
	n = n.Origin()
	owner := t.owner(option{f: f})
	st := n.Underlying().(*types.Struct)
	if owner == nil || module(f) != moduleOf(relPath(n.Obj().Pkg().Path())) {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		id := t.fl.fieldID(n, i)
		if !st.Field(i).Exported() || id < 0 {
			continue
		}
		key := "field " + t.fl.Name(id)
		if t.given[key] == nil {
			t.given[key] = &option{f: f, par: -2, key: key}
			t.given[key].fields.add(id)
		}
		t.given[key].owners = append(t.given[key].owners, owner)
	}
}

// back closes a set of fields over the fields that flow into them.
func back(trans map[int]flowSet, s *flowSet) {
	for ch := true; ch; {
		ch = false
		for id, src := range trans {
			if s.has(id) && s.union(src) {
				ch = true
			}
		}
	}
}

// isOption: an operation without parameters that sets something: a function giving an option, or a
// method giving a changed copy of its receiver.
func (t *c14) isOption(f *ssa.Function) bool {
	if t.accessor(f) || f.Signature.Results().Len() != 1 {
		return false
	}
	res := f.Signature.Results().At(0).Type()
	if f.Signature.Recv() == nil {
		sig, ok := res.Underlying().(*types.Signature)
		return ok && len(f.Params) == 0 && sig.Params().Len() == 1 && isObjType(sig.Params().At(0).Type())
	}
	return len(f.Params) == 1 && isObjType(res) && namedOf(deref(res)).Origin() == namedOf(deref(f.Params[0].Type())).Origin()
}

func (t *c14) effective(o option) {
	if o.par == -2 {
		return // also read by whoever holds the struct
	}
	con := o.key
	what := "what " + fnName(o.f) + " sets"
	if o.par >= 0 {
		what = "what " + fnName(o.f) + " is given as " + o.f.Params[o.par].Name()
		if standIn(o.f, o.par) || t.refuses(o.f, 0) {
			return
		}
	}
	ok := o.direct
	var kept []string
	o.fields.each(func(id int) {
		kept = append(kept, t.fl.Name(id))
		ok = ok || t.eff.has(id)
	})
	sort.Strings(kept)
	if len(kept) > 0 {
		t.r.Check(ok, "effective", con, t.w.Pos(o.f.Pos()), "%s influences nothing: it is only kept in %s", what, strings.Join(kept, ", "))
	} else {
		t.r.Check(ok, "effective", con, t.w.Pos(o.f.Pos()), "%s influences nothing and is not kept", what)
	}
}

// kept: after a list of options has been applied to an object, no field they set is overwritten unseen.
func (t *c14) kept() {
	for _, f := range t.w.Funcs {
		if pk := pkgOf(f); strings.Contains(pk, "examples") || strings.Contains(pk, "benchmarks") {
			continue
		}
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.IsInvoke() || c.Call.StaticCallee() != nil || len(c.Call.Args) != 1 || c.Call.Signature().Results().Len() > 0 {
					continue
				}
				if _, ok := c.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				pt, ok := c.Call.Args[0].Type().Underlying().(*types.Pointer)
				if !ok || !isObjType(pt) {
					continue
				}
				var sets flowSet
				gs, _, _ := t.w.Callees(c)
				for _, g := range gs {
					for id := range t.fl.sums[g].given {
						sets.add(id)
					}
				}
				t.unkept(f, b, i, c.Call.Args[0], sets)
			}
		}
	}
}

func (t *c14) unkept(f *ssa.Function, b *ssa.BasicBlock, i int, obj ssa.Value, sets flowSet) {
	after := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		for _, s := range x.Succs {
			if !after[s] {
				after[s] = true
				walk(s)
			}
		}
	}
	walk(b)
	a := &flowFn{fl: t.fl, f: f, s: newFlowSum(f), ctl: t.fl.conditions(f, nil)}
	a.run()
	key := fnName(f) + " applies " + typeName(namedOf(deref(obj.Type())))
	t.r.OK("kept", key)
	check := func(id int, src flowSet, pos token.Pos) {
		if id >= 0 && sets.has(id) {
			t.r.Check(src.has(id), "kept", key+", "+t.fl.Name(id), t.w.Pos(pos), "%s sets %s after applying the options that set it", fnName(f), t.fl.Name(id))
		}
	}
	for _, x := range f.Blocks {
		for j, in := range x.Instrs {
			if !after[x] && (x != b || j <= i) {
				continue
			}
			switch y := in.(type) {
			case *ssa.Store:
				if fa, ok := y.Addr.(*ssa.FieldAddr); ok && sameObj(fa.X, obj) {
					src := append(flowSet{}, a.src(y.Val)...)
					src.union(a.ctlOf(x))
					check(t.fl.fieldID(fa.X.Type(), fa.Field), src, y.Pos())
				}
			case *ssa.Call:
				g := y.Call.StaticCallee()
				if g == nil || t.fl.sums[origin(g)] == nil {
					continue
				}
				for k, arg := range y.Call.Args {
					if !sameObj(arg, obj) || k >= len(g.Params) {
						continue
					}
					for _, gb := range origin(g).Blocks {
						for _, gi := range gb.Instrs {
							st, ok := gi.(*ssa.Store)
							if !ok {
								continue
							}
							fa, ok := st.Addr.(*ssa.FieldAddr)
							if !ok || fa.X != ssa.Value(origin(g).Params[k]) {
								continue
							}
							ga := &flowFn{fl: t.fl, f: origin(g), s: newFlowSum(origin(g)), ctl: t.fl.conditions(origin(g), nil)}
							ga.run()
							src := append(flowSet{}, ga.src(st.Val)...)
							src.union(ga.ctlOf(gb))
							src.union(a.ctlOf(x))
							check(t.fl.fieldID(fa.X.Type(), fa.Field), src, st.Pos())
						}
					}
				}
			}
		}
	}
}

// sameObj: the same pointer, or loads of the same local.
func sameObj(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
}

// standIn: a parameter left unnamed in a method that does nothing, or that an interface asks for.
func standIn(f *ssa.Function, par int) bool {
	return f.Params[par].Name() == "_" && f.Signature.Recv() != nil && (f.Signature.Results().Len() == 0 || !sameNamed(f.Params[0].Type(), f.Signature.Results().At(0).Type()) || isMsg(f.Params[par].Type()))
}

func sameNamed(a, b types.Type) bool {
	m, n := namedOf(deref(a)), namedOf(deref(b))
	return m != nil && n != nil && m.Origin() == n.Origin()
}

// isMsg: a message, which an update is handed whether or not it wants it.
func isMsg(t types.Type) bool { return types.IsInterface(t) && !isTypeParam(t) }

// builds: gives a changed receiver.
func (t *c14) builds(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && f.Signature.Results().Len() == 1 && sameNamed(f.Params[0].Type(), f.Signature.Results().At(0).Type())
}

// handlesMsg: what an event changes is state, not the option that decides how.
func handlesMsg(f *ssa.Function) bool {
	for _, p := range f.Params {
		n := namedOf(p.Type())
		if n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(relPath(n.Obj().Pkg().Path()), "tea") && strings.HasSuffix(n.Obj().Name(), "Msg") {
			return true
		}
	}
	return false
}

func isTypeParam(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.TypeParam)
	return ok
}

// refuses: an operation that does nothing but report, on every path, that it cannot.
func (t *c14) refuses(f *ssa.Function, d int) bool {
	n := f.Signature.Results().Len()
	if n == 0 || d > 3 || len(f.Blocks) != 1 || t.fl.sums[f].acts || len(t.fl.sums[f].fields) > 0 {
		return false
	}
	ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || !types.Identical(f.Signature.Results().At(n-1).Type(), types.Universe.Lookup("error").Type()) {
		return false
	}
	switch x := ret.Results[n-1].(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		if fnName(g) == "fmt.Errorf" || fnName(g) == "errors.New" {
			return true
		}
		return t.fl.sums[origin(g)] != nil && t.refuses(origin(g), d+1)
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global)
		return ok
	}
	return false
}

// module: the top-level directory of an operation's package, or of a component.
func module(f *ssa.Function) string { return moduleOf(pkgOf(f)) }

func moduleOf(path string) string {
	p := strings.Split(path, "/")
	if p[0] == "components" && len(p) > 1 {
		return p[0] + "/" + p[1]
	}
	return p[0]
}

// consulting: the operations of the option's package that are decided by what it sets.
func (t *c14) consulting(o option) []string {
	m := module(o.f)
	eff := false
	o.fields.each(func(id int) { eff = eff || t.eff.has(id) })
	if o.par == -2 {
		eff = true
	} else if t.fl.sums[o.f].io && !t.builds(o.f) || handlesMsg(o.f) || o.f.Name() == "Update" {
		return nil
	}
	if !eff {
		return nil
	}
	if t.fwd[m] == nil {
		t.fwd[m] = t.fl.Transfers(func(f *ssa.Function) bool { return module(f) == m && !handlesMsg(f) }, false)
		for id, src := range t.fwd[m] { // handed on to another type, not another state of the same
			src.each(func(i int) {
				if i >= flowFields && ownerName(t.fl.Name(i)) == ownerName(t.fl.Name(id)) {
					src[i>>6] &^= 1 << (i & 63)
				}
			})
		}
	}
	owners := map[string]bool{}
	if n := t.owner(o); n != nil {
		owners[typeName(n)] = true
	}
	for _, n := range o.owners {
		owners[typeName(n)] = true
	}
	kept := append(flowSet{}, o.fields...)
	for ch := true; ch; {
		ch = false
		for id, src := range t.fwd[m] {
			if kept.has(id) {
				continue
			}
			hit := false
			src.each(func(i int) { hit = hit || i >= flowFields && kept.has(i) })
			if hit {
				kept.add(id)
				ch = true
			}
		}
	}
	t.lone().each(func(id int) {
		if kept.has(id) && t.partKnown(id, o.fields) {
			kept = kept.without(id)
		}
	})
	o.fields.each(func(id int) {
		if k := ownerName(t.fl.Name(id)); !strings.Contains(k, "/value.") {
			owners[k] = true
		}
	})
	t.keptBy[o.key] = kept
	var out []string
	for _, b := range t.behave {
		if module(b) != m || b == o.f || !takes(b, owners) {
			continue
		}
		hits := func(s *flowSum) bool { return t.decided(o.key, s) }
		if !hits(t.fl.sums[b]) {
			continue
		}
		out = append(out, fnName(b))
		for c, s := range t.cases(b) {
			if hits(s) {
				out = append(out, fnName(b)+" | "+c.name+" = "+c.val)
			}
		}
	}
	sort.Strings(out)
	return out
}

// decided: what an operation does is decided by what the option sets.
func (t *c14) decided(key string, s *flowSum) bool {
	hit := false
	deciders(s).each(func(i int) { hit = hit || i >= flowFields && t.keptBy[key].has(i) })
	return hit
}

// both: what an operation does where two conditions hold.
func (t *c14) both(f *ssa.Function, c, d flowCase) *flowSum {
	k := [2]flowCase{c, d}
	if t.pairs[f] == nil {
		t.pairs[f] = map[[2]flowCase]*flowSum{}
	}
	if s := t.pairs[f][k]; s != nil {
		return s
	}
	s := t.fl.Under(f, func(cond ssa.Value) (bool, bool) {
		if v, ok := t.decide(cond, &c, nil); ok {
			return v, ok
		}
		return t.decide(cond, &d, nil)
	}, nil)
	t.pairs[f][k] = s
	return s
}

// lone: the fields that are the only place an object of their type is kept. Where fields of that object
// are known to be set, the place itself says nothing more.
func (t *c14) lone() flowSet {
	if t.loneIDs == nil {
		t.loneIDs, t.holds = flowSet{0, 0}, map[int]string{}
		n := map[*types.Named]int{}
		each := func(do func(owner *types.Named, i int, of *types.Named)) {
			for _, m := range t.w.named {
				st, ok := m.Underlying().(*types.Struct)
				for i := 0; ok && i < st.NumFields(); i++ {
					if ft := st.Field(i).Type(); isObjType(ft) {
						do(m, i, namedOf(deref(ft)).Origin())
					}
				}
			}
		}
		each(func(_ *types.Named, _ int, of *types.Named) { n[of]++ })
		each(func(m *types.Named, i int, of *types.Named) {
			if n[of] == 1 {
				if id := t.fl.fieldID(m, i); id >= 0 {
					t.loneIDs.add(id)
					t.holds[id] = typeName(of)
				}
			}
		})
	}
	return t.loneIDs
}

func (t *c14) partKnown(id int, fields flowSet) bool {
	hit := false
	fields.each(func(i int) {
		hit = hit || i >= flowFields && i != id && ownerName(t.fl.Name(i)) == t.holds[id]
	})
	return hit
}

func ownerName(field string) string { return field[:strings.LastIndexByte(field, '.')] }

// owner: the type an option configures.
func (t *c14) owner(o option) *types.Named {
	for i := 0; i < o.f.Signature.Results().Len(); i++ {
		res := o.f.Signature.Results().At(i).Type()
		if isObjType(res) {
			return namedOf(deref(res)).Origin()
		}
		if sig, ok := res.Underlying().(*types.Signature); ok && sig.Params().Len() == 1 && isObjType(sig.Params().At(0).Type()) {
			return namedOf(deref(sig.Params().At(0).Type())).Origin()
		}
	}
	if o.f.Signature.Recv() != nil {
		return namedOf(deref(o.f.Params[0].Type())).Origin()
	}
	return nil
}

func takes(f *ssa.Function, owners map[string]bool) bool {
	for _, p := range f.Params {
		if m := namedOf(deref(p.Type())); m != nil && owners[typeName(m.Origin())] {
			return true
		}
	}
	return false
}

type c14Ref struct {
	Options  map[string][]string // option -> the operations, and cases, it decides
	Deciders map[string][]int    // operation -> the fields that decide it
	Fields   []string
}

// newConds: what an operation tells apart by fields that did not decide it on the reviewed tree.
func (t *c14) newConds(f *ssa.Function, known, old map[string]bool) []flowCase {
	key := fnName(f)
	if l, ok := t.fresh[key]; ok {
		return l
	}
	l := []flowCase{}
	seen := map[flowCase]bool{}
	for cond, src := range t.fl.Conds(f) {
		isNew := false
		src.each(func(i int) {
			n := ""
			if i >= flowFields {
				n = t.fl.Name(i)
			}
			isNew = isNew || n != "" && known[n] && !old[n]
		})
		if isNew {
			t.decide(cond, nil, func(c flowCase) {
				if !seen[c] {
					seen[c] = true
					l = append(l, c)
				}
			})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].name+l[i].val < l[j].name+l[j].val })
	t.fresh[key] = l
	return l
}

// condFields adds the fields by which conditions are decided in a function and what it calls.
func (t *c14) condFields(f *ssa.Function, s *flowSet, seen map[*ssa.Function]bool) {
	if seen[f] {
		return
	}
	seen[f] = true
	for _, src := range t.fl.Conds(f) {
		s.union(src)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				gs, _, _ := t.w.Callees(c)
				for _, g := range gs {
					t.condFields(g, s, seen)
				}
			}
		}
	}
}

func dumpC14Table(c *Ctx) {
	t := newC14(c.Linux())
	tab := c14Ref{Options: map[string][]string{}, Deciders: map[string][]int{}}
	tab.Fields = append(tab.Fields, t.fl.names...)
	sort.Strings(tab.Fields)
	at := map[string]int{}
	for i, n := range tab.Fields {
		at[n] = i
	}
	for _, o := range t.options {
		if l := t.consulting(o); len(l) > 0 {
			tab.Options[o.key] = l
			for _, b := range l {
				if _, ok := tab.Deciders[b]; ok || strings.Contains(b, " | ") {
					continue
				}
				l := []int{}
				dec := deciders(t.fl.sums[t.ops[b]])
				t.condFields(t.ops[b], &dec, map[*ssa.Function]bool{})
				dec.each(func(i int) {
					if i >= flowFields {
						l = append(l, at[t.fl.Name(i)])
					}
				})
				sort.Ints(l)
				tab.Deciders[b] = l
			}
		}
	}
	out, _ := json.Marshal(tab)
	fmt.Println(strings.NewReplacer("],\"", "],\n\"", "},\"", "},\n\"", "\",\"", "\",\n \"").Replace(string(out)))
}

// flowCase is something a function decides on: a kind of event, an enumeration value, a flag.
type flowCase struct{ name, val string }

func (t *c14) flagOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if id := t.fl.fieldID(fa.X.Type(), fa.Field); id >= 0 {
				return t.fl.Name(id)
			}
		}
	case *ssa.Field:
		if id := t.fl.fieldID(x.X.Type(), x.Field); id >= 0 {
			return t.fl.Name(id)
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || t.fl.sums[origin(g)] == nil || g.Signature.Recv() == nil || len(g.Params) != 1 {
			return ""
		}
		if s := t.fl.sums[origin(g)]; len(g.Blocks) != 1 {
			if s.acts || len(s.fields) > 0 {
				return ""
			}
			return fnName(g)
		}
		if ret, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
			if n := t.flagOf(ret.Results[0]); n != "" {
				return n
			}
			return fnName(g)
		}
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return fmt.Sprintf("parameter %d", i)
			}
		}
	}
	return ""
}

// decide says what a condition is in a case, or, for no case, which cases it tells apart.
func (t *c14) decide(cond ssa.Value, c *flowCase, found func(flowCase)) (bool, bool) {
	eq := func(name, val string) (bool, bool) {
		if found != nil {
			found(flowCase{name, val})
		}
		return c != nil && c.val == val, c != nil && c.name == name
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			v, ok := t.decide(x.X, c, found)
			return !v, ok
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 {
			return eq("kind of "+types.TypeString(ta.X.Type(), nil), types.TypeString(ta.AssertedType, nil))
		}
		if call, ok := x.Tuple.(*ssa.Call); ok && isBoolT(x.Type()) {
			g := call.Call.StaticCallee()
			if g != nil && g.Signature.Recv() != nil && len(g.Params) == 1 && t.fl.sums[origin(g)] != nil {
				if s := t.fl.sums[origin(g)]; !s.acts && len(s.fields) == 0 {
					if found != nil {
						found(flowCase{fmt.Sprintf("%s #%d", fnName(g), x.Index), "false"})
					}
					return eq(fmt.Sprintf("%s #%d", fnName(g), x.Index), "true")
				}
			}
		}
	case *ssa.BinOp:
		k, ok := x.Y.(*ssa.Const)
		v := x.X
		if !ok {
			k, ok = x.X.(*ssa.Const)
			v = x.Y
		}
		if !ok || k.Value == nil || x.Op != token.EQL && x.Op != token.NEQ {
			break
		}
		name := ""
		if n, ok := types.Unalias(v.Type()).(*types.Named); ok {
			name = typeName(n)
		} else if isString(v.Type()) && k.Value.ExactString() != `""` {
			name = "string"
		} else if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			w, ok := t.decide(v, c, found)
			return w == (constant.BoolVal(k.Value) == (x.Op == token.EQL)), ok
		} else {
			break
		}
		w, ok := eq(name, k.Value.ExactString())
		return w == (x.Op == token.EQL), ok
	}
	if b, ok := cond.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		n := t.flagOf(cond)
		if bo, ok := cond.(*ssa.BinOp); n == "" && ok {
			n = t.describe(bo, 0)
		}
		if n != "" {
			if found != nil {
				found(flowCase{n, "false"})
			}
			return eq(n, "true")
		}
	}
	return false, false
}

// describe names a comparison of what is kept in fields, or "".
func (t *c14) describe(v ssa.Value, d int) string {
	if d > 4 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return x.Value.ExactString()
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if id := t.fl.fieldID(fa.X.Type(), fa.Field); id >= 0 {
				return t.fl.Name(id)
			}
		}
	case *ssa.Field:
		if id := t.fl.fieldID(x.X.Type(), x.Field); id >= 0 {
			return t.fl.Name(id)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if a := t.describe(x.Call.Args[0], d+1); a != "" {
				return "len " + a
			}
		}
		g := x.Call.StaticCallee()
		if g != nil && len(g.Params) == 1 && len(g.Blocks) > 0 && t.accessor(origin(g)) {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					return t.describe(ret.Results[0], d+1)
				}
			}
		}
	case *ssa.BinOp:
		a, b := t.describe(x.X, d+1), t.describe(x.Y, d+1)
		if a != "" && b != "" {
			return a + " " + x.Op.String() + " " + b
		}
	}
	return ""
}

func (t *c14) cases(f *ssa.Function) map[flowCase]*flowSum {
	if m, ok := t.under[f]; ok {
		return m
	}
	m := map[flowCase]*flowSum{}
	t.under[f] = m
	var l []flowCase
	for c := range t.told(f) {
		l = append(l, c)
	}
	for i, c := range l {
		c := c
		m[c] = t.fl.Under(f, func(cond ssa.Value) (bool, bool) { return t.decide(cond, &c, nil) }, t.calleesIn(c))
		for _, d := range l[:i] {
			if d.name == c.name || len(l) > 40 || strings.Contains(c.name+d.name, " ") {
				continue
			}
			d, e := d, c
			if e.name < d.name {
				d, e = e, d
			}
			m[flowCase{d.name + " = " + d.val + " & " + e.name, e.val}] = t.fl.Under(f, func(cond ssa.Value) (bool, bool) {
				if v, ok := t.decide(cond, &d, nil); ok {
					return v, ok
				}
				return t.decide(cond, &e, nil)
			}, nil)
		}
	}
	for c := range t.toldBelow(f, 3) {
		if _, ok := m[c]; !ok {
			c := c
			m[c] = t.fl.Under(f, func(cond ssa.Value) (bool, bool) { return t.decide(cond, &c, nil) }, t.calleesIn(c))
		}
	}
	return m
}

// told: what a function itself tells apart.
func (t *c14) told(f *ssa.Function) map[flowCase]bool {
	m, ok := t.tell[f]
	if !ok {
		m = map[flowCase]bool{}
		t.tell[f] = m
		for _, b := range f.Blocks {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				t.decide(iff.Cond, nil, func(c flowCase) { m[c] = true })
			}
		}
	}
	return m
}

// toldBelow: what the functions it calls in its module tell apart, as far as that means the same there.
func (t *c14) toldBelow(f *ssa.Function, depth int) map[flowCase]bool {
	k := below{f, depth}
	if m, ok := t.belows[k]; ok {
		return m
	}
	m := map[flowCase]bool{}
	t.belows[k] = m
	if depth == 0 {
		return m
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil || t.fl.sums[origin(g)] == nil || module(g) != module(f) {
				continue
			}
			for x := range t.told(origin(g)) {
				if !strings.HasPrefix(x.name, "parameter ") && x.name != "string" {
					m[x] = true
				}
			}
			for x := range t.toldBelow(origin(g), depth-1) {
				m[x] = true
			}
		}
	}
	return m
}

type below struct {
	f     *ssa.Function
	depth int
}

type calleeCase struct {
	f *ssa.Function
	c flowCase
}

// calleesIn: what callees do in a case.
func (t *c14) calleesIn(c flowCase) func(*ssa.Function) *flowSum {
	if strings.HasPrefix(c.name, "parameter ") || c.name == "string" {
		return nil
	}
	var in func(g *ssa.Function) *flowSum
	in = func(g *ssa.Function) *flowSum {
		k := calleeCase{g, c}
		if s, ok := t.inCase[k]; ok {
			return s
		}
		t.inCase[k] = t.fl.sums[g] // while it is being worked out
		if t.told(g)[c] || t.toldBelow(g, 3)[c] {
			t.inCase[k] = t.fl.Under(g, func(cond ssa.Value) (bool, bool) { return t.decide(cond, &c, nil) }, in)
		}
		return t.inCase[k]
	}
	return in
}

func (t *c14) tells(f *ssa.Function, c string) bool {
	i := strings.LastIndex(c, " = ")
	_, ok := t.cases(f)[flowCase{c[:i], c[i+3:]}]
	return ok
}

// deciders: the fields that decide what a function results in.
func deciders(s *flowSum) flowSet {
	var dec flowSet
	dec.union(s.sink)
	for _, x := range s.res {
		dec.union(x)
	}
	for id := range s.set {
		dec.union(s.given[id])
	}
	back(s.given, &dec)
	return dec
}
