package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = checkC17 }

type c17 struct {
	w       *World
	r       *Report
	imports map[string]map[string]bool
	seen    map[string]bool // operations checked against the operation of their name
}

func checkC17(c *Ctx, r *Report) {
	r.Rule("forward", "an operation of a public type that wraps a library object having the operation of that name performs that operation on it, on every path that does not report an error, with its parameters in their positions and unchanged, and returns its result")
	r.Rule("function", "a public function named like an internal one calls it, with its parameters in their positions, and returns its result")
	r.Rule("reference", "a public operation whose name stands for a composition of internal operations (checker/c17_reference.txt) computes that composition of its parameters, on every path")
	r.Rule("constant", "a public constant has the value of the internal constant of that name and type")
	r.Rule("position", "an argument that is the parameter, field or getter named like one of the called function's parameters is passed at that parameter's position")
	r.Rule("agree", "an operation that only reports (by its name) changes nothing in any implementation of an interface, and one that changes the terminal or clipboard does something in each")
	w := c.Linux()
	t := &c17{w: w, r: r}
	t.forwards()
	t.functions()
	t.references()
	t.constants()
	t.positions()
	t.agreement(c)
	r.Floor("forward", 100)
	r.Floor("function", 20)
	r.Floor("reference", 130)
	r.Floor("constant", 40)
	r.Floor("position", 120)
	r.Floor("agree", 160)
}

func methodNames(t types.Type) map[string]bool {
	m := map[string]bool{}
	if _, ok := t.Underlying().(*types.Interface); !ok {
		t = types.NewPointer(deref(t))
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			m[ms.At(i).Obj().Name()] = true
		}
	}
	return m
}

// eval runs f, entering only functions of its own package; calls into other packages of the
// library stay opaque and are recorded.
func (t *c17) eval(f *ssa.Function, args []*Term, shallow bool) ([]TOut, *TEval) {
	home := pkgOf(f)
	ev := NewTEval(t.w)
	ev.Budget = 40000
	ev.Model = func(ev *TEval, st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool) {
		if strings.HasPrefix(name, "(*sync.") {
			return []TOut{{st: st, ret: tTuple()}}, true
		}
		var mname string
		recv := false
		if c.IsInvoke() {
			if c.Method.Pkg() == nil || !isRepoPath(c.Method.Pkg().Path()) {
				return nil, false
			}
			mname, recv = c.Method.Name(), true
		} else {
			var g *ssa.Function
			if g = c.StaticCallee(); g == nil {
				return nil, false
			}
			g = origin(g)
			if strings.HasSuffix(g.Name(), "$bound") || g.Parent() != nil {
				return nil, false
			}
			if shallow && g != f && pkgOf(g) == home && g.Signature.Recv() == nil && g.Signature.Results().Len() == 1 && len(args) == 1 {
				return []TOut{{st: st, ret: tOp("convert "+g.Name(), args...)}}, true
			}
			if !t.w.funcSet[g] || pkgOf(g) == home {
				return nil, false
			}
			mname, recv = g.Name(), g.Signature.Recv() != nil
		}
		n := st.clone()
		n.n++
		call := tOp("call "+name, args...)
		n.events = append(n.events, Event{what: "call", name: mname, args: args, at: at, fn: at.Parent()})
		_ = recv
		nr := c.Signature().Results().Len()
		ret := tOp(fmt.Sprintf("result@%d", len(n.events)-1), call)
		if nr > 1 {
			var a []*Term
			for i := 0; i < nr; i++ {
				a = append(a, tOp(fmt.Sprintf("result@%d#%d", len(n.events)-1, i), call))
			}
			ret = tTuple(a...)
		} else if nr == 0 {
			ret = tTuple()
		}
		return []TOut{{st: n, ret: ret}}, true
	}
	return ev.Run(f, args, nil, newTState()), ev
}

// public packages: what users import
func (t *c17) public(path string) bool {
	return !strings.Contains(path, "internal") && !strings.Contains(path, "examples") && !strings.Contains(path, "benchmarks") && path != ""
}

// matches tells whether an inner operation is the one a wrapper's name stands for.
func opMatches(outer, inner string) bool {
	strip := func(s string) string {
		for _, p := range []string{"With", "Set", "Get"} {
			if rest, ok := strings.CutPrefix(s, p); ok && rest != "" && rest[0] >= 'A' && rest[0] <= 'Z' {
				return rest
			}
		}
		return s
	}
	return outer == inner || strip(outer) == strip(inner)
}

func (t *c17) forwards() {
	for _, f := range t.w.Funcs {
		if f.Parent() != nil || len(f.Blocks) == 0 || f.Signature.Recv() == nil || !t.public(pkgOf(f)) || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if f.Name() == "String" && len(f.Params) == 1 {
			continue // describes the object (fmt.Stringer)
		}
		recv := recvNamed(f)
		if recv == nil {
			continue
		}
		st, ok := recv.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		// operations of wrapped objects that the name stands for
		want := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			fn := namedOf(deref(ft))
			if fn == nil || fn.Obj().Pkg() == nil || !isRepoPath(fn.Obj().Pkg().Path()) || fn.Obj().Pkg() == recv.Obj().Pkg() && recv.Obj().Exported() == fn.Obj().Exported() && !types.IsInterface(ft) {
				continue
			}
			exact := ""
			var others []string
			for m := range methodNames(ft) {
				sig := t.sigOf(ft, m)
				if sig == nil || sig.Params().Len() != f.Signature.Params().Len() || !sameResultKind(f.Signature, sig, recv) {
					continue
				}
				if m == f.Name() {
					exact = m
				} else if opMatches(f.Name(), m) {
					others = append(others, m)
				}
			}
			if exact != "" {
				want[exact] = true
			} else {
				for _, m := range others {
					want[m] = true
				}
			}
		}
		if len(want) == 0 {
			continue
		}
		t.check("forward", f, want, true)
	}
}

func (t *c17) sigOf(ft types.Type, m string) *types.Signature {
	if _, ok := ft.Underlying().(*types.Interface); !ok {
		ft = types.NewPointer(deref(ft))
	}
	ms := types.NewMethodSet(ft)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == m && ms.At(i).Obj().Exported() {
			return ms.At(i).Type().(*types.Signature)
		}
	}
	return nil
}

// sameResultKind: a getter does not stand for a setter.
func sameResultKind(f, g *types.Signature, recv *types.Named) bool {
	self := func(s *types.Signature) bool {
		for i := 0; i < s.Results().Len(); i++ {
			if n := namedOf(deref(s.Results().At(i).Type())); n != nil && s.Recv() != nil && n == namedOf(deref(s.Recv().Type())) {
				return true
			}
		}
		return s.Results().Len() == 0
	}
	if f.Recv() == nil || g.Recv() == nil {
		return true
	}
	return self(f) == self(g) || f.Params().Len() > 0
}

// check evaluates f and looks for the operations it should perform.
func (t *c17) check(rule string, f *ssa.Function, want map[string]bool, method bool) {
	site := fnName(f)
	if t.seen == nil {
		t.seen = map[string]bool{}
	}
	t.seen[site] = true
	pos := t.w.Pos(f.Pos())
	var args []*Term
	params := map[string]int{}
	np := 0
	for i, p := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			args = append(args, tSym("!w"))
			continue
		}
		nm := fmt.Sprintf("p%d_%s", np, p.Name())
		args = append(args, tSym(nm))
		params[nm] = np
		np++
	}
	outs, ev := t.eval(f, args, false)
	if ev.Blown {
		outs, ev = t.eval(f, args, true)
	}
	if ev.Blown {
		t.r.Bad(rule, site, pos, "not decided: too many paths")
		return
	}
	paths := 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		paths++
		k := -1
		var call Event
		for i, e := range o.st.events {
			if e.what == "call" && want[e.name] {
				if k >= 0 && call.name == e.name && len(e.args) == len(call.args) && e.args[0].key() == call.args[0].key() && t.changes(e) {
					t.r.Bad(rule, site, pos, "%s is performed twice", e.name)
					return
				}
				k, call = i, e
			}
		}
		if k < 0 {
			if t.refused(f, o) || t.guarded(o, method) {
				continue
			}
			if method && len(want) == 1 && t.sameAnswer(f, sortedKeys(want)[0]) {
				t.r.OK(rule, site)
				return
			}
			t.r.Bad(rule, site, pos, "a path returns without performing %s on the wrapped object", strings.Join(sortedKeys(want), " or "))
			return
		}
		as := call.args
		if method {
			if !t.holdsSym(o.st, as[0], "!w", 0) {
				t.r.Bad(rule, site, pos, "%s is performed on %s, not on the wrapped object", call.name, cut(as[0].key()))
				return
			}
			as = as[1:]
		}
		if m := argsInPlace(o.st, as, params, np); m != "" {
			t.r.Bad(rule, site, pos, "%s: %s", call.name, m)
			return
		}
		if m := t.returned(f, o, k, call); m != "" {
			t.r.Bad(rule, site, pos, "%s: %s", call.name, m)
			return
		}
	}
	if paths == 0 {
		t.r.Bad(rule, site, pos, "not decided: no path returns")
		return
	}
	t.r.OK(rule, site)
}

// sameAnswer: the operation gives the same answer as the wrapped object's, computed another way.
func (t *c17) sameAnswer(f *ssa.Function, name string) bool {
	if f.Signature.Params().Len() > 0 || f.Signature.Results().Len() != 1 {
		return false
	}
	st, ok := deref(f.Params[0].Type()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	answers := func(g *ssa.Function, arg *Term) (string, bool) {
		ev := NewTEval(t.w)
		ev.Budget = 20000
		outs := ev.Run(g, []*Term{arg}, nil, newTState())
		if ev.Blown || len(outs) == 0 {
			return "", false
		}
		var all []string
		for _, o := range outs {
			if o.panic || o.ret == nil || len(o.st.events) > 0 {
				return "", false
			}
			var fs []string
			for k, v := range o.st.facts {
				fs = append(fs, fmt.Sprint(k, v))
			}
			sort.Strings(fs)
			all = append(all, strings.Join(fs, "&")+"=>"+o.ret.key())
		}
		sort.Strings(all)
		return strings.Join(all, ";"), true
	}
	mine, ok := answers(f, tSym("!w"))
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		ms := t.w.Prog.MethodSets.MethodSet(ft)
		for j := 0; j < ms.Len(); j++ {
			if ms.At(j).Obj().Name() != name {
				continue
			}
			g := unwrap(t.w.Prog.MethodValue(ms.At(j)))
			if g == nil || len(g.Blocks) == 0 || len(g.Params) != 1 {
				continue
			}
			its, ok := answers(g, tOp("."+st.Field(i).Name()+"@0", tSym("!w")))
			if ok && its == mine {
				return true
			}
		}
	}
	return false
}

// changes: performing the call twice differs from performing it once.
func (t *c17) changes(e Event) bool {
	c, ok := e.at.(ssa.CallInstruction)
	if !ok {
		return false
	}
	in, _, unknown := t.w.Callees(c)
	if unknown {
		return true
	}
	for _, g := range in {
		if s := t.w.Prov().Sum(g); s == nil || len(s.Mut) > 0 || len(t.w.Effects().Of(g)) > 0 {
			return true
		}
	}
	return false
}

// holdsSym: the value, or memory it refers to, is made of the symbol.
func (t *c17) holdsSym(st *TState, v *Term, sym string, d int) bool {
	return symsOf(st, v)[sym]
}

// symsOf gives the symbols a value is made of, memory it refers to included.
func symsOf(st *TState, v *Term) map[string]bool {
	out := map[string]bool{}
	seen := map[string]bool{}
	var visit func(v *Term)
	visit = func(v *Term) {
		if v == nil {
			return
		}
		v.walk(func(x *Term) bool {
			switch x.op {
			case "sym":
				out[x.name] = true
			case "ref", "slice", "map":
				if root := cellRoot(x.name); isLocalCell(x.name) && !seen[root] {
					seen[root] = true
					for k, m := range st.mem {
						if cellRoot(k) == root {
							visit(m)
						}
					}
				}
			}
			return true
		})
	}
	visit(v)
	return out
}

// refused: the path reports an error.
func (t *c17) refused(f *ssa.Function, o TOut) bool {
	res := f.Signature.Results()
	rets := []*Term{o.ret}
	if o.ret != nil && o.ret.op == "tuple" {
		rets = o.ret.args
	}
	for i := 0; i < res.Len() && i < len(rets); i++ {
		if isErrorType(res.At(i).Type()) && rets[i].op != "nil" {
			return true
		}
	}
	return false
}

// guarded: the path is one where the wrapped object or an argument is nil.
func (t *c17) guarded(o TOut, method bool) bool {
	for k, v := range o.st.facts {
		if v && strings.HasPrefix(k, "op:==(") && strings.HasSuffix(k, ", nil)") {
			return true
		}
	}
	return false
}

func plainUse(t *Term) bool {
	ok := true
	t.walk(func(x *Term) bool {
		if x.op == "op" {
			switch {
			case strings.HasPrefix(x.name, "call "), strings.HasPrefix(x.name, "result@"), strings.HasPrefix(x.name, "convert "), strings.HasPrefix(x.name, "."), x.name == "make", x.name == "len", x.name == "index", x.name == "cat", strings.HasPrefix(x.name, "make"), strings.HasPrefix(x.name, "#"):
			default:
				ok = false
			}
		}
		return ok
	})
	return ok
}

// argsInPlace: with as many arguments as parameters each argument is made of its parameter alone;
// otherwise the parameters appear in order.
func argsInPlace(st *TState, as []*Term, params map[string]int, n int) string {
	used := func(a *Term) []int {
		var out []int
		for nm := range symsOf(st, a) {
			if i, ok := params[nm]; ok {
				out = append(out, i)
			}
		}
		sort.Ints(out)
		return out
	}
	var seq []int
	for i, a := range as {
		u := used(a)
		seq = append(seq, u...)
		if len(u) > 0 && !plainUse(a) {
			return fmt.Sprintf("argument %d is %s", i+1, cut(a.key()))
		}
		if len(as) == n {
			if len(u) == 0 && (a.op == "slice" || a.op == "map" || a.op == "ref" || a.op == "op" || a.op == "sym" && strings.HasPrefix(a.name, "loop ")) {
				continue // rebuilt element by element
			}
			if len(u) != 1 || u[0] != i {
				return fmt.Sprintf("argument %d is %s, not the caller's parameter %d", i+1, cut(a.key()), i+1)
			}
		}
	}
	for i := 1; i < len(seq); i++ {
		if seq[i] < seq[i-1] && len(as) != n {
			return "the caller's parameters are passed out of order"
		}
	}
	return ""
}

// returned: the call's results become the operation's results, or the wrapper's new content.
func (t *c17) returned(f *ssa.Function, o TOut, k int, call Event) string {
	c, ok := call.at.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	gres := c.Common().Signature().Results()
	if gres.Len() == 0 {
		return ""
	}
	fres := f.Signature.Results()
	rets := []*Term{o.ret}
	if o.ret != nil && o.ret.op == "tuple" {
		rets = o.ret.args
	}
	comp := func(i int) string {
		if gres.Len() == 1 {
			return fmt.Sprintf("result@%d", k)
		}
		return fmt.Sprintf("result@%d#%d", k, i)
	}
	has := func(x *Term, name string) bool { return t.holds(o.st, x, name, 0) }
	if t.refused(f, o) && gres.Len() > 0 && !isErrorType(gres.At(gres.Len()-1).Type()) {
		return ""
	}
	same := fres.Len() == gres.Len()
	for i := 0; i < fres.Len() && i < len(rets); i++ {
		r := rets[i]
		if isErrorType(fres.At(i).Type()) {
			// nil is right when the call succeeded on this path
			for j := 0; j < gres.Len(); j++ {
				if isErrorType(gres.At(j).Type()) && r.op == "nil" {
					succeeded := false
					for key, v := range o.st.facts {
						if strings.Contains(key, comp(j)) && strings.HasSuffix(key, ", nil)") && v == strings.HasPrefix(key, "op:==(") {
							succeeded = true
						}
					}
					if !succeeded {
						return "its error is not returned"
					}
				}
			}
			continue
		}
		if t.refused(f, o) {
			continue
		}
		if same && !isErrorType(gres.At(i).Type()) {
			if r.op == "sym" && r.name == "!w" {
				continue
			}
			if !has(r, comp(i)) {
				if _, isSlice := fres.At(i).Type().Underlying().(*types.Slice); isSlice || r.isConst() || r.op == "nil" {
					if t.decidedBy(o, comp(i)) || isSlice {
						continue
					}
				}
				return fmt.Sprintf("its result %d is not returned, but %s", i+1, cut(r.key()))
			}
			if isBoolT(fres.At(i).Type()) && !plainUse(r) || isInteger(fres.At(i).Type()) && !plainUse(r) {
				return fmt.Sprintf("its result is returned changed: %s", cut(r.key()))
			}
			continue
		}
		if has(r, fmt.Sprintf("result@%d", k)) {
			return ""
		}
	}
	// A new content: the wrapper holds the call's result.
	if !same {
		for j := 0; j < gres.Len(); j++ {
			if isErrorType(gres.At(j).Type()) {
				continue
			}
			ok := false
			for i := range rets {
				if has(rets[i], comp(j)) || t.decidedBy(o, comp(j)) {
					ok = true
				}
			}
			for _, v := range o.st.mem {
				if has(v, comp(j)) {
					ok = true
				}
			}
			if !ok && fres.Len() > 0 {
				return "its result is dropped"
			}
		}
	}
	return ""
}

// decidedBy: a condition on the result chose this path.
func (t *c17) decidedBy(o TOut, name string) bool {
	for k := range o.st.facts {
		if strings.Contains(k, name+"(") {
			return true
		}
	}
	return false
}

// holds: the value, or memory it refers to, contains the named result.
func (t *c17) holds(st *TState, v *Term, name string, d int) bool {
	if v == nil || d > 6 {
		return false
	}
	found := false
	v.walk(func(x *Term) bool {
		if found {
			return false
		}
		if x.op == "op" && (x.name == name || strings.HasPrefix(x.name, name+"#")) ||
			x.op == "sym" && strings.HasPrefix(x.name, "*(op:"+name+"(") {
			found = true
			return false
		}
		if x.op == "ref" || x.op == "slice" || x.op == "map" {
			for k, m := range st.mem {
				if isLocalCell(k) && cellRoot(k) == cellRoot(x.name) && t.holds(st, m, name, d+1) {
					found = true
					return false
				}
			}
		}
		return true
	})
	return found
}

// ---- functions and constants of the same name

func (t *c17) importsOf(p *types.Package) []*types.Package {
	var out []*types.Package
	for _, q := range p.Imports() {
		if strings.Contains(q.Path(), "internal") && isRepoPath(q.Path()) {
			out = append(out, q)
		}
	}
	return out
}

func (t *c17) functions() {
	for _, f := range t.w.Funcs {
		if f.Parent() != nil || len(f.Blocks) == 0 || f.Signature.Recv() != nil || !t.public(pkgOf(f)) || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if res := f.Signature.Results(); res.Len() == 1 {
			if _, fn := res.At(0).Type().Underlying().(*types.Signature); fn {
				continue // builds a command of its own; C03, C04 and C24 decide what it does
			}
		}
		want := map[string]bool{}
		for _, q := range t.importsOf(f.Object().Pkg()) {
			if g, ok := q.Scope().Lookup(f.Name()).(*types.Func); ok && g.Type().(*types.Signature).Params().Len() == f.Signature.Params().Len() {
				want[f.Name()] = true
			}
		}
		if len(want) == 0 {
			continue
		}
		t.check("function", f, want, false)
	}
}

func (t *c17) constants() {
	for _, p := range t.w.Pkgs {
		if p.Types == nil || !t.public(relPath(p.PkgPath)) {
			continue
		}
		for _, name := range p.Types.Scope().Names() {
			c, ok := p.Types.Scope().Lookup(name).(*types.Const)
			if !ok || !c.Exported() {
				continue
			}
			n := namedOf(c.Type())
			for _, q := range t.importsOf(p.Types) {
				d, ok := q.Scope().Lookup(name).(*types.Const)
				if !ok {
					continue
				}
				m := namedOf(d.Type())
				if n != nil && m != nil && n.Obj().Name() != m.Obj().Name() {
					continue
				}
				site := relPath(p.PkgPath) + "." + name
				t.r.Check(c.Val().ExactString() == d.Val().ExactString(), "constant", site, t.w.Pos(c.Pos()), "%s has the value %s, %s.%s has %s", site, c.Val(), relPath(q.Path()), name, d.Val())
			}
		}
	}
}

// ---- arguments at the position of their name

// nameOfArg: the name the argument has in the calling function.
func nameOfArg(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Convert:
		return nameOfArg(x.X)
	case *ssa.ChangeType:
		return nameOfArg(x.X)
	case *ssa.Field:
		return x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
		}
	case *ssa.Call:
		c := x.Common()
		if c.IsInvoke() && len(c.Args) == 0 {
			return c.Method.Name()
		}
		if g := c.StaticCallee(); g != nil && g.Signature.Recv() != nil && len(c.Args) == 1 {
			return g.Name()
		}
	}
	return ""
}

func (t *c17) positions() {
	for _, f := range t.w.Funcs {
		if strings.Contains(pkgOf(f), "examples") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				c := ci.Common()
				var sig *types.Signature
				args := c.Args
				name := ""
				if c.IsInvoke() {
					if c.Method.Pkg() == nil || !isRepoPath(c.Method.Pkg().Path()) {
						continue
					}
					sig, name = c.Method.Type().(*types.Signature), c.Method.Name()
				} else if g := c.StaticCallee(); g != nil && t.w.funcSet[origin(g)] {
					sig, name = g.Signature, g.Name()
					if sig.Recv() != nil {
						args = args[1:]
					}
				} else {
					continue
				}
				if sig.Params().Len() < 2 || len(args) != sig.Params().Len() {
					continue
				}
				named := 0
				bad := ""
				for i := range args {
					n := strings.ToLower(nameOfArg(args[i]))
					if n == "" {
						continue
					}
					named++
					own := strings.ToLower(sig.Params().At(i).Name())
					if n == own {
						continue
					}
					for j := range args {
						if j != i && strings.ToLower(sig.Params().At(j).Name()) == n && types.Identical(sig.Params().At(i).Type(), sig.Params().At(j).Type()) && strings.ToLower(nameOfArg(args[j])) != n {
							bad = fmt.Sprintf("%s is passed as the parameter %s of %s, which has a parameter %s", nameOfArg(args[i]), sig.Params().At(i).Name(), name, sig.Params().At(j).Name())
						}
					}
				}
				if named < 2 {
					continue
				}
				site := fnName(f) + " -> " + name
				t.r.Check(bad == "", "position", site, t.w.InstrPos(in), "%s", bad)
			}
		}
	}
}

// ---- interface implementations agree

func reportsOnly(name string) bool {
	for _, p := range []string{"Is", "Has", "Supports", "Get", "Can"} {
		if rest, ok := strings.CutPrefix(name, p); ok && rest != "" && rest[0] >= 'A' && rest[0] <= 'Z' {
			return true
		}
	}
	switch name {
	case "Size", "ColorDepth", "Platform", "Name", "String", "Width", "Height":
		return true
	}
	return false
}

func (t *c17) agreement(c *Ctx) {
	type impl struct {
		w *World
		f *ssa.Function
	}
	for _, w := range []*World{c.Linux(), c.World("windows", "amd64"), c.World("darwin", "amd64")} {
		seenIface := map[*types.TypeName]bool{}
		logs := map[*types.Named]map[string]bool{}
		// A field that nearly every operation of a type writes is its record of calls.
		log := func(g *ssa.Function) map[string]bool {
			n := recvNamed(g)
			if n == nil || logs[n] != nil {
				return logs[n]
			}
			count, all := map[string]int{}, 0
			ms := w.Prog.MethodSets.MethodSet(types.NewPointer(n))
			for i := 0; i < ms.Len(); i++ {
				f := unwrap(w.Prog.MethodValue(ms.At(i)))
				if f == nil || !ms.At(i).Obj().Exported() || len(f.Blocks) == 0 {
					continue
				}
				all++
				if s := w.Prov().Sum(f); s != nil {
					for k := range s.Mut {
						count[fmt.Sprint(k)]++
					}
				}
			}
			logs[n] = map[string]bool{}
			for k, c := range count {
				if all >= 8 && c*4 >= all*3 {
					logs[n][k] = true
				}
			}
			return logs[n]
		}
		for _, p := range w.Pkgs {
			if p.Types == nil || strings.Contains(p.PkgPath, "/examples") {
				continue
			}
			sc := p.Types.Scope()
			for _, name := range sc.Names() {
				tn, ok := sc.Lookup(name).(*types.TypeName)
				if !ok || tn.IsAlias() || seenIface[tn] {
					continue
				}
				it, ok := tn.Type().Underlying().(*types.Interface)
				if !ok || it.NumMethods() == 0 {
					continue
				}
				if n, ok := tn.Type().(*types.Named); !ok || n.TypeParams().Len() > 0 {
					continue
				}
				seenIface[tn] = true
				for i := 0; i < it.NumMethods(); i++ {
					m := it.Method(i)
					for _, g := range w.Implementers(m) {
						if strings.Contains(pkgOf(g), "examples") || strings.HasSuffix(w.Pos(g.Pos()), "_test.go") {
							continue
						}
						site := fnName(g)
						if w.GOOS != "linux" {
							site += " on " + w.GOOS
						}
						if t.done(site) {
							continue
						}
						bad := ""
						s := w.Prov().Sum(g)
						if !reportsOnly(m.Name()) {
							acts := func(g *ssa.Function) bool {
								s := w.Prov().Sum(g)
								return s != nil && len(s.Mut) > 0 || len(w.Effects().Of(g)) > 0
							}
							if res := g.Signature.Results(); len(g.Blocks) == 0 || res.Len() > 1 || res.Len() == 1 && !isErrorType(res.At(0).Type()) {
								continue
							}
							// An implementation none of whose operations acts is a stand-in that does nothing.
							others := 0
							for j := 0; j < it.NumMethods(); j++ {
								for _, h := range w.Implementers(it.Method(j)) {
									if h != g && recvNamed(h) == recvNamed(g) && acts(h) {
										others++
									}
								}
							}
							if others > 0 {
								t.r.Check(acts(g), "agree", site, w.Pos(g.Pos()), "%s does nothing here", m.Name())
							}
							continue
						}
						if s != nil {
							for k, e := range s.Mut {
								if log(g)[fmt.Sprint(k)] {
									continue
								}
								bad = fmt.Sprintf("%s reports, but changes %v (%s at %s)", m.Name(), k, e.What, w.Pos(e.Pos))
							}
						}
						t.r.Check(bad == "", "agree", site, w.Pos(g.Pos()), "%s", bad)
					}
				}
			}
		}
	}
}

func (t *c17) done(site string) bool {
	if t.imports == nil {
		t.imports = map[string]map[string]bool{"agree": {}}
	}
	if t.imports["agree"][site] {
		return true
	}
	t.imports["agree"][site] = true
	return false
}
