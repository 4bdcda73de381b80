package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reference compositions. Each line of c17_reference.txt names a public operation and says which
// operations of the wrapped object it stands for:
//
//	(*layout.Box).Padding: domain = w.domain.WithPadding(value.NewSpacing(top, right, bottom, left))
//
// w is the receiver, the other names are the operation's parameters. "field = expression" speaks
// about the fields of the wrapper that is returned (the others stay as they were, or are free when
// the wrapper is new); a line without a field name speaks about the result. Both sides are
// evaluated on the current source and compared as terms.

//go:embed c17_reference.txt
var c17Reference string

type refVal struct {
	st   *TState
	v    *Term
	t    types.Type
	fail string
}

type refEnv struct {
	t   *c17
	ev  *TEval
	pkg *types.Package
	// shallow: calls into other packages stay closed
	shallow bool
	vars    map[string]refVal
}

func (t *c17) references() {
	for _, line := range strings.Split(c17Reference, "\n") {
		line = strings.TrimSpace(line)
		if line == "" || line[0] == '#' {
			continue
		}
		site, spec, ok := strings.Cut(line, ": ")
		var names []string
		if i := strings.LastIndex(site, "("); i > 0 && strings.HasSuffix(site, ")") {
			for _, n := range strings.Split(site[i+1:len(site)-1], ",") {
				if n = strings.TrimSpace(n); n != "" {
					names = append(names, n)
				}
			}
			site = site[:i]
		}
		if !ok {
			t.r.Bad("reference", line, "", "not understood")
			continue
		}
		f := t.w.Func(site)
		if f == nil {
			t.r.Bad("reference", site, "", "not decided: there is no such operation")
			continue
		}
		why := t.compareRef(f, names, spec)
		t.r.Check(why == "", "reference", site, t.w.Pos(f.Pos()), "%s", why)
	}
}

// refEval makes an evaluator; shallow ones keep calls into other packages of the library closed.
func (t *c17) refEval(f *ssa.Function, shallow bool) *TEval {
	ev := NewTEval(t.w)
	ev.Budget = 60000
	home := pkgOf(f)
	ev.Model = func(ev *TEval, st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool) {
		if strings.HasPrefix(name, "(*sync.") {
			return []TOut{{st: st, ret: tTuple()}}, true
		}
		var g *ssa.Function
		if !c.IsInvoke() {
			if g = c.StaticCallee(); g == nil {
				return nil, false
			}
			g = origin(g)
		}
		if !shallow || g == nil || !t.w.funcSet[g] || pkgOf(g) == home || g.Parent() != nil || strings.HasSuffix(g.Name(), "$bound") {
			return nil, false
		}
		return closedCall(st, g, fnName(g), args), true
	}
	return ev
}

func closedCall(st *TState, g *ssa.Function, name string, args []*Term) []TOut {
	ret := tOp("call "+name, args...)
	if nr := g.Signature.Results().Len(); nr != 1 {
		var a []*Term
		for i := 0; i < nr; i++ {
			a = append(a, tOp(fmt.Sprintf("#%d", i), ret))
		}
		n := st.clone()
		n.events = append(n.events, Event{what: "call", name: name, args: args})
		return []TOut{{st: n, ret: tTuple(a...)}}
	}
	return []TOut{{st: st, ret: ret}}
}

func (t *c17) compareRef(f *ssa.Function, names []string, spec string) string {
	why := ""
	for _, shallow := range []bool{true, false} {
		if why = t.compareRefAt(f, names, spec, shallow); why == "" {
			return ""
		}
	}
	return why
}

func (t *c17) compareRefAt(f *ssa.Function, names []string, spec string, shallow bool) string {
	ev := t.refEval(f, shallow)
	st, args, env, recv, cell := t.refStart(ev, f, names)
	env.shallow = shallow
	outs := ev.Run(f, args, nil, st)
	if ev.Blown {
		return "not decided: too many paths"
	}
	// the wrapper's fields or the result
	type want struct {
		field string
		vals  []refVal
	}
	var wants []want
	for _, part := range strings.Split(spec, "; ") {
		field, src := "", part
		if l, r, ok := strings.Cut(part, " = "); ok && token.IsIdentifier(l) {
			field, src = l, r
		}
		if src == "_" { // free
			wants = append(wants, want{field: field})
			continue
		}
		e, err := parser.ParseExpr(src)
		if err != nil {
			return "not decided: " + err.Error()
		}
		vals := env.eval(e, st)
		for _, v := range vals {
			if v.fail != "" {
				return "not decided: " + v.fail
			}
		}
		if field != "" {
			field = fieldFor(f, recv, field, vals[0].t)
		}
		wants = append(wants, want{field, vals})
	}
	if ev.Blown {
		return "not decided: too many paths"
	}
	pick := func(o TOut, field string) (*Term, bool) {
		if field == "" {
			return o.ret, o.ret != nil
		}
		r := o.ret
		if r != nil && r.op == "tuple" && len(r.args) > 0 {
			r = r.args[0]
		}
		if (r == nil || r.op == "tuple") && cell != "" {
			r = &Term{op: "ref", name: cell}
		}
		if r == nil {
			return nil, false
		}
		switch r.op {
		case "iface":
			r = r.args[0]
			fallthrough
		case "ref":
			if v, ok := o.st.mem[r.name+"."+field]; ok {
				return v, true
			}
			if v, ok := o.st.mem[r.name]; ok && v.op == "struct" {
				if s, ok := v.t.Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Name() == field {
							return v.field(i, s), true
						}
					}
				}
			}
		case "struct":
			s, ok := r.t.Underlying().(*types.Struct)
			for i := 0; ok && i < s.NumFields(); i++ {
				if s.Field(i).Name() == field {
					return r.field(i, s), true
				}
			}
		}
		return nil, false
	}
	said := map[string]bool{}
	for _, w := range wants {
		said[w.field] = true
		if w.vals == nil {
			continue
		}
		mine, theirs := map[string]bool{}, map[string]bool{}
		for _, o := range outs {
			if o.panic {
				mine["panics"] = true
				continue
			}
			v, ok := pick(o, w.field)
			if !ok {
				return fmt.Sprintf("not decided: no field %s in the result", w.field)
			}
			mine[pathKey(o.st, v)] = true
		}
		for _, v := range w.vals {
			theirs[pathKey(v.st, v.v)] = true
		}
		for _, k := range sortedKeys(mine) {
			if !theirs[k] {
				return fmt.Sprintf("%s is %s, not %s", orResult(w.field), cut(k), cut(strings.Join(sortedKeys(theirs), " or ")))
			}
		}
		for _, k := range sortedKeys(theirs) {
			if !mine[k] {
				return fmt.Sprintf("%s is never %s", orResult(w.field), cut(k))
			}
		}
	}
	// the rest of the wrapper
	if recv != nil && !said[""] {
		for i := 0; i < recv.NumFields(); i++ {
			nm := recv.Field(i).Name()
			if said[nm] {
				continue
			}
			for _, o := range outs {
				if o.panic {
					continue
				}
				if v, ok := pick(o, nm); !ok || v.key() != tSym("w."+nm).key() {
					return fmt.Sprintf("the wrapper's %s changes", nm)
				}
			}
		}
	}
	return ""
}

// fieldFor gives the wrapper's field of that name or, if there is none, the only one of the type.
func fieldFor(f *ssa.Function, s *types.Struct, name string, t types.Type) string {
	if f.Signature.Results().Len() > 0 {
		if n := namedOf(deref(f.Signature.Results().At(0).Type())); n != nil {
			if u, ok := n.Underlying().(*types.Struct); ok {
				s = u
			}
		}
	}
	if s == nil {
		return name
	}
	only, n := "", 0
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return name
		}
		if types.Identical(s.Field(i).Type(), t) {
			only = s.Field(i).Name()
			n++
		}
	}
	if n == 1 {
		return only
	}
	return name
}

func orResult(s string) string {
	if s == "" {
		return "the result"
	}
	return s
}

func (t *c17) refStart(ev *TEval, f *ssa.Function, names []string) (*TState, []*Term, *refEnv, *types.Struct, string) {
	st := newTState()
	var args []*Term
	env := &refEnv{t: t, ev: ev, pkg: f.Pkg.Pkg, vars: map[string]refVal{}}
	var recv *types.Struct
	var cell string
	for i, p := range f.Params {
		name := p.Name()
		if f.Signature.Recv() != nil && i > 0 && i-1 < len(names) {
			name = names[i-1]
		} else if f.Signature.Recv() == nil && i < len(names) {
			name = names[i]
		}
		v := tSym(name)
		if i == 0 && f.Signature.Recv() != nil {
			name = "w"
			v = tSym("w")
			if s, ok := deref(p.Type()).Underlying().(*types.Struct); ok {
				recv = s
				if _, ptr := p.Type().Underlying().(*types.Pointer); ptr {
					st.n++
					cell = fmt.Sprintf("A%d", st.n)
					for j := 0; j < s.NumFields(); j++ {
						st.mem[cell+"."+s.Field(j).Name()] = tSym("w." + s.Field(j).Name())
					}
					v = &Term{op: "ref", name: cell}
				} else {
					v = &Term{op: "struct", t: p.Type()}
					for j := 0; j < s.NumFields(); j++ {
						v.args = append(v.args, tSym("w."+s.Field(j).Name()))
					}
				}
			}
		}
		args = append(args, v)
		env.vars[name] = refVal{st: st, v: v, t: p.Type()}
	}
	return st, args, env, recv, cell
}

// pathKey describes what holds on a path, what it does and a value at its end.
func pathKey(st *TState, v *Term) string {
	var fs []string
	for k, b := range st.facts {
		fs = append(fs, fmt.Sprint(k, "=", b))
	}
	sort.Strings(fs)
	s := strings.Join(fs, " & ")
	for _, e := range st.events {
		if e.what == "store" {
			continue
		}
		s += " " + e.what + " " + e.name + "("
		for _, a := range e.args {
			s += stateKey(st, a) + ","
		}
		s += ")"
	}
	if s != "" {
		s += " -> "
	}
	if v.op == "iface" && len(v.args) == 1 {
		v = v.args[0]
	}
	return s + stateKey(st, v)
}

// eval evaluates an expression of the reference language on every path.
func (e *refEnv) eval(x ast.Expr, st *TState) []refVal {
	bad := func(f string, a ...any) []refVal { return []refVal{{fail: fmt.Sprintf(f, a...)}} }
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X, st)
	case *ast.BasicLit:
		c := constant.MakeFromLiteral(x.Value, x.Kind, 0)
		t := types.Typ[types.Int]
		if x.Kind == token.STRING {
			t = types.Typ[types.String]
		}
		return []refVal{{st: st, v: tConst(c, t), t: t}}
	case *ast.Ident:
		switch x.Name {
		case "nil":
			return []refVal{{st: st, v: tNil, t: types.Typ[types.UntypedNil]}}
		case "true", "false":
			return []refVal{{st: st, v: tBool(x.Name == "true"), t: types.Typ[types.Bool]}}
		}
		v, ok := e.vars[x.Name]
		if !ok {
			return bad("%s is not a parameter", x.Name)
		}
		return []refVal{{st: st, v: v.v, t: v.t}}
	case *ast.BinaryExpr:
		var out []refVal
		for _, a := range e.eval(x.X, st) {
			if a.fail != "" {
				return []refVal{a}
			}
			for _, b := range e.eval(x.Y, a.st) {
				if b.fail != "" {
					return []refVal{b}
				}
				t := a.t
				if x.Op == token.EQL || x.Op == token.NEQ {
					t = types.Typ[types.Bool]
				}
				out = append(out, refVal{st: b.st, v: e.ev.binop(b.st, x.Op, a.v, b.v, t), t: t})
			}
		}
		return out
	case *ast.StarExpr:
		var out []refVal
		for _, v := range e.eval(x.X, st) {
			if v.fail != "" {
				return []refVal{v}
			}
			out = append(out, refVal{st: v.st, v: e.ev.load(v.st, refCell(v.v), deref(v.t)), t: deref(v.t)})
		}
		return out
	case *ast.IndexExpr:
		i, ok := x.Index.(*ast.BasicLit)
		if !ok {
			return bad("index")
		}
		n, _ := strconv.Atoi(i.Value)
		var out []refVal
		for _, v := range e.eval(x.X, st) {
			if v.fail != "" {
				return []refVal{v}
			}
			if v.v.op == "tuple" && n < len(v.v.args) {
				out = append(out, refVal{st: v.st, v: v.v.args[n], t: v.t.(*types.Tuple).At(n).Type()})
			} else {
				return bad("no result %d", n)
			}
		}
		return out
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && e.vars[id.Name].v == nil {
			o := e.lookup(id.Name, x.Sel.Name)
			if c, ok := o.(*types.Const); ok {
				return []refVal{{st: st, v: tConst(c.Val(), c.Type()), t: c.Type()}}
			}
			return bad("%s.%s is no constant", id.Name, x.Sel.Name)
		}
		var out []refVal
		for _, v := range e.eval(x.X, st) {
			if v.fail != "" {
				return []refVal{v}
			}
			r := e.field(v, x.Sel.Name)
			if r.fail != "" {
				return []refVal{r}
			}
			out = append(out, r)
		}
		return out
	case *ast.CallExpr:
		// conversion or package function
		var fn *ssa.Function
		var method string
		base := []refVal{{st: st}}
		if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
			if id, isID := sel.X.(*ast.Ident); isID && e.vars[id.Name].v == nil {
				switch o := e.lookup(id.Name, sel.Sel.Name).(type) {
				case *types.Func:
					if !isRepoPath(o.Pkg().Path()) {
						sets := []refVal{{st: st, v: tTuple()}}
						for _, a := range x.Args {
							var next []refVal
							for _, s := range sets {
								for _, v := range e.eval(a, s.st) {
									if v.fail != "" {
										return []refVal{v}
									}
									next = append(next, refVal{st: v.st, v: tTuple(append(s.v.args[:len(s.v.args):len(s.v.args)], v.v)...)})
								}
							}
							sets = next
						}
						for i := range sets {
							sets[i].v = tOp("call "+o.FullName(), sets[i].v.args...)
							sets[i].t = o.Type().(*types.Signature).Results().At(0).Type()
						}
						return sets
					}
					fn = e.ev.w.Prog.FuncValue(o)
				case *types.TypeName:
					var out []refVal
					for _, v := range e.eval(x.Args[0], st) {
						v.t = o.Type()
						out = append(out, v)
					}
					return out
				default:
					return bad("no %s.%s", id.Name, sel.Sel.Name)
				}
			} else {
				base = e.eval(sel.X, st)
				method = sel.Sel.Name
			}
		} else if id, ok := x.Fun.(*ast.Ident); ok {
			if o, ok := e.pkg.Scope().Lookup(id.Name).(*types.Func); ok {
				fn = e.ev.w.Prog.FuncValue(o)
			}
		}
		var out []refVal
		for _, b := range base {
			if b.fail != "" {
				return []refVal{b}
			}
			g := fn
			var first []*Term
			if method != "" {
				g = e.method(b, method)
				if g == nil {
					return bad("no method %s on %s", method, b.t)
				}
				v := b.v
				_, ptr := g.Params[0].Type().Underlying().(*types.Pointer)
				_, isPtr := b.t.Underlying().(*types.Pointer)
				if ptr && !isPtr {
					n := b.st.clone()
					n.n++
					id := fmt.Sprintf("A%d", n.n)
					e.ev.store(n, id, v)
					b.st, v = n, &Term{op: "ref", name: id}
				} else if !ptr && isPtr {
					v = e.ev.load(b.st, refCell(v), deref(b.t))
				}
				first = []*Term{v}
			}
			if g == nil || len(g.Blocks) == 0 {
				return bad("no such function")
			}
			sets := []struct {
				st   *TState
				args []*Term
			}{{b.st, first}}
			off := len(first)
			for i, a := range x.Args {
				var next []struct {
					st   *TState
					args []*Term
				}
				for _, s := range sets {
					for _, v := range e.eval(a, s.st) {
						if v.fail != "" {
							return []refVal{v}
						}
						if off+i < len(g.Params) {
							if _, isIf := g.Params[off+i].Type().Underlying().(*types.Interface); isIf && v.t != nil && v.v.op != "nil" {
								if _, already := v.t.Underlying().(*types.Interface); !already {
									v.v = &Term{op: "iface", t: v.t, args: []*Term{v.v}}
								}
							}
						}
						next = append(next, struct {
							st   *TState
							args []*Term
						}{v.st, append(s.args[:len(s.args):len(s.args)], v.v)})
					}
				}
				sets = next
			}
			g = origin(g)
			var rt types.Type = g.Signature.Results()
			if g.Signature.Results().Len() == 1 {
				rt = g.Signature.Results().At(0).Type()
			}
			for _, s := range sets {
				if outs, ok := e.closed(s.st, g, s.args); ok {
					for _, o := range outs {
						out = append(out, refVal{st: o.st, v: o.ret, t: rt})
					}
					continue
				}
				for _, o := range e.ev.Run(g, s.args, nil, s.st) {
					if o.panic {
						continue
					}
					out = append(out, refVal{st: o.st, v: o.ret, t: rt})
				}
			}
		}
		return out
	}
	return bad("%T not understood", x)
}

// closed treats a call as the shallow evaluator would.
func (e *refEnv) closed(st *TState, g *ssa.Function, args []*Term) ([]TOut, bool) {
	if !e.shallow || g.Pkg == nil || g.Pkg.Pkg == e.pkg {
		return nil, false
	}
	return closedCall(st, g, fnName(g), args), true
}

func (e *refEnv) field(v refVal, name string) refVal {
	s, ok := deref(v.t).Underlying().(*types.Struct)
	if !ok {
		return refVal{fail: fmt.Sprintf("%s has no fields", v.t)}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() != name {
			continue
		}
		if _, ptr := v.t.Underlying().(*types.Pointer); ptr {
			return refVal{st: v.st, v: e.ev.load(v.st, refCell(v.v)+"."+name, f.Type()), t: f.Type()}
		}
		return refVal{st: v.st, v: v.v.field(i, s), t: f.Type()}
	}
	// The field may have another name by now: the one holding a library object.
	pick := ""
	for _, model := range []bool{true, false} {
		n := 0
		for i := 0; i < s.NumFields(); i++ {
			if o := namedOf(deref(s.Field(i).Type())); o != nil && o.Obj().Pkg() != nil && strings.Contains(o.Obj().Pkg().Path(), "/internal/") && (!model || o.Obj().Pkg().Name() == "model") {
				pick = s.Field(i).Name()
				n++
			}
		}
		if n == 1 && pick != name {
			return e.field(v, pick)
		}
	}
	return refVal{fail: fmt.Sprintf("no field %s in %s", name, v.t)}
}

func (e *refEnv) method(v refVal, name string) *ssa.Function {
	for _, t := range []types.Type{v.t, types.NewPointer(v.t)} {
		ms := e.ev.w.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				if f := e.ev.w.Prog.FuncValue(ms.At(i).Obj().(*types.Func).Origin()); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

// lookup finds a member of a package by the package's name among the packages the operation's
// package imports.
func (e *refEnv) lookup(pkg, name string) types.Object {
	seen := map[*types.Package]bool{}
	todo := []*types.Package{e.pkg}
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		if seen[p] {
			continue
		}
		seen[p] = true
		if p.Name() == pkg {
			if o := p.Scope().Lookup(name); o != nil {
				return o
			}
		}
		if isRepoPath(p.Path()) {
			todo = append(todo, p.Imports()...)
		}
	}
	return nil
}
