package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: edit guards. Components are evaluated symbolically with a guard closed (read-only, without
// focus, hidden, validator set), everything else in their state and the whole event unknown; each
// path must leave what the guard protects as it was.

func init() { checks["C19"] = checkC19 }

type c19 struct {
	w     *World
	r     *Report
	key   *types.Named
	paths int
	runs  int
	done  map[string]bool
}

// check records a violation, or that an evaluation (not each of its paths) met its obligation.
func (t *c19) check(ok bool, rule, con, pos, format string, args ...interface{}) {
	id := fmt.Sprint(rule, " ", con, " ", t.runs)
	if ok && t.done[id] {
		return
	}
	t.done[id] = t.done[id] || ok
	t.r.Check(ok, rule, con, pos, format, args...)
}

func checkC19(c *Ctx, r *Report) {
	r.Rule("readonly", "every path through a text area's update, or through an editing operation, that starts read-only ends with the same text (and, for an editing operation, the same cursor)")
	r.Rule("validated", "on every path through a text area's update or a cursor or editing operation, a cursor that ends elsewhere was moved there by a move that the configured validator accepted, unless there is no validator or text was only inserted")
	r.Rule("limited", "an entry is added to a selection only where a comparison with the limit shows that there is room")
	r.Rule("inactive", "every path through the update of a component without focus, or hidden, that handles a key or mouse event returns the component as it was and no command")
	r.Rule("focused", "an event given to a form reaches at most the model of the field that has the focus, and no other field's model changes")
	r.Rule("kept", "no operation of a component changes its guard (read-only flag, validator, selection limits), except one that is given the new guard")
	r.Assume = append(r.Assume,
		"texts of one, two and three lines stand for texts of any number of lines; their contents, the cursor and the event are unknown",
		"a cursor position set by the program itself (SetCursorPosition, MoveCursorToEnd, SetValue) is not a move that the validator is asked about, and neither is the cursor going forward over inserted text")
	w := c.Linux()
	t := &c19{w: w, r: r, done: map[string]bool{}}
	str := w.Func("(tea.KeyMsg).String")
	if str == nil {
		r.Bad("readonly", "keys", "-", "the operation (tea.KeyMsg).String was not found")
		return
	}
	t.key, _ = types.Unalias(str.Signature.Recv().Type()).(*types.Named)
	t.textArea()
	t.limits()
	t.inactive()
	t.form()
	t.kept()
	r.Floor("readonly", 40)
	r.Floor("validated", 56)
	r.Floor("limited", 2)
	r.Floor("inactive", 3)
	r.Floor("focused", 3)
	r.Floor("kept", 60)
	r.Units["evaluations"] = t.runs
	r.Units["paths"] = t.paths
}

// symObj is an unknown value of a type: what pointers lead to is laid out in cells, texts in lists
// of n lines, and everything else gets its path as its name.
func (t *c19) symObj(ev *TEval, st *TState, typ types.Type, path string, lines, d int) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		n := namedOf(u.Elem())
		if n == nil || n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) || d == 0 {
			break
		}
		if _, ok := u.Elem().Underlying().(*types.Struct); !ok {
			break
		}
		st.n++
		cell := fmt.Sprintf("A%d", st.n)
		st.mem[cell] = t.symObj(ev, st, u.Elem(), path, lines, d-1)
		return &Term{op: "ref", name: cell, t: u.Elem()}
	case *types.Struct:
		if u.NumFields() == 0 {
			break
		}
		s := &Term{op: "struct", t: typ}
		for i := 0; i < u.NumFields(); i++ {
			s.args = append(s.args, t.symObj(ev, st, u.Field(i).Type(), path+"."+u.Field(i).Name(), lines, d))
		}
		return s
	case *types.Slice:
		if isString(u.Elem()) && lines > 0 {
			var es []*Term
			for i := 0; i < lines; i++ {
				es = append(es, tSym(fmt.Sprintf("%s[%d]", path, i)))
			}
			return ev.newSlice(st, es, u.Elem())
		}
	}
	return tSym(path)
}

func (t *c19) symKey() *Term {
	s := t.key.Underlying().(*types.Struct)
	v := &Term{op: "struct", t: t.key}
	for i := 0; i < s.NumFields(); i++ {
		v.args = append(v.args, tSym("key."+s.Field(i).Name()))
	}
	return &Term{op: "iface", t: t.key, args: []*Term{v}}
}

// eval: functions of plain values stay calls.
func (t *c19) eval() *TEval {
	ev := NewTEval(t.w)
	ev.Merge, ev.PureRepo, ev.Budget = true, true, 20000000
	ev.Model = func(ev *TEval, st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool) {
		g := c.StaticCallee()
		if g == nil || !isEdit(g) {
			return nil, false
		}
		// an edit: whatever it does, it gives another text
		n := st.clone()
		n.n++
		n.events = append(n.events, Event{what: "edit", name: g.Name(), at: at, fn: at.Parent()})
		for _, a := range args {
			if w := t.w.Prov().Sum(g); w == nil || len(w.Mut) > 0 {
				ev.escape(n, a, 0)
			}
		}
		ret := tOp("edit "+name, append(append([]*Term{}, args...), tSym(fmt.Sprintf("#%d", n.n)))...)
		if k := g.Signature.Results().Len(); k > 1 {
			var parts []*Term
			for i := 0; i < k; i++ {
				parts = append(parts, tOp(fmt.Sprintf("#%d", i), ret))
			}
			ret = tTuple(parts...)
		}
		return []TOut{{st: n, ret: ret}}, true
	}
	ev.EnterArgs = func(f *ssa.Function, args []*Term) bool {
		for _, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Basic); !ok {
				return true
			}
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if _, ok := res.At(i).Type().Underlying().(*types.Basic); !ok {
				return true
			}
		}
		return len(f.Params) == 0 || res.Len() == 0 || !pureFunc(t.w, f)
	}
	return ev
}

// isEdit: gives another text made from a text and something else.
func isEdit(g *ssa.Function) bool {
	res := g.Signature.Results()
	return len(g.Params) > 1 && res.Len() > 0 && g.Signature.Recv() != nil && isBufferT(g.Params[0].Type()) && types.Identical(g.Params[0].Type(), res.At(0).Type())
}

// isBufferT: a type that keeps lines of text.
func isBufferT(t types.Type) bool {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if l, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && isString(l.Elem()) && s.Field(i).Name() == "lines" {
			return true
		}
	}
	return false
}

// one evaluates a call that has a single outcome.
func (t *c19) one(ev *TEval, f *ssa.Function, st *TState, args ...*Term) (*Term, *TState, bool) {
	ev.Steps = 0
	outs := ev.Run(f, args, nil, st)
	if len(outs) != 1 || outs[0].panic || ev.Blown || outs[0].ret == nil {
		return nil, nil, false
	}
	return outs[0].ret, outs[0].st, true
}

// recvFor: the receiver as the method takes it.
func (t *c19) recvFor(ev *TEval, st *TState, f *ssa.Function, self *Term) *Term {
	_, ptr := f.Params[0].Type().Underlying().(*types.Pointer)
	if ptr && self.op == "struct" {
		st.n++
		cell := fmt.Sprintf("A%d", st.n)
		st.mem[cell] = self
		return &Term{op: "ref", name: cell, t: deref(f.Params[0].Type())}
	}
	if !ptr && self.op == "ref" {
		return ev.load(st, self.name, deref(f.Params[0].Type()))
	}
	return self
}

// flatText is what a list of texts holds, for comparison.
func flatText(ev *TEval, st *TState, v *Term) string {
	if es, ok := ev.elems(st, v); ok {
		var p []string
		for _, e := range es {
			p = append(p, e.key())
		}
		return strings.Join(p, "\x00")
	}
	return "?" + v.key()
}

// observe evaluates a reader of the object's state.
func (t *c19) observe(ev *TEval, st *TState, f *ssa.Function, self *Term) (string, *Term, bool) {
	s := st.clone()
	v, s2, ok := t.one(ev, f, s, t.recvFor(ev, s, f, self))
	if !ok {
		return "", nil, false
	}
	return flatText(ev, s2, v), v, true
}

func (t *c19) textArea() {
	w, r := t.w, t.r
	const pub = "components/input.TextArea"
	update, readOnly, onMove := w.Func("("+pub+").Update"), w.Func("("+pub+").ReadOnly"), w.Func("("+pub+").OnMovement")
	lines, cursor := w.Func("("+pub+").Lines"), w.Func("("+pub+").CursorPosition")
	if update == nil || readOnly == nil || onMove == nil || lines == nil || cursor == nil {
		r.Bad("readonly", pub, "-", "the operations Update, ReadOnly, OnMovement, Lines and CursorPosition of %s were not all found", pub)
		return
	}
	recv := update.Signature.Recv().Type()
	// the state behind the public value
	var inner types.Type
	if st, ok := recv.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if n := namedOf(deref(st.Field(i).Type())); n != nil && n.Obj().Name() == "TextArea" {
				inner = st.Field(i).Type()
			}
		}
	}
	if inner == nil {
		r.Bad("readonly", pub, "-", "%s keeps no text area model", pub)
		return
	}
	// operations: everything that takes a text area model and gives one back
	var ops []*ssa.Function
	home := pkgOf(update)
	for _, f := range w.Funcs {
		if f == update || !strings.HasPrefix(pkgOf(f), home+"/internal/textarea/") || !exported(f) {
			continue
		}
		if rv := f.Signature.Recv(); rv != nil && types.Identical(rv.Type(), inner) {
			continue // the model's own setters
		}
		takes, gives := false, false
		for _, p := range f.Params {
			takes = takes || types.Identical(p.Type(), inner)
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			gives = gives || types.Identical(f.Signature.Results().At(i).Type(), inner)
		}
		if takes && gives {
			ops = append(ops, f)
		}
	}
	sort.Slice(ops, func(i, j int) bool { return fnName(ops[i]) < fnName(ops[j]) })

	t.area(update, inner, 2, readOnly, onMove, lines, cursor)
	for _, f := range ops {
		if takesMsg(f, t.key) {
			t.area(f, inner, 2, readOnly, onMove, lines, cursor)
			continue
		}
		for n := 1; n <= 3; n++ {
			t.area(f, inner, n, readOnly, onMove, lines, cursor)
		}
	}
}

// area evaluates one operation on a text area of n lines, read-only and writable.
func (t *c19) area(f *ssa.Function, inner types.Type, n int, readOnly, onMove, lines, cursor *ssa.Function) {
	w, r := t.w, t.r
	con := fnName(f)
	pubT := lines.Signature.Recv().Type()
	isUpdate := types.Identical(f.Params[0].Type(), pubT) && f.Signature.Recv() != nil
	changesText := false
	for _, ro := range []bool{false, true} {
		ev := t.eval()
		st := newTState()
		st.n = 1000
		self := t.symObj(ev, st, pubT, "self", n, 6)
		s2 := st
		var ok bool
		if self, s2, ok = t.one(ev, readOnly, st, t.recvFor(ev, st, readOnly, self), tBool(ro)); !ok {
			r.Bad("readonly", con, w.Pos(readOnly.Pos()), "%s was not decided", fnName(readOnly))
			return
		}
		var outs0 []TOut
		ev.Steps = 0
		outs0 = ev.Run(onMove, []*Term{t.recvFor(ev, s2, onMove, self), tSym("!validator")}, nil, s2)
		if len(outs0) == 0 || ev.Blown {
			r.Bad("validated", con, w.Pos(onMove.Pos()), "%s was not decided", fnName(onMove))
			return
		}
		for _, o0 := range outs0 { // with a validator, and without
			self, st := o0.ret, o0.st
			text0, _, ok1 := t.observe(ev, st, lines, self)
			cur0, _, ok2 := t.observe(ev, st, cursor, self)
			_, pos0, _ := t.observe(ev, st, cursor, self)
			if !ok1 || !ok2 {
				r.Bad("readonly", con, w.Pos(f.Pos()), "the text or the cursor of a text area was not decided")
				return
			}
			// the arguments
			var args []*Term
			base := st.clone()
			model := t.innerOf(ev, base, self, inner)
			if model == nil {
				r.Bad("readonly", con, w.Pos(f.Pos()), "the model of the text area was not found")
				return
			}
			for i, p := range f.Params {
				switch {
				case i == 0 && isUpdate:
					args = append(args, self)
				case types.Identical(p.Type(), inner):
					args = append(args, model)
				case isKeyMsg(p.Type(), t.key):
					args = append(args, t.symKey().args[0])
				case strings.HasSuffix(types.TypeString(p.Type(), nil), ".Msg"):
					args = append(args, t.symKey())
				default:
					args = append(args, t.symObj(ev, base, p.Type(), "arg."+p.Name(), 0, 3))
				}
			}
			ev.Steps = 0
			base.events = nil
			outs := ev.Run(f, args, nil, base)
			t.runs++
			if ev.Blown || len(outs) == 0 {
				r.Bad("readonly", con, w.Pos(f.Pos()), "%s was not decided on a text area of %d lines: too many paths", con, n)
				return
			}
			for _, o := range outs {
				if o.panic {
					continue // C01
				}
				t.paths++
				got := o.ret
				if got != nil && got.op == "tuple" {
					for i := 0; i < f.Signature.Results().Len(); i++ {
						rt := f.Signature.Results().At(i).Type()
						if types.Identical(rt, inner) || types.Identical(rt, pubT) {
							got = o.ret.args[i]
							break
						}
					}
				}
				after := t.withInner(ev, o.st, self, got, inner)
				var text1, cur1 string
				var pos1 *Term
				ok1, ok2 := false, false
				if after != nil {
					text1, _, ok1 = t.observe(ev, o.st, lines, after)
					cur1, pos1, ok2 = t.observe(ev, o.st, cursor, after)
				}
				if !ok1 || !ok2 {
					r.Bad("readonly", con, w.Pos(f.Pos()), "the text or the cursor that %s leaves was not decided", con)
					continue
				}
				if ro {
					t.check(text1 == text0, "readonly", con, w.Pos(f.Pos()), "%s can change the text of a read-only text area", con)
					if changesText && !isUpdate && !takesMsg(f, t.key) && f.Signature.Recv() != nil && text1 == text0 {
						t.check(cur1 == cur0, "readonly", con+" cursor", w.Pos(f.Pos()), "%s, an editing operation, can move the cursor of a read-only text area", con)
					}
				} else if text1 != text0 {
					changesText = true
				}
				if cur1 == cur0 {
					t.check(true, "validated", con, "", "")
					continue
				}
				if text1 != text0 && onlyInserts(o) {
					t.check(true, "validated", con, "", "")
					continue
				}
				t.check(t.accepted(o.st, pos0, pos1), "validated", con, w.Pos(f.Pos()), "%s can move the cursor of a text area to a place that its validator was not asked about, or has refused", con)
			}
		}
	}
}

func takesMsg(f *ssa.Function, key *types.Named) bool {
	for _, p := range f.Params {
		if isKeyMsg(p.Type(), key) || strings.HasSuffix(types.TypeString(p.Type(), nil), ".Msg") {
			return true
		}
	}
	return false
}

// innerOf: the model in a public text area.
func (t *c19) innerOf(ev *TEval, st *TState, self *Term, inner types.Type) *Term {
	if self.op != "struct" {
		return nil
	}
	s := self.t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), inner) && i < len(self.args) {
			return self.args[i]
		}
	}
	return nil
}

// withInner: a public text area around a model.
func (t *c19) withInner(ev *TEval, st *TState, self, got *Term, inner types.Type) *Term {
	if got == nil {
		return nil
	}
	if got.op == "struct" && types.Identical(got.t, self.t) {
		return got
	}
	s := self.t.Underlying().(*types.Struct)
	n := &Term{op: "struct", t: self.t}
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), inner) {
			n.args = append(n.args, got)
		} else {
			n.args = append(n.args, self.args[i])
		}
	}
	return n
}

// accepted: a chain of moves the validator accepted leads from the first position to the second, or
// there is no validator on this path.
func (t *c19) accepted(st *TState, from, to *Term) bool {
	key := func(v *Term) string {
		var p []string
		for _, a := range v.args {
			p = append(p, st.resolve(a).key())
		}
		return strings.Join(p, "\x00")
	}
	edges := map[string][]string{}
	for _, e := range st.events {
		if e.what != "call" || !strings.HasPrefix(e.name, "value !validator") || len(e.args) != 2 {
			continue
		}
		if e.args[0].op != "struct" || e.args[1].op != "struct" {
			continue
		}
		ok := false
		for k, v := range st.facts {
			if v && strings.HasPrefix(k, "op:call value !validator("+e.args[0].key()+", "+e.args[1].key()+", ") {
				ok = true
			}
		}
		if ok {
			edges[key(e.args[0])] = append(edges[key(e.args[0])], key(e.args[1]))
		}
	}
	seen := map[string]bool{}
	var walk func(k string) bool
	walk = func(k string) bool {
		if k == key(to) {
			return true
		}
		if seen[k] {
			return false
		}
		seen[k] = true
		for _, n := range edges[k] {
			if walk(n) {
				return true
			}
		}
		return false
	}
	return walk(key(from))
}

// onlyInserts: the edits made on the path only put text in.
func onlyInserts(o TOut) bool {
	n := 0
	for _, e := range o.st.events {
		if e.what == "edit" {
			n++
			if !strings.HasPrefix(e.name, "Insert") {
				return false
			}
		}
	}
	return n > 0
}

// limits: C11's argument about sets with a limit, for the growth of the set.
func (t *c19) limits() {
	p := NewBProver(t.w)
	fs := append([]*ssa.Function{}, t.w.Funcs...)
	sort.SliceStable(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	for _, f := range fs {
		checkLimited(p, t.r, f, 2500)
	}
}

// leaves lists what an object is made of, by path.
func (t *c19) leaves(ev *TEval, st *TState, v *Term, typ types.Type, path string, d int, out map[string]string) {
	if v == nil || d == 0 {
		return
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if v.op == "ref" {
			t.leaves(ev, st, ev.load(st, v.name, u.Elem()), u.Elem(), path, d-1, out)
			return
		}
	case *types.Struct:
		if u.NumFields() == 0 {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			t.leaves(ev, st, v.field(i, u), u.Field(i).Type(), path+"."+u.Field(i).Name(), d-1, out)
		}
		return
	case *types.Slice:
		if es, ok := ev.elems(st, v); ok {
			for i, e := range es {
				t.leaves(ev, st, e, u.Elem(), fmt.Sprintf("%s[%d]", path, i), d-1, out)
			}
			out[path+"#"] = fmt.Sprint(len(es))
			return
		}
	}
	k := v.key()
	if v.op == "func" {
		for _, a := range v.args { // what a closure was made with
			if a.op == "ref" {
				if c := st.mem[a.name]; c != nil {
					k += " " + c.key()
				}
			}
		}
	}
	out[path] = k
}

// closedGuards: a component with its guard closed takes no such event.
var closedGuards = []struct {
	update, setter string
	args           []bool
	msg            string
	what           string
}{
	{"(components/input.Input).Update", "(components/input.Input).Focused", []bool{false}, "KeyMsg", "without focus"},
	{"(*components/modal.Modal).Update", "(*components/modal.Modal).Hide", nil, "KeyMsg", "while hidden"},
	{"(*components/modal.Modal).Update", "(*components/modal.Modal).Hide", nil, "MouseMsg", "while hidden"},
	{"(*components/viewport.Viewport).Update", "(*components/viewport.Viewport).MouseEnabled", []bool{false}, "MouseMsg", "with the mouse disabled"},
}

func (t *c19) inactive() {
	w, r := t.w, t.r
	for _, g := range closedGuards {
		con := g.update + " " + g.msg
		update, setter := w.Func(g.update), w.Func(g.setter)
		msg := w.NamedType("tea", g.msg)
		if update == nil || setter == nil || msg == nil {
			r.Bad("inactive", con, "-", "%s, %s and tea.%s were not all found", g.update, g.setter, g.msg)
			continue
		}
		ev := t.eval()
		st := newTState()
		st.n = 1000
		recvT := update.Params[0].Type()
		self := t.symObj(ev, st, recvT, "self", 0, 6)
		args := []*Term{t.recvFor(ev, st, setter, self)}
		for _, a := range g.args {
			args = append(args, tBool(a))
		}
		self, st, ok := t.one(ev, setter, st, args...)
		if !ok {
			r.Bad("inactive", con, w.Pos(setter.Pos()), "%s was not decided", g.setter)
			continue
		}
		before := map[string]string{}
		t.leaves(ev, st, self, recvT, "", 12, before)
		ev.Steps = 0
		st.events = nil
		m := t.symObj(ev, st, msg, "msg", 0, 4)
		outs := ev.Run(update, []*Term{t.recvFor(ev, st, update, self), {op: "iface", t: msg, args: []*Term{m}}}, nil, st)
		t.runs++
		if ev.Blown || len(outs) == 0 {
			r.Bad("inactive", con, w.Pos(update.Pos()), "%s was not decided", g.update)
			continue
		}
		for _, o := range outs {
			t.paths++
			if o.panic || o.ret == nil || o.ret.op != "tuple" || len(o.ret.args) != 2 {
				r.Bad("inactive", con, w.Pos(update.Pos()), "what %s returns was not decided", g.update)
				continue
			}
			after := map[string]string{}
			t.leaves(ev, o.st, o.ret.args[0], recvT, "", 12, after)
			diff := ""
			for _, k := range sortedKeys(after) {
				if before[k] != after[k] && diff == "" {
					diff = k
				}
			}
			for _, k := range sortedKeys(before) {
				if _, ok := after[k]; !ok && diff == "" {
					diff = k
				}
			}
			switch {
			case diff != "":
				r.Bad("inactive", con, w.Pos(update.Pos()), "%s changes %s of the component on a %s %s", g.update, strings.TrimPrefix(diff, "."), g.msg, g.what)
			case o.ret.args[1].op != "nil":
				r.Bad("inactive", con, w.Pos(update.Pos()), "%s returns a command on a %s %s", g.update, g.msg, g.what)
			default:
				t.check(true, "inactive", con, "", "")
			}
		}
	}
}

// form: an event for a form of three fields reaches the focused one only.
func (t *c19) form() {
	w, r := t.w, t.r
	const name = "(*components/form.Form).Update"
	update := w.Func(name)
	field := w.NamedType("components/form/internal/domain/value", "Field")
	if update == nil || field == nil {
		r.Bad("focused", name, "-", "%s and the type of a form's fields were not both found", name)
		return
	}
	index, fields, modelOf := w.Func("(*components/form/internal/domain/model.Form).FocusedIndex"), w.Func("(*components/form/internal/domain/model.Form).Fields"), w.Func("(*components/form/internal/domain/value.Field).Model")
	if index == nil || fields == nil || modelOf == nil {
		r.Bad("focused", name, "-", "FocusedIndex and Fields of a form and Model of a field were not all found")
		return
	}
	recvT := update.Params[0].Type()
	const n = 3
	for k := 0; k < n; k++ {
		for _, msg := range []string{"key", "other"} {
			con := fmt.Sprintf("%s, field %d of %d, %s message", name, k+1, n, msg)
			ev := t.eval()
			ev.Model = nil
			st := newTState()
			st.n = 1000
			self := t.symObj(ev, st, recvT, "self", 0, 6)
			var es []*Term
			for i := 0; i < n; i++ {
				es = append(es, t.symObj(ev, st, types.NewPointer(field), fmt.Sprintf("field%d", i), 0, 4))
			}
			lst := ev.newSlice(st, es, types.NewPointer(field))
			// where the form keeps its fields and its focus: what the two readers give
			dom := t.find(ev, st, self, recvT, fields.Params[0].Type(), 5)
			if dom == nil {
				r.Bad("focused", con, w.Pos(update.Pos()), "the state of a form was not found")
				return
			}
			ok1 := t.plant(ev, st, fields, dom, lst)
			ok2 := t.plant(ev, st, index, dom, tInt(int64(k)))
			if !ok1 || !ok2 {
				r.Bad("focused", con, w.Pos(update.Pos()), "where a form keeps its fields and its focus was not decided")
				return
			}
			var m *Term
			if msg == "key" {
				m = t.symKey()
			} else {
				m = tSym("message")
			}
			ev.Steps = 0
			outs := ev.Run(update, []*Term{self, m}, nil, st)
			t.runs++
			if ev.Blown || len(outs) == 0 {
				r.Bad("focused", con, w.Pos(update.Pos()), "%s was not decided", name)
				continue
			}
			for _, o := range outs {
				if o.panic {
					continue
				}
				t.paths++
				bad := ""
				for _, e := range o.st.events {
					if e.what != "call" || !strings.HasSuffix(e.name, ".Update") || len(e.args) == 0 {
						continue
					}
					for i := 0; i < n; i++ {
						if i != k && strings.Contains(e.args[0].key(), fmt.Sprintf("field%d.", i)) {
							bad = fmt.Sprintf("hands an event to field %d", i+1)
						}
					}
				}
				var d *Term
				if o.ret != nil && o.ret.op == "tuple" {
					d = t.find(ev, o.st, o.ret.args[0], recvT, fields.Params[0].Type(), 5)
				}
				if d == nil {
					r.Bad("focused", con, w.Pos(update.Pos()), "the form that %s returns was not decided", name)
					continue
				}
				fv, s2, ok := t.one(ev, fields, o.st, d)
				var list []*Term
				if ok {
					list, ok = ev.elems(s2, fv)
				}
				if !ok || len(list) != n {
					r.Bad("focused", con, w.Pos(update.Pos()), "the fields of the form that %s returns were not decided", name)
					continue
				}
				for i, f := range list {
					mv, _, ok := t.one(ev, modelOf, s2, f)
					if !ok {
						bad = fmt.Sprintf("leaves a model of field %d that was not decided", i+1)
					} else if i != k && mv.key() != fmt.Sprintf("field%d.model", i) {
						bad = fmt.Sprintf("changes the model of field %d", i+1)
					}
				}
				t.check(bad == "", "focused", con, w.Pos(update.Pos()), "%s %s while field %d has the focus", name, bad, k+1)
			}
		}
	}
}

// find looks for the part of an object that has a given pointer type.
func (t *c19) find(ev *TEval, st *TState, v *Term, typ, want types.Type, d int) *Term {
	if v == nil || d == 0 {
		return nil
	}
	if types.Identical(typ, want) {
		if v.op == "ref" {
			return v
		}
		return nil
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if v.op == "ref" {
			return t.find(ev, st, ev.load(st, v.name, u.Elem()), u.Elem(), want, d-1)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if x := t.find(ev, st, v.field(i, u), u.Field(i).Type(), want, d-1); x != nil {
				return x
			}
		}
	}
	return nil
}

// plant stores a value in the field of an object that a reader gives.
func (t *c19) plant(ev *TEval, st *TState, reader *ssa.Function, obj, val *Term) bool {
	v, _, ok := t.one(ev, reader, st, obj)
	if !ok || v.op != "sym" {
		return false
	}
	s, ok := deref(reader.Params[0].Type()).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	whole := ev.load(st, obj.name, deref(reader.Params[0].Type()))
	for i := 0; i < s.NumFields(); i++ {
		if whole.field(i, s).key() == v.key() {
			ev.store(st, obj.name+"."+s.Field(i).Name(), val)
			return true
		}
	}
	return false
}

// keptGuards: the operations that set a component's guards.
var keptGuards = []struct {
	typ     string
	setters []string
}{
	{"components/input.TextArea", []string{"ReadOnly", "OnMovement"}},
	{"components/multiselect.MultiSelect", []string{"Min", "Max"}},
}

func (t *c19) kept() {
	w, r := t.w, t.r
	for _, g := range keptGuards {
		i := strings.LastIndexByte(g.typ, '.')
		named := w.NamedType(g.typ[:i], g.typ[i+1:])
		if named == nil {
			r.Bad("kept", g.typ, "-", "the type %s was not found", g.typ)
			continue
		}
		// the operations of the type, and where the setters keep what they are given
		var ops []*ssa.Function
		setter := map[*ssa.Function]bool{}
		for _, f := range w.Funcs {
			if f.Signature.Recv() == nil || !exported(f) || f.Signature.Results().Len() == 0 || pkgOf(f) != g.typ[:i] {
				continue
			}
			if n := namedOf(deref(f.Signature.Recv().Type())); n == nil || n.Obj() != named.Obj() {
				continue
			}
			if n := namedOf(deref(f.Signature.Results().At(0).Type())); n == nil || n.Obj() != named.Obj() {
				continue
			}
			ops = append(ops, f)
			for _, s := range g.setters {
				setter[f] = setter[f] || f.Name() == s
			}
		}
		sort.Slice(ops, func(a, b int) bool { return fnName(ops[a]) < fnName(ops[b]) })
		owner := map[string]map[string]bool{} // path -> the setters it is made by
		type outcome struct {
			before, after map[string]string
		}
		run := func(f *ssa.Function) ([]outcome, bool) {
			ev := t.eval()
			st := newTState()
			st.n = 1000
			self := t.symObj(ev, st, f.Params[0].Type(), "self", 1, 6)
			before := map[string]string{}
			t.leaves(ev, st, self, f.Params[0].Type(), "", 12, before)
			args := []*Term{self}
			for _, p := range f.Params[1:] {
				switch {
				case strings.HasSuffix(types.TypeString(p.Type(), nil), ".Msg"):
					args = append(args, t.symKey())
				default:
					args = append(args, t.symObj(ev, st, p.Type(), "arg."+p.Name(), 0, 3))
				}
			}
			ev.Steps = 0
			outs := ev.Run(f, args, nil, st)
			t.runs++
			if ev.Blown || len(outs) == 0 {
				return nil, false
			}
			var res []outcome
			for _, o := range outs {
				if o.panic {
					continue
				}
				got := o.ret
				if got != nil && got.op == "tuple" {
					got = got.args[0]
				}
				after := map[string]string{}
				t.leaves(ev, o.st, got, f.Signature.Results().At(0).Type(), "", 12, after)
				res = append(res, outcome{before, after})
			}
			return res, true
		}
		results := map[*ssa.Function][]outcome{}
		for _, f := range ops {
			res, ok := run(f)
			if !ok {
				r.Bad("kept", fnName(f), w.Pos(f.Pos()), "%s was not decided", fnName(f))
				continue
			}
			results[f] = res
			if !setter[f] {
				continue
			}
			for _, o := range res {
				for _, k := range sortedKeys(o.after) {
					if strings.Contains(o.after[k], "arg.") && o.before[k] != o.after[k] && o.before[k] != "" {
						if owner[k] == nil {
							owner[k] = map[string]bool{}
						}
						owner[k][f.Name()] = true
					}
				}
			}
		}
		guards := map[string]string{}
		set := map[string]bool{}
		for k, who := range owner {
			guards[k] = strings.Join(sortedKeys(who), " and ")
			for n := range who {
				set[n] = true
			}
		}
		if len(set) < len(g.setters) {
			r.Bad("kept", g.typ, "-", "where %s keeps what its operations %s are given was not decided", g.typ, strings.Join(g.setters, " and "))
			continue
		}
		for _, f := range ops {
			for _, k := range sortedKeys(guards) {
				if owner[k][f.Name()] {
					continue
				}
				con := fnName(f) + " " + strings.TrimPrefix(k, ".")
				for _, o := range results[f] {
					t.paths++
					ok := o.after[k] == o.before[k] || t.loopKeeps(o.after, k)
					if !ok && setter[f] {
						// a limit that follows another one, which this setter leaves alone
						for k2, who := range owner {
							if !who[f.Name()] && o.before[k2] != "" && strings.Contains(o.after[k], o.before[k2]) {
								ok = true
							}
						}
					}
					t.check(ok, "kept", con, w.Pos(f.Pos()), "%s changes what %s set for %s", fnName(f), guards[k], g.typ)
				}
			}
		}
	}
}

// loopKeeps: the object that holds the guard went through a loop of operations that each keep it.
func (t *c19) loopKeeps(after map[string]string, k string) bool {
	for i := len(k) - 1; i > 0; i-- {
		if k[i] != '.' {
			continue
		}
		v := after[k[:i]]
		if !strings.HasPrefix(v, "loop ") {
			continue
		}
		j := strings.LastIndexByte(v, ':')
		f := t.w.Func(strings.TrimPrefix(v[:j], "loop "))
		if f == nil {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if p, ok := in.(*ssa.Phi); ok && p.Name() == v[j+1:] {
					return t.chainKeeps(p, k[:i], k[i:], map[ssa.Value]bool{})
				}
			}
		}
	}
	return false
}

func (t *c19) chainKeeps(v ssa.Value, holder, leaf string, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !t.chainKeeps(e, holder, leaf, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || fa.X != ssa.Value(fa.Parent().Params[0]) {
			return false
		}
		s, ok := deref(fa.X.Type()).Underlying().(*types.Struct)
		return ok && strings.HasSuffix(holder, "."+s.Field(fa.Field).Name())
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || len(g.Params) == 0 || g.Signature.Recv() == nil || g.Signature.Results().Len() != 1 || !types.Identical(g.Params[0].Type(), v.Type()) {
			return false
		}
		return t.opKeeps(g, leaf) && t.chainKeeps(x.Call.Args[0], holder, leaf, seen)
	}
	return false
}

// opKeeps: the operation gives an object with the same leaf as the one it is called on.
func (t *c19) opKeeps(g *ssa.Function, leaf string) bool {
	ev := t.eval()
	st := newTState()
	st.n = 1000
	typ := g.Params[0].Type()
	self := t.symObj(ev, st, typ, "self", 0, 6)
	before := map[string]string{}
	t.leaves(ev, st, self, typ, "", 12, before)
	args := []*Term{self}
	for _, p := range g.Params[1:] {
		args = append(args, tSym("arg."+p.Name()))
	}
	outs := ev.Run(g, args, nil, st)
	t.runs++
	if ev.Blown || len(outs) == 0 || before[leaf] == "" {
		return false
	}
	for _, o := range outs {
		after := map[string]string{}
		t.leaves(ev, o.st, o.ret, typ, "", 12, after)
		if !o.panic && after[leaf] != before[leaf] {
			return false
		}
	}
	return true
}
