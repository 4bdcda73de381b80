package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C04"] = checkC04 }

const (
	teaPkg   = "tea"
	modelPkg = "tea/internal/domain/model"
)

type msgPair struct {
	name     string
	pub, int *types.Named
}

type c04 struct {
	w     *World
	r     *Report
	pairs []msgPair
	ints  map[*types.TypeName]*msgPair
	pubs  map[*types.TypeName]*msgPair
	user  *types.Named
}

func checkC04(c *Ctx, r *Report) {
	r.Rule("kinds", "every message kind of the engine has a public counterpart with the same fields, and the other way round")
	r.Rule("deliver", "for every message kind and enumeration value, each path of the application wrapper's Update passes the application exactly one message: the public counterpart with every field carried over, or the very message when it is not a kind of its own")
	r.Rule("send", "for every public message kind and enumeration value, Program.Send puts exactly the internal counterpart with every field carried over on the queue")
	r.Rule("command", "what a command of the application returns reaches the engine as the internal counterpart with every field carried over; no command stays no command")
	r.Rule("model", "the model returned by the application's Update is the one used from then on")
	r.Rule("engine", "the event loop passes every message that is not its own control message unchanged to the model exactly once, and every message of a batch or sequence in order")
	r.Rule("collect", "a batch or sequence command delivers the message of every command given, each once, a sequence in order; a single command is delivered as it is")
	r.Rule("made", "the message built by Println, Tick and Quit carries what the caller gave")
	r.Rule("agree", "public and internal enumerations have the same names and values")
	r.Rule("describe", "String and IsValid of a public message say what the internal message says, field by field")
	w := c.Linux()
	t := &c04{w: w, r: r, ints: map[*types.TypeName]*msgPair{}, pubs: map[*types.TypeName]*msgPair{}}
	t.user = types.NewNamed(types.NewTypeName(0, types.NewPackage("example.org/app", "app"), "Note", nil), types.NewStruct([]*types.Var{types.NewField(0, nil, "N", types.Typ[types.Int], false)}, nil), nil)
	t.kinds()
	t.boundary()
	t.engine()
	t.collect()
	t.made()
	t.enums()
	t.describe()
	r.Floor("kinds", 4)
	r.Floor("deliver", 20)
	r.Floor("send", 20)
	r.Floor("command", 20)
	r.Floor("model", 1)
	r.Floor("engine", 10)
	r.Floor("collect", 12)
	r.Floor("agree", 19)
	r.Floor("describe", 10)
	r.Assume = append(r.Assume, "messages are compared field by field as terms: a value recomputed to the same value by arithmetic would be reported", "batches and sequences are evaluated with 0 to 65 messages")
}

// structs lists the exported message types of a package.
func (w *World) msgTypes(path string) map[string]*types.Named {
	m := map[string]*types.Named{}
	p := w.ByPath[modRoot+"/"+path]
	if p == nil {
		return m
	}
	sc := p.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || !tn.Exported() || !strings.HasSuffix(n, "Msg") {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := nt.Underlying().(*types.Struct); ok {
			m[n] = nt
		}
	}
	return m
}

func (t *c04) kinds() {
	pub := t.w.msgTypes(teaPkg)
	in := map[string]*types.Named{}
	for _, p := range t.w.Pkgs {
		rel := relPath(p.PkgPath)
		if !strings.HasPrefix(rel, teaPkg+"/internal/") {
			continue
		}
		for n, nt := range t.w.msgTypes(rel) {
			if in[n] != nil {
				t.r.Bad("kinds", n, t.w.Pos(nt.Obj().Pos()), "two internal message types are called %s", n)
			}
			in[n] = nt
		}
	}
	for _, n := range sortedKeys(in) {
		p := pub[n]
		if p == nil {
			t.r.Bad("kinds", n, t.w.Pos(in[n].Obj().Pos()), "the engine's message type %s has no public counterpart in package tea", n)
			continue
		}
		a, b := in[n].Underlying().(*types.Struct), p.Underlying().(*types.Struct)
		ok := a.NumFields() == b.NumFields()
		for i := 0; ok && i < a.NumFields(); i++ {
			ok = fieldIndex(b, a.Field(i).Name()) >= 0
		}
		t.r.Check(ok, "kinds", n, t.w.Pos(p.Obj().Pos()), "the public and the internal %s do not have the same fields", n)
		if ok {
			t.pairs = append(t.pairs, msgPair{n, p, in[n]})
		}
	}
	for _, n := range sortedKeys(pub) {
		if in[n] == nil {
			t.r.Bad("kinds", n, t.w.Pos(pub[n].Obj().Pos()), "the public message type %s has no counterpart in the engine", n)
		}
	}
	for i := range t.pairs {
		t.ints[t.pairs[i].int.Obj()] = &t.pairs[i]
		t.pubs[t.pairs[i].pub.Obj()] = &t.pairs[i]
	}
}

func fieldIndex(s *types.Struct, name string) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// variants are the values a message of type n can have: one with every enumeration constant, the
// other fields symbolic.
func (t *c04) variants(st func() *TState, ev *TEval, n *types.Named) []struct {
	label string
	st    *TState
	v     *Term
} {
	type variant = struct {
		label string
		st    *TState
		v     *Term
	}
	s := n.Underlying().(*types.Struct)
	base := func() *Term {
		v := &Term{op: "struct", t: n}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if sub, ok := f.Type().Underlying().(*types.Struct); ok && f.Type().(*types.Named).Obj().Pkg().Path() != "time" {
				_ = sub
			}
			v.args = append(v.args, tSym("field "+f.Name()))
		}
		return v
	}
	isMsgs := func(f *types.Var) bool {
		sl, ok := f.Type().Underlying().(*types.Slice)
		return ok && types.IsInterface(sl.Elem())
	}
	var out []variant
	enumed := false
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if isMsgs(f) {
			enumed = true
			for _, k := range []int{0, 1, 2, 3, 17, 65} {
				x := st()
				v := base()
				var es []*Term
				for j := 0; j < k; j++ {
					es = append(es, t.member(ev, x, n, j))
				}
				v.args[i] = ev.newSlice(x, es, f.Type().Underlying().(*types.Slice).Elem())
				out = append(out, variant{fmt.Sprintf("%s of %d", n.Obj().Name(), k), x, v})
			}
			continue
		}
		en, ok := f.Type().(*types.Named)
		if !ok {
			continue
		}
		cs := enumConsts(en)
		for _, c := range cs {
			enumed = true
			v := base()
			v.args[i] = tConst(c.c.Val(), en)
			out = append(out, variant{fmt.Sprintf("%s with %s", n.Obj().Name(), c.name), st(), v})
		}
	}
	if !enumed {
		out = append(out, variant{n.Obj().Name(), st(), base()})
	}
	return out
}

// member is the j-th message of a batch: key, user, window size, quit and nested ones in turn.
func (t *c04) member(ev *TEval, st *TState, outer *types.Named, j int) *Term {
	pub := t.pubs[outer.Obj()] != nil
	pick := func(p msgPair) *types.Named {
		if pub {
			return p.pub
		}
		return p.int
	}
	var simple []*types.Named
	var nested []*types.Named
	for _, p := range t.pairs {
		n := pick(p)
		s := n.Underlying().(*types.Struct)
		if s.NumFields() == 1 {
			if sl, ok := s.Field(0).Type().Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) {
				nested = append(nested, n)
				continue
			}
		}
		simple = append(simple, n)
	}
	fill := func(n *types.Named, tag string) *Term {
		s := n.Underlying().(*types.Struct)
		v := &Term{op: "struct", t: n}
		for i := 0; i < s.NumFields(); i++ {
			if en, ok := s.Field(i).Type().(*types.Named); ok {
				if cs := enumConsts(en); len(cs) > 0 {
					v.args = append(v.args, tConst(cs[j%len(cs)].c.Val(), en))
					continue
				}
			}
			if bt, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool && j >= 2 {
				// Constant beyond the first few, so that code branching on it has one path per member.
				v.args = append(v.args, tBool((j>>uint(i%3))&1 == 0))
				continue
			}
			v.args = append(v.args, tSym("member "+tag+" "+s.Field(i).Name()))
		}
		return &Term{op: "iface", t: n, args: []*Term{v}}
	}
	k := j % (len(simple) + 1 + len(nested))
	switch {
	case k < len(simple):
		return fill(simple[k], fmt.Sprint(j))
	case k == len(simple):
		return t.userMsg(fmt.Sprint(j))
	default:
		n := nested[k-len(simple)-1]
		sl := n.Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Slice)
		in := []*Term{fill(simple[0], fmt.Sprintf("%d.0", j)), t.userMsg(fmt.Sprintf("%d.1", j))}
		return &Term{op: "iface", t: n, args: []*Term{{op: "struct", t: n, args: []*Term{ev.newSlice(st, in, sl.Elem())}}}}
	}
}

func (t *c04) userMsg(tag string) *Term {
	return &Term{op: "iface", t: t.user, args: []*Term{{op: "struct", t: t.user, args: []*Term{tSym("user " + tag)}}}}
}

// same tells whether got is want carried to the other side.
func (t *c04) carried(ev *TEval, gs *TState, got *Term, ws *TState, want *Term, toPublic bool) string {
	if want.op != "iface" {
		if got.key() == want.key() {
			return ""
		}
		return fmt.Sprintf("%s became %s", cut(want.key()), cut(got.key()))
	}
	wn, _ := want.t.(*types.Named)
	var p *msgPair
	if wn != nil {
		if toPublic {
			p = t.ints[wn.Obj()]
		} else {
			p = t.pubs[wn.Obj()]
		}
	}
	if p == nil {
		if got.key() == want.key() {
			return ""
		}
		return fmt.Sprintf("%s became %s", cut(want.key()), cut(got.key()))
	}
	to := p.int
	if toPublic {
		to = p.pub
	}
	if got.op != "iface" {
		return fmt.Sprintf("a %s became %s", p.name, cut(got.key()))
	}
	if !types.Identical(got.t, to) {
		return fmt.Sprintf("a %s became a %s, not %s", types.TypeString(want.t, nil), types.TypeString(got.t, nil), types.TypeString(to, nil))
	}
	ts, wt := to.Underlying().(*types.Struct), wn.Underlying().(*types.Struct)
	for i := 0; i < wt.NumFields(); i++ {
		f := wt.Field(i)
		gv := got.args[0].field(fieldIndex(ts, f.Name()), ts)
		wv := want.args[0].field(i, wt)
		if sl, ok := f.Type().Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) {
			we, wok := ev.elems(ws, wv)
			ge, gok := ev.elems(gs, gv)
			if !wok || !gok {
				return fmt.Sprintf("the messages of the %s could not be followed (%s)", p.name, cut(gv.key()))
			}
			if len(we) != len(ge) {
				return fmt.Sprintf("%d messages became %d in the %s", len(we), len(ge), p.name)
			}
			for j := range we {
				if m := t.carried(ev, gs, ge[j], ws, we[j], toPublic); m != "" {
					return fmt.Sprintf("message %d of the %s: %s", j, p.name, m)
				}
			}
			continue
		}
		if !sameTerm(gs, gv, wv) {
			return fmt.Sprintf("field %s of the %s becomes %s instead of %s", f.Name(), p.name, cut(gv.key()), cut(wv.key()))
		}
	}
	return ""
}

// sameTerm: equal on a path with these facts.
func sameTerm(st *TState, a, b *Term) bool {
	if a.key() == b.key() {
		return true
	}
	norm := func(x *Term) *Term {
		if v, ok := st.facts[x.key()]; ok {
			return tBool(v)
		}
		if c := st.eq[x.key()]; c != nil {
			return c
		}
		return x
	}
	a, b = norm(a), norm(b)
	if a.key() == b.key() {
		return true
	}
	return false
}

func cut(s string) string {
	s = strings.ReplaceAll(s, modRoot+"/", "")
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}

func (t *c04) eval() *TEval {
	ev := NewTEval(t.w)
	ev.Sync = true
	return ev
}

// boundary: modelWrapper.Update, Program.Send and commands.
func (t *c04) boundary() {
	// the wrapper: a type of package tea whose Update takes the engine's message
	var update, initF, send *ssa.Function
	for _, f := range t.w.Funcs {
		if pkgOf(f) != teaPkg || f.Signature.Recv() == nil || f.Parent() != nil {
			continue
		}
		switch f.Name() {
		case "Update":
			if f.Signature.Params().Len() == 1 && typePkg(f.Signature.Params().At(0).Type()) == modelPkg {
				update = f
			}
		case "Init":
			if f.Signature.Results().Len() == 1 && typePkg(f.Signature.Results().At(0).Type()) == modelPkg {
				initF = f
			}
		case "Send":
			if f.Object() != nil && f.Object().Exported() && f.Signature.Params().Len() == 1 {
				send = f
			}
		}
	}
	if update == nil || initF == nil || send == nil {
		t.r.Bad("deliver", "boundary", "-", "the wrapper between the engine and the application's model, or Program.Send, was not found in package tea")
		return
	}
	t.deliver(update)
	t.sendRule(send)
	t.command(update, initF)
}

func typePkg(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return relPath(n.Obj().Pkg().Path())
	}
	return ""
}

// extras are messages that are no kind of the engine: user values, pointers, nothing.
func (t *c04) extras(side func(p msgPair) *types.Named) map[string]*Term {
	return map[string]*Term{
		"a user message":         t.userMsg("x"),
		"a pointer message":      {op: "iface", t: types.NewPointer(t.user), args: []*Term{tSym("!ptr")}},
		"a text message":         {op: "iface", t: types.Typ[types.String], args: []*Term{tSym("text")}},
		"an application's error": {op: "iface", t: types.NewPointer(types.NewNamed(types.NewTypeName(0, t.user.Obj().Pkg(), "Err", nil), types.Typ[types.Int], nil)), args: []*Term{tSym("!err")}},
	}
}

type captured struct {
	st  *TState
	msg *Term
}

func (t *c04) deliver(update *ssa.Function) {
	site := fnName(update)
	one := func(label string, st *TState, msg *Term) {
		ev := t.eval()
		modelOK := true
		ev.Model = func(ev *TEval, st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool) {
			if c.IsInvoke() && c.Method.Name() == "Update" && types.IsInterface(c.Value.Type()) {
				n := st.clone()
				n.events = append(n.events, Event{what: "update", args: args, at: at, fn: at.Parent()})
				return []TOut{{st: n, ret: tTuple(tSym("!updated"), tNil)}}, true
			}
			return nil, false
		}
		outs := ev.Run(update, []*Term{tSym("wrapper"), msg}, nil, st)
		n := 0
		for _, o := range outs {
			if o.panic {
				continue
			}
			n++
			var got []*Term
			for _, e := range o.st.events {
				if e.what == "update" {
					got = append(got, e.args[1])
				}
			}
			if len(got) != 1 {
				t.r.Bad("deliver", site+" "+label, t.w.Pos(update.Pos()), "the application's Update is called %d times for %s", len(got), label)
				return
			}
			if m := t.carried(ev, o.st, got[0], st, msg, true); m != "" {
				t.r.Bad("deliver", site+" "+label, t.w.Pos(update.Pos()), "message on the way to the application: %s", m)
				return
			}
			// the returned wrapper holds the updated model
			if o.ret.op == "tuple" && len(o.ret.args) == 2 {
				found := false
				o.ret.args[0].walk(func(x *Term) bool {
					if x.key() == "!updated" {
						found = true
					}
					return true
				})
				modelOK = modelOK && found
			}
		}
		if ev.Blown || n == 0 {
			t.r.Bad("deliver", site+" "+label, t.w.Pos(update.Pos()), "not decided: %d paths, budget exhausted %v", n, ev.Blown)
			return
		}
		t.r.OK("deliver", site+" "+label)
		t.r.Check(modelOK, "model", site, t.w.Pos(update.Pos()), "the model returned by the application's Update is not the one kept")
	}
	for _, p := range t.pairs {
		for _, v := range t.variants(newTState, t.eval(), p.int) {
			one(v.label, v.st, &Term{op: "iface", t: p.int, args: []*Term{v.v}})
		}
	}
	for l, m := range t.extras(nil) {
		one(l, newTState(), m)
	}
}

func (t *c04) sendRule(send *ssa.Function) {
	site := fnName(send)
	one := func(label string, st *TState, msg *Term) {
		ev := t.eval()
		outs := ev.Run(send, []*Term{tSym("!program"), msg}, nil, st)
		n := 0
		for _, o := range outs {
			if o.panic || o.ret == nil {
				continue
			}
			var got []*Term
			for _, e := range o.st.events {
				if e.what == "send" {
					got = append(got, e.args[0])
				}
			}
			if len(got) == 0 {
				if o.ret.op == "nil" {
					t.r.Bad("send", site+" "+label, t.w.Pos(send.Pos()), "a path reports success without putting the message on the queue")
					return
				}
				continue
			}
			n++
			for _, g := range got {
				if m := t.carried(ev, o.st, g, st, msg, false); m != "" {
					t.r.Bad("send", site+" "+label, t.w.Pos(send.Pos()), "message on the way to the engine: %s", m)
					return
				}
			}
			if len(got) > 1 {
				t.r.Bad("send", site+" "+label, t.w.Pos(send.Pos()), "the message is put on the queue %d times", len(got))
				return
			}
		}
		if ev.Blown || n == 0 {
			t.r.Bad("send", site+" "+label, t.w.Pos(send.Pos()), "not decided: %d sending paths, budget exhausted %v", n, ev.Blown)
			return
		}
		t.r.OK("send", site+" "+label)
	}
	for _, p := range t.pairs {
		for _, v := range t.variants(newTState, t.eval(), p.pub) {
			one(v.label, v.st, &Term{op: "iface", t: p.pub, args: []*Term{v.v}})
		}
	}
	for l, m := range t.extras(nil) {
		one(l, newTState(), m)
	}
}

// command: what Init's and Update's commands return.
func (t *c04) command(update, initF *ssa.Function) {
	for _, f := range []*ssa.Function{update, initF} {
		f := f
		site := fnName(f)
		run := func(st *TState, cmd, msg *Term) (*TEval, []TOut) {
			ev := t.eval()
			ev.Model = func(ev *TEval, st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool) {
				if c.IsInvoke() && types.IsInterface(c.Value.Type()) {
					switch c.Method.Name() {
					case "Update":
						return []TOut{{st: st, ret: tTuple(tSym("!updated"), cmd)}}, true
					case "Init":
						return []TOut{{st: st, ret: cmd}}, true
					}
				}
				if name == "value !cmd" {
					return []TOut{{st: st, ret: msg}}, true
				}
				return nil, false
			}
			args := []*Term{tSym("wrapper")}
			if f == update {
				args = append(args, t.userMsg("in"))
			}
			return ev, ev.Run(f, args, nil, st)
		}
		result := func(o TOut) *Term {
			if o.ret.op == "tuple" && len(o.ret.args) == 2 {
				return o.ret.args[1]
			}
			return o.ret
		}
		_, outs := run(newTState(), tNil, nil)
		for _, o := range outs {
			if !o.panic {
				t.r.Check(result(o).op == "nil", "command", site+" no command", t.w.Pos(f.Pos()), "a model that returns no command makes the engine run %s", cut(result(o).key()))
			}
		}
		one := func(label string, st *TState, msg *Term) {
			ev, outs := run(st, tSym("!cmd"), msg)
			n := 0
			for _, o := range outs {
				if o.panic {
					continue
				}
				c := result(o)
				var res []TOut
				switch {
				case c.op == "func":
					res = ev.Run(c.fn, nil, c.args, o.st)
				default:
					t.r.Bad("command", site+" "+label, t.w.Pos(f.Pos()), "the command given to the engine is %s", cut(c.key()))
					return
				}
				for _, q := range res {
					if q.panic {
						continue
					}
					n++
					if m := t.carried(ev, q.st, q.ret, st, msg, false); m != "" {
						t.r.Bad("command", site+" "+label, t.w.Pos(f.Pos()), "result of a command on the way to the engine: %s", m)
						return
					}
				}
			}
			if ev.Blown || n == 0 {
				t.r.Bad("command", site+" "+label, t.w.Pos(f.Pos()), "not decided: %d paths, budget exhausted %v", n, ev.Blown)
				return
			}
			t.r.OK("command", site+" "+label)
		}
		for _, p := range t.pairs {
			for _, v := range t.variants(newTState, t.eval(), p.pub) {
				one(v.label, v.st, &Term{op: "iface", t: p.pub, args: []*Term{v.v}})
			}
		}
		for l, m := range t.extras(nil) {
			one(l, newTState(), m)
		}
	}
}

// engine: the function the event loop hands each message to.
func (t *c04) engine() {
	w := t.w
	isMsg := func(x types.Type) bool { return typePkg(x) == modelPkg && types.IsInterface(x) }
	msgParam := func(f *ssa.Function) int {
		for i, p := range f.Params {
			if n, ok := types.Unalias(p.Type()).(*types.Named); ok && isMsg(n) && n.Obj().Name() == "Msg" {
				return i
			}
		}
		return -1
	}
	callsUpdate := map[*ssa.Function]bool{}
	for _, f := range w.Funcs {
		if pkgOf(f) != progPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Update" {
					callsUpdate[f] = true
				}
			}
		}
	}
	var entries []*ssa.Function
	for _, f := range w.Funcs {
		if pkgOf(f) != progPkg || msgParam(f) < 0 {
			continue
		}
		reach := w.callReach(f)
		hit := false
		for g := range callsUpdate {
			if g == f || reach[g] {
				hit = true
			}
		}
		if !hit {
			continue
		}
		for _, c := range w.Callers(f) {
			if g := c.Parent(); g != f && msgParam(g) < 0 {
				entries = append(entries, f)
				break
			}
		}
	}
	if len(entries) == 0 {
		t.r.Bad("engine", "event loop", "-", "no function of the program that takes a message and updates the model was found")
		return
	}
	sort.Slice(entries, func(i, j int) bool { return fnName(entries[i]) < fnName(entries[j]) })
	control := func(n string) bool { return n == "QuitMsg" }
	for _, f := range entries {
		site := fnName(f)
		pi := msgParam(f)
		// expected: the messages the model sees, in order
		var want func(ev *TEval, st *TState, m *Term) ([]*Term, bool)
		want = func(ev *TEval, st *TState, m *Term) ([]*Term, bool) {
			n, _ := m.t.(*types.Named)
			if n != nil && t.ints[n.Obj()] != nil {
				if control(n.Obj().Name()) {
					return nil, true
				}
				s := n.Underlying().(*types.Struct)
				if s.NumFields() == 1 {
					if sl, ok := s.Field(0).Type().Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) {
						es, _ := ev.elems(st, m.args[0].args[0])
						var out []*Term
						for _, e := range es {
							x, quit := want(ev, st, e)
							out = append(out, x...)
							if quit {
								return out, true
							}
						}
						return out, false
					}
				}
			}
			return []*Term{m}, false
		}
		one := func(label string, st *TState, msg *Term) {
			ev := t.eval()
			ev.Enter = func(g *ssa.Function) bool {
				return pkgOf(g) == progPkg && (g == f || w.callReach(g)[f] || reachesAny(w, g, callsUpdate))
			}
			ev.Model = func(ev *TEval, st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool) {
				if c.IsInvoke() && c.Method.Name() == "Update" {
					n := st.clone()
					n.events = append(n.events, Event{what: "update", args: args, at: at, fn: at.Parent()})
					return []TOut{{st: n, ret: tTuple(tSym("!model"), tNil)}}, true
				}
				if g := c.StaticCallee(); g == nil || !ev.Enter(origin(g)) {
					if c.Signature().Results().Len() == 0 {
						return []TOut{{st: st, ret: tTuple()}}, true
					}
				}
				return nil, false
			}
			args := tParams(f)
			args[pi] = msg
			if f.Signature.Recv() != nil {
				args[0] = tSym("!program")
			}
			exp, _ := want(ev, st, msg)
			outs := ev.Run(f, args, nil, st)
			n := 0
			for _, o := range outs {
				if o.panic {
					continue
				}
				n++
				var got []*Term
				for _, e := range o.st.events {
					if e.what == "update" {
						got = append(got, e.args[1])
					}
				}
				if len(got) != len(exp) {
					t.r.Bad("engine", site+" "+label, w.Pos(f.Pos()), "the model is updated %d times instead of %d", len(got), len(exp))
					return
				}
				for i := range got {
					if got[i].key() != exp[i].key() {
						t.r.Bad("engine", site+" "+label, w.Pos(f.Pos()), "update %d passes %s instead of %s", i, cut(got[i].key()), cut(exp[i].key()))
						return
					}
				}
			}
			if ev.Blown || n == 0 {
				t.r.Bad("engine", site+" "+label, w.Pos(f.Pos()), "not decided: %d paths, budget exhausted %v", n, ev.Blown)
				return
			}
			t.r.OK("engine", site+" "+label)
		}
		for _, p := range t.pairs {
			for _, v := range t.variants(newTState, t.eval(), p.int) {
				if strings.HasSuffix(v.label, " of 17") || strings.HasSuffix(v.label, " of 65") {
					continue
				}
				one(v.label, v.st, &Term{op: "iface", t: p.int, args: []*Term{v.v}})
			}
		}
		for l, m := range t.extras(nil) {
			one(l, newTState(), m)
		}
		// a quit among other messages ends the delivery of what follows it, at whatever depth
		ev := t.eval()
		var quitT *types.Named
		for _, p := range t.pairs {
			if control(p.int.Obj().Name()) {
				quitT = p.int
			}
		}
		for _, p := range t.pairs {
			s := p.int.Underlying().(*types.Struct)
			if quitT == nil || s.NumFields() != 1 {
				continue
			}
			sl, ok := s.Field(0).Type().Underlying().(*types.Slice)
			if !ok || !types.IsInterface(sl.Elem()) {
				continue
			}
			quit := func() *Term {
				v := &Term{op: "struct", t: quitT}
				for i := 0; i < quitT.Underlying().(*types.Struct).NumFields(); i++ {
					v.args = append(v.args, tSym("quit field"))
				}
				return &Term{op: "iface", t: quitT, args: []*Term{v}}
			}
			wrap := func(st *TState, ms ...*Term) *Term {
				return &Term{op: "iface", t: p.int, args: []*Term{{op: "struct", t: p.int, args: []*Term{ev.newSlice(st, ms, sl.Elem())}}}}
			}
			st := newTState()
			one(p.int.Obj().Name()+" with a quit", st, wrap(st, t.userMsg("a"), quit(), t.userMsg("b")))
			st = newTState()
			one(p.int.Obj().Name()+" with a nested quit", st, wrap(st, t.userMsg("a"), wrap(st, t.userMsg("c"), quit()), t.userMsg("b")))
		}
	}
}

func reachesAny(w *World, g *ssa.Function, set map[*ssa.Function]bool) bool {
	if set[g] {
		return true
	}
	for f := range w.callReach(g) {
		if set[f] {
			return true
		}
	}
	return false
}

// collect: Batch and Sequence, public and internal.
func (t *c04) collect() {
	for _, f := range t.w.Funcs {
		if (pkgOf(f) != teaPkg && pkgOf(f) != modelPkg) || f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || !f.Signature.Variadic() || f.Signature.Results().Len() != 1 {
			continue
		}
		sl, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Slice)
		if !ok || f.Signature.Params().Len() != 1 || !types.Identical(sl.Elem(), f.Signature.Results().At(0).Type()) {
			continue
		}
		site := fnName(f)
		for _, pat := range []string{"", "n", "c", "cc", "ncnc", "ccc", "ccncccc", strings.Repeat("c", 33)} {
			ev := t.eval()
			ev.Model = func(ev *TEval, st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool) {
				if strings.HasPrefix(name, "value !c") {
					n := st.clone()
					n.events = append(n.events, Event{what: "ran", name: name[len("value !"):], at: at})
					return []TOut{{st: n, ret: t.userMsg(name[len("value !"):])}}, true
				}
				return nil, false
			}
			st := newTState()
			var cmds, want []*Term
			for i, k := range pat {
				if k == 'n' {
					cmds = append(cmds, tNil)
					continue
				}
				cmds = append(cmds, tSym(fmt.Sprintf("!c%d", i)))
				want = append(want, t.userMsg(fmt.Sprintf("c%d", i)))
			}
			label := fmt.Sprintf("%s with %d commands (%s)", site, len(pat), pat)
			bad := func(format string, a ...any) { t.r.Bad("collect", label, t.w.Pos(f.Pos()), format, a...) }
			outs := ev.Run(f, []*Term{ev.newSlice(st, cmds, sl.Elem())}, nil, st)
			good := 0
			failed := false
			for _, o := range outs {
				if o.panic || failed {
					continue
				}
				if len(want) == 0 {
					if o.ret.op != "nil" {
						bad("no command to run, but the result is %s", cut(o.ret.key()))
						failed = true
					}
					good++
					continue
				}
				if len(want) == 1 && o.ret.op == "sym" {
					if o.ret.key() != cmds[strings.IndexByte(pat, 'c')].key() {
						bad("the single command became %s", cut(o.ret.key()))
						failed = true
					}
					good++
					continue
				}
				if o.ret.op != "func" {
					bad("the result is %s", cut(o.ret.key()))
					failed = true
					continue
				}
				for _, q := range ev.Run(o.ret.fn, nil, o.ret.args, o.st) {
					if q.panic {
						continue
					}
					got := []*Term{q.ret}
					if q.ret.op == "iface" && !types.Identical(q.ret.t, t.user) {
						s, ok := q.ret.t.Underlying().(*types.Struct)
						if !ok || s.NumFields() == 0 {
							bad("the message delivered is %s", cut(q.ret.key()))
							failed = true
							break
						}
						if !strings.Contains(f.Name(), strings.TrimSuffix(namedName(q.ret.t), "Msg")) {
							bad("%s delivers a %s", f.Name(), namedName(q.ret.t))
							failed = true
							break
						}
						es, ok := ev.elems(q.st, q.ret.args[0].field(0, s))
						if !ok {
							bad("the messages could not be followed")
							failed = true
							break
						}
						got = es
					}
					ks := func(ts []*Term) string {
						var k []string
						for _, x := range ts {
							k = append(k, x.key())
						}
						if !strings.Contains(f.Name(), "Sequence") {
							sort.Strings(k)
						}
						return strings.Join(k, " ")
					}
					if ks(got) != ks(want) {
						bad("%d commands, but the messages delivered are %s", len(want), cut(ks(got)))
						failed = true
						break
					}
					good++
				}
			}
			if failed {
				continue
			}
			if good == 0 || ev.Blown {
				bad("not decided: %d paths, budget exhausted %v", good, ev.Blown)
				continue
			}
			t.r.OK("collect", label)
		}
	}
}

func namedName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// made: command constructors with one argument.
func (t *c04) made() {
	n := 0
	for _, f := range t.w.Funcs {
		p := pkgOf(f)
		if p != teaPkg && !strings.HasPrefix(p, teaPkg+"/internal/domain") || f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() != 1 || f.Signature.Variadic() {
			continue
		}
		if namedName(f.Signature.Results().At(0).Type()) != "Cmd" || f.Signature.Params().Len() > 1 {
			continue
		}
		ev := t.eval()
		site := fnName(f)
		outs := ev.Run(f, tParams(f), nil, newTState())
		good := 0
		failed := ""
		for _, o := range outs {
			if o.panic {
				continue
			}
			if o.ret.op != "func" {
				failed = "the command is " + cut(o.ret.key())
				break
			}
			for _, q := range ev.Run(o.ret.fn, nil, o.ret.args, o.st) {
				if q.panic {
					continue
				}
				if q.ret.op != "iface" || namedName(q.ret.t) != f.Name()+"Msg" {
					failed = fmt.Sprintf("the command returns %s", cut(q.ret.key()))
					break
				}
				if len(f.Params) == 1 {
					// the argument is in the message, or was waited for before it was built
					hit := false
					for i := range q.ret.args[0].args {
						if q.ret.args[0].args[i].key() == "arg0" {
							hit = true
						}
					}
					for _, e := range q.st.events {
						for _, a := range e.args {
							if a.key() == "arg0" && e.what == "call" && strings.HasPrefix(e.name, "time.") {
								hit = true
							}
						}
					}
					if !hit {
						failed = "the caller's argument is not used as given: the message is " + cut(q.ret.key())
						break
					}
				}
				good++
			}
		}
		if failed == "" && (good == 0 || ev.Blown) {
			failed = "not decided"
		}
		n++
		t.r.Check(failed == "", "made", site, t.w.Pos(f.Pos()), "%s", failed)
	}
	t.r.Floor("made", 4)
}

func (t *c04) enums() {
	done := map[*types.Named]bool{}
	for _, p := range t.pairs {
		a, b := p.pub.Underlying().(*types.Struct), p.int.Underlying().(*types.Struct)
		for i := 0; i < a.NumFields(); i++ {
			pe, ok := a.Field(i).Type().(*types.Named)
			if !ok || done[pe] || typePkg(pe) != teaPkg {
				continue
			}
			ie, ok := b.Field(fieldIndex(b, a.Field(i).Name())).Type().(*types.Named)
			if !ok {
				continue
			}
			done[pe] = true
			pc, ic := enumConsts(pe), enumConsts(ie)
			if len(pc) == 0 && len(ic) == 0 {
				continue
			}
			iv := map[string]int64{}
			for _, c := range ic {
				iv[c.name] = c.val
			}
			seen := map[string]bool{}
			for _, c := range pc {
				v, ok := iv[c.name]
				seen[c.name] = true
				t.r.Check(ok && v == c.val, "agree", pe.Obj().Name()+"."+c.name, t.w.Pos(c.c.Pos()), "the public %s is %d, the internal one %s", c.name, c.val, map[bool]string{true: fmt.Sprint(v), false: "does not exist"}[ok])
			}
			for _, c := range ic {
				if !seen[c.name] {
					t.r.Bad("agree", pe.Obj().Name()+"."+c.name, t.w.Pos(c.c.Pos()), "the internal %s has no public counterpart", c.name)
				}
			}
		}
	}
}

// describe: methods of both message types give the same results.
func (t *c04) describe() {
	for _, p := range t.pairs {
		ms := types.NewMethodSet(p.pub)
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj().(*types.Func)
			if !m.Exported() {
				continue
			}
			sel := types.NewMethodSet(p.int).Lookup(nil, m.Name())
			if sel == nil {
				continue
			}
			pf := t.w.Prog.MethodValue(ms.At(i))
			jf := t.w.Prog.MethodValue(t.w.Prog.MethodSets.MethodSet(p.int).Lookup(nil, m.Name()))
			if pf == nil || jf == nil || len(pf.Params) != 1 {
				continue
			}
			pv := t.variants(newTState, t.eval(), p.pub)
			iv := t.variants(newTState, t.eval(), p.int)
			for k := range pv {
				if k >= len(iv) {
					break
				}
				label := fnName(pf) + " " + pv[k].label
				pr, e1 := t.results(pf, pv[k].st, pv[k].v)
				ir, e2 := t.results(jf, iv[k].st, iv[k].v)
				if e1 || e2 || pr == "" {
					t.r.Bad("describe", label, t.w.Pos(pf.Pos()), "not decided")
					continue
				}
				t.r.Check(pr == ir, "describe", label, t.w.Pos(pf.Pos()), "the public message says %s, the internal one %s", cut(pr), cut(ir))
			}
		}
	}
}

func (t *c04) results(f *ssa.Function, st *TState, v *Term) (string, bool) {
	ev := t.eval()
	outs := ev.Run(f, []*Term{v}, nil, st)
	var ks []string
	for _, o := range outs {
		if o.panic {
			ks = append(ks, "panic")
			continue
		}
		var fs []string
		for k, b := range o.st.facts {
			fs = append(fs, fmt.Sprintf("%s=%v", k, b))
		}
		sort.Strings(fs)
		ks = append(ks, strings.Join(fs, "&")+" -> "+o.ret.key())
	}
	sort.Strings(ks)
	return strings.Join(ks, "; "), ev.Blown
}
