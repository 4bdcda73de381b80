package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = checkC20 }

// A key the application can receive.
type ckey struct {
	typ              int64
	typName          string
	r                int64
	alt, ctrl, shift bool
	name             string // what String() gives
	virtual          *ckey  // a combination that the terminal sends as this other key
}

func (k *ckey) id() string {
	return fmt.Sprintf("%d/%d/%v%v%v", k.typ, k.r, k.alt, k.ctrl, k.shift)
}

type c20 struct {
	w      *World
	r      *Report
	key    *types.Named // the message components receive
	keyT   *types.Named
	inner  *types.Named // the message the reader produces
	keys   []*ckey
	names  map[string]bool
	byType map[int64]bool
	read   *ssa.Function
	n      int
}

func checkC20(c *Ctx, r *Report) {
	r.Rule("delivered", "each standard key sequence a terminal sends reaches the reader's caller as that key with its modifiers, and the byte after it is read as the next key")
	r.Rule("name", "every text a component compares with a key's name, and every key type it compares with a key's type, belongs to some key the reader produces")
	r.Rule("fires", "each branch a component's update reserves for a key is taken for some key the reader produces")
	r.Rule("entry", "each key listed in a binding table is matched when that key arrives at the component that uses the table")
	r.Rule("handled", "the action a binding table gives for a key is one the component's update tells apart from no action")
	r.Rule("distinct", "no key is listed for two different actions in one binding table")
	r.Assume = append(r.Assume,
		"keys reach the application as a terminal in its default keyboard mode sends them; Ctrl+H, Ctrl+I, Ctrl+J and Ctrl+M arrive as Backspace, Tab and Enter",
		"the engine hands a key to a component with the fields the reader gave it (C04)")
	w := c.Linux()
	t := &c20{w: w, r: r, names: map[string]bool{}, byType: map[int64]bool{}}
	t.read = w.Func("(*tea/internal/infrastructure/input.Reader).Read")
	str := w.Func("(tea.KeyMsg).String")
	if t.read == nil || str == nil {
		r.Bad("name", "keys", "-", "the operations (*input.Reader).Read and (tea.KeyMsg).String were not both found")
		return
	}
	t.key, _ = types.Unalias(str.Signature.Recv().Type()).(*types.Named)
	s := t.key.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Type" {
			t.keyT, _ = types.Unalias(s.Field(i).Type()).(*types.Named)
		}
	}
	if t.keyT == nil {
		r.Bad("name", "keys", "-", "a key message has no field Type of an enumeration")
		return
	}
	if !t.produce(str) {
		return
	}
	t.components()
	r.Floor("delivered", 60)
	r.Floor("name", 40)
	r.Floor("fires", 60)
	r.Floor("entry", 40)
	r.Floor("handled", 10)
	r.Floor("distinct", 20)
	r.Units["keys"] = len(t.keys)
	r.Units["evaluations"] = t.n
}

// ---- what the reader produces ----

// feed answers the calls on the buffered reader from a fixed text. The position is part of the state.
func feedModel(text string) func(ev *TEval, st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool) {
	return func(ev *TEval, st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool) {
		m, ok := strings.CutPrefix(name, "(*bufio.Reader).")
		if !ok {
			return nil, false
		}
		pos := 0
		if p, ok := st.mem["M!feed"]; ok {
			n, _ := p.isInt()
			pos = int(n)
		}
		n := st.clone()
		set := func(p int) { n.mem["M!feed"] = tInt(int64(p)) }
		eof := tSym("end of input")
		bt := types.Typ[types.Byte]
		ret := func(t *Term) ([]TOut, bool) { return []TOut{{st: n, ret: t}}, true }
		switch m {
		case "ReadByte":
			if pos >= len(text) {
				return ret(tTuple(zeroTerm(bt), eof))
			}
			set(pos + 1)
			return ret(tTuple(tConst(constant.MakeInt64(int64(text[pos])), bt), tNil))
		case "ReadRune":
			if pos >= len(text) {
				return ret(tTuple(tInt(0), tInt(0), eof))
			}
			for i, r := range text[pos:] {
				if i > 0 {
					break
				}
				sz := len(string(r))
				set(pos + sz)
				return ret(tTuple(tConst(constant.MakeInt64(int64(r)), types.Typ[types.Rune]), tInt(int64(sz)), tNil))
			}
		case "UnreadByte":
			if pos == 0 {
				return ret(tSym("nothing to unread"))
			}
			set(pos - 1)
			return ret(tNil)
		case "Buffered":
			return ret(tInt(int64(len(text) - pos)))
		case "Peek":
			if k, ok := args[1].isInt(); ok {
				e := pos + int(k)
				err := tNil
				if e > len(text) {
					e, err = len(text), eof
				}
				var es []*Term
				for _, b := range []byte(text[pos:e]) {
					es = append(es, tConst(constant.MakeInt64(int64(b)), bt))
				}
				return ret(tTuple(ev.newSlice(n, es, bt), err))
			}
		case "Discard":
			if k, ok := args[1].isInt(); ok && pos+int(k) <= len(text) {
				set(pos + int(k))
				return ret(tTuple(args[1], tNil))
			}
		}
		return nil, false
	}
}

// readAll reads the text to its end; every entry is a key, or nil for a read that gave no key.
func (t *c20) readAll(text string, max int) ([]*ckey, string) {
	ev := NewTEval(t.w)
	ev.Model = feedModel(text)
	st := newTState()
	var out []*ckey
	for i := 0; i < max; i++ {
		pos := int64(0)
		if p, ok := st.mem["M!feed"]; ok {
			pos, _ = p.isInt()
		}
		if int(pos) >= len(text) {
			break
		}
		t.n++
		outs := ev.Run(t.read, []*Term{tSym("!reader")}, nil, st)
		var live []TOut
		for _, o := range outs {
			if !o.panic {
				live = append(live, o)
			}
		}
		if len(live) != 1 || ev.Blown {
			return nil, fmt.Sprintf("reading has %d outcomes", len(live))
		}
		o := live[0]
		st = o.st
		if o.ret.op != "tuple" || len(o.ret.args) != 2 {
			return nil, "reading gives " + o.ret.String()
		}
		if o.ret.args[1].op != "nil" {
			return nil, "reading fails: " + o.ret.args[1].String()
		}
		m := o.ret.args[0]
		if m.op == "nil" {
			out = append(out, nil)
			continue
		}
		if m.op == "iface" {
			n, _ := types.Unalias(m.t).(*types.Named)
			if n != nil && n.Obj().Name() == "KeyMsg" {
				t.inner = n
				m = m.args[0]
			}
		}
		k := keyOf(m)
		if k == nil {
			return nil, "reading gives " + o.ret.args[0].String()
		}
		out = append(out, k)
	}
	return out, ""
}

func keyOf(m *Term) *ckey {
	if m.op != "struct" {
		return nil
	}
	s := m.t.Underlying().(*types.Struct)
	k := &ckey{}
	for i := 0; i < s.NumFields(); i++ {
		a := m.args[i]
		switch s.Field(i).Name() {
		case "Type":
			n, ok := a.isInt()
			if !ok {
				return nil
			}
			k.typ = n
		case "Rune":
			n, ok := a.isInt()
			if !ok {
				return nil
			}
			k.r = n
		case "Alt", "Ctrl", "Shift":
			b, ok := a.isBool()
			if !ok {
				return nil
			}
			switch s.Field(i).Name() {
			case "Alt":
				k.alt = b
			case "Ctrl":
				k.ctrl = b
			default:
				k.shift = b
			}
		default:
			return nil
		}
	}
	return k
}

func (t *c20) term(k *ckey) *Term {
	s := t.key.Underlying().(*types.Struct)
	v := &Term{op: "struct", t: t.key}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch f.Name() {
		case "Type":
			v.args = append(v.args, tConst(constant.MakeInt64(k.typ), f.Type()))
		case "Rune":
			v.args = append(v.args, tConst(constant.MakeInt64(k.r), f.Type()))
		case "Alt":
			v.args = append(v.args, tBool(k.alt))
		case "Ctrl":
			v.args = append(v.args, tBool(k.ctrl))
		case "Shift":
			v.args = append(v.args, tBool(k.shift))
		default:
			v.args = append(v.args, zeroTerm(f.Type()))
		}
	}
	return v
}

type keySeq struct {
	text, typ string
	r         rune
	mods      string // of "A", "C", "S"
	alone     bool   // only means this key when nothing follows
}

// standardKeys is what terminals send for the keys they have, by their documentation.
func standardKeys() []keySeq {
	var s []keySeq
	add := func(text, typ, mods string, r rune) { s = append(s, keySeq{text: text, typ: typ, mods: mods, r: r}) }
	for b := 1; b < 27; b++ {
		switch b {
		case 3:
			add("\x03", "KeyCtrlC", "", 0)
		case 8, 9, 10, 13:
		default:
			add(string(rune(b)), "KeyRune", "C", rune('a'+b-1))
		}
	}
	add("\r", "KeyEnter", "", 0)
	add("\n", "KeyEnter", "", 0)
	add("\t", "KeyTab", "", 0)
	add("\x7f", "KeyBackspace", "", 0)
	add("\b", "KeyBackspace", "", 0)
	add(" ", "KeySpace", "", 0)
	s = append(s, keySeq{text: "\x1b", typ: "KeyEsc", alone: true})
	for b := 33; b < 127; b++ {
		add(string(rune(b)), "KeyRune", "", rune(b))
	}
	for _, r := range "é日😀" {
		add(string(r), "KeyRune", "", r)
	}
	for q, k := range map[string]string{
		"[A": "Up", "[B": "Down", "[C": "Right", "[D": "Left", "[H": "Home", "[F": "End",
		"[1~": "Home", "[2~": "Insert", "[3~": "Delete", "[4~": "End", "[5~": "PgUp", "[6~": "PgDown",
		"OP": "F1", "OQ": "F2", "OR": "F3", "OS": "F4", "[15~": "F5", "[17~": "F6", "[18~": "F7", "[19~": "F8",
		"[20~": "F9", "[21~": "F10", "[23~": "F11", "[24~": "F12",
	} {
		add("\x1b"+q, "Key"+k, "", 0)
	}
	add("\x1b[Z", "KeyTab", "S", 0)
	for b := 33; b < 127; b++ {
		if b != '[' && b != 'O' && b != ']' && b != 'P' && b != 'X' && b != '^' && b != '_' && b != 'N' {
			add("\x1b"+string(rune(b)), "KeyRune", "A", rune(b))
		}
	}
	add("\x1b\x7f", "KeyBackspace", "A", 0)
	add("\x1b\r", "KeyEnter", "A", 0)
	sort.Slice(s, func(i, j int) bool { return s[i].text < s[j].text })
	return s
}

func (t *c20) typeValue(name string) (int64, bool) {
	for _, c := range enumConsts(t.keyT) {
		if c.name == name {
			n, ok := constant.Int64Val(c.c.Val())
			return n, ok
		}
	}
	return 0, false
}

func (t *c20) produce(str *ssa.Function) bool {
	seen := map[string]*ckey{}
	for _, q := range standardKeys() {
		construct := fmt.Sprintf("%q", q.text)
		site := t.w.Pos(t.read.Pos())
		got, err := t.readAll(q.text, 3)
		if err != "" {
			t.r.Bad("delivered", construct, site, "%q: %s", q.text, err)
			continue
		}
		want, ok := t.typeValue(q.typ)
		if !ok {
			t.r.Bad("delivered", construct, site, "there is no key type %s", q.typ)
			continue
		}
		right := func(k *ckey) bool {
			return k != nil && k.typ == want && (want != 0 || k.r == int64(q.r)) &&
				k.alt == strings.Contains(q.mods, "A") && k.shift == strings.Contains(q.mods, "S") &&
				(k.ctrl == strings.Contains(q.mods, "C") || q.typ == "KeyCtrlC")
		}
		if len(got) != 1 || !right(got[0]) {
			t.r.Bad("delivered", construct, site, "a terminal sends %q for %s%s, which is read as %s", q.text, modText(q.mods), keyText(q.typ, q.r), keysText(got))
			// what is produced anyway is still a key that can arrive
		} else {
			t.r.OK("delivered", construct)
		}
		for _, k := range got {
			if k != nil && seen[k.id()] == nil {
				seen[k.id()] = k
			}
		}
		if q.alone || len(got) != 1 || !right(got[0]) {
			continue
		}
		got, err = t.readAll(q.text+"x", 3)
		if err != "" || len(got) != 2 || !right(got[0]) || got[1] == nil || got[1].r != 'x' || got[1].typ != 0 || got[1].alt || got[1].ctrl {
			if err == "" {
				err = "is read as " + keysText(got)
			}
			t.r.Bad("delivered", construct+" followed by x", site, "%s%s followed at once by x %s", modText(q.mods), keyText(q.typ, q.r), err)
		} else {
			t.r.OK("delivered", construct)
		}
	}
	for _, k := range seen {
		t.keys = append(t.keys, k)
	}
	sort.Slice(t.keys, func(i, j int) bool { return t.keys[i].id() < t.keys[j].id() })
	find := func(name string) *ckey {
		v, ok := t.typeValue(name)
		for _, k := range t.keys {
			if ok && k.typ == v && !k.alt && !k.ctrl && !k.shift {
				return k
			}
		}
		return nil
	}
	for r, a := range map[rune]string{'h': "KeyBackspace", 'i': "KeyTab", 'j': "KeyEnter", 'm': "KeyEnter"} {
		if k := find(a); k != nil && seen[(&ckey{r: int64(r), ctrl: true}).id()] == nil {
			t.keys = append(t.keys, &ckey{r: int64(r), ctrl: true, virtual: k})
		}
	}
	for _, k := range t.keys {
		ev := NewTEval(t.w)
		outs := ev.Run(str, []*Term{t.term(k)}, nil, newTState())
		if len(outs) == 1 && !outs[0].panic {
			if s, ok := outs[0].ret.isStr(); ok {
				k.name = s
				if k.virtual == nil {
					t.names[s] = true
					t.byType[k.typ] = true
				}
				continue
			}
		}
		t.r.Bad("name", "String", t.w.Pos(str.Pos()), "the name of the key %s was not decided", k.id())
		return false
	}
	if len(t.keys) < 60 {
		t.r.Bad("name", "keys", t.w.Pos(t.read.Pos()), "only %d keys are known to be produced", len(t.keys))
		return false
	}
	return true
}

func modText(m string) string {
	s := ""
	for _, c := range m {
		s += map[rune]string{'A': "Alt+", 'C': "Ctrl+", 'S': "Shift+"}[c]
	}
	return s
}

func keyText(typ string, r rune) string {
	if typ == "KeyRune" {
		return fmt.Sprintf("%q", r)
	}
	return strings.TrimPrefix(typ, "Key")
}

func keysText(ks []*ckey) string {
	var s []string
	for _, k := range ks {
		if k == nil {
			s = append(s, "nothing")
			continue
		}
		m := ""
		if k.alt {
			m += "A"
		}
		if k.ctrl {
			m += "C"
		}
		if k.shift {
			m += "S"
		}
		if k.typ == 0 {
			s = append(s, modText(m)+fmt.Sprintf("%q", rune(k.r)))
		} else {
			s = append(s, modText(m)+fmt.Sprintf("key type %d", k.typ))
		}
	}
	if len(s) == 0 {
		return "nothing"
	}
	return strings.Join(s, ", ")
}

// ---- what components do with them ----

// one component: a type with an Update that takes a message
type keyComp struct {
	update *ssa.Function
	name   string
}

func isKeyMsg(t types.Type, key *types.Named) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.Identical(types.Unalias(t), key)
}

// usesKeys: the function, or a function it is handed to, looks at a key.
func (t *c20) takesKey(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isKeyMsg(p.Type(), t.key) {
			return true
		}
		if n, ok := types.Unalias(p.Type()).(*types.Named); ok && n.Obj().Name() == "Msg" {
			return true
		}
	}
	return false
}

func (t *c20) components() {
	var comps []*keyComp
	for _, f := range t.w.Funcs {
		if f.Name() != "Update" || f.Signature.Recv() == nil || !exported(f) || f.Signature.Params().Len() != 1 || !t.takesKey(f) {
			continue
		}
		p := relPath(pkgOf(f))
		if !strings.HasPrefix(p, "components/") || strings.Contains(p, "/internal/") || strings.Contains(p, "/examples/") {
			continue
		}
		comps = append(comps, &keyComp{update: f, name: fnName(f)})
	}
	sort.Slice(comps, func(i, j int) bool { return comps[i].name < comps[j].name })
	for _, c := range comps {
		t.component(c)
	}
}

// evalExpr evaluates a value built by calls on constants and other such calls.
func (t *c20) evalExpr(ev *TEval, st *TState, v ssa.Value, d int) (*Term, *TState, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroTerm(x.Type()), st, true
		}
		return tConst(x.Value, x.Type()), st, true
	case *ssa.MakeInterface:
		r, st, ok := t.evalExpr(ev, st, x.X, d+1)
		return &Term{op: "iface", t: x.X.Type(), args: []*Term{r}}, st, ok
	case *ssa.ChangeType:
		return t.evalExpr(ev, st, x.X, d+1)
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil || d > 5 {
			return nil, st, false
		}
		g = origin(g)
		if len(g.Blocks) == 0 || !t.w.funcSet[g] {
			return nil, st, false
		}
		var args []*Term
		for _, a := range x.Common().Args {
			r, s2, ok := t.evalExpr(ev, st, a, d+1)
			if !ok {
				return nil, st, false
			}
			st = s2
			args = append(args, r)
		}
		outs := ev.Run(g, args, nil, st)
		if len(outs) != 1 || outs[0].panic || ev.Blown {
			return nil, st, false
		}
		return outs[0].ret, outs[0].st, true
	}
	return nil, st, false
}

type tableEntry struct {
	table *ssa.Function
	group string // where it is listed, or the action it is listed with
	text  string // a key's name
	key   *Term  // or a key type or character
	kind  string // the key type of the map
}

func (e tableEntry) keyText(t *c20) string {
	if e.key == nil {
		return e.text
	}
	n, _ := e.key.isInt()
	if e.kind == "rune" {
		return fmt.Sprintf("%q", rune(n))
	}
	for _, c := range enumConsts(t.keyT) {
		if m, ok := constant.Int64Val(c.c.Val()); ok && m == n {
			return c.name
		}
	}
	return fmt.Sprint(n)
}

// flatten lists what a table holds. Texts are keys' names when they are in lists of texts, in the
// member of a structure that holds names, or index a map whose values hold none.
func (t *c20) flatten(ev *TEval, st *TState, fn *ssa.Function, v *Term, path string, typ types.Type, out *[]tableEntry) {
	switch v.op {
	case "iface":
		t.flatten(ev, st, fn, v.args[0], path, v.t, out)
	case "ref":
		if v.t != nil {
			t.flatten(ev, st, fn, ev.load(st, v.name, v.t), path, v.t, out)
		}
	case "struct":
		s := v.t.Underlying().(*types.Struct)
		for i, a := range v.args {
			t.flatten(ev, st, fn, a, path+"."+s.Field(i).Name(), s.Field(i).Type(), out)
		}
	case "slice":
		es, ok := ev.elems(st, v)
		if !ok || len(es) == 0 {
			return
		}
		if isString(v.t) {
			for _, e := range es {
				if s, ok := e.isStr(); ok {
					*out = append(*out, tableEntry{table: fn, group: path, text: s})
				}
			}
			return
		}
		s, ok := v.t.Underlying().(*types.Struct)
		if !ok {
			for i, e := range es {
				t.flatten(ev, st, fn, e, fmt.Sprintf("%s[%d]", path, i), v.t, out)
			}
			return
		}
		isName := make([]bool, s.NumFields())
		any := false
		for i := range isName {
			if !isString(s.Field(i).Type()) {
				continue
			}
			n := 0
			for _, e := range es {
				if e.op == "struct" {
					if x, ok := e.args[i].isStr(); ok && t.names[x] {
						n++
					}
				}
			}
			isName[i] = 2*n > len(es)
			any = any || isName[i]
		}
		for i, e := range es {
			if e.op != "struct" {
				continue
			}
			if !any {
				t.flatten(ev, st, fn, e, fmt.Sprintf("%s[%d]", path, i), v.t, out)
				continue
			}
			act := ""
			for j, a := range e.args {
				if !isName[j] && a.isConst() {
					act += " " + a.String()
				}
			}
			for j, a := range e.args {
				if x, ok := a.isStr(); ok && isName[j] {
					*out = append(*out, tableEntry{table: fn, group: strings.TrimSpace(act), text: x})
				}
			}
		}
	case "map":
		mt, ok := v.t.Underlying().(*types.Map)
		if !ok {
			return
		}
		prefix := v.name + "{"
		var ks []string
		for k := range st.mem {
			if strings.HasPrefix(k, prefix) && strings.HasSuffix(k, "}") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		if isString(mt.Key()) {
			var sub []tableEntry
			for _, k := range ks {
				t.flatten(ev, st, fn, st.mem[k], path+"["+k[len(prefix):len(k)-1]+"]", mt.Elem(), &sub)
			}
			if len(sub) > 0 {
				*out = append(*out, sub...)
				return
			}
			for _, k := range ks {
				if s, ok := constText(k[len(prefix) : len(k)-1]); ok {
					*out = append(*out, tableEntry{table: fn, group: st.mem[k].String(), text: s})
				}
			}
			return
		}
		kind := ""
		if types.Identical(types.Unalias(mt.Key()), t.keyT) {
			kind = "key"
		} else if b, ok := mt.Key().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			kind = "rune"
		}
		for _, k := range ks {
			if kind == "" {
				t.flatten(ev, st, fn, st.mem[k], path+"["+k[len(prefix):len(k)-1]+"]", mt.Elem(), out)
				continue
			}
			if n, ok := constNum(k[len(prefix) : len(k)-1]); ok {
				*out = append(*out, tableEntry{table: fn, group: st.mem[k].String(), key: tConst(constant.MakeInt64(n), mt.Key()), kind: kind})
			}
		}
	}
}

type cmpSite struct {
	at ssa.Instruction
	by string
}

func (t *c20) component(c *keyComp) {
	w := t.w
	recv := deref(c.update.Signature.Recv().Type())
	st, ok := recv.Underlying().(*types.Struct)
	if !ok {
		return
	}
	// the tables kept in the component
	tables := map[string][]ssa.Value{}
	home := pkgOf(c.update)
	for _, f := range w.Funcs {
		if pkgOf(f) != home {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(deref(fa.X.Type())) != namedOf(recv) {
					continue
				}
				v := s.Val
				for {
					if m, ok := v.(*ssa.MakeInterface); ok {
						v = m.X
						continue
					}
					break
				}
				if call, ok := v.(*ssa.Call); ok && t.keyed(call.Type()) {
					n := st.Field(fa.Field).Name()
					tables[n] = append(tables[n], s.Val)
				}
			}
		}
	}
	state := newTState()
	state.n = 1000
	self := &Term{op: "struct", t: recv}
	makers := map[*ssa.Function]bool{} // functions of no arguments that make tables
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		val := tSym("self." + f.Name())
		for i, v := range tables[f.Name()] {
			full := NewTEval(w)
			x, s2, ok := t.evalExpr(full, state, v, 0)
			if ok {
				val, state = x, s2
				for g := range full.Reached {
					if len(g.Params) == 0 {
						makers[g] = true
					}
				}
				break
			}
			if i == len(tables[f.Name()])-1 {
				t.r.Bad("entry", c.name+" "+f.Name(), w.Pos(v.Pos()), "the bindings kept in %s of %s were not decided", f.Name(), typeName(recv))
			}
		}
		self.args = append(self.args, val)
	}
	state.mem["A900"] = self
	self0 := &Term{op: "ref", name: "A900", t: recv}
	if _, ptr := c.update.Signature.Recv().Type().(*types.Pointer); !ptr {
		self0 = self
	}

	visited := map[*ssa.BasicBlock]bool{}
	decided := map[*ssa.If]int{}     // 1: true seen, 2: false seen, 4: undecided
	compared := map[string]cmpSite{} // texts a key's name is compared with
	types_ := map[int64]cmpSite{}    // key types a key's type is compared with
	matched := map[string]bool{}     // keys' names, types and characters found in a table or equal to a text
	gives := map[string]*Term{}      // key id -> what the table gave for it
	acted := map[string]bool{}       // key id -> something compared equal to that
	var cur *ckey
	visitedBy := map[*ssa.BasicBlock]map[string]bool{}

	ev := NewTEval(w)
	ev.EnterArgs = func(f *ssa.Function, args []*Term) bool {
		if t.takesKey(f) || f == c.update || len(f.Params) == 0 || pkgOf(f) == pkgOf(t.read) || strings.HasPrefix(relPath(pkgOf(f)), "tea") {
			return true
		}
		for _, a := range args {
			if s, ok := a.isStr(); ok && s == cur.name {
				return true
			}
			if a.isConst() && a.t != nil && types.Identical(types.Unalias(a.t), t.keyT) {
				return true
			}
		}
		return false
	}
	ev.OnIf = func(f *ssa.Function, x *ssa.If, known, v bool) {
		switch {
		case !known:
			decided[x] |= 4
		case v:
			decided[x] |= 1
		default:
			decided[x] |= 2
		}
	}
	ev.OnBlock = func(b *ssa.BasicBlock) {
		visited[b] = true
		if visitedBy[b] == nil {
			visitedBy[b] = map[string]bool{}
		}
		visitedBy[b][cur.id()] = true
		if f := b.Parent(); len(f.Params) == 0 {
			makers[f] = true
		}
	}
	ev.OnCompare = func(at ssa.Instruction, x, y *Term) {
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			if s, ok := p[0].isStr(); ok && s == cur.name {
				if o, ok := p[1].isStr(); ok {
					compared[o] = cmpSite{at: at}
					if o == s && cur.virtual == nil {
						matched["name "+o] = true
					}
				}
			}
			if b, ok := at.(*ssa.BinOp); ok && types.Identical(types.Unalias(b.X.Type()), t.keyT) && p[0].isConst() {
				if n, ok := p[0].isInt(); ok {
					types_[n] = cmpSite{at: at}
				}
			}
		}
		if g := gives[cur.id()]; g != nil && x.isConst() && y.isConst() && x.key() == y.key() && x.key() == g.key() {
			acted[cur.id()] = true
		}
	}
	ev.OnLookup = func(at ssa.Instruction, m, k, v *Term, found bool) {
		if !found {
			return
		}
		if g := gives[cur.id()]; g != nil && g.key() == k.key() {
			acted[cur.id()] = true
		}
		isKey := false
		if s, ok := k.isStr(); ok {
			isKey = s == cur.name
			if isKey && cur.virtual == nil {
				matched["name "+s] = true
			}
		} else if n, ok := k.isInt(); ok {
			if mt, ok := m.t.Underlying().(*types.Map); ok {
				if types.Identical(types.Unalias(mt.Key()), t.keyT) {
					isKey = true
					matched[fmt.Sprintf("key %d", n)] = true
				} else if b, ok := mt.Key().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
					isKey = true
					matched[fmt.Sprintf("rune %d", n)] = true
				}
			}
		}
		if isKey && v.isConst() {
			gives[cur.id()] = v
		}
	}
	results := map[string]string{}
	for _, k := range t.keys {
		cur = k
		t.n++
		ev.Steps = 0
		outs := ev.Run(c.update, []*Term{self0, {op: "iface", t: t.key, args: []*Term{t.term(k)}}}, nil, state)
		if ev.Blown {
			t.r.Bad("fires", c.name, w.Pos(c.update.Pos()), "%s was not decided for the key %s: too many paths", c.name, k.name)
			return
		}
		var rs []string
		for _, o := range outs {
			s := fmt.Sprint(o.panic)
			if o.ret != nil {
				s += o.ret.String()
			}
			rs = append(rs, s)
		}
		sort.Strings(rs)
		results[k.id()] = strings.Join(rs, "\n")
	}

	// name: what the component compares keys with
	for s, at := range compared {
		cons := c.name + " " + s
		t.r.Check(t.names[s], "name", cons, w.InstrPos(at.at), "%s compares a key's name with %q, which is the name of no key that can arrive", fnName(at.at.Parent()), s)
	}
	for n, at := range types_ {
		e := tableEntry{key: tInt(n), kind: "key"}
		t.r.Check(t.byType[n], "name", c.name+" "+e.keyText(t), w.InstrPos(at.at), "%s compares a key's type with %s, which no key that can arrive has", fnName(at.at.Parent()), e.keyText(t))
	}

	// entry, distinct
	var ms []*ssa.Function
	for g := range makers {
		ms = append(ms, g)
	}
	sort.Slice(ms, func(i, j int) bool { return fnName(ms[i]) < fnName(ms[j]) })
	for _, g := range ms {
		if g.Signature.Results().Len() != 1 {
			continue
		}
		full := NewTEval(w)
		full.Budget = 50000
		outs := full.Run(g, nil, nil, newTState())
		if len(outs) != 1 || outs[0].panic || full.Blown {
			continue
		}
		var es []tableEntry
		t.flatten(full, outs[0].st, g, outs[0].ret, "", g.Signature.Results().At(0).Type(), &es)
		known, texts := 0, 0
		for _, e := range es {
			if e.key == nil {
				texts++
				if t.names[e.text] {
					known++
				}
			}
		}
		if texts > 0 && 2*known <= texts || len(es) == 0 {
			continue // texts of another kind
		}
		groups := map[string][]string{}
		for _, e := range es {
			cons := c.name + " " + e.keyText(t)
			pos := w.Pos(g.Pos())
			switch {
			case e.key == nil && !t.names[e.text]:
				t.r.Bad("name", cons, pos, "%s lists the key %q (%s), which is the name of no key that can arrive", fnName(g), e.text, strings.TrimPrefix(e.group, "."))
			case e.key == nil:
				t.r.OK("name", cons)
				t.r.Check(matched["name "+e.text], "entry", cons, pos, "%s lists the key %q (%s), but nothing in %s looks for it when it arrives", fnName(g), e.text, strings.TrimPrefix(e.group, "."), c.name)
			default:
				n, _ := e.key.isInt()
				t.r.Check(matched[fmt.Sprintf("%s %d", e.kind, n)], "entry", cons, pos, "%s lists the key %s (%s), but no key that can arrive at %s matches it", fnName(g), e.keyText(t), e.group, c.name)
			}
			id := e.kind + e.keyText(t)
			dup := false
			for _, x := range groups[id] {
				dup = dup || x == e.group
			}
			if !dup {
				groups[id] = append(groups[id], e.group)
			}
		}
		for _, id := range sortedKeys(groups) {
			t.r.Check(len(groups[id]) == 1, "distinct", fnName(g)+" "+strings.TrimPrefix(strings.TrimPrefix(id, "rune"), "key"), w.Pos(g.Pos()), "%s lists the key %s for %s", fnName(g), id, strings.Join(groups[id], " and for "))
		}
	}

	// handled
	for _, k := range t.keys {
		if g := gives[k.id()]; g != nil && k.virtual == nil {
			t.r.Check(acted[k.id()], "handled", c.name+" "+k.name, w.Pos(c.update.Pos()), "the table gives the action %s for the key %s, and nothing in %s tells that action from others", g, k.name, c.name)
		}
	}

	// fires: the far side of a test on the key that no key passes
	var ifs []*ssa.If
	for x := range decided {
		ifs = append(ifs, x)
	}
	entered := map[*ssa.Function]bool{}
	for b := range visited {
		entered[b.Parent()] = true
	}
	for f := range entered { // tests on the key that no key gets as far as
		for _, b := range f.Blocks {
			if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && !visited[b] && decided[x] == 0 {
				ifs = append(ifs, x)
			}
		}
	}
	sort.Slice(ifs, func(i, j int) bool {
		if ifs[i].Parent() != ifs[j].Parent() {
			return fnName(ifs[i].Parent()) < fnName(ifs[j].Parent())
		}
		return ifs[i].Block().Index < ifs[j].Block().Index
	})
	ord := map[string]int{}
	for _, x := range ifs {
		side := 0
		if b, ok := x.Cond.(*ssa.BinOp); ok {
			if b.Op == token.NEQ {
				side = 1
			} else if b.Op != token.EQL {
				continue
			}
		}
		if !t.aboutKey(x.Cond, 0) {
			continue
		}
		body := x.Block().Succs[side]
		fn := fnName(x.Parent())
		ord[fn]++
		cons := fmt.Sprintf("%s in %s test %s", c.name, fn, condText(x.Cond))
		if visited[body] && !t.onlyVirtual(visitedBy[body], results) {
			t.r.OK("fires", cons)
			continue
		}
		if visited[body] {
			// a combination that arrives as another key: it must do what that key does
			t.r.Bad("fires", cons, w.InstrPos(x), "%s has a branch that only Ctrl+H, Ctrl+I, Ctrl+J or Ctrl+M would take; they arrive as Backspace, Tab and Enter, which do something else", fn)
			continue
		}
		if emptySide(body) {
			continue
		}
		pos := w.Pos(x.Cond.Pos())
		if pos == "-" {
			pos = w.InstrPos(body.Instrs[0])
		}
		t.r.Bad("fires", cons, pos, "%s has a branch for a key that no key which can arrive takes", fn)
	}
}

// onlyVirtual: the block is visited only by combinations that arrive as another key, and what it
// does for one of them is not what that other key does.
func (t *c20) onlyVirtual(by map[string]bool, results map[string]string) bool {
	for _, k := range t.keys {
		if by[k.id()] && (k.virtual == nil || results[k.id()] == results[k.virtual.id()]) {
			return false
		}
	}
	return true
}

func condText(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil {
			return x.Op.String() + " " + c.Value.String()
		}
		if c, ok := x.X.(*ssa.Const); ok && c.Value != nil {
			return x.Op.String() + " " + c.Value.String()
		}
		return x.Op.String()
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if _, f, ok := fieldOf(fa); ok {
				return f.Name()
			}
		}
	case *ssa.Field:
		if _, f, ok := fieldOf(x); ok {
			return f.Name()
		}
	}
	return "condition"
}

// emptySide: the block does nothing.
func emptySide(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Jump, *ssa.Phi, *ssa.DebugRef, *ssa.Panic, *ssa.MakeInterface:
		case *ssa.Return:
			for _, r := range x.Results {
				switch c := r.(type) {
				case *ssa.Parameter:
				case *ssa.Const:
					if c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) {
						return false
					}
					if c.Value != nil && c.Value.Kind() != constant.Bool {
						return false
					}
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// aboutKey: the value is computed from the members or the name of a key alone.
func (t *c20) aboutKey(v ssa.Value, d int) bool {
	if d > 12 {
		return false
	}
	if isKeyMsg(v.Type(), t.key) || types.Identical(types.Unalias(v.Type()), t.keyT) {
		_, c := v.(*ssa.Const)
		return !c
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		_, c1 := x.X.(*ssa.Const)
		_, c2 := x.Y.(*ssa.Const)
		return (c1 || t.aboutKey(x.X, d+1)) && (c2 || t.aboutKey(x.Y, d+1)) && !(c1 && c2)
	case *ssa.UnOp:
		return t.aboutKey(x.X, d+1)
	case *ssa.Field:
		return t.aboutKey(x.X, d+1)
	case *ssa.FieldAddr:
		return t.aboutKey(x.X, d+1)
	case *ssa.Convert:
		return t.aboutKey(x.X, d+1)
	case *ssa.ChangeType:
		return t.aboutKey(x.X, d+1)
	case *ssa.Phi:
		n := 0
		for _, e := range x.Edges {
			if _, c := e.(*ssa.Const); c {
				continue
			}
			if e != v && !t.aboutKey(e, d+1) {
				return false
			}
			n++
		}
		return n > 0
	case *ssa.Call:
		f := x.Common().StaticCallee()
		if f == nil {
			return false
		}
		if f.Signature.Recv() != nil && isKeyMsg(f.Signature.Recv().Type(), t.key) {
			return true
		}
		if isRepoPath(pkgOf(f)) {
			return false
		}
		n := 0
		for _, a := range x.Common().Args {
			if _, c := a.(*ssa.Const); c {
				continue
			}
			if !t.aboutKey(a, d+1) {
				return false
			}
			n++
		}
		return n > 0
	}
	return false
}

// keyed: values of the type have an operation that takes a key.
func (t *c20) keyed(typ types.Type) bool {
	if _, ok := typ.(*types.Tuple); ok {
		return false
	}
	ms := t.w.Prog.MethodSets.MethodSet(typ)
	for i := 0; i < ms.Len(); i++ {
		if sg, ok := ms.At(i).Type().(*types.Signature); ok {
			for j := 0; j < sg.Params().Len(); j++ {
				if isKeyMsg(sg.Params().At(j).Type(), t.key) {
					return true
				}
			}
		}
	}
	return false
}

// constText, constNum: the constant whose term key this is.
func constText(k string) (string, bool) {
	i := strings.IndexByte(k, '"')
	if i < 0 {
		return "", false
	}
	s, err := strconv.Unquote(k[i : strings.LastIndexByte(k, '"')+1])
	return s, err == nil
}

func constNum(k string) (int64, bool) {
	i := len(k)
	for i > 0 && (k[i-1] >= '0' && k[i-1] <= '9' || k[i-1] == '-') {
		i--
	}
	n, err := strconv.ParseInt(k[i:], 10, 64)
	return n, err == nil
}
