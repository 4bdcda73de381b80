package main

import (
	_ "embed"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// enumVal is one value of an enumeration (integer or string constants of a named type).
type enumVal struct {
	names []string
	pos   string
	val   constant.Value
}

func (v enumVal) name() string { return strings.Join(v.names, "/") }

// enumValues lists the distinct values of the constants declared with type n.
func enumValues(w *World, n *types.Named) []enumVal {
	if n.Obj().Pkg() == nil {
		return nil
	}
	b, ok := n.Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsString) == 0 {
		return nil
	}
	by := map[string]*enumVal{}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		c, ok := sc.Lookup(name).(*types.Const)
		if !ok || !types.Identical(c.Type(), n) {
			continue
		}
		k := c.Val().ExactString()
		if by[k] == nil {
			by[k] = &enumVal{val: c.Val(), pos: w.Pos(c.Pos())}
		}
		by[k].names = append(by[k].names, name)
	}
	var out []enumVal
	for _, v := range by {
		out = append(out, *v)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].val.Kind() == constant.String {
			return constant.StringVal(out[i].val) < constant.StringVal(out[j].val)
		}
		return constant.Compare(out[i].val, token.LSS, out[j].val)
	})
	return out
}

// enums lists every enumeration of the library: a named type with at least two constant values.
func (w *World) enums() []*types.Named {
	var out []*types.Named
	for _, p := range w.Pkgs {
		sc := p.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if n, ok := tn.Type().(*types.Named); ok && len(enumValues(w, n)) >= 2 {
				out = append(out, n)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return typeName(out[i]) < typeName(out[j]) })
	return out
}

type c21 struct {
	w *World
	r *Report
}

// behaviour of f with some of its inputs fixed: what every path assumes, returns and does.
func (t *c21) behaviour(f *ssa.Function, fix map[string]*Term) (string, bool) {
	ev := NewTEval(t.w)
	ev.Budget = 150000
	st := newTState()
	var args []*Term
	for i, p := range f.Params {
		if v := fix[fmt.Sprint(i)]; v != nil {
			args = append(args, v)
			continue
		}
		name := fmt.Sprintf("arg%d", i)
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			name = "!" + name
		}
		a := tSym(name)
		for k, v := range fix {
			pre, rest, ok := strings.Cut(k, ".")
			if !ok || pre != fmt.Sprint(i) {
				continue
			}
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
				_ = pt
				ev.store(st, "("+name+")."+rest, v)
				continue
			}
			s, ok := p.Type().Underlying().(*types.Struct)
			if !ok {
				return "", false
			}
			sv := &Term{op: "struct", t: p.Type()}
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() == rest {
					sv.args = append(sv.args, v)
				} else {
					sv.args = append(sv.args, tOp("."+s.Field(j).Name(), a))
				}
			}
			a = sv
		}
		args = append(args, a)
	}
	return summary(ev, ev.Run(f, args, nil, st))
}

// summary: what every path assumes, returns and does, as text.
func summary(ev *TEval, outs []TOut) (string, bool) {
	if ev.Blown || len(outs) == 0 {
		return fmt.Sprintf("blown %d", len(outs)), false
	}
	var lines []string
	for _, o := range outs {
		var b strings.Builder
		var fs []string
		for k, v := range o.st.facts {
			fs = append(fs, fmt.Sprint(k, "=", v))
		}
		for k, v := range o.st.eq {
			fs = append(fs, k+"=="+v.key())
		}
		sort.Strings(fs)
		b.WriteString(strings.Join(fs, " & "))
		if o.panic {
			b.WriteString(" panics")
		}
		b.WriteString(" => " + o.ret.key())
		// what a returned reference holds
		seen := map[string]bool{}
		o.ret.walk(func(x *Term) bool {
			if (x.op == "ref" || x.op == "slice" || x.op == "map") && !seen[x.name] {
				seen[x.name] = true
				var ks []string
				for k := range o.st.mem {
					if k == x.name || strings.HasPrefix(k, x.name+".") || strings.HasPrefix(k, x.name+"[") || strings.HasPrefix(k, x.name+"{") || strings.HasPrefix(k, x.name+"#") {
						ks = append(ks, k)
					}
				}
				sort.Strings(ks)
				for _, k := range ks {
					b.WriteString(" " + k + ":" + o.st.mem[k].key())
				}
			}
			return true
		})
		for _, e := range o.st.events {
			b.WriteString("; " + e.what + " " + e.name + "(")
			for _, a := range e.args {
				b.WriteString(a.key() + ",")
			}
			b.WriteString(")")
		}
		lines = append(lines, b.String())
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n"), true
}

//go:embed c21_baseline.txt
var c21Baseline string

func init() {
	checks["C21"] = checkC21
	checks["C21GEN"] = func(c *Ctx, r *Report) { (&c21{c.Linux(), r}).generate() }
}

func checkC21(c *Ctx, r *Report) {
	r.Rule("name", "distinct values of an enumeration have distinct names, and no value other than the unknown one has the name an undeclared value gets")
	r.Rule("distinguish", "every operation that tells values of an enumeration apart keeps telling them apart: what it assumes, returns and does on its paths differs; a value added to the enumeration is told from undeclared ones by every operation that tells all others apart")
	r.Rule("answer", "a yes/no question about an enumeration value is answered as specified for every value")
	r.Rule("action", "every action a key can be bound to is produced by the binding table and has an effect of its own in the component's Update")
	r.Rule("convert", "a conversion between two enumerations keeps the value's name")
	r.Rule("decode", "every standard key sequence decodes to the key it stands for, and every key type has one")
	r.Rule("codec", "image format names, MIME types, magic numbers and encoders agree")
	t := &c21{c.Linux(), r}
	t.names()
	t.baseline()
	t.actions()
	t.converts()
	t.keys()
	t.reader()
	t.images()
	r.Floor("name", 60)
	r.Floor("distinguish", 150)
	r.Floor("answer", 30)
	r.Floor("action", 20)
	r.Floor("decode", 25)
	r.Floor("codec", 6)
	r.Assume = append(r.Assume, "behaviours are compared as terms: two that are written differently but compute the same count as different", "which values an operation tells apart is specified in checker/c21_baseline.txt")
}

// slotsOf lists the inputs of f that are enumerations: parameters and fields of struct parameters.
func (t *c21) slotsOf(f *ssa.Function) (slots []string, typs []*types.Named) {
	is := func(x types.Type) *types.Named {
		if n, ok := x.(*types.Named); ok && len(enumValues(t.w, n)) >= 2 {
			return n
		}
		return nil
	}
	for i, p := range f.Params {
		T := p.Type()
		if n := is(T); n != nil {
			slots, typs = append(slots, fmt.Sprint(i)), append(typs, n)
			continue
		}
		if pt, ok := T.Underlying().(*types.Pointer); ok {
			T = pt.Elem()
		}
		if s, ok := T.Underlying().(*types.Struct); ok {
			for j := 0; j < s.NumFields(); j++ {
				if n := is(s.Field(j).Type()); n != nil {
					slots, typs = append(slots, fmt.Sprintf("%d.%s", i, s.Field(j).Name())), append(typs, n)
				}
			}
		}
	}
	return
}

type enumClass struct {
	answer string // "true" or "false" when that is all the operation returns
	names  []string
}

// generate prints the table of operations and the values each tells apart.
func (t *c21) generate() {
	for _, f := range t.w.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || !exportedName(f.Name()) || len(f.Blocks) == 0 {
			continue
		}
		slots, typs := t.slotsOf(f)
		for i, s := range slots {
			by := map[string]*enumClass{}
			var order []string
			for _, v := range enumValues(t.w, typs[i]) {
				b, ok := t.behaviour(f, map[string]*Term{s: tConst(v.val, typs[i])})
				if !ok {
					continue
				}
				if by[b] == nil {
					by[b] = &enumClass{answer: answerOf(b)}
					order = append(order, b)
				}
				by[b].names = append(by[b].names, v.names[0])
			}
			if len(order) < 2 {
				continue
			}
			var cs []string
			for _, b := range order {
				c := strings.Join(by[b].names, ",")
				if by[b].answer != "" {
					c = by[b].answer + ":" + c
				}
				cs = append(cs, c)
			}
			fmt.Printf("%s|%s|%s|%s\n", fnName(f), s, typs[i].Obj().Name(), strings.Join(cs, ";"))
		}
	}
}

func answerOf(b string) string {
	switch b {
	case " => true":
		return "true"
	case " => false":
		return "false"
	}
	return ""
}

func (t *c21) baseline() {
	fns := map[string]*ssa.Function{}
	for _, f := range t.w.Funcs {
		fns[fnName(f)] = f
	}
	for _, line := range strings.Split(c21Baseline, "\n") {
		p := strings.Split(strings.TrimSpace(line), "|")
		if len(p) != 4 || strings.HasPrefix(line, "#") {
			continue
		}
		f := fns[p[0]]
		if f == nil {
			continue // no such operation any more: nothing to tell apart (the floor guards the number)
		}
		slots, typs := t.slotsOf(f)
		var typ *types.Named
		for i, s := range slots {
			if s == p[1] && typs[i].Obj().Name() == p[2] {
				typ = typs[i]
			}
		}
		if typ == nil {
			continue
		}
		t.distinguish(f, p[1], typ, p[3])
	}
}

func (t *c21) distinguish(f *ssa.Function, slot string, typ *types.Named, spec string) {
	class := map[string]int{}
	want := map[string]string{}
	total := true
	for i, c := range strings.Split(spec, ";") {
		if a, rest, ok := strings.Cut(c, ":"); ok {
			for _, n := range strings.Split(rest, ",") {
				want[n] = a
			}
			c = rest
		}
		ns := strings.Split(c, ",")
		total = total && len(ns) == 1
		for _, n := range ns {
			class[n] = i + 1
		}
	}
	site := fnName(f) + " " + typ.Obj().Name()
	seen := map[string]enumVal{}
	cls := map[string]int{}
	var fresh []enumVal
	for _, v := range enumValues(t.w, typ) {
		id := 0
		for _, n := range v.names {
			if class[n] != 0 {
				id = class[n]
			}
		}
		b, ok := t.behaviour(f, map[string]*Term{slot: tConst(v.val, typ)})
		if !ok {
			continue
		}
		if id == 0 {
			fresh = append(fresh, v)
			continue
		}
		for _, n := range v.names {
			if a := want[n]; a != "" {
				t.r.Check(answerOf(b) == "" || answerOf(b) == a, "answer", site+" "+v.name(), t.w.Pos(f.Pos()), "%s answers %s for %s, which it should not", fnName(f), answerOf(b), v.name())
				break
			}
		}
		if old, ok := seen[b]; ok && cls[b] != id {
			t.r.Bad("distinguish", site+" "+old.name()+" "+v.name(), t.w.Pos(f.Pos()), "%s treats %s and %s alike", fnName(f), old.name(), v.name())
			continue
		}
		seen[b], cls[b] = v, id
		t.r.OK("distinguish", site+" "+v.name())
	}
	if !total || len(fresh) == 0 {
		return
	}
	out, ok := t.behaviour(f, map[string]*Term{slot: t.undeclared(typ)})
	for _, v := range fresh {
		b, ok2 := t.behaviour(f, map[string]*Term{slot: tConst(v.val, typ)})
		if !ok || !ok2 {
			continue
		}
		old, dup := seen[b]
		switch {
		case dup:
			t.r.Bad("distinguish", site+" "+v.name(), t.w.Pos(f.Pos()), "%s treats %s and %s alike", fnName(f), old.name(), v.name())
		default:
			t.r.Check(b != out, "distinguish", site+" "+v.name(), t.w.Pos(f.Pos()), "%s does not handle %s: it is treated like a value that does not exist", fnName(f), v.name())
		}
	}
}

// undeclared is a value of the type that no constant has.
func (t *c21) undeclared(typ *types.Named) *Term {
	if b := typ.Underlying().(*types.Basic); b.Info()&types.IsString != 0 {
		return tConst(constant.MakeString("no such value"), typ)
	}
	n := int64(1)
	for _, v := range enumValues(t.w, typ) {
		if k, ok := constant.Int64Val(constant.ToInt(v.val)); ok && k >= n {
			n = k + 1
		}
	}
	if n > 127 && sizeOf(typ.Underlying().(*types.Basic)) == 1 {
		n = 200
	}
	return tConst(constant.MakeInt64(n), typ)
}

// names: String of every enumeration.
func (t *c21) names() {
	for _, n := range t.w.enums() {
		f := t.w.Method(n, "String")
		if f == nil {
			continue
		}
		get := func(v *Term) (string, bool) {
			ev := NewTEval(t.w)
			outs := ev.Run(f, []*Term{v}, nil, newTState())
			if ev.Blown || len(outs) != 1 || outs[0].panic {
				return "", false
			}
			return outs[0].ret.isStr()
		}
		site := typeName(n)
		other, oks := get(t.undeclared(n))
		if _, set := flagBits(t.w, n); set {
			oks = false // every number is a combination of flags
		}
		seen := map[string]enumVal{}
		for _, v := range enumValues(t.w, n) {
			s, ok := get(tConst(v.val, n))
			if !ok {
				t.r.Bad("name", site+" "+v.name(), t.w.Pos(f.Pos()), "the name of %s is not a constant text", v.name())
				continue
			}
			if old, ok := seen[s]; ok {
				t.r.Bad("name", site+" "+v.name(), t.w.Pos(f.Pos()), "%s and %s are both called %q", old.name(), v.name(), s)
				continue
			}
			seen[s] = v
			if oks && s == other && !strings.Contains(v.name(), "Unknown") && !strings.Contains(v.name(), "None") {
				t.r.Bad("name", site+" "+v.name(), t.w.Pos(f.Pos()), "%s has the name of an undeclared value, %q", v.name(), s)
				continue
			}
			t.r.Check(s != "", "name", site+" "+v.name(), t.w.Pos(f.Pos()), "%s has no name", v.name())
		}
		// sets of flags: every combination has its own name
		if flags, ok := flagBits(t.w, n); ok {
			seen := map[string]int64{}
			for m := int64(0); m < 1<<len(flags); m++ {
				x := int64(0)
				for i, b := range flags {
					if m>>i&1 == 1 {
						x |= b
					}
				}
				s, ok := get(tConst(constant.MakeInt64(x), n))
				old, dup := seen[s]
				t.r.Check(ok && !dup, "name", fmt.Sprintf("%s combination %d", site, x), t.w.Pos(f.Pos()), "the flag combinations %d and %d are both called %q", old, x, s)
				seen[s] = x
			}
		}
	}
	// key events: type and modifiers
	for _, p := range []string{"tea/internal/domain/model"} {
		n := t.w.NamedType(p, "KeyMsg")
		if n == nil {
			t.r.Bad("name", p+".KeyMsg", "", "type not found")
			continue
		}
		f := t.w.Method(n, "String")
		kt := t.w.NamedType(p, "KeyType")
		if f == nil || kt == nil {
			t.r.Bad("name", p+".KeyMsg", "", "KeyMsg.String or KeyType not found")
			continue
		}
		s := n.Underlying().(*types.Struct)
		seen := map[string]string{}
		for _, v := range enumValues(t.w, kt) {
			for m := 0; m < 8; m++ {
				k := &Term{op: "struct", t: n}
				label := v.names[0]
				bit := 0
				for j := 0; j < s.NumFields(); j++ {
					switch ft := s.Field(j).Type(); {
					case types.Identical(ft, kt):
						k.args = append(k.args, tConst(v.val, kt))
					case ft.Underlying() == types.Typ[types.Bool]:
						on := m>>bit&1 == 1
						bit++
						if on {
							label += "+" + s.Field(j).Name()
						}
						k.args = append(k.args, tBool(on))
					default:
						k.args = append(k.args, tConst(constant.MakeInt64('q'), ft))
					}
				}
				// Shift is part of the character itself, control-c is a key of its own.
				if v.names[0] == "KeyRune" && strings.Contains(label, "+Shift") || v.names[0] == "KeyCtrlC" && m != 0 {
					continue
				}
				ev := NewTEval(t.w)
				outs := ev.Run(f, []*Term{k}, nil, newTState())
				if ev.Blown || len(outs) != 1 || outs[0].panic {
					t.r.Bad("name", "KeyMsg "+label, t.w.Pos(f.Pos()), "the name of the key event is not decided: %d paths", len(outs))
					continue
				}
				got := outs[0].ret.key()
				old, dup := seen[got]
				t.r.Check(!dup, "name", "KeyMsg "+label, t.w.Pos(f.Pos()), "the key events %s and %s are both called %s", old, label, got)
				seen[got] = label
			}
		}
	}
}

// flagBits: the values of n are combined with |.
func flagBits(w *World, n *types.Named) ([]int64, bool) {
	var bits []int64
	if !strings.HasSuffix(n.Obj().Name(), "Modifiers") {
		return nil, false
	}
	for _, v := range enumValues(w, n) {
		k, ok := constant.Int64Val(v.val)
		if !ok || k&(k-1) != 0 {
			return nil, false
		}
		if k != 0 {
			bits = append(bits, k)
		}
	}
	return bits, true
}

// actions: what a key is bound to has an effect of its own.
func (t *c21) actions() {
	for _, n := range t.w.enums() {
		path := relPath(n.Obj().Pkg().Path())
		if !strings.HasPrefix(path, "components/") || !strings.HasSuffix(n.Obj().Name(), "Action") {
			continue
		}
		comp := strings.Join(strings.Split(path, "/")[:2], "/")
		var update *ssa.Function
		for _, f := range t.w.Funcs {
			if relPath(pkgOf(f)) == comp && f.Name() == "Update" && f.Signature.Recv() != nil && f.Parent() == nil && len(f.Params) == 2 {
				update = f
			}
		}
		keyMsg := t.w.NamedType("tea/internal/domain/model", "KeyMsg")
		if update == nil {
			t.r.Bad("action", typeName(n), "", "%s has no Update", comp)
			continue
		}
		if k := t.w.NamedType("tea", "KeyMsg"); k != nil {
			keyMsg = k
		}
		site := fnName(update)
		seen := map[string]enumVal{}
		for _, v := range enumValues(t.w, n) {
			ev := NewTEval(t.w)
			ev.Budget = 1000000
			used := false
			ev.Model = func(ev *TEval, st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool) {
				if rs := c.Signature().Results(); rs.Len() == 1 && types.Identical(rs.At(0).Type(), n) {
					used = true
					return []TOut{{st: st, ret: tConst(v.val, n)}}, true
				}
				return nil, false
			}
			msg := &Term{op: "iface", t: keyMsg, args: []*Term{t.symStruct("key", keyMsg)}}
			b, ok := summary(ev, ev.Run(update, []*Term{tSym("!component"), msg}, nil, newTState()))
			if !ok || !used {
				t.r.Bad("action", site+" "+v.name(), t.w.Pos(update.Pos()), "what %s does to %s is not decided (%s)", v.name(), comp, cut(b))
				continue
			}
			old, dup := seen[b]
			t.r.Check(!dup, "action", site+" "+v.name(), t.w.Pos(update.Pos()), "%s and %s have the same effect in %s", old.name(), v.name(), site)
			seen[b] = v
		}
	}
}

func (t *c21) symStruct(name string, n *types.Named) *Term {
	s := n.Underlying().(*types.Struct)
	v := &Term{op: "struct", t: n}
	for i := 0; i < s.NumFields(); i++ {
		v.args = append(v.args, tSym(name+"."+s.Field(i).Name()))
	}
	return v
}

// stem is a constant's name without its type's.
func stem(name string) string {
	for i := 1; i < len(name); i++ {
		if name[i] >= 'A' && name[i] <= 'Z' {
			return name[i:]
		}
	}
	return name
}

// converts: functions from one enumeration to another of the same name.
func (t *c21) converts() {
	for _, f := range t.w.Funcs {
		sig := f.Signature
		if f.Parent() != nil || f.Synthetic != "" || sig.Results().Len() != 1 || len(f.Blocks) == 0 {
			continue
		}
		to, ok := sig.Results().At(0).Type().(*types.Named)
		if !ok {
			continue
		}
		dst := enumValues(t.w, to)
		if len(dst) < 2 {
			continue
		}
		for i, p := range f.Params {
			from, ok := p.Type().(*types.Named)
			if !ok || from == to || from.Obj().Name() != to.Obj().Name() {
				continue
			}
			for _, v := range enumValues(t.w, from) {
				ev := NewTEval(t.w)
				args := tParams(f)
				args[i] = tConst(v.val, from)
				outs := ev.Run(f, args, nil, newTState())
				var want *enumVal
				for j := range dst {
					for _, a := range dst[j].names {
						for _, b := range v.names {
							if a == b {
								want = &dst[j]
							}
						}
					}
				}
				good := want != nil && !ev.Blown && len(outs) > 0
				for _, o := range outs {
					good = good && !o.panic && o.ret.isConst() && want != nil && constant.Compare(o.ret.c, token.EQL, want.val)
				}
				t.r.Check(good, "convert", fnName(f)+" "+v.name(), t.w.Pos(f.Pos()), "%s does not turn %s into the value of the same name", fnName(f), v.name())
			}
		}
	}
	// enumerations declared twice under one name, one per layer
	by := map[string][]*types.Named{}
	for _, n := range t.w.enums() {
		path := relPath(n.Obj().Pkg().Path())
		mod := strings.Split(path, "/")[0]
		if mod == "components" {
			mod = strings.Join(strings.Split(path, "/")[:2], "/")
		}
		by[mod+"."+n.Obj().Name()] = append(by[mod+"."+n.Obj().Name()], n)
	}
	for _, k := range sortedKeys(by) {
		for _, a := range by[k][1:] {
			b := by[k][0]
			bn := map[string]constant.Value{}
			for _, v := range enumValues(t.w, b) {
				for _, x := range v.names {
					bn[x] = v.val
				}
			}
			for _, v := range enumValues(t.w, a) {
				for _, x := range v.names {
					o, ok := bn[x]
					t.r.Check(ok && constant.Compare(o, token.EQL, v.val), "convert", typeName(a)+"."+x, v.pos, "%s.%s and %s.%s are not the same value", typeName(a), x, typeName(b), x)
				}
			}
		}
	}
}

// keyTable: the standard sequences (ECMA-48, xterm and VT220) and the key each stands for.
var keyTable = []struct{ seq, key string }{
	{"\r", "KeyEnter"}, {"\n", "KeyEnter"}, {"\x7f", "KeyBackspace"}, {"\b", "KeyBackspace"}, {"\t", "KeyTab"}, {"\x1b", "KeyEsc"}, {" ", "KeySpace"},
	{"\x1b[A", "KeyUp"}, {"\x1b[B", "KeyDown"}, {"\x1b[C", "KeyRight"}, {"\x1b[D", "KeyLeft"}, {"\x1b[H", "KeyHome"}, {"\x1b[F", "KeyEnd"},
	{"\x1b[1~", "KeyHome"}, {"\x1b[2~", "KeyInsert"}, {"\x1b[3~", "KeyDelete"}, {"\x1b[4~", "KeyEnd"}, {"\x1b[5~", "KeyPgUp"}, {"\x1b[6~", "KeyPgDown"},
	{"\x1bOP", "KeyF1"}, {"\x1bOQ", "KeyF2"}, {"\x1bOR", "KeyF3"}, {"\x1bOS", "KeyF4"},
	{"\x1b[15~", "KeyF5"}, {"\x1b[17~", "KeyF6"}, {"\x1b[18~", "KeyF7"}, {"\x1b[19~", "KeyF8"}, {"\x1b[20~", "KeyF9"}, {"\x1b[21~", "KeyF10"}, {"\x1b[23~", "KeyF11"}, {"\x1b[24~", "KeyF12"},
}

type keyOut struct {
	ok                     bool
	typ, r, alt, ctl, shft *Term
}

// parseKey evaluates the decoder on one complete sequence.
func (t *c21) parseKey(f *ssa.Function, msg *types.Named, seq []*Term) (outs []keyOut, decided bool) {
	ev := NewTEval(t.w)
	st := newTState()
	arg := ev.newSlice(st, seq, types.Typ[types.Byte])
	args := []*Term{tSym("!parser"), arg}
	s := msg.Underlying().(*types.Struct)
	for _, o := range ev.Run(f, args, nil, st) {
		if o.panic || o.ret.op != "tuple" || len(o.ret.args) != 2 {
			return nil, false
		}
		b, ok := o.ret.args[1].isBool()
		if !ok {
			return nil, false
		}
		k := o.ret.args[0]
		g := func(n string) *Term { return k.field(fieldIndex(s, n), s) }
		outs = append(outs, keyOut{b, g("Type"), g("Rune"), g("Alt"), g("Ctrl"), g("Shift")})
	}
	return outs, !ev.Blown && len(outs) > 0
}

func byteTerms(s string) []*Term {
	var out []*Term
	for i := 0; i < len(s); i++ {
		out = append(out, tConst(constant.MakeInt64(int64(s[i])), types.Typ[types.Byte]))
	}
	return out
}

func (t *c21) keys() {
	msg, kt := t.w.NamedType("tea/internal/domain/model", "KeyMsg"), t.w.NamedType("tea/internal/domain/model", "KeyType")
	f := t.w.Func("(*tea/internal/infrastructure/ansi.Parser).ParseKey")
	if msg == nil || kt == nil || f == nil {
		t.r.Bad("decode", "key parser", "", "the key parser or its types were not found")
		return
	}
	val := map[string]constant.Value{}
	name := map[string]string{}
	for _, v := range enumValues(t.w, kt) {
		for _, n := range v.names {
			val[n] = v.val
		}
		name[v.val.ExactString()] = v.name()
	}
	has := map[string]bool{"KeyRune": true, "KeyCtrlC": true} // runes, and the alias of control-c
	show := func(o keyOut) string {
		if !o.ok {
			return "nothing"
		}
		if n := name[o.typ.key()]; n != "" {
			return n
		}
		return o.typ.key()
	}
	for _, row := range keyTable {
		has[row.key] = true
		outs, ok := t.parseKey(f, msg, byteTerms(row.seq))
		site := fmt.Sprintf("%q", row.seq)
		if !ok {
			t.r.Bad("decode", site, t.w.Pos(f.Pos()), "what %q decodes to is not decided", row.seq)
			continue
		}
		good := true
		got := ""
		for _, o := range outs {
			got = show(o)
			plain := o.alt.key() == "false" && o.ctl.key() == "false" && o.shft.key() == "false"
			good = good && o.ok && plain && val[row.key] != nil && o.typ.isConst() && constant.Compare(o.typ.c, token.EQL, val[row.key])
		}
		t.r.Check(good, "decode", site, t.w.Pos(f.Pos()), "the sequence %q stands for %s but decodes to %s", row.seq, row.key, got)
	}
	for _, v := range enumValues(t.w, kt) {
		ok := false
		for _, n := range v.names {
			ok = ok || has[n]
		}
		if !ok {
			t.r.Bad("decode", v.name(), v.pos, "no key sequence is known for %s", v.name())
		}
	}
	// single bytes: control letters and printable characters
	for b := 1; b < 127; b++ {
		if b == '\b' || b == '\t' || b == '\n' || b == '\r' || b == 0x1b || b == ' ' || b > 26 && b < 32 {
			continue
		}
		outs, ok := t.parseKey(f, msg, byteTerms(string([]byte{byte(b)})))
		good := ok
		for _, o := range outs {
			want, ctl := int64(b), "false"
			if b <= 26 {
				want, ctl = int64('a'+b-1), "true"
			}
			if b == 3 && o.ok && o.typ.isConst() && name[o.typ.key()] == "KeyCtrlC" {
				continue
			}
			r, isInt := o.r.isInt()
			good = good && o.ok && name[o.typ.key()] == "KeyRune" && isInt && r == want && o.ctl.key() == ctl && o.alt.key() == "false" && o.shft.key() == "false"
		}
		t.r.Check(good, "decode", fmt.Sprintf("byte %#x", b), t.w.Pos(f.Pos()), "the byte %#x does not decode to its character", b)
	}
}

// reader: the input reader hands whole sequences to the decoder and keeps what follows.
func (t *c21) reader() {
	f := t.w.Func("(*tea/internal/infrastructure/input.Reader).Read")
	msg, kt := t.w.NamedType("tea/internal/domain/model", "KeyMsg"), t.w.NamedType("tea/internal/domain/model", "KeyType")
	if f == nil || msg == nil || kt == nil {
		t.r.Bad("decode", "reader", "", "the input reader was not found")
		return
	}
	val := map[string]constant.Value{}
	for _, v := range enumValues(t.w, kt) {
		for _, n := range v.names {
			val[n] = v.val
		}
	}
	s := msg.Underlying().(*types.Struct)
	type row struct {
		input, key string
		used       int
		r          string
	}
	var rows []row
	for _, k := range keyTable {
		rows = append(rows, row{k.seq, k.key, len(k.seq), ""})
		if k.seq != "\x1b" {
			rows = append(rows, row{k.seq + "z", k.key, len(k.seq), ""}, row{k.seq + "\x1b[A", k.key, len(k.seq), ""}, row{k.seq + "\x1bOP", k.key, len(k.seq), ""})
		}
	}
	for b := 0x21; b < 0x7f; b++ {
		rows = append(rows, row{string([]byte{byte(b)}) + "z", "KeyRune", 1, fmt.Sprint(b)})
	}
	for _, x := range []string{"\u00e9", "\u20ac", "\U0001f600"} {
		rows = append(rows, row{x + "z", "KeyRune", len(x), fmt.Sprint([]rune(x)[0])})
	}
	for _, rw := range rows {
		ev := NewTEval(t.w)
		pos := func(st *TState) int {
			if p := st.mem["#pos"]; p != nil {
				n, _ := p.isInt()
				return int(n)
			}
			return 0
		}
		move := func(st *TState, d int) *TState {
			n := st.clone()
			n.mem["#pos"] = tInt(int64(pos(st) + d))
			return n
		}
		ev.Model = func(ev *TEval, st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool) {
			p := pos(st)
			eof := tSym("!EOF")
			one := func(st *TState, r *Term) ([]TOut, bool) { return []TOut{{st: st, ret: r}}, true }
			switch name {
			case "(*bufio.Reader).ReadByte":
				if p >= len(rw.input) {
					return one(st, tTuple(tConst(constant.MakeInt64(0), types.Typ[types.Byte]), eof))
				}
				return one(move(st, 1), tTuple(tConst(constant.MakeInt64(int64(rw.input[p])), types.Typ[types.Byte]), tNil))
			case "(*bufio.Reader).Buffered":
				return one(st, tInt(int64(len(rw.input)-p)))
			case "(*bufio.Reader).UnreadByte":
				return one(move(st, -1), tNil)
			case "(*bufio.Reader).ReadRune":
				for i, r := range rw.input[p:] {
					if i == 0 {
						n := len(string(r))
						return one(move(st, n), tTuple(tConst(constant.MakeInt64(int64(r)), types.Typ[types.Rune]), tInt(int64(n)), tNil))
					}
				}
				return one(st, tTuple(tInt(0), tInt(0), eof))
			case "(*bufio.Reader).Peek":
				if n, ok := args[1].isInt(); ok && p+int(n) <= len(rw.input) {
					return one(st, tTuple(ev.newSlice(st, byteTerms(rw.input[p:p+int(n)]), types.Typ[types.Byte]), tNil))
				}
				return one(st, tTuple(tNil, eof))
			case "(*bufio.Reader).Discard":
				if n, ok := args[1].isInt(); ok {
					return one(move(st, int(n)), tTuple(args[1], tNil))
				}
			}
			return nil, false
		}
		site := fmt.Sprintf("reading %q", rw.input)
		outs := ev.Run(f, []*Term{tSym("!reader")}, nil, newTState())
		if ev.Blown || len(outs) == 0 {
			t.r.Bad("decode", site, t.w.Pos(f.Pos()), "not decided (%d paths)", len(outs))
			continue
		}
		why := ""
		for _, o := range outs {
			if o.panic || o.ret.op != "tuple" || len(o.ret.args) != 2 {
				why = "the reader panics"
				break
			}
			m := o.ret.args[0]
			if m.op != "iface" || !types.Identical(m.t, msg) {
				why = "no key is reported (" + cut(m.key()) + ")"
				break
			}
			k := m.args[0]
			typ, r := k.field(fieldIndex(s, "Type"), s), k.field(fieldIndex(s, "Rune"), s)
			if !typ.isConst() || val[rw.key] == nil || !constant.Compare(typ.c, token.EQL, val[rw.key]) || rw.r != "" && r.key() != rw.r {
				why = "the key reported is " + cut(k.key())
				break
			}
			if pos(o.st) != rw.used {
				why = fmt.Sprintf("%d bytes are consumed instead of %d", pos(o.st), rw.used)
				break
			}
		}
		t.r.Check(why == "", "decode", site, t.w.Pos(f.Pos()), "reading %q should report %s: %s", rw.input, rw.key, why)
	}
}

// images: format names, MIME types, magic numbers and encoders.
func (t *c21) images() {
	n := t.w.NamedType("clipboard/internal/domain/service", "ImageCodec")
	if n == nil {
		t.r.Bad("codec", "ImageCodec", "", "the image codec was not found")
		return
	}
	pt := types.NewPointer(n)
	method := func(name string) *ssa.Function { return t.w.Method(pt, name) }
	run := func(f *ssa.Function, format string, extra ...*Term) (rets []*Term, calls []string, ok bool) {
		ev := NewTEval(t.w)
		st := newTState()
		ev.Model = func(ev *TEval, st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool) {
			switch {
			case name == "image.Decode" && format != "", name == "image.DecodeConfig" && format != "":
				return []TOut{{st: st, ret: tTuple(tSym("!image"), tStr(format), tNil)}}, true
			case strings.HasPrefix(name, "image/"), strings.Contains(name, "/bmp."):
				m := st.clone()
				m.events = append(m.events, Event{what: "call", name: name, at: at, fn: at.Parent()})
				if c.Signature().Results().Len() == 1 {
					return []TOut{{st: m, ret: tNil}}, true
				}
				return []TOut{{st: m, ret: tTuple(tSym("!image"), tNil)}}, true
			}
			return nil, false
		}
		args := []*Term{tSym("!codec")}
		for _, x := range extra {
			if x.op == "cat" {
				x = ev.newSlice(st, x.args, types.Typ[types.Byte])
			}
			args = append(args, x)
		}
		for _, o := range ev.Run(f, args, nil, st) {
			if o.panic {
				return nil, nil, false
			}
			// paths that fail are not the answer
			if o.ret.op == "tuple" {
				if e := o.ret.args[len(o.ret.args)-1]; e.key() != "nil" {
					if v, known := ev.decide(o.st, ev.equal(o.st, e, tNil)); !known || !v {
						continue
					}
				}
				rets = append(rets, o.ret.args[:len(o.ret.args)-1]...)
			}
			for _, e := range o.st.events {
				if e.what == "call" {
					calls = append(calls, e.name)
				}
			}
		}
		return rets, calls, !ev.Blown
	}
	data := func(head ...byte) *Term {
		x := &Term{op: "cat"}
		for i := 0; i < 32; i++ {
			if i < len(head) {
				x.args = append(x.args, tConst(constant.MakeInt64(int64(head[i])), types.Typ[types.Byte]))
			} else {
				x.args = append(x.args, tSym(fmt.Sprintf("byte%d", i)))
			}
		}
		return x
	}
	mime := map[string]bool{}
	if mt := t.w.NamedType("clipboard/internal/domain/value", "MIMEType"); mt != nil {
		for _, v := range enumValues(t.w, mt) {
			mime[constant.StringVal(v.val)] = true
		}
	}
	last := func(rs []*Term, want string) bool {
		ok := false
		for _, r := range rs {
			if s, is := r.isStr(); is {
				if s != want {
					return false
				}
				ok = true
			}
		}
		return ok
	}
	magic := map[string][]byte{"png": {0x89, 'P', 'N', 'G', '\r', '\n', 0x1a, '\n'}, "jpeg": {0xff, 0xd8, 0xff, 0xe0}, "gif": {'G', 'I', 'F', '8', '9', 'a'}, "bmp": {'B', 'M'}}
	for _, k := range sortedKeys(magic) {
		want := "image/" + k
		if !mime[want] {
			continue
		}
		for _, m := range []string{"Decode", "DetectFormat"} {
			f := method(m)
			if f == nil {
				t.r.Bad("codec", m, "", "ImageCodec.%s not found", m)
				continue
			}
			rs, _, ok := run(f, k, data(0, 1, 2, 3))
			t.r.Check(ok && last(rs, want), "codec", m+" of format "+k, t.w.Pos(f.Pos()), "%s does not report %s for an image of format %s", m, want, k)
			if m == "DetectFormat" {
				rs, _, ok := run(f, k, data(magic[k]...))
				t.r.Check(ok && last(rs, want), "codec", m+" of magic "+k, t.w.Pos(f.Pos()), "%s does not report %s for data that begins like %s", m, want, k)
			}
		}
		only := func(calls []string, verb string) bool {
			n := 0
			for _, c := range calls {
				if strings.HasSuffix(c, "."+verb) {
					if !strings.HasPrefix(c, "image/"+k+".") {
						return false
					}
					n++
				}
			}
			return n > 0
		}
		if f := method("ConvertFormat"); f != nil {
			_, calls, ok := run(f, "png", data(0, 1), tStr(want))
			if k != "bmp" {
				t.r.Check(ok && only(calls, "Encode"), "codec", "ConvertFormat to "+k, t.w.Pos(f.Pos()), "ConvertFormat does not encode %s with image/%s (it calls %s)", want, k, strings.Join(calls, ", "))
			}
		}
		for _, verb := range []string{"Encode", "Decode"} {
			f := method(verb + strings.ToUpper(k))
			if f == nil {
				continue
			}
			args := []*Term{tSym("!image")}
			if verb == "Decode" {
				args = []*Term{data(1, 2)}
			}
			for len(args) < len(f.Params)-1 {
				args = append(args, tSym("quality"))
			}
			_, calls, ok := run(f, "", args...)
			t.r.Check(ok && only(calls, verb), "codec", f.Name(), t.w.Pos(f.Pos()), "%s does not use image/%s (it calls %s)", f.Name(), k, strings.Join(calls, ", "))
		}
	}
}
