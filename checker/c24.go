package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C24"] = checkC24 }

// A mouse protocol: how a report with button code cb and 1-based coordinates X, Y looks.
type mouseProto struct {
	name     string
	max      int // largest button code it can carry
	sequence func(cb int, press bool) *Term
	release  bool // tells press from release
	format   string
}

func mouseProtos() []mouseProto {
	x, y := tSym("X"), tSym("Y")
	end := func(press bool) *Term {
		if press {
			return tStr("M")
		}
		return tStr("m")
	}
	return []mouseProto{
		{"SGR", 255, func(cb int, press bool) *Term {
			return tCat(tStr(fmt.Sprintf("\x1b[<%d;", cb)), tOp("decimal", x), tStr(";"), tOp("decimal", y), end(press))
		}, true, "SGRParser"},
		{"URxvt", 255, func(cb int, press bool) *Term {
			return tCat(tStr(fmt.Sprintf("\x1b[%d;", cb)), tOp("decimal", x), tStr(";"), tOp("decimal", y), tStr("M"))
		}, false, "URxvtParser"},
		{"X10", 223, func(cb int, press bool) *Term {
			return tCat(tStr("\x1b[M"+string([]byte{byte(cb + 32)})), tOp("byte", tOp("+", x, tInt(32))), tOp("byte", tOp("+", y, tInt(32))))
		}, false, "X10Parser"},
	}
}

type mouseDecode struct {
	events []mouseEv
	err    string
}

type mouseEv struct{ kind, button, mods, x, y *Term }

func (e mouseEv) String() string {
	return fmt.Sprintf("type %s button %s modifiers %s at (%s, %s)", e.kind, e.button, e.mods, e.x, e.y)
}

// linear normalises a term of the form conversions(x + constants).
func linear(t *Term) (string, int64, bool) {
	if n, ok := t.isInt(); ok {
		return "", n, true
	}
	if t.op == "op" && strings.HasPrefix(t.name, "convert ") && len(t.args) == 1 {
		return linear(t.args[0])
	}
	if t.op == "op" && t.name == "+" && len(t.args) == 2 {
		a, n, ok := linear(t.args[0])
		b, m, ok2 := linear(t.args[1])
		if ok && ok2 && (a == "" || b == "") {
			return a + b, n + m, true
		}
	}
	if t.op == "op" && t.name == "-" && len(t.args) == 2 {
		a, n, ok := linear(t.args[0])
		b, m, ok2 := linear(t.args[1])
		if ok && ok2 && b == "" {
			return a, n - m, true
		}
	}
	return t.key(), 0, true
}

type c24 struct {
	w     *World
	r     *Report
	entry *ssa.Function
	event *types.Named
	n     int
}

func checkC24(c *Ctx, r *Report) {
	r.Rule("spec", "each decoder turns the button and modifier bits of a plain press, release or wheel report into the button, modifiers and kind of event the protocol defines")
	r.Rule("agree", "for every button code a protocol can carry, its decoder gives the same button, modifiers and wheel or button class as the SGR decoder")
	r.Rule("position", "for every button code, the decoded position is the report's minus one in both coordinates, column from column and row from row")
	r.Rule("encode", "what an encoder writes for an event is decoded to the same button, modifiers and position")
	r.Assume = append(r.Assume, "coordinates are symbolic; button codes are enumerated; a byte coordinate is assumed not to wrap around")
	w := c.Linux()
	t := &c24{w: w, r: r}
	t.entry = w.Func("(*mouse.Mouse).ParseSequence")
	if t.entry == nil {
		r.Bad("spec", "ParseSequence", "-", "the operation (*mouse.Mouse).ParseSequence was not found")
		return
	}
	if sl, ok := t.entry.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
		t.event, _ = types.Unalias(sl.Elem()).(*types.Named)
	}
	if t.event == nil {
		r.Bad("spec", "ParseSequence", "-", "ParseSequence does not return mouse events")
		return
	}
	t.run()
	t.encoders()
	r.Floor("spec", 60)
	r.Floor("agree", 200)
	r.Floor("position", 300)
	r.Floor("encode", 24)
	r.Units["decodings"] = t.n
}

// named constants of the enumeration a field has
func (t *c24) value(typ types.Type, name string) *Term {
	n := types.Unalias(typ).(*types.Named)
	for _, c := range enumConsts(n) {
		if c.name == name {
			return tConst(c.c.Val(), n)
		}
	}
	return tSym("no constant " + name)
}

// decode runs ParseSequence on the sequence and reads the events through the event's own getters.
func (t *c24) decode(seq *Term) []mouseDecode {
	t.n++
	ev := NewTEval(t.w)
	ev.Budget = 100000
	outs := ev.Run(t.entry, []*Term{tSym("!mouse"), seq}, nil, newTState())
	var res []mouseDecode
	if ev.Blown {
		return []mouseDecode{{err: "not decided: too many paths"}}
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		if o.ret.op != "tuple" || len(o.ret.args) != 2 {
			return []mouseDecode{{err: "not decided: result " + cut(o.ret.key())}}
		}
		if o.ret.args[1].op != "nil" {
			if o.ret.args[0].op == "nil" {
				res = append(res, mouseDecode{err: "rejected: " + cut(o.ret.args[1].key())})
				continue
			}
			return []mouseDecode{{err: "not decided: error " + cut(o.ret.args[1].key())}}
		}
		es, ok := ev.elems(o.st, o.ret.args[0])
		if !ok {
			return []mouseDecode{{err: "not decided: events " + cut(o.ret.args[0].key())}}
		}
		d := mouseDecode{}
		for _, e := range es {
			m, err := t.read(ev, o.st, e)
			if err != "" {
				return []mouseDecode{{err: err}}
			}
			d.events = append(d.events, m)
		}
		res = append(res, d)
	}
	return res
}

func (t *c24) get(ev *TEval, st *TState, recv *Term, typ types.Type, name string) *Term {
	sel := t.w.Prog.MethodSets.MethodSet(typ).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f := unwrap(t.w.Prog.MethodValue(sel))
	outs := ev.Run(f, []*Term{recv}, nil, st)
	if len(outs) != 1 || outs[0].panic {
		return nil
	}
	return outs[0].ret
}

func (t *c24) read(ev *TEval, st *TState, e *Term) (mouseEv, string) {
	var m mouseEv
	m.kind = t.get(ev, st, e, t.event, "Type")
	m.button = t.get(ev, st, e, t.event, "Button")
	m.mods = t.get(ev, st, e, t.event, "Modifiers")
	p := t.get(ev, st, e, t.event, "Position")
	if p != nil {
		pt := t.w.Prog.MethodSets.MethodSet(t.event).Lookup(nil, "Position").Type().(*types.Signature).Results().At(0).Type()
		m.x = t.get(ev, st, p, pt, "X")
		m.y = t.get(ev, st, p, pt, "Y")
	}
	if m.kind == nil || m.button == nil || m.mods == nil || m.x == nil || m.y == nil {
		return m, "not decided: event " + cut(e.key())
	}
	return m, ""
}

func (t *c24) run() {
	w := t.w
	ms := w.Prog.MethodSets.MethodSet(t.event)
	typeOf := func(m string) types.Type {
		s := ms.Lookup(nil, m)
		if s == nil {
			return nil
		}
		return s.Type().(*types.Signature).Results().At(0).Type()
	}
	if typeOf("Button") == nil || typeOf("Modifiers") == nil || typeOf("Type") == nil || typeOf("Position") == nil {
		t.r.Bad("spec", "event", "-", "the mouse event has lost one of Type, Button, Modifiers, Position")
		return
	}
	shift, _ := t.value(typeOf("Modifiers"), "ModifierShift").isInt()
	alt, _ := t.value(typeOf("Modifiers"), "ModifierAlt").isInt()
	ctrl, _ := t.value(typeOf("Modifiers"), "ModifierCtrl").isInt()
	if shift == 0 || alt == 0 || ctrl == 0 || shift == alt || alt == ctrl || shift == ctrl {
		t.r.Bad("spec", "modifiers", "-", "the modifier constants are not distinct bits")
		return
	}
	spec := map[int]string{0: "ButtonLeft", 1: "ButtonMiddle", 2: "ButtonRight", 64: "ButtonWheelUp", 65: "ButtonWheelDown"}
	wheel := map[string]bool{"ButtonWheelUp": true, "ButtonWheelDown": true}
	pos := t.w.Pos(t.entry.Pos())
	sgr := map[int]mouseEv{}
	for _, p := range mouseProtos() {
		type agg struct{ first, n int }
		for cb := 0; cb <= p.max; cb++ {
			for _, press := range []bool{true, false} {
				if !press && !p.release {
					continue
				}
				site := fmt.Sprintf("%s code %d", p.name, cb)
				if !press {
					site += " release"
				}
				seq := p.sequence(cb, press)
				ds := t.decode(seq)
				var first *mouseEv
				bad := ""
				for _, d := range ds {
					if d.err != "" {
						bad = d.err
						break
					}
					if len(d.events) == 0 {
						bad = "the report produces no event"
						break
					}
					for i := range d.events {
						e := d.events[i]
						if first == nil {
							first = &d.events[len(d.events)-1]
						}
						for _, c := range []struct {
							n string
							v *Term
							s string
						}{{"column", e.x, "X"}, {"row", e.y, "Y"}} {
							s, k, ok := linear(c.v)
							if !ok || s != c.s || k != -1 {
								bad = fmt.Sprintf("%s is decoded as %s instead of the report's %s minus one", c.n, cut(c.v.key()), c.n)
							}
						}
						if e.button.key() != first.button.key() || e.mods.key() != first.mods.key() {
							bad = "the events of one report disagree: " + e.String() + ", " + first.String()
						}
					}
				}
				if first == nil && bad == "" {
					bad = "not decided: no path returns"
				}
				if bad != "" {
					t.r.Bad("position", site, pos, "%s", bad)
					continue
				}
				t.r.OK("position", site)
				base := cb &^ 28
				if name, ok := spec[base]; ok {
					var want int64
					if cb&4 != 0 {
						want |= shift
					}
					if cb&8 != 0 {
						want |= alt
					}
					if cb&16 != 0 {
						want |= ctrl
					}
					kind := "EventPress"
					if wheel[name] {
						kind = "EventScroll"
					} else if !press {
						kind = "EventRelease"
					}
					m, mok := first.mods.isInt()
					switch {
					case first.button.key() != t.value(typeOf("Button"), name).key():
						t.r.Bad("spec", site, pos, "button code %d means %s, decoded as button %s", cb, name, cut(first.button.key()))
					case !mok || m != want:
						t.r.Bad("spec", site, pos, "modifier bits of %d decoded as %s instead of %d", cb, cut(first.mods.key()), want)
					case first.kind.key() != t.value(typeOf("Type"), kind).key():
						t.r.Bad("spec", site, pos, "the report is a %s, decoded as type %s", kind, cut(first.kind.key()))
					default:
						t.r.OK("spec", site)
					}
				}
				if !press {
					s := sgr[cb]
					t.r.Check(s.button != nil && s.button.key() == first.button.key() && s.mods.key() == first.mods.key(), "agree", site, pos, "press and release of the same button are decoded differently: %s and %s", s, first)
					continue
				}
				if p.name == "SGR" {
					sgr[cb] = *first
					continue
				}
				s := sgr[cb]
				t.r.Check(s.button != nil && s.button.key() == first.button.key() && s.mods.key() == first.mods.key() && s.kind.key() == first.kind.key(), "agree", site, pos, "the %s decoder gives %s, the SGR decoder %s", p.name, first, s)
			}
		}
	}
}

// encoders: every function of the mouse module that turns an event into a report.
func (t *c24) encoders() {
	ms := t.w.Prog.MethodSets.MethodSet(t.event)
	bt := types.Unalias(ms.Lookup(nil, "Button").Type().(*types.Signature).Results().At(0).Type()).(*types.Named)
	mt := types.Unalias(ms.Lookup(nil, "Modifiers").Type().(*types.Signature).Results().At(0).Type()).(*types.Named)
	pt := ms.Lookup(nil, "Position").Type().(*types.Signature).Results().At(0).Type()
	var mkEvent, mkPos *ssa.Function
	for _, f := range t.w.Funcs {
		if pkgOf(f) == "mouse" && f.Signature.Recv() == nil {
			switch f.Name() {
			case "NewMouseEvent":
				mkEvent = f
			case "NewPosition":
				mkPos = f
			}
		}
	}
	if mkEvent == nil || mkPos == nil {
		t.r.Bad("encode", "constructors", "-", "mouse.NewMouseEvent or mouse.NewPosition was not found")
		return
	}
	_ = pt
	for _, f := range t.w.Funcs {
		if !strings.HasPrefix(pkgOf(f), "mouse/internal/infrastructure") || f.Parent() != nil || f.Signature.Results().Len() != 1 || !isString(f.Signature.Results().At(0).Type()) || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		ei := -1
		for i, p := range f.Params {
			if types.Identical(types.Unalias(p.Type()), t.event) {
				ei = i
			}
		}
		if ei < 0 {
			continue
		}
		var mods []int64
		var all int64
		for _, c := range enumConsts(mt) {
			all |= c.val
		}
		for v := int64(0); v <= all; v++ {
			if v&^all == 0 {
				mods = append(mods, v)
			}
		}
		for _, b := range enumConsts(bt) {
			for _, m := range mods {
				site := fmt.Sprintf("%s %s modifiers %d", fnName(f), b.name, m)
				ev := NewTEval(t.w)
				st := newTState()
				po := ev.Run(mkPos, []*Term{tSym("px"), tSym("py")}, nil, st)
				if len(po) != 1 {
					continue
				}
				eo := ev.Run(mkEvent, []*Term{tInt(0), tConst(b.c.Val(), bt), po[0].ret, tConst(tInt(m).c, mt)}, nil, po[0].st)
				if len(eo) != 1 {
					continue
				}
				args := tParams(f)
				for i, p := range f.Params {
					if isBoolT(p.Type()) {
						args[i] = tBool(true)
					}
				}
				args[ei] = eo[0].ret
				bad := ""
				outs := ev.Run(f, args, nil, eo[0].st)
				n := 0
				for _, o := range outs {
					if o.panic {
						continue
					}
					for _, d := range t.decode(o.ret) {
						if d.err != "" {
							bad = "the report " + cut(fmt.Sprintf("%q", o.ret.key())) + " is not decoded: " + d.err
							break
						}
						for _, e := range d.events {
							n++
							bv, _ := e.button.isInt()
							mv, _ := e.mods.isInt()
							xs, xk, _ := linear(e.x)
							ys, yk, _ := linear(e.y)
							if bv != b.val || mv != m || xs != "px" || ys != "py" || xk != 0 || yk != 0 {
								bad = fmt.Sprintf("the report %q is decoded as %s", cut(o.ret.key()), e)
							}
						}
					}
				}
				if bad == "" && (n == 0 || ev.Blown) {
					bad = "not decided"
				}
				t.r.Check(bad == "", "encode", site, t.w.Pos(f.Pos()), "%s", bad)
			}
		}
	}
}
