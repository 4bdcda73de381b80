package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// styleCombos renders a style for every combination of text attributes, with unknown colours and an
// unknown text, and follows the graphic state the text is written in.
func styleCombos(w *World, r *Report) {
	mk, render, rgb := w.Func("style.New"), w.Func("style.Render"), w.Func("style.RGB")
	if mk == nil || render == nil || rgb == nil || mk.Signature.Results().Len() != 1 {
		r.Bad("combined", "style", "-", "the style constructors and Render cannot be found")
		return
	}
	styleT := mk.Signature.Results().At(0).Type()
	set := map[string]*ssa.Function{}
	for _, f := range w.Funcs {
		if f.Signature.Recv() != nil && len(f.Params) == 2 && types.Identical(f.Signature.Recv().Type(), styleT) {
			set[f.Name()] = f
		}
	}
	attrs := []string{"Foreground", "Background", "Bold", "Italic", "Underline", "Strikethrough"}
	for _, a := range append(attrs, "TerminalCapability") {
		if set[a] == nil {
			r.Bad("combined", "style", "-", "the style has no operation %s", a)
			return
		}
	}
	var full *enumConst
	if n := namedOf(set["TerminalCapability"].Params[1].Type()); n != nil {
		for _, c := range enumConsts(n) {
			if c.name == "TrueColor" {
				c := c
				full = &c
			}
		}
	}
	if full == nil {
		r.Bad("combined", "style", "-", "the true-colour capability cannot be found")
		return
	}
	for mask := 0; mask < 1<<len(attrs); mask++ {
		want := map[string]string{}
		var on []string
		for i, a := range attrs {
			if mask>>i&1 == 1 {
				on = append(on, a)
				want[a] = "on"
				if i < 2 {
					want[a] = fmt.Sprintf("%s.r %s.g %s.b", a, a, a)
				}
			}
		}
		label := strings.Join(on, "+")
		if label == "" {
			label = "plain"
		}
		why := styleCombo(w, mk, render, rgb, set, attrs, mask, tConst(full.c.Val(), full.c.Type()), want)
		if strings.HasPrefix(why, "undecided") {
			r.Units["undecided combinations of attributes"]++
			continue
		}
		r.Check(why == "", "combined", "style.Render "+label, w.Pos(render.Pos()), "for a style with %s: %s", label, why)
	}
}

func styleCombo(w *World, mk, render, rgb *ssa.Function, set map[string]*ssa.Function, attrs []string, mask int, full *Term, want map[string]string) string {
	ev := NewTEval(w)
	ev.Enter = func(g *ssa.Function) bool { return moduleOf(pkgOf(g)) == "style" }
	one := func(st *TState, f *ssa.Function, args ...*Term) (*TState, *Term) {
		outs := ev.Run(f, args, nil, st)
		if len(outs) != 1 || outs[0].panic || ev.Blown {
			return nil, nil
		}
		v := outs[0].ret
		if v != nil && v.op == "tuple" && len(v.args) == 1 {
			v = v.args[0]
		}
		return outs[0].st, v
	}
	st, s := one(newTState(), mk)
	if s == nil {
		return "undecided: New"
	}
	if st, s = one(st, set["TerminalCapability"], s, full); s == nil {
		return "undecided: TerminalCapability"
	}
	for i, a := range attrs {
		if mask>>i&1 == 0 {
			continue
		}
		v := tBool(true)
		if i < 2 {
			if st, v = one(st, rgb, tSym(a+".r"), tSym(a+".g"), tSym(a+".b")); v == nil {
				return "undecided: RGB"
			}
		}
		if st, s = one(st, set[a], s, v); s == nil {
			return "undecided: " + a
		}
	}
	n := 0
	for _, o := range ev.Run(render, []*Term{s, tSym("text")}, nil, st) {
		if o.panic {
			continue
		}
		n++
		v := o.ret
		if v != nil && v.op == "tuple" && len(v.args) == 1 {
			v = v.args[0]
		}
		if why := graphicState(v, want); why != "" {
			return why
		}
	}
	if n == 0 || ev.Blown {
		return "undecided: Render"
	}
	return ""
}

// graphicState follows the escape sequences around the unknown text.
func graphicState(t *Term, want map[string]string) string {
	var b strings.Builder
	for _, p := range textParts(t) {
		switch s, ok := p.isStr(); {
		case ok:
			b.WriteString(s)
		case isNumPart(p):
			b.WriteString("<" + p.args[0].key() + ">")
		case p.op == "sym" && p.name == "text":
			b.WriteString("\x00")
		default:
			return "undecided: it writes " + cut(p.key())
		}
	}
	s := b.String()
	got := map[string]string{}
	texts := 0
	names := map[string]string{"1": "Bold", "3": "Italic", "4": "Underline", "9": "Strikethrough"}
	offs := map[string][]string{"22": {"Bold"}, "23": {"Italic"}, "24": {"Underline"}, "29": {"Strikethrough"}, "39": {"Foreground"}, "49": {"Background"}}
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			texts++
			for a, v := range want {
				if got[a] != v {
					return fmt.Sprintf("the text is written without its %s (%q instead of %q)", a, got[a], v)
				}
			}
			for a := range got {
				if want[a] == "" {
					return fmt.Sprintf("the text is written with %s, which is not asked for", a)
				}
			}
			continue
		}
		if !strings.HasPrefix(s[i:], "\x1b[") {
			continue
		}
		j := strings.IndexByte(s[i:], 'm')
		if j < 0 {
			return "undecided: an unfinished sequence"
		}
		ps := strings.Split(s[i+2:i+j], ";")
		i += j
		for k := 0; k < len(ps); k++ {
			switch p := ps[k]; {
			case p == "" || p == "0":
				got = map[string]string{}
			case names[p] != "":
				got[names[p]] = "on"
			case offs[p] != nil:
				for _, a := range offs[p] {
					delete(got, a)
				}
			case (p == "38" || p == "48") && k+4 < len(ps) && ps[k+1] == "2":
				a := "Foreground"
				if p == "48" {
					a = "Background"
				}
				got[a] = strings.NewReplacer("<", "", ">", "").Replace(strings.Join(ps[k+2:k+5], " "))
				k += 4
			default:
				return fmt.Sprintf("undecided: graphic rendition %q", p)
			}
		}
	}
	if texts == 0 {
		return "the text is not written"
	}
	for a := range got {
		return fmt.Sprintf("%s stays switched on after the text", a)
	}
	return ""
}
