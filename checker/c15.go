package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = checkC15 }

type c15 struct {
	w *World
	r *Report
}

func checkC15(c *Ctx, r *Report) {
	r.Rule("standard", "an operation that changes the terminal writes exactly the standard control sequence for what its name says, with its own parameters in their places, for every parameter value")
	r.Rule("pair", "a pair of enable and disable operations (functions, constants) names the same terminal modes, one setting and the other resetting them; a disable operation sets none")
	r.Rule("balance", "in every state an object's operations can reach, after a disable operation that reports success none of the modes set by the matching enable operations is still set; after a successful enable they are set; as long as a mode is set some disabling operation can still switch it off, also after a failed write; what the object says about being enabled agrees")
	r.Assume = append(r.Assume, "a write either fails without effect or writes everything; the terminal starts with all modes reset and nobody else changes them")
	w := c.Linux()
	t := &c15{w: w, r: r}
	t.standard()
	t.pairs()
	t.balance()
	t.attributes()
	r.Floor("standard", 45)
	r.Floor("pair", 8)
	r.Floor("balance", 12)
}

// ---- what a piece of output means to the terminal

// effects reads control sequences. Numbers are written as linear forms of the parameters.
func effects(text *Term) ([]string, error) {
	var out []string
	parts := textParts(text)
	// tokens: bytes of constants, or one number
	type tok struct {
		b   byte
		num string
		t   *Term
	}
	var ts []tok
	for _, p := range parts {
		if s, ok := p.isStr(); ok {
			for i := 0; i < len(s); i++ {
				ts = append(ts, tok{b: s[i]})
			}
			continue
		}
		if isNumPart(p) {
			ts = append(ts, tok{num: linKey(p.args[0]), t: p})
			continue
		}
		ts = append(ts, tok{t: p})
	}
	i := 0
	at := func(k int) byte {
		if k < len(ts) && ts[k].num == "" && ts[k].t == nil {
			return ts[k].b
		}
		return 0
	}
	text1 := func(s string) {
		if n := len(out); n > 0 && strings.HasPrefix(out[n-1], "text ") {
			out[n-1] += s
			return
		}
		out = append(out, "text "+s)
	}
	for i < len(ts) {
		b := at(i)
		switch {
		case b == 0 && ts[i].t == nil && ts[i].num == "":
			return nil, fmt.Errorf("a NUL byte is written")
		case b == 0:
			if ts[i].num != "" {
				text1("{" + ts[i].num + "}")
			} else {
				text1("{" + cut(ts[i].t.key()) + "}")
			}
			i++
		case b == '\r':
			out = append(out, "CR")
			i++
		case b == 7:
			out = append(out, "BEL")
			i++
		case b != 0x1b:
			text1(string([]byte{b}))
			i++
		default:
			i++
			switch at(i) {
			case '7':
				out = append(out, "save cursor")
				i++
			case '8':
				out = append(out, "restore cursor")
				i++
			case ']':
				i++
				s := ""
				for {
					if i >= len(ts) {
						return nil, fmt.Errorf("an operating system command is not terminated")
					}
					if at(i) == 7 {
						i++
						break
					}
					if at(i) == 0x1b && at(i+1) == '\\' {
						i += 2
						break
					}
					if at(i) != 0 {
						s += string([]byte{at(i)})
					} else if ts[i].num != "" {
						s += "{" + ts[i].num + "}"
					} else {
						s += "{" + cut(ts[i].t.key()) + "}"
					}
					i++
				}
				out = append(out, "OSC "+s)
			case '[':
				i++
				priv := ""
				if c := at(i); c >= '<' && c <= '?' {
					priv = string([]byte{c})
					i++
				}
				params := []string{""}
				done := false
				for i < len(ts) && !done {
					c := at(i)
					switch {
					case c == 0 && ts[i].num != "":
						params[len(params)-1] += ts[i].num
					case c == 0:
						return nil, fmt.Errorf("a control sequence contains %s", cut(ts[i].t.key()))
					case c >= '0' && c <= '9':
						params[len(params)-1] += string([]byte{c})
					case c == ';':
						params = append(params, "")
					default:
						done = true
						i--
					}
					i++
				}
				inter := ""
				for at(i) >= 0x20 && at(i) <= 0x2f {
					inter += string([]byte{at(i)})
					i++
				}
				fin := at(i)
				if fin < 0x40 || fin > 0x7e {
					return nil, fmt.Errorf("a control sequence is not terminated")
				}
				i++
				es, err := csi(priv, params, inter, fin)
				if err != nil {
					return nil, err
				}
				out = append(out, es...)
			default:
				return nil, fmt.Errorf("unknown escape sequence ESC %q", string([]byte{at(i)}))
			}
		}
	}
	return out, nil
}

func linKey(t *Term) string {
	s, k, _ := linear(t)
	switch {
	case s == "":
		return fmt.Sprint(k)
	case k == 0:
		return s
	}
	return fmt.Sprintf("%s%+d", s, k)
}

func csi(priv string, params []string, inter string, fin byte) ([]string, error) {
	def := func(i int, d string) string {
		if i < len(params) && params[i] != "" {
			if params[i] == "0" && d == "1" {
				return "1"
			}
			return params[i]
		}
		return d
	}
	max := func(n int) error {
		if len(params) > n {
			return fmt.Errorf("CSI %s %c has too many parameters", strings.Join(params, ";"), fin)
		}
		return nil
	}
	var out []string
	if priv == "?" && inter == "" && (fin == 'h' || fin == 'l') {
		for _, p := range params {
			if p == "" {
				return nil, fmt.Errorf("a mode change names no mode")
			}
			if fin == 'h' {
				out = append(out, "set "+p)
			} else {
				out = append(out, "reset "+p)
			}
		}
		return out, nil
	}
	if priv != "" {
		return nil, fmt.Errorf("unknown control sequence CSI %s%s%s%c", priv, strings.Join(params, ";"), inter, fin)
	}
	if inter == " " && fin == 'q' {
		return []string{"cursor shape " + def(0, "0")}, max(1)
	}
	if inter != "" {
		return nil, fmt.Errorf("unknown control sequence CSI %s%s%c", strings.Join(params, ";"), inter, fin)
	}
	switch fin {
	case 'A', 'B', 'C', 'D':
		n := map[byte]string{'A': "up", 'B': "down", 'C': "right", 'D': "left"}[fin]
		return []string{n + " " + def(0, "1")}, max(1)
	case 'H', 'f':
		return []string{"goto row " + def(0, "1") + " column " + def(1, "1")}, max(2)
	case 'G':
		return []string{"goto column " + def(0, "1")}, max(1)
	case 'J':
		return []string{"erase screen " + def(0, "0")}, max(1)
	case 'K':
		return []string{"erase line " + def(0, "0")}, max(1)
	case 'r':
		return []string{"scroll region " + def(0, "1") + " " + def(1, "end")}, max(2)
	case 's':
		return []string{"save cursor"}, nil
	case 'u':
		return []string{"restore cursor"}, nil
	case 'm':
		for i := 0; i < len(params); i++ {
			p := def(i, "0")
			if p == "38" || p == "48" {
				n := 0
				switch def(i+1, "") {
				case "5":
					n = 2
				case "2":
					n = 4
				}
				if n == 0 || i+n >= len(params) {
					return nil, fmt.Errorf("an extended colour is incomplete: %s", strings.Join(params, ";"))
				}
				out = append(out, "SGR "+strings.Join(params[i:i+n+1], " "))
				i += n
				continue
			}
			out = append(out, "SGR "+p)
		}
		return out, nil
	}
	return nil, fmt.Errorf("unknown control sequence CSI %s%c", strings.Join(params, ";"), fin)
}

// ---- evaluating operations

var c15Sinks = map[string]bool{
	"fmt.Fprint": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "io.WriteString": true,
	"(*os.File).Write": true, "(*os.File).WriteString": true, "(io.Writer).Write": true, "(io.StringWriter).WriteString": true,
	"(*bufio.Writer).Write": true, "(*bufio.Writer).WriteString": true, "(*bufio.Writer).WriteByte": true, "(*bufio.Writer).WriteRune": true,
	"syscall.Write": true, "golang.org/x/sys/unix.Write": true,
}

// eval models writes: each one is recorded; with fail it may also return an error and write nothing.
func (t *c15) eval(fail bool) *TEval {
	ev := NewTEval(t.w)
	ev.Budget = 60000
	ev.Model = func(ev *TEval, st *TState, at ssa.Instruction, c *ssa.CallCommon, name string, args []*Term) ([]TOut, bool) {
		if strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex).") {
			if strings.Contains(name, "Try") {
				return nil, false
			}
			return []TOut{{st: st, ret: tTuple()}}, true
		}
		switch name {
		case "(*bufio.Writer).Flush", "(*os.File).Sync":
			return []TOut{{st: st, ret: tNil}}, true
		case "bufio.NewWriter", "bufio.NewWriterSize":
			return []TOut{{st: st, ret: tSym("!buffer")}}, true
		}
		if !c15Sinks[name] || len(args) < 2 {
			return nil, false
		}
		w := args[0]
		if w.op == "iface" {
			w = w.args[0]
		}
		if strings.HasPrefix(name, "fmt.") && w.op == "ref" && isLocalCell(w.name) && st.mem[w.name+"#buf"] != nil {
			return nil, false // a string builder
		}
		var text *Term
		switch name {
		case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
			es, ok := ev.elems(st, args[len(args)-1])
			if !ok {
				break
			}
			for i := range es {
				if es[i].op == "iface" {
					es[i] = es[i].args[0]
				}
			}
			if name == "fmt.Fprintf" {
				if f, ok := args[1].isStr(); ok {
					text = formatTerms(f, es)
				}
			} else {
				text = tCat(es...)
				if name == "fmt.Fprintln" {
					text = tCat(text, tStr("\n"))
				}
			}
		case "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune":
			text = tOp("char", args[1])
			if k, ok := args[1].isInt(); ok {
				text = tStr(string(rune(k)))
			}
		case "(*os.File).Write", "(io.Writer).Write", "(*bufio.Writer).Write", "syscall.Write", "golang.org/x/sys/unix.Write":
			text = args[1]
			if es, ok := ev.elems(st, args[1]); ok {
				if b := bytesText(es); b != nil {
					text = b
				}
			}
			if text.op == "op" && strings.HasPrefix(text.name, "bytes") && len(text.args) == 1 {
				text = text.args[0]
			}
		default:
			text = args[1]
		}
		if text == nil {
			text = tOp("unknown output of "+name, args[1:]...)
		}
		n := st.clone()
		n.events = append(n.events, Event{what: "write", name: name, args: []*Term{text}, at: at, fn: at.Parent()})
		nr := c.Signature().Results().Len()
		ok, bad := tTuple(tOp("len", text), tNil), tTuple(tInt(0), tSym("!write error"))
		if nr == 1 {
			ok, bad = tNil, tSym("!write error")
		}
		outs := []TOut{{st: n, ret: ok}}
		if fail {
			f := st.clone()
			f.events = append(f.events, Event{what: "failed write", at: at, fn: at.Parent()})
			outs = append(outs, TOut{st: f, ret: bad})
		}
		return outs, true
	}
	return ev
}

type c15Path struct {
	text    *Term
	wrote   bool
	failed  bool // returned an error
	st      *TState
	ret     *Term
	unknown string
}

// paths evaluates an operation: what it writes, or the text it returns.
func (t *c15) paths(ev *TEval, f *ssa.Function, args []*Term, st *TState) ([]c15Path, string) {
	outs := ev.Run(f, args, nil, st)
	if ev.Blown {
		return nil, "not decided: too many paths"
	}
	var ps []c15Path
	for _, o := range outs {
		if o.panic {
			continue
		}
		p := c15Path{st: o.st, ret: o.ret}
		var texts []*Term
		for _, e := range o.st.events {
			if e.what == "write" {
				p.wrote = true
				texts = append(texts, e.args[0])
			}
		}
		res := f.Signature.Results()
		rets := []*Term{o.ret}
		if o.ret != nil && o.ret.op == "tuple" {
			rets = o.ret.args
		}
		for i := 0; i < res.Len() && i < len(rets); i++ {
			switch rt := res.At(i).Type(); {
			case isErrorType(rt):
				if rets[i].op != "nil" {
					p.failed = true
					if rets[i].op == "op" && strings.HasPrefix(rets[i].name, "#") {
						p.unknown = cut(rets[i].key())
					}
				}
			case isString(rt) && !p.wrote:
				texts = append(texts, rets[i])
				if s, ok := rets[i].isStr(); !ok || s != "" {
					p.wrote = true
				}
			}
		}
		p.text = tCat(texts...)
		ps = append(ps, p)
	}
	return ps, ""
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// ---- rule standard

type c15Spec struct {
	want  func(a []*Term) []string // alternatives, effects separated by ", "
	least int64                    // the parameter's least value that has an effect (0: any)
	count bool                     // the operation takes a count: nothing is written below least
	n     int                      // parameters
}

func num(t *Term, d int64) string {
	s, k, _ := linear(t)
	k += d
	switch {
	case s == "":
		return fmt.Sprint(k)
	case k == 0:
		return s
	}
	return fmt.Sprintf("%s%+d", s, k)
}

func c15Table() map[string]c15Spec {
	fixed := func(alts ...string) c15Spec {
		return c15Spec{want: func([]*Term) []string { return alts }}
	}
	move := func(dir string) c15Spec {
		return c15Spec{n: 1, least: 1, count: true, want: func(a []*Term) []string { return []string{dir + " " + num(a[0], 0)} }}
	}
	sgr := func(codes ...int) c15Spec {
		var alts []string
		for _, c := range codes {
			alts = append(alts, fmt.Sprintf("SGR %d", c))
		}
		return fixed(alts...)
	}
	colour := func(base string, n int) c15Spec {
		return c15Spec{n: n, want: func(a []*Term) []string {
			s := "SGR " + base
			for _, x := range a {
				s += " " + num(x, 0)
			}
			return []string{s}
		}}
	}
	at := c15Spec{n: 2, want: func(a []*Term) []string {
		return []string{"goto row " + num(a[1], 1) + " column " + num(a[0], 1)}
	}}
	m := map[string]c15Spec{
		"SetCursorPosition": at, "MoveCursor": at,
		"MoveCursorUp": move("up"), "MoveCursorDown": move("down"), "MoveCursorLeft": move("left"), "MoveCursorRight": move("right"),
		"SaveCursorPosition": fixed("save cursor"), "CursorSave": fixed("save cursor"), "SaveCursor": fixed("save cursor"),
		"RestoreCursorPosition": fixed("restore cursor"), "CursorRestore": fixed("restore cursor"), "RestoreCursor": fixed("restore cursor"),
		"HideCursor": fixed("reset 25"), "CursorHide": fixed("reset 25"),
		"ShowCursor": fixed("set 25"), "CursorShow": fixed("set 25"),
		"CursorHome":      fixed("goto row 1 column 1"),
		"Clear":           fixed("erase screen 2", "erase screen 2, goto row 1 column 1", "goto row 1 column 1, erase screen 2"),
		"ClearScreen":     fixed("erase screen 2", "erase screen 2, goto row 1 column 1", "goto row 1 column 1, erase screen 2"),
		"ClearLine":       fixed("erase line 2", "CR, erase line 2", "erase line 2, CR", "CR, erase line 0"),
		"ClearFromCursor": fixed("erase screen 0"), "ClearScreenBelow": fixed("erase screen 0"), "ClearScreenAbove": fixed("erase screen 1"),
		"ClearLineFromPos": fixed("erase line 0"), "ClearLineToPos": fixed("erase line 1"),
		"ClearLines": {n: 1, least: 1, count: true, want: func(a []*Term) []string {
			if k, ok := a[0].isInt(); ok && k == 1 {
				return []string{"CR, erase screen 0"}
			}
			up := "up " + num(a[0], -1)
			return []string{up + ", CR, erase screen 0", "CR, " + up + ", erase screen 0"}
		}},
		"EnterAltScreen": fixed("set 1049"), "AltScreenEnable": fixed("set 1049"),
		"ExitAltScreen": fixed("reset 1049"), "AltScreenDisable": fixed("reset 1049"),
		"MouseTrackingEnable": fixed("set 1000"), "MouseTrackingDisable": fixed("reset 1000"),
		"MouseCellMotionEnable": fixed("set 1002"), "MouseCellMotionDisable": fixed("reset 1002"),
		"MouseAllMotionEnable": fixed("set 1003"), "MouseAllMotionDisable": fixed("reset 1003"),
		"MouseSGREnable": fixed("set 1006"), "MouseSGRDisable": fixed("reset 1006"),
		"EnableFocusEvents": fixed("set 1004"), "DisableFocusEvents": fixed("reset 1004"),
		"EnableBracketedPaste": fixed("set 2004"), "DisableBracketedPaste": fixed("reset 2004"),
		"EnableMouseTracking":  {n: 1, want: func(a []*Term) []string { return []string{"set " + num(a[0], 0)} }},
		"DisableMouseTracking": {n: 1, want: func(a []*Term) []string { return []string{"reset " + num(a[0], 0)} }},
		"SetCursorStyle": {n: 1, want: func(a []*Term) []string {
			if k, ok := a[0].isInt(); ok && k >= 0 && k <= 2 {
				return []string{fmt.Sprintf("cursor shape %d", 2+2*k)}
			}
			return nil
		}},
		"SetCursorShape":  {n: 1, want: func(a []*Term) []string { return []string{"cursor shape " + num(a[0], 0)} }},
		"SetScrollRegion": {n: 2, want: func(a []*Term) []string { return []string{"scroll region " + num(a[0], 0) + " " + num(a[1], 0)} }},
		"SetTitle": {n: 1, want: func(a []*Term) []string {
			return []string{"OSC 0;{" + a[0].key() + "}", "OSC 2;{" + a[0].key() + "}"}
		}},
		"Bell":     fixed("BEL"),
		"SetFg256": colour("38 5", 1), "SetBg256": colour("48 5", 1), "Foreground256": colour("38 5", 1), "Background256": colour("48 5", 1),
		"SetFgRGB": colour("38 2", 3), "SetBgRGB": colour("48 2", 3), "Foreground": colour("38 2", 3), "Background": colour("48 2", 3),
		"ResetFg": sgr(39), "ResetBg": sgr(49), "Reset": sgr(0),
		"Bold": sgr(1), "Dim": sgr(2), "Italic": sgr(3), "Underline": sgr(4), "Blink": sgr(5), "Reverse": sgr(7), "Hidden": sgr(8), "Strike": sgr(9), "Strikethrough": sgr(9),
	}
	for name, code := range map[string]int{"Bold": 22, "Dim": 22, "Italic": 23, "Underline": 24, "Blink": 25, "Reverse": 27, "Hidden": 28, "Strike": 29, "Strikethrough": 29} {
		m["No"+name] = sgr(code)
		m[name+"Off"] = sgr(code)
	}
	palette := func(lo, hi int64) c15Spec {
		return c15Spec{n: 1, want: func(a []*Term) []string {
			k, ok := a[0].isInt()
			switch {
			case !ok:
				return nil
			case k < 8:
				return []string{fmt.Sprintf("SGR %d", lo+k)}
			case k < 16:
				return []string{fmt.Sprintf("SGR %d", hi+k-8)}
			}
			return nil
		}}
	}
	m["Foreground16"] = palette(30, 90)
	m["Background16"] = palette(40, 100)
	return m
}

// homes: operations whose documentation says the cursor also moves home.
var c15Homes = map[string]bool{"(*terminal/internal/infrastructure/unix.ANSITerminal).Clear": true}

func (t *c15) standard() {
	table := c15Table()
	n := 0
	for _, p := range t.w.Pkgs {
		if p.Types == nil || strings.Contains(p.PkgPath, "/examples") {
			continue
		}
		sc := p.Types.Scope()
		for _, name := range sc.Names() {
			if c, ok := sc.Lookup(name).(*types.Const); ok && isString(c.Type()) {
				s := constant.StringVal(c.Val())
				spec, known := table[name]
				if !known || !strings.ContainsAny(s, "\x1b\x07") {
					continue
				}
				t.compare("constant "+relPath(p.PkgPath)+"."+name, t.w.Pos(c.Pos()), tStr(s), spec, nil)
				n++
			}
		}
	}
	for _, f := range t.w.Funcs {
		spec, ok := table[f.Name()]
		if !ok || !exported(f) || len(f.Blocks) == 0 || strings.Contains(pkgOf(f), "/examples") {
			continue
		}
		params := f.Params
		if f.Signature.Recv() != nil {
			params = params[1:]
		}
		if len(params) != spec.n || f.Signature.Results().Len() == 0 {
			continue
		}
		if t.operation(f, params, spec) {
			n++
		}
	}
	t.r.Units["operations with a standard sequence"] = n
}

// domain lists the values to evaluate a parameter with besides a symbol.
func paramValues(p *ssa.Parameter, spec c15Spec) []*Term {
	if n := namedOf(p.Type()); n != nil && isInteger(n) {
		var vs []*Term
		for _, c := range enumConsts(n) {
			vs = append(vs, tConst(c.c.Val(), n))
		}
		if len(vs) > 0 {
			return vs
		}
	}
	return nil
}

func (t *c15) operation(f *ssa.Function, params []*ssa.Parameter, spec c15Spec) bool {
	site := fnName(f)
	pos := t.w.Pos(f.Pos())
	var sets [][]*Term
	var symbols []*Term
	for _, p := range params {
		symbols = append(symbols, tSym(p.Name()))
	}
	switch {
	case len(params) == 1 && paramValues(params[0], spec) != nil:
		for _, v := range paramValues(params[0], spec) {
			sets = append(sets, []*Term{v})
		}
	case len(params) == 1 && (f.Name() == "Foreground16" || f.Name() == "Background16"):
		for i := int64(0); i < 16; i++ {
			sets = append(sets, []*Term{tConst(constant.MakeInt64(i), params[0].Type())})
		}
	default:
		sets = append(sets, symbols)
		if spec.count {
			for _, k := range []int64{-3, -1, 0, 1, 2, 3, 10, 1000} {
				sets = append(sets, []*Term{tConst(constant.MakeInt64(k), params[0].Type())})
			}
		}
	}
	// Only operations that produce output themselves are judged.
	relevant := false
	type bad struct{ msg string }
	var bads []string
	for _, set := range sets {
		ev := t.eval(false)
		var args []*Term
		if f.Signature.Recv() != nil {
			args = append(args, tSym("!receiver"))
		}
		args = append(args, set...)
		ps, err := t.paths(ev, f, args, newTState())
		if err != "" {
			bads = append(bads, err)
			continue
		}
		for _, p := range ps {
			if p.failed {
				continue
			}
			vals := make([]*Term, len(set))
			for i := range set {
				vals[i] = p.st.resolve(set[i])
			}
			if !p.wrote {
				if !t.mayBeSilent(p, set, spec) {
					bads = append(bads, "nothing is written for "+termsText(vals))
				}
				continue
			}
			es, err := effects(p.text)
			if err == nil && len(es) > 0 && allText(es) {
				continue // returns plain text: not an operation on the terminal
			}
			relevant = true
			if err != nil {
				bads = append(bads, err.Error())
				continue
			}
			if k, ok := vals0(vals); ok && spec.count && k < spec.least {
				bads = append(bads, fmt.Sprintf("for the count %d the terminal is told to %s", k, strings.Join(es, ", ")))
				continue
			}
			if m := mismatch(es, spec.want(vals), site); m != "" {
				bads = append(bads, "for "+termsText(vals)+": "+m)
			}
		}
	}
	_ = bad{}
	if !relevant {
		return false
	}
	if len(bads) > 0 {
		t.r.Bad("standard", site, pos, "%s", bads[0])
	} else {
		t.r.OK("standard", site)
	}
	return true
}

func vals0(v []*Term) (int64, bool) {
	if len(v) == 1 {
		return v[0].isInt()
	}
	return 0, false
}

func termsText(v []*Term) string {
	var s []string
	for _, x := range v {
		s = append(s, cut(x.key()))
	}
	return "(" + strings.Join(s, ", ") + ")"
}

func allText(es []string) bool {
	for _, e := range es {
		if !strings.HasPrefix(e, "text ") {
			return false
		}
	}
	return true
}

func mismatch(es, want []string, site string) string {
	got := strings.Join(es, ", ")
	if len(want) == 0 {
		return "" // no standard for this value
	}
	for _, w := range want {
		if got == w {
			if c15Homes[site] && !strings.Contains(got, "goto row 1 column 1") {
				break
			}
			return ""
		}
	}
	return "the terminal is told to " + got + " instead of " + want[0]
}

var relFact = regexp.MustCompile(`^op:(==|<|<=)\((.+), (.+)\)$`)
var plusForm = regexp.MustCompile(`^op:\+\((\w+), (-?\d+)\)$`)

// mayBeSilent: the path writes nothing. That is right below the least count, and for a move whose
// both coordinates equal a remembered position.
func (t *c15) mayBeSilent(p c15Path, set []*Term, spec c15Spec) bool {
	if spec.count {
		if k, ok := vals0(set); ok {
			return k < spec.least
		}
		return !t.feasible(p.st, set[0].key(), spec.least)
	}
	if len(set) == 2 {
		seen := map[string]bool{}
		for k, v := range p.st.facts {
			if m := relFact.FindStringSubmatch(k); m != nil && v && m[1] == "==" {
				for _, s := range set {
					if m[2] == s.key() || m[3] == s.key() {
						seen[s.key()] = true
					}
				}
			}
		}
		return len(seen) == 2
	}
	return false
}

// feasible: could the symbol be at least min on this path?
func (t *c15) feasible(st *TState, sym string, min int64) bool {
	side := func(s string, v int64) (int64, bool) {
		if s == sym {
			return v, true
		}
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return n, true
		}
		if m := plusForm.FindStringSubmatch(s); m != nil && m[1] == sym {
			k, _ := strconv.ParseInt(m[2], 10, 64)
			return v + k, true
		}
		return 0, false
	}
	cands := map[int64]bool{min: true, min + 1: true, 1 << 30: true}
	for k := range st.facts {
		if m := relFact.FindStringSubmatch(k); m != nil {
			for _, s := range m[2:] {
				if n, err := strconv.ParseInt(s, 10, 64); err == nil {
					for d := int64(-2); d <= 2; d++ {
						if n+d >= min {
							cands[n+d] = true
						}
					}
				}
			}
		}
	}
	for v := range cands {
		ok := true
		for k, want := range st.facts {
			m := relFact.FindStringSubmatch(k)
			if m == nil {
				continue
			}
			a, ok1 := side(m[2], v)
			b, ok2 := side(m[3], v)
			if !ok1 || !ok2 {
				continue
			}
			got := false
			switch m[1] {
			case "==":
				got = a == b
			case "<":
				got = a < b
			case "<=":
				got = a <= b
			}
			if got != want {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (t *c15) compare(site, pos string, text *Term, spec c15Spec, args []*Term) {
	if spec.n != 0 {
		return
	}
	es, err := effects(text)
	if err != nil {
		t.r.Bad("standard", site, pos, "%v", err)
		return
	}
	if m := mismatch(es, spec.want(nil), site); m != "" {
		t.r.Bad("standard", site, pos, "%s", m)
		return
	}
	t.r.OK("standard", site)
}

// ---- rule pair

var c15Verbs = [][2]string{{"Enable", "Disable"}, {"Enter", "Exit"}, {"Enter", "Leave"}, {"Show", "Hide"}, {"Start", "Stop"}, {"Open", "Close"}, {"Begin", "End"}, {"On", "Off"}}

// counterpart gives the name of the operation that switches on what the named one switches off.
func counterpart(off string, exists func(string) bool) (string, bool) {
	for _, v := range c15Verbs {
		if strings.HasPrefix(off, v[1]) {
			if on := v[0] + off[len(v[1]):]; exists(on) {
				return on, true
			}
		}
		if strings.HasSuffix(off, v[1]) {
			if on := strings.TrimSuffix(off, v[1]) + v[0]; exists(on) {
				return on, true
			}
		}
	}
	return "", false
}

func modesOf(es []string) (set, reset map[string]bool) {
	set, reset = map[string]bool{}, map[string]bool{}
	for _, e := range es {
		if m, ok := strings.CutPrefix(e, "set "); ok {
			set[m] = true
			delete(reset, m)
		}
		if m, ok := strings.CutPrefix(e, "reset "); ok {
			reset[m] = true
			delete(set, m)
		}
	}
	return
}

func (t *c15) pairs() {
	for _, p := range t.w.Pkgs {
		if p.Types == nil || strings.Contains(p.PkgPath, "/examples") {
			continue
		}
		sc := p.Types.Scope()
		exists := func(n string) bool { return sc.Lookup(n) != nil }
		for _, off := range sc.Names() {
			on, ok := counterpart(off, exists)
			if !ok {
				continue
			}
			switch o := sc.Lookup(off).(type) {
			case *types.Const:
				c2, ok := sc.Lookup(on).(*types.Const)
				if !ok || !isString(o.Type()) || !isString(c2.Type()) {
					continue
				}
				t.pair(relPath(p.PkgPath)+"."+on+"/"+off, t.w.Pos(o.Pos()), tStr(constant.StringVal(c2.Val())), tStr(constant.StringVal(o.Val())))
			case *types.Func:
				o2, ok := sc.Lookup(on).(*types.Func)
				if !ok {
					continue
				}
				f, g := t.w.Prog.FuncValue(o2), t.w.Prog.FuncValue(o)
				if f == nil || g == nil || len(f.Params) != len(g.Params) || len(f.Params) > 1 {
					continue
				}
				sets := [][]*Term{nil}
				if len(f.Params) == 1 {
					sets = nil
					for _, v := range paramValues(f.Params[0], c15Spec{}) {
						sets = append(sets, []*Term{v})
					}
					sets = append(sets, []*Term{tSym("p")})
				}
				for _, set := range sets {
					tf, ok1 := t.single(f, set)
					tg, ok2 := t.single(g, set)
					if !ok1 || !ok2 {
						continue
					}
					name := relPath(p.PkgPath) + "." + on + "/" + off
					if len(set) == 1 {
						name += "(" + set[0].key() + ")"
					}
					t.pair(name, t.w.Pos(g.Pos()), tf, tg)
				}
			}
		}
	}
}

// single evaluates a function to the one text it gives.
func (t *c15) single(f *ssa.Function, args []*Term) (*Term, bool) {
	ps, err := t.paths(t.eval(false), f, args, newTState())
	if err != "" {
		return nil, false
	}
	var text *Term
	for _, p := range ps {
		if p.failed {
			continue
		}
		if text != nil && text.key() != p.text.key() {
			return nil, false
		}
		text = p.text
	}
	return text, text != nil
}

func (t *c15) pair(name, pos string, on, off *Term) {
	e1, err1 := effects(on)
	e2, err2 := effects(off)
	s1, r1 := modesOf(e1)
	s2, r2 := modesOf(e2)
	if err1 == nil && err2 == nil && len(s1)+len(r1)+len(s2)+len(r2) == 0 {
		return
	}
	switch {
	case err1 != nil:
		t.r.Bad("pair", name, pos, "%v", err1)
	case err2 != nil:
		t.r.Bad("pair", name, pos, "%v", err2)
	case len(r1) > 0:
		t.r.Bad("pair", name, pos, "the enabling operation resets mode %s", sortedKeys(r1)[0])
	case len(s2) > 0:
		t.r.Bad("pair", name, pos, "the disabling operation sets mode %s", sortedKeys(s2)[0])
	case strings.Join(sortedKeys(s1), " ") != strings.Join(sortedKeys(r2), " "):
		t.r.Bad("pair", name, pos, "enabling sets the modes %v, disabling resets %v", sortedKeys(s1), sortedKeys(r2))
	default:
		t.r.OK("pair", name)
	}
}

// ---- rule balance

type c15Op struct {
	name string // with its argument
	f    *ssa.Function
	args []*Term
	on   bool
	off  bool
	base string
}

type c15State struct {
	st    *TState
	modes map[string]bool
	why   string
}

func (t *c15) balance() {
	objects := 0
	for _, p := range t.w.Pkgs {
		if p.Types == nil || strings.Contains(p.PkgPath, "/examples") {
			continue
		}
		sc := p.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() || !tn.Exported() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || n.TypeParams().Len() > 0 {
				continue
			}
			if _, ok := n.Underlying().(*types.Struct); !ok {
				continue
			}
			ops := t.modeOps(n)
			if len(ops) == 0 {
				continue
			}
			for _, ctor := range t.constructors(p.Types, n) {
				if t.explore(n, ctor, ops) {
					objects++
				}
			}
		}
	}
	t.r.Units["objects that switch modes"] = objects
}

func (t *c15) modeOps(n *types.Named) []c15Op {
	ms := t.w.Prog.MethodSets.MethodSet(types.NewPointer(n))
	names := map[string]bool{}
	for i := 0; i < ms.Len(); i++ {
		names[ms.At(i).Obj().Name()] = true
	}
	verbs := map[string]int{}
	for nm := range names {
		for _, v := range c15Verbs[:4] {
			if strings.HasPrefix(nm, v[0]) {
				verbs[v[0]] |= 1
			}
			if strings.HasPrefix(nm, v[1]) {
				verbs[v[0]] |= 2
			}
		}
	}
	var ops []c15Op
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		nm := sel.Obj().Name()
		if !sel.Obj().Exported() {
			continue
		}
		var op c15Op
		for _, v := range c15Verbs[:4] {
			if verbs[v[0]] != 3 {
				continue
			}
			if strings.HasPrefix(nm, v[0]) {
				op.on, op.base = true, nm[len(v[0]):]
			}
			if strings.HasPrefix(nm, v[1]) {
				op.off, op.base = true, nm[len(v[1]):]
			}
		}
		if !op.on && !op.off {
			continue
		}
		f := unwrap(t.w.Prog.MethodValue(sel))
		if f == nil || len(f.Blocks) == 0 || len(f.Params) > 2 {
			continue
		}
		op.f, op.name = f, nm
		if len(f.Params) == 2 {
			for _, v := range append(paramValues(f.Params[1], c15Spec{}), tSym("p")) {
				o := op
				if isInteger(f.Params[1].Type()) == false && v.op == "sym" {
					continue
				}
				if v.op == "sym" && len(paramValues(f.Params[1], c15Spec{})) > 0 {
					continue
				}
				o.args = []*Term{v}
				o.name = nm + "(" + v.key() + ")"
				ops = append(ops, o)
			}
			continue
		}
		ops = append(ops, op)
	}
	return ops
}

// constructors without data parameters
func (t *c15) constructors(p *types.Package, n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, name := range p.Scope().Names() {
		o, ok := p.Scope().Lookup(name).(*types.Func)
		if !ok || !o.Exported() || !strings.HasPrefix(name, "New") {
			continue
		}
		sig := o.Type().(*types.Signature)
		if sig.Results().Len() != 1 || sig.TypeParams().Len() > 0 || namedOf(deref(sig.Results().At(0).Type())) != n {
			continue
		}
		if f := t.w.Prog.FuncValue(o); f != nil && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	return out
}

func (t *c15) explore(n *types.Named, ctor *ssa.Function, ops []c15Op) bool {
	type edge struct {
		from *c15State
		op   c15Op
		p    c15Path
		es   []string
		to   *c15State
	}
	ev := t.eval(true)
	var args []*Term
	for _, p := range ctor.Params {
		args = append(args, tSym("!"+p.Name()))
	}
	outs := ev.Run(ctor, args, nil, newTState())
	if ev.Blown || len(outs) == 0 {
		return false
	}
	label := relPath(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	via := label + " from " + ctor.Name()
	emits := false
	first := map[string]map[string]bool{} // modes an enabling operation sets on a new object
	var undecided string
	seen := map[string]bool{}
	var queue []*c15State
	roots := map[*c15State]*Term{}
	for _, o := range outs {
		if o.panic || o.ret == nil || o.ret.op != "ref" {
			continue
		}
		o.st.events = nil
		s := &c15State{st: o.st, modes: map[string]bool{}, why: "new"}
		roots[s] = o.ret
		k := stateKey(o.st, o.ret) + " "
		if !seen[k] {
			seen[k] = true
			queue = append(queue, s)
		}
	}
	if len(queue) == 0 {
		return false
	}
	step := func(s *c15State, op c15Op) []edge {
		e := t.eval(true)
		e.inits = ev.inits
		ps, err := t.paths(e, op.f, append([]*Term{roots[s]}, op.args...), s.st.clone())
		if err != "" {
			undecided = op.name + ": " + err
			return nil
		}
		var out []edge
		for _, p := range ps {
			es, err := effects(p.text)
			if err != nil {
				undecided = op.name + ": " + err.Error()
				continue
			}
			m := map[string]bool{}
			for k := range s.modes {
				m[k] = true
			}
			for _, x := range es {
				if k, ok := strings.CutPrefix(x, "set "); ok {
					m[k] = true
					emits = true
				}
				if k, ok := strings.CutPrefix(x, "reset "); ok {
					delete(m, k)
					emits = true
				}
			}
			p.st.events = nil
			p.st.facts, p.st.eq = map[string]bool{}, map[string]*Term{}
			to := &c15State{st: p.st, modes: m, why: s.why + ", " + op.name}
			if p.failed {
				to.why += " (fails)"
			}
			roots[to] = roots[s]
			out = append(out, edge{s, op, p, es, to})
		}
		return out
	}
	for _, op := range ops {
		if !op.on {
			continue
		}
		for _, e := range step(queue[0], op) {
			if !e.p.failed {
				if first[op.name] == nil {
					first[op.name] = map[string]bool{}
				}
				for k := range e.to.modes {
					first[op.name][k] = true
				}
			}
		}
	}
	// What each disabling operation has to switch off.
	must := map[string]map[string]bool{}
	for _, op := range ops {
		if !op.off {
			continue
		}
		m := map[string]bool{}
		exact := false
		for _, o2 := range ops {
			if o2.on && o2.base == op.base {
				exact = true
			}
		}
		for _, o2 := range ops {
			if o2.on && (o2.base == op.base && exact || !exact && op.base == "" || op.base == "All" || op.base == "") {
				for k := range first[o2.name] {
					m[k] = true
				}
			}
		}
		must[op.name] = m
	}
	var query *ssa.Function
	ms := t.w.Prog.MethodSets.MethodSet(types.NewPointer(n))
	for _, nm := range []string{"IsEnabled", "IsInAltScreen"} {
		if sel := ms.Lookup(n.Obj().Pkg(), nm); sel != nil {
			query = unwrap(t.w.Prog.MethodValue(sel))
		}
	}
	bad := map[string]string{}
	checked := map[string]int{}
	count := 0
	for len(queue) > 0 && count < 3000 {
		s := queue[0]
		queue = queue[1:]
		count++
		canLeave := map[string]bool{}
		for _, op := range ops {
			for _, e := range step(s, op) {
				site := via + ": " + op.name
				if op.off && !e.p.failed {
					for k := range s.modes {
						if !e.to.modes[k] {
							canLeave[k] = true
						}
					}
				}
				if op.on || op.off {
					checked[site]++
				}
				if !e.p.failed && bad[site] == "" {
					if op.off {
						for k := range must[op.name] {
							if e.to.modes[k] {
								bad[site] = fmt.Sprintf("after %s the terminal still has mode %s set", e.to.why, k)
							}
						}
						for _, x := range e.es {
							if m, ok := strings.CutPrefix(x, "set "); ok {
								bad[site] = fmt.Sprintf("it sets mode %s", m)
							}
						}
					}
					if op.on {
						for k := range first[op.name] {
							if !e.to.modes[k] {
								bad[site] = fmt.Sprintf("after %s mode %s is not set", e.to.why, k)
							}
						}
					}
				}
				if op.on || op.off {
					if query != nil && bad[site] == "" && len(query.Params) == 1 {
						q := via + ": " + query.Name()
						any := false
						for k := range e.to.modes {
							if query.Name() == "IsEnabled" || k == "1049" {
								any = true
							}
						}
						qe := t.eval(false)
						for _, o := range qe.Run(query, []*Term{roots[s]}, nil, e.to.st.clone()) {
							v, ok := false, false
							if o.ret != nil && !o.panic {
								v, ok = o.ret.isBool()
							}
							checked[q]++
							if !ok {
								bad[q] = "not decided: " + cut(o.ret.key())
							} else if v != any && bad[q] == "" && (!e.p.failed || any) {
								bad[q] = fmt.Sprintf("after %s it answers %v, the terminal has the modes %v", e.to.why, v, sortedKeys(e.to.modes))
							}
						}
					}
				}
				k := stateKey(e.to.st, roots[s]) + " " + strings.Join(sortedKeys(e.to.modes), ",")
				if !seen[k] {
					seen[k] = true
					queue = append(queue, e.to)
				}
			}
		}
		site := via + ": leaving"
		checked[site]++
		for _, k := range sortedKeys(s.modes) {
			if !canLeave[k] && bad[site] == "" {
				bad[site] = fmt.Sprintf("after %s mode %s is set and no disabling operation switches it off any more", s.why, k)
			}
		}
	}
	if !emits {
		return false
	}
	pos := t.w.Pos(ctor.Pos())
	if undecided != "" {
		t.r.Bad("balance", via, pos, "not decided: %s", undecided)
	}
	if count >= 3000 {
		t.r.Bad("balance", via, pos, "not decided: too many states")
	}
	var sites []string
	for s := range checked {
		sites = append(sites, s)
	}
	sort.Strings(sites)
	for _, s := range sites {
		if bad[s] != "" {
			t.r.Bad("balance", s, pos, "%s", bad[s])
		} else {
			t.r.OK("balance", s)
		}
	}
	t.r.Units["states of "+via] = len(seen)
	return true
}

// cellRoot cuts fields and indexes off the name of a local cell.
func cellRoot(c string) string {
	if i := strings.IndexAny(c, ".[#"); i > 0 {
		return c[:i]
	}
	return c
}

// stateKey describes what is reachable from the object.
func stateKey(st *TState, root *Term) string {
	names := map[string]string{}
	var b strings.Builder
	var todo []string
	ref := func(c string) string {
		base := cellRoot(c)
		if n, ok := names[base]; ok {
			return n + c[len(base):]
		}
		n := fmt.Sprintf("o%d", len(names))
		names[base] = n
		todo = append(todo, base)
		return n + c[len(base):]
	}
	var show func(v *Term) string
	show = func(v *Term) string {
		switch v.op {
		case "ref":
			if isLocalCell(v.name) {
				return "&" + ref(v.name)
			}
		case "slice", "map":
			if isLocalCell(v.name) {
				return fmt.Sprintf("%s(%s,%d,%d)", v.op, ref(v.name), v.lo, v.n)
			}
		case "struct", "iface", "tuple":
			s := v.op + "("
			for _, a := range v.args {
				s += show(a) + ","
			}
			return s + ")"
		}
		return v.key()
	}
	b.WriteString(show(root))
	for len(todo) > 0 {
		base := todo[0]
		todo = todo[1:]
		var ks []string
		for k := range st.mem {
			if cellRoot(k) == base {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			b.WriteString(";" + names[base] + k[len(base):] + "=" + show(st.mem[k]))
		}
	}
	return b.String()
}

// ---- attributes of the renderer's style

func (t *c15) attributes() {
	codes := map[string]string{"Bold": "1", "Dim": "2", "Italic": "3", "Underline": "4", "Blink": "5", "Reverse": "7", "Hidden": "8", "Strike": "9", "Strikethrough": "9"}
	for _, p := range t.w.Pkgs {
		if p.Types == nil {
			continue
		}
		sc := p.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || n.TypeParams().Len() > 0 {
				continue
			}
			ms := t.w.Prog.MethodSets.MethodSet(n)
			to := ms.Lookup(p.Types, "ToANSI")
			if to == nil {
				continue
			}
			render := unwrap(t.w.Prog.MethodValue(to))
			if render == nil || len(render.Params) != 1 || len(render.Blocks) == 0 {
				continue
			}
			for i := 0; i < ms.Len(); i++ {
				nm := ms.At(i).Obj().Name()
				attr := strings.TrimPrefix(nm, "With")
				code, ok := codes[attr]
				if !ok || attr == nm {
					continue
				}
				set := unwrap(t.w.Prog.MethodValue(ms.At(i)))
				if set == nil || len(set.Params) != 2 {
					continue
				}
				site := fnName(set)
				pos := t.w.Pos(set.Pos())
				bad := ""
				for _, on := range []bool{true, false} {
					for _, base := range []*Term{zeroTerm(n)} {
						ev := t.eval(false)
						outs := ev.Run(set, []*Term{base, tBool(on)}, nil, newTState())
						for _, o := range outs {
							if o.panic {
								continue
							}
							ps, err := t.paths(ev, render, []*Term{o.ret}, o.st)
							if err != "" {
								bad = err
							}
							for _, q := range ps {
								es, err := effects(q.text)
								var got []string
								for _, e := range es {
									if e != "SGR 0" {
										got = append(got, e)
									}
								}
								switch {
								case err != nil:
									bad = err.Error()
								case on && strings.Join(got, ", ") != "SGR "+code:
									bad = fmt.Sprintf("switched on, it is written as %v instead of SGR %s", got, code)
								case !on && len(got) != 0:
									bad = fmt.Sprintf("switched off, it is written as %v", got)
								}
							}
						}
					}
				}
				if bad != "" {
					t.r.Bad("standard", site, pos, "%s", bad)
				} else {
					t.r.OK("standard", site)
				}
			}
		}
	}
}
