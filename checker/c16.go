package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C16"] = checkC16 }

// The style module's rendering code is analysed once per terminal capability: every capability kept
// in a field or handed in from outside is that one, conditions that follow from it are resolved
// (interprocedural conditional constant propagation), and the colour sequences in the code that
// stays reachable are compared with what the capability allows.
type c16 struct {
	w    *World
	r    *Report
	caps map[*types.TypeName]bool
	c    constant.Value
	memo map[string]*c16ctx
	fns  map[*ssa.Function]bool // function values met in reachable code
	seqs map[string]token.Pos   // colour sequences met
	nfun map[*ssa.Function]bool
	more bool
}

type c16ctx struct {
	f     *ssa.Function
	args  []constant.Value
	ret   []constant.Value // nil: unknown
	done  bool
	busy  bool
	reach map[*ssa.BasicBlock]bool
	seqs  map[string]string
	sub   map[string]bool
	edge  map[[2]*ssa.BasicBlock]bool
}

var (
	reTrue = regexp.MustCompile(`(38|48|^8|%[dsvc]8?)[;:]2([;:]|$)`)
	re256  = regexp.MustCompile(`(38|48|^8|%[dsvc]8?)[;:]5([;:]|$)`)
	reSGR  = regexp.MustCompile(`\x1b\[([^a-zA-Z]*(?:%[a-z][^a-zA-Z]*)*)m`)
)

// colourOf classifies a piece of text: 0 no colour, 1 one of 16, 2 one of 256, 3 true colour.
func colourOf(s string) int {
	switch {
	case reTrue.MatchString(s):
		return 3
	case re256.MatchString(s):
		return 2
	}
	best := 0
	for _, m := range reSGR.FindAllStringSubmatch(s, -1) {
		for _, p := range strings.FieldsFunc(m[1], func(r rune) bool { return r == ';' || r == ':' }) {
			switch {
			case strings.Contains(p, "%"):
				best = 1
			case len(p) == 2 && (p[0] == '3' || p[0] == '4'), len(p) == 2 && p[0] == '9', len(p) == 3 && strings.HasPrefix(p, "10"):
				best = 1
			}
		}
	}
	// unfinished sequences: an introducer with the colour to follow
	if best == 0 && (strings.HasSuffix(s, "\x1b[3") || strings.HasSuffix(s, "\x1b[4") || strings.HasSuffix(s, "\x1b[9") || strings.HasSuffix(s, "\x1b[10") || strings.HasSuffix(s, "\x1b[")) {
		best = 1
	}
	return best
}

func checkC16(c *Ctx, r *Report) {
	r.Rule("within", "for each terminal capability, no rendering operation reaches a colour sequence of a richer colour space")
	r.Rule("present", "the analysis sees the colour sequences: text foreground, background and border reach the sequence of their colour space where the capability allows it")
	w := c.Linux()
	t := &c16{w: w, r: r, caps: map[*types.TypeName]bool{}}
	var vals []enumVal
	for _, n := range w.enums() {
		if n.Obj().Name() == "TerminalCapability" {
			t.caps[n.Obj()] = true
			vals = enumValues(w, n)
		}
	}
	level := map[string]int{"NoColor": 0, "ANSI16": 1, "ANSI256": 2, "TrueColor": 3}
	if len(vals) != 4 {
		r.Bad("within", "TerminalCapability", "", "the terminal capabilities are not the four known ones (%d)", len(vals))
		return
	}
	var entries []*ssa.Function
	for _, f := range w.Funcs {
		if f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 || !exportedName(f.Name()) {
			continue
		}
		p := pkgOf(f)
		// what users call; internal helpers may be handed a colour space by name
		if p != "style" && !strings.HasPrefix(p, "components/") || strings.Contains(p, "/internal/") {
			continue
		}
		entries = append(entries, f)
	}
	sort.Slice(entries, func(i, j int) bool { return fnName(entries[i]) < fnName(entries[j]) })
	names := []string{"no colour", "16 colours", "256 colours", "true colour"}
	seen := map[string]map[int]bool{}
	var total = map[*ssa.Function]bool{}
	for _, v := range vals {
		lv, ok := level[v.name()]
		if !ok {
			r.Bad("within", v.name(), v.pos, "unknown capability %s", v.name())
			continue
		}
		t.c = v.val
		for {
			t.memo, t.fns, t.nfun, t.more = map[string]*c16ctx{}, t.fns, map[*ssa.Function]bool{}, false
			if t.fns == nil {
				t.fns = map[*ssa.Function]bool{}
			}
			for _, f := range entries {
				t.run(f, t.entryArgs(f))
			}
			if !t.more {
				break
			}
		}
		for f := range t.nfun {
			total[f] = true
		}
		for _, f := range entries {
			got := t.sequences(f)
			best := 0
			where := ""
			for s, pos := range got {
				if c := colourOf(s); c > lv && c > best {
					best, where = c, fmt.Sprintf("%q at %s", s, pos)
				}
				if seen[fnName(f)] == nil {
					seen[fnName(f)] = map[int]bool{}
				}
				seen[fnName(f)][colourOf(s)*10+lv] = true
			}
			site := fnName(f) + " with " + v.name()
			if best > 0 {
				r.Bad("within", site, w.Pos(f.Pos()), "on a terminal with %s, %s reaches a %s sequence: %s", names[lv], fnName(f), names[best], where)
			} else {
				r.OK("within", site)
			}
		}
	}
	need := 0
	for _, f := range entries {
		has := seen[fnName(f)]
		if has == nil || !has[33] {
			continue
		}
		need++
		// what reaches true colour must also have a 256 and a 16 colour form
		r.Check(has[22] && has[11], "present", fnName(f), w.Pos(f.Pos()), "%s reaches true colour but not the poorer forms of the same colour", fnName(f))
	}
	r.Units["functions analysed per capability"] = len(total)
	r.Floor("within", 480)
	r.Floor("present", 3)
}

func (t *c16) isCap(x types.Type) bool {
	n, ok := types.Unalias(x).(*types.Named)
	return ok && t.caps[n.Obj()]
}

func (t *c16) entryArgs(f *ssa.Function) []constant.Value {
	args := make([]constant.Value, len(f.Params))
	for i, p := range f.Params {
		if t.isCap(p.Type()) {
			args[i] = t.c
		}
	}
	return args
}

func c16Key(f *ssa.Function, args []constant.Value) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%p", f)
	for _, a := range args {
		b.WriteByte('|')
		if a != nil {
			b.WriteString(a.ExactString())
		}
	}
	return b.String()
}

// sequences are the texts with colour that f's analysis reaches.
func (t *c16) sequences(f *ssa.Function) map[string]string {
	out := map[string]string{}
	done := map[string]bool{}
	var walk func(k string)
	walk = func(k string) {
		x := t.memo[k]
		if x == nil || done[k] {
			return
		}
		done[k] = true
		for s, p := range x.seqs {
			out[s] = p
		}
		for s := range x.sub {
			walk(s)
		}
	}
	walk(c16Key(f, t.entryArgs(f)))
	return out
}

// run analyses f with the constants its parameters have.
func (t *c16) run(f *ssa.Function, args []constant.Value) *c16ctx {
	k := c16Key(f, args)
	x := t.memo[k]
	if x == nil {
		x = &c16ctx{f: f, args: args, seqs: map[string]string{}, sub: map[string]bool{}}
		t.memo[k] = x
	}
	if x.done || x.busy {
		return x
	}
	x.busy = true
	t.nfun[f] = true
	vals := map[ssa.Value]constant.Value{}
	for i, p := range f.Params {
		if i < len(args) {
			vals[p] = args[i]
		}
	}
	// reachability and constants to a fixpoint (blocks only become reachable)
	x.reach = map[*ssa.BasicBlock]bool{}
	edge := map[[2]*ssa.BasicBlock]bool{}
	x.edge = edge
	work := []*ssa.BasicBlock{f.Blocks[0]}
	var rets [][]constant.Value
	for pass := 0; pass < 50; pass++ {
		changed := false
		for len(work) > 0 {
			b := work[0]
			work = work[1:]
			if x.reach[b] && pass == 0 {
				continue
			}
			x.reach[b] = true
		}
		for _, b := range f.Blocks {
			if !x.reach[b] {
				continue
			}
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					vals[v] = t.eval(x, v, vals, edge)
				}
			}
			take := func(s *ssa.BasicBlock) {
				e := [2]*ssa.BasicBlock{b, s}
				if !edge[e] {
					edge[e] = true
					changed = true
				}
				if !x.reach[s] {
					x.reach[s] = true
					changed = true
				}
			}
			if len(b.Instrs) > 0 {
				if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					if c := t.constOf(br.Cond, vals); c != nil && c.Kind() == constant.Bool {
						if constant.BoolVal(c) {
							take(b.Succs[0])
						} else {
							take(b.Succs[1])
						}
						continue
					}
				}
			}
			for _, s := range b.Succs {
				take(s)
			}
		}
		if !changed {
			break
		}
	}
	for _, b := range f.Blocks {
		if !x.reach[b] {
			continue
		}
		for _, in := range b.Instrs {
			// a text put together from known pieces is judged as a whole
			if v, ok := in.(ssa.Value); ok && vals[v] != nil && vals[v].Kind() == constant.String {
				switch in.(type) {
				case *ssa.BinOp, *ssa.Call:
					if s := constant.StringVal(vals[v]); !joined(v, vals) && !strings.HasPrefix(s, c16Set) && colourOf(s) > 0 {
						x.seqs[s] = t.w.InstrPos(in)
					}
					continue
				}
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				t.operand(x, *op, in)
			}
			if st, ok := in.(*ssa.Store); ok && t.isCap(st.Val.Type()) {
				t.forced(x, st, t.constOf(st.Val, vals))
			}
			if rt, ok := in.(*ssa.Return); ok {
				var r []constant.Value
				for _, v := range rt.Results {
					r = append(r, t.constOf(v, vals))
				}
				rets = append(rets, r)
			}
		}
	}
	for i := 0; len(rets) > 0 && i < len(rets[0]); i++ {
		v := rets[0][i]
		for _, r := range rets[1:] {
			v = t.join(v, r[i], f.Signature.Results().At(i).Type())
		}
		x.ret = append(x.ret, v)
	}
	x.done, x.busy = true, false
	return x
}

// forced: a style's capability replaced by a richer one is as good as a richer sequence.
func (t *c16) forced(x *c16ctx, st *ssa.Store, c constant.Value) {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || c == nil {
		return
	}
	for _, m := range c16Members(c) {
		if m.Kind() != constant.Int || constant.Compare(m, token.LEQ, t.c) {
			continue
		}
		// a style built from nothing starts with whatever its constructor says
		if a, ok := fa.X.(*ssa.Alloc); ok {
			whole := false
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == a {
					_, isConst := s.Val.(*ssa.Const)
					whole = whole || !isConst
				}
			}
			if !whole {
				continue
			}
		}
		n := map[int]string{1: "\x1b[3%dm", 2: "\x1b[38;5;%dm", 3: "\x1b[38;2;%d;%d;%dm"}
		k, _ := constant.Int64Val(m)
		x.seqs[n[int(k)]] = t.w.InstrPos(st)
	}
}

// operand notes the texts and functions an instruction names.
func (t *c16) operand(x *c16ctx, v ssa.Value, in ssa.Instruction) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			if s := constant.StringVal(v.Value); colourOf(s) > 0 {
				x.seqs[s] = t.w.InstrPos(in)
			}
		}
	case *ssa.Global:
		for s := range t.globalText(v) {
			x.seqs[s] = t.w.InstrPos(in)
		}
	case *ssa.Function:
		if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == v {
			return
		}
		if o := origin(unwrap(v)); len(o.Blocks) > 0 && t.w.funcSet[o] && !t.fns[o] {
			t.fns[o] = true
			t.more = true
		}
	}
}

// globalText: colour texts a package variable is initialised with.
func (t *c16) globalText(g *ssa.Global) map[string]bool {
	out := map[string]bool{}
	if g.Pkg == nil || !isRepoPath(g.Pkg.Pkg.Path()) {
		return out
	}
	f := g.Pkg.Func("init")
	if f == nil {
		return out
	}
	root := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Global:
				return x == g
			default:
				return false
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !root(st.Addr) {
				continue
			}
			var walk func(v ssa.Value, d int)
			walk = func(v ssa.Value, d int) {
				if d > 6 {
					return
				}
				if c, ok := v.(*ssa.Const); ok {
					if c.Value != nil && c.Value.Kind() == constant.String && colourOf(constant.StringVal(c.Value)) > 0 {
						out[constant.StringVal(c.Value)] = true
					}
					return
				}
				if refs := v.Referrers(); refs != nil {
					for _, u := range *refs {
						switch u := u.(type) {
						case *ssa.MapUpdate:
							walk(u.Value, d+1)
							walk(u.Key, d+1)
						case *ssa.IndexAddr:
							for _, s := range *u.Referrers() {
								if st, ok := s.(*ssa.Store); ok {
									walk(st.Val, d+1)
								}
							}
						}
					}
				}
				if i, ok := v.(ssa.Instruction); ok {
					for _, op := range i.Operands(nil) {
						if *op != nil {
							walk(*op, d+1)
						}
					}
				}
			}
			walk(st.Val, 0)
		}
	}
	return out
}

// A capability that is one of several known ones is a set: a text no constant of the code is.
const c16Set = "\x00one of:"

func c16Members(c constant.Value) []constant.Value {
	if c == nil {
		return nil
	}
	if c.Kind() != constant.String || !strings.HasPrefix(constant.StringVal(c), c16Set) {
		return []constant.Value{c}
	}
	var out []constant.Value
	for _, s := range strings.Split(constant.StringVal(c)[len(c16Set):], ",") {
		out = append(out, constant.MakeFromLiteral(s, token.INT, 0))
	}
	return out
}

// join merges two values that reach the same place: nil unless equal, or both capabilities.
func (t *c16) join(a, b constant.Value, typ types.Type) constant.Value {
	if a != nil && b != nil && a.Kind() == b.Kind() && constant.Compare(a, token.EQL, b) {
		return a
	}
	if !t.isCap(typ) {
		return nil
	}
	// what the analysis does not know about a capability is the terminal's
	if a == nil {
		a = t.c
	}
	if b == nil {
		b = t.c
	}
	m := map[string]bool{}
	for _, c := range append(c16Members(a), c16Members(b)...) {
		m[c.ExactString()] = true
	}
	if len(m) == 1 {
		return a
	}
	return constant.MakeString(c16Set + strings.Join(sortedKeys(m), ","))
}

func (t *c16) constOf(v ssa.Value, vals map[ssa.Value]constant.Value) constant.Value {
	if c, ok := v.(*ssa.Const); ok {
		return c.Value
	}
	return vals[v]
}

func (t *c16) eval(x *c16ctx, v ssa.Value, vals map[ssa.Value]constant.Value, edge map[[2]*ssa.BasicBlock]bool) constant.Value {
	switch v := v.(type) {
	case *ssa.Phi:
		var r constant.Value
		n := 0
		for i, e := range v.Edges {
			if !edge[[2]*ssa.BasicBlock{v.Block().Preds[i], v.Block()}] {
				continue
			}
			c := t.constOf(e, vals)
			if n == 0 {
				r = c
			} else {
				r = t.join(r, c, v.Type())
			}
			n++
		}
		return r
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if t.isCap(v.Type()) {
				if _, ok := v.X.(*ssa.FieldAddr); ok {
					return t.c
				}
			}
			// a local variable stored once
			if a, ok := v.X.(*ssa.Alloc); ok && a.Referrers() != nil {
				var r constant.Value
				n := 0
				for _, u := range *a.Referrers() {
					switch u := u.(type) {
					case *ssa.Store:
						if u.Addr == a {
							n++
							r = t.constOf(u.Val, vals)
						} else {
							return nil
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return nil
					}
				}
				if n == 1 {
					return r
				}
			}
			return nil
		}
		if c := t.constOf(v.X, vals); c != nil && (v.Op == token.NOT && c.Kind() == constant.Bool || v.Op == token.SUB && c.Kind() == constant.Int) {
			return constant.UnaryOp(v.Op, c, 0)
		}
	case *ssa.Field:
		if t.isCap(v.Type()) {
			return t.c
		}
	case *ssa.BinOp:
		a, b := t.constOf(v.X, vals), t.constOf(v.Y, vals)
		if a == nil || b == nil || a.Kind() != b.Kind() {
			return nil
		}
		switch v.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.Kind() == constant.Bool && v.Op != token.EQL && v.Op != token.NEQ {
				return nil
			}
			return constant.MakeBool(constant.Compare(a, v.Op, b))
		case token.ADD:
			if a.Kind() == constant.String || a.Kind() == constant.Int {
				return constant.BinaryOp(a, token.ADD, b)
			}
		case token.SUB, token.MUL, token.AND, token.OR:
			if a.Kind() == constant.Int {
				return constant.BinaryOp(a, v.Op, b)
			}
		}
	case *ssa.Convert:
		if c := t.constOf(v.X, vals); c != nil && c.Kind() == constant.Int {
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if k, ok := fitConst(c, v.Type()); ok {
					return k
				}
			}
		}
	case *ssa.ChangeType:
		return t.constOf(v.X, vals)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if r := t.call(x, c, vals); v.Index < len(r) {
				return r[v.Index]
			}
		}
	case *ssa.Call:
		if s := t.formatted(v, vals); s != nil {
			return s
		}
		r := t.call(x, v, vals)
		if len(r) == 1 {
			return r[0]
		}
	}
	return nil
}

// joined: v is only a piece of other known texts.
func joined(v ssa.Value, vals map[ssa.Value]constant.Value) bool {
	refs := v.Referrers()
	if refs == nil || len(*refs) == 0 {
		return false
	}
	for _, u := range *refs {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		if b, ok := u.(*ssa.BinOp); !ok || b.Op != token.ADD || vals[b] == nil {
			return false
		}
	}
	return true
}

// formatted evaluates fmt.Sprintf, fmt.Sprint and strconv.Itoa on known values.
func (t *c16) formatted(v *ssa.Call, vals map[ssa.Value]constant.Value) constant.Value {
	f := v.Call.StaticCallee()
	if f == nil || f.Pkg == nil {
		return nil
	}
	var args []any
	add := func(a ssa.Value) bool {
		if m, ok := a.(*ssa.MakeInterface); ok {
			a = m.X
		}
		switch c := t.constOf(a, vals); {
		case c == nil:
			return false
		case c.Kind() == constant.String:
			args = append(args, constant.StringVal(c))
		case c.Kind() == constant.Int && t.w.Method(a.Type(), "String") == nil:
			k, ok := constant.Int64Val(c)
			args = append(args, k)
			return ok
		default:
			return false
		}
		return true
	}
	switch f.Pkg.Pkg.Path() + "." + f.Name() {
	case "fmt.Sprintf":
		format := t.constOf(v.Call.Args[0], vals)
		if format == nil || format.Kind() != constant.String {
			return nil
		}
		vs := variadicArgs(v.Call.Args[1])
		if _, none := v.Call.Args[1].(*ssa.Const); vs == nil && !none {
			return nil
		}
		for _, a := range vs {
			if a == nil || !add(a) {
				return nil
			}
		}
		return constant.MakeString(fmt.Sprintf(constant.StringVal(format), args...))
	case "strconv.Itoa":
		if add(v.Call.Args[0]) {
			return constant.MakeString(fmt.Sprint(args...))
		}
	}
	return nil
}

// targets: the functions a function value can be, if they are all known here.
func (t *c16) targets(x *c16ctx, v ssa.Value, vals map[ssa.Value]constant.Value, depth int) ([]*ssa.Function, bool) {
	if depth > 8 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return nil, true
	case *ssa.Function:
		return []*ssa.Function{unwrap(v)}, true
	case *ssa.MakeClosure:
		return []*ssa.Function{unwrap(v.Fn.(*ssa.Function))}, true
	case *ssa.ChangeType:
		return t.targets(x, v.X, vals, depth+1)
	case *ssa.Extract:
		if l, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 0 {
			return t.targets(x, l, vals, depth+1)
		}
	case *ssa.Phi:
		var out []*ssa.Function
		for i, e := range v.Edges {
			if !x.edge[[2]*ssa.BasicBlock{v.Block().Preds[i], v.Block()}] {
				continue
			}
			fs, ok := t.targets(x, e, vals, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, fs...)
		}
		return out, true
	case *ssa.Lookup:
		k := t.constOf(v.Index, vals)
		m := v.X
		if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
			g, ok := u.X.(*ssa.Global)
			if !ok || g.Pkg == nil || g.Pkg.Func("init") == nil {
				return nil, false
			}
			// a package variable set once, when the package starts
			m = nil
			for f := range t.w.funcSet {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && s.Addr == g {
							return nil, false
						}
					}
				}
			}
			for _, b := range g.Pkg.Func("init").Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == g {
						m = s.Val
					}
				}
			}
		}
		mk, ok := m.(*ssa.MakeMap)
		if !ok || k == nil || mk.Referrers() == nil {
			return nil, false
		}
		var out []*ssa.Function
		for _, u := range *mk.Referrers() {
			switch u := u.(type) {
			case *ssa.MapUpdate:
				c, ok := u.Key.(*ssa.Const)
				if !ok || u.Map != mk {
					return nil, false
				}
				for _, m := range c16Members(k) {
					if m.Kind() == c.Value.Kind() && constant.Compare(m, token.EQL, c.Value) {
						fs, ok := t.targets(x, u.Value, vals, depth+1)
						if !ok {
							return nil, false
						}
						out = append(out, fs...)
					}
				}
			case *ssa.Lookup, *ssa.DebugRef, *ssa.Store:
			default:
				return nil, false
			}
		}
		return out, true
	}
	return nil, false
}

func (t *c16) call(x *c16ctx, c ssa.CallInstruction, vals map[ssa.Value]constant.Value) []constant.Value {
	com := c.Common()
	var fs []*ssa.Function
	if com.IsInvoke() || com.StaticCallee() != nil {
		fs, _, _ = t.w.Callees(c)
	} else if _, ok := com.Value.(*ssa.Builtin); !ok {
		var ok bool
		if fs, ok = t.targets(x, com.Value, vals, 0); !ok {
			fs = nil
			for f := range t.fns {
				if types.Identical(stripRecv(f.Signature), stripRecv(com.Signature())) {
					fs = append(fs, f)
				}
			}
		}
	}
	var all [][]constant.Value
	for _, f := range fs {
		if len(f.Blocks) == 0 || !t.w.funcSet[f] {
			all = append(all, nil)
			continue
		}
		var args []constant.Value
		if com.IsInvoke() {
			args = append(args, nil)
		}
		for _, a := range com.Args {
			args = append(args, t.constOf(a, vals))
		}
		if n := len(f.Params) - len(args); n == 1 {
			args = append([]constant.Value{nil}, args...)
		}
		for len(args) < len(f.Params) {
			args = append(args, nil)
		}
		args = args[:len(f.Params)]
		for i, p := range f.Params {
			b, ok := p.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&(types.IsBoolean|types.IsInteger|types.IsString) == 0 {
				args[i] = nil
			}
			// a capability this analysis does not know is the terminal's
			if args[i] == nil && t.isCap(p.Type()) {
				args[i] = t.c
			}
		}
		for _, args := range t.expand(f, args) {
			all = append(all, t.callee(x, f, args))
		}
	}
	if len(all) == 0 {
		return nil
	}
	r := append([]constant.Value(nil), all[0]...)
	for _, o := range all[1:] {
		for i := range r {
			var b constant.Value
			if i < len(o) {
				b = o[i]
			}
			r[i] = t.join(r[i], b, com.Signature().Results().At(i).Type())
		}
	}
	return r
}

// expand: one argument list per known capability.
func (t *c16) expand(f *ssa.Function, args []constant.Value) [][]constant.Value {
	out := [][]constant.Value{args}
	for i := range f.Params {
		var next [][]constant.Value
		for _, a := range out {
			ms := c16Members(a[i])
			if len(ms) < 2 {
				next = append(next, a)
				continue
			}
			for _, m := range ms {
				b := append([]constant.Value(nil), a...)
				b[i] = m
				next = append(next, b)
			}
		}
		out = next
	}
	return out
}

func (t *c16) callee(x *c16ctx, f *ssa.Function, args []constant.Value) []constant.Value {
	// bound the number of contexts per function
	k := c16Key(f, args)
	if t.memo[k] == nil {
		n := 0
		for _, m := range t.memo {
			if m.f == f {
				n++
			}
		}
		if n > 40 {
			for i, p := range f.Params {
				if !t.isCap(p.Type()) {
					args[i] = nil
				}
			}
			k = c16Key(f, args)
		}
	}
	x.sub[k] = true
	y := t.run(f, args)
	if !y.done {
		return nil
	}
	return y.ret
}
