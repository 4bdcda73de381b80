package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C12"] = checkC12 }

// unit inference: every integer of the program belongs to a class; adding, subtracting, comparing,
// storing and passing integers merges classes; counting text and using a position in text gives a
// class its unit. Functions that fix no unit are generic: each call has its own classes.

type unitNode struct {
	up     *unitNode
	unit   string // bytes, runes, columns
	why    string
	global bool // holds a field, a variable or a unit: the same for all callers
}

func (n *unitNode) root() *unitNode {
	for n.up != nil {
		if n.up.up != nil {
			n.up = n.up.up
		}
		n = n.up
	}
	return n
}

type c12 struct {
	w      *World
	r      *Report
	vals   map[ssa.Value]*unitNode
	res    map[*ssa.Function][]*unitNode
	fields map[string]*unitNode
	done   map[*ssa.Function]bool
	open   map[*ssa.Function]bool
	mixes  map[string]int
	meets  int
	ascii  map[ssa.Value]int
	pub    map[*ssa.Function]bool
}

func checkC12(c *Ctx, r *Report) {
	r.Rule("unit", "a count of bytes, of code points and of columns are never added, subtracted, compared, passed or stored as one another")
	r.Rule("boundary", "a text is cut, and a byte of it made a character, only where a character is known to end: positions come from ranging over it, from searching it, from lengths of its parts, or from bytes known to be ASCII")
	r.Assume = append(r.Assume,
		"fields are one quantity per type, not per object",
		"text an application hands in as a border, fill or separator is one column wide",
		"the size a function gives with a character it has put together from bytes is the size of that character",
		"where a text is cut at the length of a piece that came from elsewhere in a function, the piece is part of the text")
	w := c.Linux()
	t := &c12{w: w, r: r, vals: map[ssa.Value]*unitNode{}, res: map[*ssa.Function][]*unitNode{}, fields: map[string]*unitNode{}, done: map[*ssa.Function]bool{}, open: map[*ssa.Function]bool{}, mixes: map[string]int{}, ascii: map[ssa.Value]int{}}
	for _, name := range []string{"tea.WindowSizeMsg.Width", "tea.MouseMsg.X", "tea/internal/domain/model.WindowSizeMsg.Width", "tea/internal/domain/model.MouseMsg.X", "mouse/internal/domain/value.Position.x"} {
		t.fields[name] = &unitNode{unit: "columns", why: name, global: true}
	}
	t.pub = map[*ssa.Function]bool{}
	for _, f := range surface(w) {
		t.pub[f] = true
	}
	fs := append([]*ssa.Function{}, w.Funcs...)
	sort.SliceStable(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	n := 0
	for _, f := range fs {
		if pk := pkgOf(f); strings.Contains(pk, "examples") || strings.Contains(pk, "benchmarks") {
			continue
		}
		t.function(f)
		n++
	}
	for _, f := range fs {
		if pk := pkgOf(f); strings.Contains(pk, "examples") || strings.Contains(pk, "benchmarks") {
			continue
		}
		t.cuts(f)
	}
	r.Units["functions"] = n
	r.Units["merged quantities"] = t.meets
	classes := map[*unitNode]bool{}
	for _, v := range t.vals {
		if v.root().unit != "" {
			classes[v.root()] = true
		}
	}
	r.Units["classes with a unit"] = len(classes)
	r.Floor("unit", 80)
	r.Floor("boundary", 10)
}

func counts(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsInteger != 0 && u.Kind() != types.Uint8 && u.Kind() != types.Int32 && u.Kind() != types.UntypedRune
	case *types.Slice:
		return counts(u.Elem())
	case *types.Array:
		return counts(u.Elem())
	case *types.Map:
		return counts(u.Elem())
	case *types.Pointer:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && counts(b)
	}
	return false
}

func (t *c12) node(v ssa.Value) *unitNode {
	if !counts(v.Type()) {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return t.field("var " + relPath(x.Pkg.Pkg.Path()) + "." + x.Name())
	}
	if n := t.vals[v]; n != nil {
		return n
	}
	n := &unitNode{}
	t.vals[v] = n
	return n
}

func (t *c12) field(name string) *unitNode {
	if n := t.fields[name]; n != nil {
		return n
	}
	n := &unitNode{global: true}
	t.fields[name] = n
	return n
}

func (t *c12) fieldOf(x types.Type, i int) *unitNode {
	n := namedOf(deref(x))
	st, ok := deref(x).Underlying().(*types.Struct)
	if !ok || !counts(st.Field(i).Type()) {
		return nil
	}
	if n == nil {
		return t.field(types.TypeString(st, nil) + "." + st.Field(i).Name())
	}
	return t.field(typeName(n.Origin()) + "." + st.Field(i).Name())
}

func (t *c12) results(f *ssa.Function) []*unitNode {
	if l, ok := t.res[f]; ok {
		return l
	}
	var l []*unitNode
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if counts(f.Signature.Results().At(i).Type()) {
			l = append(l, &unitNode{})
		} else {
			l = append(l, nil)
		}
	}
	t.res[f] = l
	return l
}

func (t *c12) give(n *unitNode, unit, why string, at ssa.Instruction) {
	if n == nil {
		return
	}
	t.merge(n, &unitNode{unit: unit, why: why, global: true}, at)
}

// merge makes two quantities one, or reports that they cannot be.
func (t *c12) merge(a, b *unitNode, at ssa.Instruction) {
	if a == nil || b == nil {
		return
	}
	a, b = a.root(), b.root()
	if a == b {
		return
	}
	if a.unit != "" && b.unit != "" {
		f := at.Parent()
		if a.unit != b.unit {
			x, y := a, b
			if x.unit > y.unit {
				x, y = y, x
			}
			con := fmt.Sprintf("%s: %s and %s", fnName(f), x.unit, y.unit)
			t.mixes[con]++
			if t.mixes[con] == 1 {
				t.r.Bad("unit", con, t.w.InstrPos(at), "%s takes a number of %s (%s) for a number of %s (%s)", fnName(f), x.unit, x.why, y.unit, y.why)
			}
			return
		}
		t.r.OK("unit", fnName(f)+": "+a.unit)
	}
	t.meets++
	b.up = a
	if a.unit == "" {
		a.unit, a.why = b.unit, b.why
	}
	a.global = a.global || b.global
}

func (t *c12) function(f *ssa.Function) {
	if t.done[f] || t.open[f] {
		return
	}
	t.open[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				gs, _, _ := t.w.Callees(c)
				if len(gs) <= 12 {
					for _, g := range gs {
						t.function(g)
					}
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				t.function(origin(mc.Fn.(*ssa.Function)))
			}
		}
	}
	// first what a quantity is, then where quantities meet
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			t.sources(in)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.BinOp); ok && (x.Op == token.LSS || x.Op == token.LEQ || x.Op == token.GTR || x.Op == token.GEQ || x.Op == token.EQL || x.Op == token.NEQ) {
				continue
			}
			t.flows(in)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.BinOp); ok && (x.Op == token.LSS || x.Op == token.LEQ || x.Op == token.GTR || x.Op == token.GEQ || x.Op == token.EQL || x.Op == token.NEQ) {
				t.merge(t.node(x.X), t.node(x.Y), in)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			t.uses(in)
		}
	}
	delete(t.open, f)
	t.done[f] = true
}

// textUnit: what the length of a value of this type counts, and what positions in it count.
func textUnit(tp types.Type) string {
	switch u := tp.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return "bytes"
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return "bytes"
			case types.Int32:
				return "runes"
			}
		}
	}
	return ""
}

// extUnits: what functions outside the repository count, by result.
var extUnits = map[string][]string{
	"github.com/rivo/uniseg.StringWidth":                  {"columns"},
	"github.com/rivo/uniseg.GraphemeClusterCount":         {"clusters"},
	"github.com/rivo/uniseg.FirstGraphemeClusterInString": {"", "", "columns"},
	"github.com/rivo/uniseg.FirstGraphemeCluster":         {"", "", "columns"},
	"(*github.com/rivo/uniseg.Graphemes).Width":           {"columns"},
	"(*github.com/rivo/uniseg.Graphemes).Positions":       {"bytes", "bytes"},
	"github.com/unilibs/uniwidth.StringWidth":             {"columns"},
	"github.com/unilibs/uniwidth.RuneWidth":               {"columns"},
	"github.com/unilibs/uniwidth.StringWidthWithOptions":  {"columns"},
	"github.com/unilibs/uniwidth.RuneWidthWithOptions":    {"columns"},
	"github.com/mattn/go-runewidth.StringWidth":           {"columns"},
	"github.com/mattn/go-runewidth.RuneWidth":             {"columns"},
	"unicode/utf8.RuneCountInString":                      {"runes"},
	"unicode/utf8.RuneCount":                              {"runes"},
	"unicode/utf8.RuneLen":                                {"bytes"},
	"unicode/utf8.DecodeRuneInString":                     {"", "bytes"},
	"unicode/utf8.DecodeLastRuneInString":                 {"", "bytes"},
	"unicode/utf8.DecodeRune":                             {"", "bytes"},
	"unicode/utf8.DecodeLastRune":                         {"", "bytes"},
	"strings.Index":                                       {"bytes"},
	"strings.IndexByte":                                   {"bytes"},
	"strings.IndexRune":                                   {"bytes"},
	"strings.IndexAny":                                    {"bytes"},
	"strings.IndexFunc":                                   {"bytes"},
	"strings.LastIndex":                                   {"bytes"},
	"strings.LastIndexByte":                               {"bytes"},
	"strings.LastIndexAny":                                {"bytes"},
	"strings.LastIndexFunc":                               {"bytes"},
	"bytes.Index":                                         {"bytes"},
	"bytes.IndexByte":                                     {"bytes"},
	"(*strings.Builder).Len":                              {"bytes"},
	"(*bytes.Buffer).Len":                                 {"bytes"},
}

func (t *c12) sources(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Phi:
		if counts(x.Type()) {
			if u, ok := t.counted(x); ok {
				t.give(t.node(x), u, "one for each character", in)
			}
		}
	case *ssa.Extract:
		switch tup := x.Tuple.(type) {
		case *ssa.Next:
			if tup.IsString && x.Index == 1 {
				t.give(t.node(x), "bytes", "position in a range over "+textName(tup.Iter), in)
			}
		case *ssa.Call:
			if g := tup.Call.StaticCallee(); g != nil {
				if u := extUnits[extName(g)]; x.Index < len(u) && u[x.Index] != "" {
					t.give(t.node(x), u[x.Index], extName(g), in)
				}
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "len" {
				if u := textUnit(x.Call.Args[0].Type()); u != "" && !t.oneByteEach(x.Call.Args[0], 0) {
					t.give(t.node(x), u, "len of "+textName(x.Call.Args[0]), in)
				}
			}
			return
		}
		if g := x.Call.StaticCallee(); g != nil {
			if u := extUnits[extName(g)]; len(u) == 1 {
				t.give(t.node(x), u[0], extName(g), in)
			}
			if k, ok := firstConst(x.Call.Args); ok && strings.HasPrefix(extName(g), "fmt.") && strings.Contains(k, "*") {
				t.padded(x, k, in)
			}
			if extName(g) == "strings.Repeat" {
				if k, ok := x.Call.Args[0].(*ssa.Const); !ok || k.Value != nil && len([]rune(constant.StringVal(k.Value))) == 1 {
					t.give(t.node(x.Call.Args[1]), "columns", "times a fill is repeated", in)
				}
			}
		}
	}
}

func firstConst(args []ssa.Value) (string, bool) {
	for _, a := range args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value), true
		}
	}
	return "", false
}

// padded: the width fmt pads or cuts a text to counts code points.
func (t *c12) padded(x *ssa.Call, format string, in ssa.Instruction) {
	sl, ok := x.Call.Args[len(x.Call.Args)-1].(*ssa.Slice)
	if !ok {
		return
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return
	}
	args := map[int64]ssa.Value{}
	for _, ref := range *arr.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				continue
			}
			n, _ := constant.Int64Val(k.Value)
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
					args[n] = st.Val
				}
			}
		}
	}
	n := int64(0)
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		var stars []int64
		for i++; i < len(format) && strings.IndexByte("0123456789.+-# *", format[i]) >= 0; i++ {
			if format[i] == '*' {
				stars = append(stars, n)
				n++
			}
		}
		if i >= len(format) || format[i] == '%' {
			continue
		}
		if strings.IndexByte("svq", format[i]) >= 0 {
			for _, k := range stars {
				if mi, ok := args[k].(*ssa.MakeInterface); ok {
					if _, isText := args[n].(*ssa.MakeInterface); isText && isString(args[n].(*ssa.MakeInterface).X.Type()) && !t.oneByteEach(args[n].(*ssa.MakeInterface).X, 0) {
						t.give(t.node(mi.X), "runes", "a width for fmt", in)
					}
				}
			}
		}
		n++
	}
}

// counted: p goes up by one for every character of a text that a loop goes through.
func (t *c12) counted(p *ssa.Phi) (string, bool) {
	h := p.Block()
	for i, e := range p.Edges {
		add, ok := e.(*ssa.BinOp)
		latch := h.Preds[i]
		if !ok || !h.Dominates(latch) || add.Op != token.ADD || !from(add.X, p, 0) || !add.Block().Dominates(latch) {
			continue
		}
		k, ok := add.Y.(*ssa.Const)
		if !ok || k.Value == nil || !constant.Compare(k.Value, token.EQL, constant.MakeInt64(1)) {
			continue
		}
		for b := latch; b != nil; b = b.Idom() {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Next:
					if x.IsString && b == h {
						return "runes", true
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil {
						switch extName(g) {
						case "(*github.com/rivo/uniseg.Graphemes).Next", "github.com/rivo/uniseg.FirstGraphemeClusterInString", "github.com/rivo/uniseg.FirstGraphemeCluster":
							return "clusters", true
						}
					}
				}
			}
			if b == h {
				break
			}
		}
	}
	return "", false
}

// from: v is p, or a constant where a branch starts p over.
func from(v ssa.Value, p *ssa.Phi, d int) bool {
	if v == ssa.Value(p) {
		return true
	}
	x, ok := v.(*ssa.Phi)
	if !ok || d > 4 {
		return false
	}
	some := false
	for _, e := range x.Edges {
		if _, ok := e.(*ssa.Const); ok {
			continue
		}
		if !from(e, p, d+1) {
			return false
		}
		some = true
	}
	return some
}

func extName(g *ssa.Function) string {
	if obj, ok := origin(g).Object().(*types.Func); ok {
		return obj.FullName()
	}
	return ""
}

func textName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Range:
		return textName(x.X)
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Convert:
		return textName(x.X)
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			return "what " + g.Name() + " gives"
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if st, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok {
				return "field " + st.Field(fa.Field).Name()
			}
		}
	}
	return "a text"
}

func (t *c12) flows(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB:
			if counts(x.Type()) && t.onlyCapacity(x, 0) {
				return
			}
			t.merge(t.node(x.X), t.node(x.Y), in)
			t.merge(t.node(x), t.node(x.X), in)
			t.merge(t.node(x), t.node(x.Y), in)
		case token.QUO:
			if _, ok := x.Y.(*ssa.Const); ok {
				t.merge(t.node(x), t.node(x.X), in)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.merge(t.node(x), t.node(e), in)
		}
	case *ssa.Convert:
		if counts(x.Type()) && counts(x.X.Type()) {
			t.merge(t.node(x), t.node(x.X), in)
		}
	case *ssa.ChangeType:
		t.merge(t.node(x), t.node(x.X), in)
	case *ssa.UnOp:
		if x.Op == token.MUL || x.Op == token.SUB {
			t.merge(t.node(x), t.node(x.X), in)
		}
	case *ssa.FieldAddr:
		t.merge(t.node(x), t.fieldOf(x.X.Type(), x.Field), in)
	case *ssa.Field:
		t.merge(t.node(x), t.fieldOf(x.X.Type(), x.Field), in)
	case *ssa.Store:
		t.merge(t.node(x.Addr), t.node(x.Val), in)
	case *ssa.IndexAddr:
		t.merge(t.node(x), t.node(x.X), in)
	case *ssa.Index:
		t.merge(t.node(x), t.node(x.X), in)
	case *ssa.Lookup:
		t.merge(t.node(x), t.node(x.X), in)
	case *ssa.Slice:
		t.merge(t.node(x), t.node(x.X), in)
	case *ssa.MapUpdate:
		t.merge(t.node(x.Map), t.node(x.Value), in)
	case *ssa.Return:
		l := t.results(in.Parent())
		for i, v := range x.Results {
			if i < len(l) {
				t.merge(l[i], t.node(v), in)
			}
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if i < len(g.FreeVars) {
				t.merge(t.node(b), t.node(g.FreeVars[i]), in)
			}
		}
	case ssa.CallInstruction:
		t.call(x, in)
	}
}

func (t *c12) call(c ssa.CallInstruction, in ssa.Instruction) {
	com := c.Common()
	res, _ := c.(ssa.Value)
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "min", "max", "append", "copy":
			for _, a := range com.Args {
				if res != nil && b.Name() != "copy" {
					t.merge(t.node(res), t.node(a), in)
				} else {
					t.merge(t.node(com.Args[0]), t.node(a), in)
				}
			}
		}
		return
	}
	gs, _, unknown := t.w.Callees(c)
	if unknown || len(gs) > 12 {
		return
	}
	for _, g := range gs {
		var args []ssa.Value
		if com.IsInvoke() {
			args = append(args, com.Value)
		}
		args = append(args, com.Args...)
		fresh := map[*unitNode]*unitNode{}
		inst := func(n *unitNode) *unitNode {
			if n == nil {
				return nil
			}
			r := n.root()
			if r.global || t.open[g] {
				return r
			}
			if fresh[r] == nil {
				fresh[r] = &unitNode{}
			}
			return fresh[r]
		}
		for i, p := range g.Params {
			if i < len(args) && counts(p.Type()) && counts(args[i].Type()) {
				t.merge(inst(t.node(p)), t.node(args[i]), in)
			}
		}
		if res == nil {
			continue
		}
		l := t.results(g)
		if len(l) == 1 {
			if counts(res.Type()) {
				t.merge(inst(l[0]), t.node(res), in)
			}
			continue
		}
		for _, ref := range *res.Referrers() {
			if e, ok := ref.(*ssa.Extract); ok && e.Index < len(l) && counts(e.Type()) {
				t.merge(inst(l[e.Index]), t.node(e), in)
			}
		}
	}
}

// uses: positions in text are of the text's unit.
func (t *c12) uses(in ssa.Instruction) {
	at := func(x ssa.Value, pos ...ssa.Value) {
		u := textUnit(deref(x.Type()))
		if u == "" || t.oneByteEach(x, 0) {
			return
		}
		for _, p := range pos {
			if p != nil && counts(p.Type()) {
				t.give(t.node(p), u, "a position in "+textName(x), in)
			}
		}
	}
	switch x := in.(type) {
	case *ssa.Slice:
		at(x.X, x.Low, x.High)
	case *ssa.IndexAddr:
		at(x.X, x.Index)
	case *ssa.Index:
		at(x.X, x.Index)
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			at(x.X, x.Index)
		}
	}
}

// onlyCapacity: a sum that only sizes what is allocated.
func (t *c12) onlyCapacity(v ssa.Value, d int) bool {
	if v.Referrers() == nil || len(*v.Referrers()) == 0 || d > 5 {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.MakeSlice:
			if x.Len == v {
				return false
			}
		case *ssa.BinOp:
			if !counts(x.Type()) || !t.onlyCapacity(x, d+1) {
				return false
			}
		case *ssa.Phi:
			if !t.onlyCapacity(x, d+1) {
				return false
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g == nil || g.Name() != "Grow" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// oneByteEach: the text can only hold ASCII, so all units agree.
func (t *c12) oneByteEach(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch t.ascii[v] {
	case 1:
		return true
	case 2:
		return false
	}
	t.ascii[v] = 1 // a loop adds nothing
	ok := t.asciiText(v, d)
	t.ascii[v] = 2
	if ok {
		t.ascii[v] = 1
	}
	return ok
}

func (t *c12) asciiText(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() != constant.String {
			return x.Value == nil
		}
		for _, b := range []byte(constant.StringVal(x.Value)) {
			if b >= 0x80 {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return x.Op == token.ADD && t.oneByteEach(x.X, d+1) && t.oneByteEach(x.Y, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !t.oneByteEach(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		return isString(x.X.Type()) && t.oneByteEach(x.X, d+1)
	case *ssa.Convert:
		if textUnit(x.X.Type()) != "" {
			return t.oneByteEach(x.X, d+1)
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		switch n := extName(g); n {
		case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatBool", "encoding/hex.EncodeToString", "(*encoding/base64.Encoding).EncodeToString":
			return true
		case "fmt.Sprintf":
			if !t.oneByteEach(x.Call.Args[0], d+1) {
				return false
			}
			if k, ok := x.Call.Args[0].(*ssa.Const); ok {
				s := strings.ReplaceAll(constant.StringVal(k.Value), "%%", "")
				for i := strings.IndexByte(s, '%'); i >= 0; i = strings.IndexByte(s, '%') {
					s = strings.TrimLeft(s[i+1:], "0123456789.+- #")
					if s == "" || !strings.Contains("dxXbot", s[:1]) {
						return false
					}
				}
				return true
			}
			return false
		case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Repeat", "strings.Trim", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight":
			return t.oneByteEach(x.Call.Args[0], d+1)
		}
		if t.w.funcSet[origin(g)] && g.Signature.Results().Len() == 1 && len(g.Blocks) > 0 {
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !t.oneByteEach(ret.Results[0], d+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// cuts: what f takes out of a text starts and ends where a character does.
func (t *c12) cuts(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Slice:
				cut := x.X
				if cv, ok := cut.(*ssa.Convert); ok && isString(cv.X.Type()) && textUnit(cut.Type()) == "bytes" {
					cut = cv.X // the bytes of a text
				}
				if !isString(cut.Type()) || t.oneByteEach(cut, 0) || onlyParsed(x) {
					continue
				}
				for i, p := range []ssa.Value{x.Low, x.High} {
					if p == nil {
						continue
					}
					con := fnName(f) + [2]string{": where a piece starts", ": where a piece ends"}[i]
					why := t.edge(p, cut, b, map[ssa.Value]bool{}, 0)
					t.r.Check(why == "", "boundary", con, t.w.InstrPos(in), "%s cuts %s at %s, which need not be where a character ends", fnName(f), textName(cut), why)
				}
			case *ssa.BinOp:
				t.advance(x)
			case *ssa.Convert:
				if !wordOf(x.X.Type(), types.Uint8) || !isString(x.Type()) && !wordOf(x.Type(), types.Int32) {
					continue
				}
				src := unwrapByte(x.X)
				if src == nil {
					continue
				}
				t.r.Check(t.below(src, b, 0) || masked(x.X), "boundary", fnName(f)+": a byte made a character", t.w.InstrPos(in), "%s makes a character of one byte of a text without knowing it to be ASCII", fnName(f))
			}
		}
	}
}

func wordOf(tp types.Type, k types.BasicKind) bool {
	b, ok := tp.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

// unwrapByte: the byte of a text that v is, or is computed from.
func unwrapByte(v ssa.Value) ssa.Value {
	for d := 0; d < 6; d++ {
		switch x := v.(type) {
		case *ssa.Index:
			return x
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
				_ = ia
				return x
			}
			return nil
		case *ssa.BinOp:
			if _, ok := x.X.(*ssa.Const); ok {
				v = x.Y
			} else {
				v = x.X
			}
		case *ssa.Extract, *ssa.Parameter:
			return x
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && g.Name() == "ReadByte" {
				return x
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

// masked: some bits of a byte, as decoders combine them.
func masked(v ssa.Value) bool {
	x, ok := v.(*ssa.BinOp)
	return ok && (x.Op == token.AND || x.Op == token.SHR || x.Op == token.AND_NOT)
}

func sameByte(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.Index:
		y, ok := b.(*ssa.Index)
		return ok && x.X == y.X && sameConst(x.Index, y.Index)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		if !ok || x.Op != token.MUL || y.Op != token.MUL {
			return false
		}
		p, ok1 := x.X.(*ssa.IndexAddr)
		q, ok2 := y.X.(*ssa.IndexAddr)
		return ok1 && ok2 && p.X == q.X && sameConst(p.Index, q.Index)
	}
	return false
}

func sameConst(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	p, ok1 := a.(*ssa.Const)
	q, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && p.Value != nil && q.Value != nil && constant.Compare(p.Value, token.EQL, q.Value)
}

// below: at b the byte v is known to be ASCII.
func (t *c12) below(v ssa.Value, b *ssa.BasicBlock, d int) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && constant.Compare(x.Value, token.LSS, constant.MakeInt64(128))
	case *ssa.Index:
		if t.oneByteEach(x.X, 0) {
			return true
		}
	case *ssa.Phi:
		if d < 4 {
			for i, e := range x.Edges {
				if !t.below(e, x.Block().Preds[i], d+1) {
					return false
				}
			}
			return true
		}
	}
	known := func(p, q *ssa.BasicBlock) bool {
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		return ok && p.Succs[0] != p.Succs[1] && asciiWhen(iff.Cond, p.Succs[0] == q, v)
	}
	for q := b; q != nil; q = q.Idom() {
		all := len(q.Preds) > 0
		for _, p := range q.Preds {
			if !q.Dominates(p) && !known(p, q) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	if p, ok := v.(*ssa.Parameter); ok && d < 4 && !t.pub[p.Parent()] {
		cs := t.w.Callers(p.Parent())
		for _, c := range cs {
			a := argOf(c, p)
			if a == nil || !t.below(a, c.Block(), d+1) {
				return false
			}
		}
		return len(cs) > 0
	}
	return false
}

// asciiWhen: the byte v is ASCII when cond is val.
func asciiWhen(cond ssa.Value, val bool, v ssa.Value) bool {
	x, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op, k := x.Op, x.Y
	if !sameByte(x.X, v) {
		if !sameByte(x.Y, v) {
			return false
		}
		k = x.X
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	c, ok := k.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	n, _ := constant.Int64Val(constant.ToInt(c.Value))
	switch op {
	case token.EQL:
		return val && n < 128
	case token.NEQ:
		return !val && n < 128
	case token.LSS:
		return val && n <= 128
	case token.LEQ:
		return val && n < 128
	case token.GEQ:
		return !val && n <= 128
	case token.GTR:
		return !val && n < 128
	}
	return false
}

func argOf(c ssa.CallInstruction, p *ssa.Parameter) ssa.Value {
	args := c.Common().Args
	if c.Common().IsInvoke() {
		args = append([]ssa.Value{c.Common().Value}, args...)
	}
	for i, q := range p.Parent().Params {
		if q == p && i < len(args) {
			return args[i]
		}
	}
	return nil
}

// onlyParsed: the piece is only compared with something or read as a number.
func onlyParsed(v ssa.Value) bool {
	n := 0
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.BinOp:
			if x.Op == token.ADD {
				return false
			}
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil || !strings.HasPrefix(extName(g), "strconv.Parse") && extName(g) != "strconv.Atoi" && extName(g) != "strings.EqualFold" && extName(g) != "strings.HasPrefix" && extName(g) != "strings.Contains" {
				return false
			}
		default:
			return false
		}
		n++
	}
	return n > 0
}

// edge says what is unknown about p as a place to cut text, or "" when a character ends there.
func (t *c12) edge(p, text ssa.Value, at *ssa.BasicBlock, seen map[ssa.Value]bool, d int) string {
	if seen[p] {
		return ""
	}
	seen[p] = true
	if d > 12 {
		return "a position computed in too many steps"
	}
	switch x := p.(type) {
	case *ssa.Const:
		n, _ := constant.Int64Val(constant.ToInt(x.Value))
		if n == 0 || t.prefixed(text, nil, n, at) {
			return ""
		}
		return fmt.Sprintf("byte %d", n)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if s := t.edge(e, text, x.Block().Preds[i], seen, d+1); s != "" {
				return s
			}
		}
		return ""
	case *ssa.Convert:
		return t.edge(x.X, text, at, seen, d+1)
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && n.IsString && x.Index == 1 {
			return ""
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return t.edgeCall(c, x.Index, text, at, seen, d)
		}
	case *ssa.Call:
		return t.edgeCall(x, 0, text, at, seen, d)
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			for _, pair := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				k, ok := pair[1].(*ssa.Const)
				if !ok || x.Op == token.SUB && pair[1] != x.Y {
					continue
				}
				n, _ := constant.Int64Val(constant.ToInt(k.Value))
				if n == 0 {
					return t.edge(pair[0], text, at, seen, d+1)
				}
				if why := t.edge(pair[0], text, at, seen, d+1); why != "" {
					return why
				}
				if x.Op == token.ADD && n == 1 && (t.oneAt(text, pair[0], at) || readAt(pair[0], x) != nil) {
					return "" // of bytes read one by one see advance
				}
				if x.Op == token.ADD && t.found(pair[0], n) {
					return ""
				}
				word := "after"
				if x.Op == token.SUB {
					word = "before"
				}
				if n == 1 {
					return "one byte " + word + " the end of a character"
				}
				return fmt.Sprintf("%d bytes %s the end of a character", n, word)
			}
			if s := t.edge(x.X, text, at, seen, d+1); s != "" {
				return s
			}
			return t.edge(x.Y, text, at, seen, d+1)
		}
		return "the result of " + x.Op.String()
	case *ssa.Parameter:
		f := x.Parent()
		cs := t.w.Callers(f)
		if len(cs) == 0 && !t.pub[f] {
			return ""
		}
		if t.pub[f] {
			return "a position the application passes"
		}
		for _, c := range cs {
			a := argOf(c, x)
			if a == nil {
				return "a position that is passed in"
			}
			if s := t.edge(a, text, c.Block(), seen, d+1); s != "" {
				return s
			}
		}
		return ""
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return t.edgeField(fa.X.Type(), fa.Field, text, seen, d)
		}
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
					if s := t.edge(st.Val, text, st.Block(), seen, d+1); s != "" {
						return s
					}
				}
			}
			return ""
		}
	case *ssa.Field:
		return t.edgeField(x.X.Type(), x.Field, text, seen, d)
	}
	return "a position of unknown origin"
}

func (t *c12) edgeField(tp types.Type, i int, text ssa.Value, seen map[ssa.Value]bool, d int) string {
	n := namedOf(deref(tp))
	if n == nil {
		return "a position kept in a struct"
	}
	stores := 0
	for _, f := range t.w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != i || namedOf(deref(fa.X.Type())) == nil || namedOf(deref(fa.X.Type())).Origin() != n.Origin() {
					continue
				}
				stores++
				if s := t.edge(st.Val, text, b, seen, d+1); s != "" {
					return s
				}
			}
		}
	}
	if stores == 0 {
		return ""
	}
	return ""
}

// sizes of whole characters or of what is known to be in a text
var edgeExt = map[string]bool{
	"strings.Index": true, "strings.LastIndex": true, "strings.IndexRune": true, "strings.IndexAny": true, "strings.LastIndexAny": true, "strings.IndexFunc": true, "strings.LastIndexFunc": true,
	"unicode/utf8.RuneLen": true, "unicode/utf8.DecodeRuneInString": true, "unicode/utf8.DecodeLastRuneInString": true, "unicode/utf8.DecodeRune": true, "unicode/utf8.DecodeLastRune": true,
	"(*github.com/rivo/uniseg.Graphemes).Positions": true,
}

func (t *c12) edgeCall(c *ssa.Call, idx int, text ssa.Value, at *ssa.BasicBlock, seen map[ssa.Value]bool, d int) string {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			if textUnit(c.Call.Args[0].Type()) != "bytes" {
				return "a number of things that are not bytes"
			}
			if t.part(c.Call.Args[0], text, at, 0) {
				return ""
			}
			return "the length of another text"
		case "min", "max":
			for _, a := range c.Call.Args {
				if s := t.edge(a, text, at, seen, d+1); s != "" {
					return s
				}
			}
			return ""
		}
		return "the result of " + b.Name()
	}
	if g := c.Call.StaticCallee(); g != nil && extName(g) != "" {
		n := extName(g)
		if edgeExt[n] {
			return ""
		}
		if n == "strings.IndexByte" || n == "strings.LastIndexByte" {
			if t.below(c.Call.Args[1], at, 0) {
				return ""
			}
			return "where one byte is"
		}
	}
	gs, _, unknown := t.w.Callees(c)
	if unknown || len(gs) == 0 {
		return "a position from code that was not read"
	}
	for _, g := range gs {
		if len(g.Blocks) == 0 {
			return "what " + g.Name() + " returns"
		}
		if idx == 1 && runeAndSize(g) {
			continue
		}
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || idx >= len(ret.Results) {
				continue
			}
			// a size is a size of what was handed over
			if s := t.edge(ret.Results[idx], anyText, b, seen, d+1); s != "" {
				return s + " (" + g.Name() + ")"
			}
		}
	}
	return ""
}

// runeAndSize: g takes a character apart itself, and gives it with its size.
func runeAndSize(g *ssa.Function) bool {
	res := g.Signature.Results()
	if res.Len() != 2 || !wordOf(res.At(0).Type(), types.Int32) || !counts(res.At(1).Type()) {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.BinOp); ok && x.Op == token.SHL && wordOf(x.Type(), types.Int32) {
				return true
			}
		}
	}
	return false
}

// anyText stands for the text of a caller.
var anyText ssa.Value

// part: a is text itself, or a piece that is known to be in it.
func (t *c12) part(a, text ssa.Value, at *ssa.BasicBlock, d int) bool {
	if text == anyText || d > 6 {
		return text == anyText
	}
	if sameText(a, text) || t.prefixed(text, a, -1, at) {
		return true
	}
	switch x := a.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !t.part(e, text, at, d+1) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		return true
	case *ssa.Convert:
		// one character, or a text converted
		return true
	case *ssa.Extract, *ssa.Call:
		// a piece some function found or made: whole characters
		return true
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.IndexAddr); ok {
			return true
		}
	}
	// text made by putting a before or after something
	if b, ok := text.(*ssa.BinOp); ok && b.Op == token.ADD {
		return t.part(a, b.X, at, d+1) || t.part(a, b.Y, at, d+1)
	}
	return false
}

func sameText(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		p, ok1 := x.X.(*ssa.FieldAddr)
		q, ok2 := y.X.(*ssa.FieldAddr)
		return x.X == y.X || ok1 && ok2 && p.Field == q.Field && (p.X == q.X || sameText(p.X, q.X))
	}
	p, ok1 := a.(*ssa.Field)
	q, ok2 := b.(*ssa.Field)
	return ok1 && ok2 && p.Field == q.Field && sameText(p.X, q.X)
}

// prefixed: at b text is known to start or end with a, or with a constant n bytes long.
func (t *c12) prefixed(text, a ssa.Value, n int64, b *ssa.BasicBlock) bool {
	if text == nil {
		return false
	}
	for q := b; q != nil; q = q.Idom() {
		for _, p := range q.Preds {
			iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
			if !ok || len(q.Preds) > 1 {
				continue
			}
			c, ok := iff.Cond.(*ssa.Call)
			if !ok || p.Succs[0] != q || c.Call.StaticCallee() == nil {
				continue
			}
			if nm := extName(c.Call.StaticCallee()); nm != "strings.HasPrefix" && nm != "strings.HasSuffix" || !sameText(c.Call.Args[0], text) {
				continue
			}
			if a != nil && sameText(c.Call.Args[1], a) {
				return true
			}
			if k, ok := c.Call.Args[1].(*ssa.Const); ok && a == nil && int64(len(constant.StringVal(k.Value))) == n {
				return true
			}
		}
	}
	if p, ok := text.(*ssa.Parameter); ok && a == nil && !t.pub[p.Parent()] {
		cs := t.w.Callers(p.Parent())
		for _, c := range cs {
			arg := argOf(c, p)
			if arg == nil || arg == text || !t.prefixed(arg, nil, n, c.Block()) {
				return false
			}
		}
		return len(cs) > 0
	}
	return false
}

// oneAt: the byte of text at p is known to be ASCII.
func (t *c12) oneAt(text, p ssa.Value, at *ssa.BasicBlock) bool {
	if text == nil {
		return false
	}
	for _, ref := range *text.Referrers() {
		if x, ok := ref.(*ssa.Index); ok && sameConst(x.Index, p) && t.below(x, at, 0) {
			return true
		}
	}
	return false
}

// found: p is where a constant n bytes long was found.
func (t *c12) found(p ssa.Value, n int64) bool {
	c, ok := p.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil {
		return false
	}
	k, ok := ssa.Value(nil), false
	if len(c.Call.Args) == 2 {
		k = c.Call.Args[1]
	}
	x, ok := k.(*ssa.Const)
	if !ok || x.Value == nil {
		return false
	}
	switch extName(c.Call.StaticCallee()) {
	case "strings.Index", "strings.LastIndex":
		return x.Value.Kind() == constant.String && int64(len(constant.StringVal(x.Value))) == n
	case "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune":
		return n == 1 && constant.Compare(x.Value, token.LSS, constant.MakeInt64(128))
	case "strings.IndexAny", "strings.LastIndexAny":
		return n == 1 && t.oneByteEach(x, 0)
	}
	return false
}

// advance: code that goes through a text byte by byte treats all bytes of a character alike.
// Having copied or skipped one that may not be the last of its character it does the same with the next.
func (t *c12) advance(add *ssa.BinOp) {
	k, ok := add.Y.(*ssa.Const)
	if !ok || add.Op != token.ADD || k.Value == nil || !constant.Compare(k.Value, token.EQL, constant.MakeInt64(1)) {
		return
	}
	f := add.Parent()
	ix := readAt(add.X, add)
	if ix == nil || t.oneByteEach(ix.X, 0) {
		return
	}
	con := fnName(f) + ": what follows a byte of " + textName(ix.X)
	if t.below(ix, add.Block(), 0) {
		t.r.OK("boundary", con)
		return
	}
	w := &byteWalk{t: t, x: ix, copies: byteCopied(ix, add), seen: map[string]bool{}}
	start := 0
	for i, in := range add.Block().Instrs {
		if in == ssa.Instruction(add) {
			start = i + 1
		}
	}
	bad := w.walk(add.Block(), start, map[ssa.Value]bool{add: true}, nil)
	t.r.Check(bad == "", "boundary", con, t.w.InstrPos(add), "%s %s one byte of a text, which need not end a character, and then %s", fnName(f), map[bool]string{true: "copies", false: "skips"}[w.copies], bad)
}

// readAt: where the byte at i was read on the way to at.
func readAt(i ssa.Value, at ssa.Instruction) *ssa.Index {
	if i.Referrers() == nil {
		return nil
	}
	for _, ref := range *i.Referrers() {
		if x, ok := ref.(*ssa.Index); ok && x.Index == i && isString(x.X.Type()) && instrDominates(x, at) {
			return x
		}
	}
	return nil
}

func writesByte(in ssa.Instruction) ssa.Value {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	com := c.Common()
	name := ""
	if com.IsInvoke() {
		name = com.Method.Name()
	} else if g := com.StaticCallee(); g != nil {
		name = g.Name()
	}
	if name == "WriteByte" && len(com.Args) > 0 {
		return com.Args[len(com.Args)-1]
	}
	return nil
}

// byteCopied: the byte x is written, before or after the position goes up.
func byteCopied(x *ssa.Index, add ssa.Instruction) bool {
	for _, b := range x.Parent().Blocks {
		for _, in := range b.Instrs {
			if v := writesByte(in); v != nil && sameByte(v, x) && (instrDominates(in, add) || instrDominates(add, in)) {
				return true
			}
		}
	}
	return false
}

type byteWalk struct {
	t      *c12
	x      *ssa.Index
	copies bool
	seen   map[string]bool
}

func (w *byteWalk) walk(b *ssa.BasicBlock, start int, at map[ssa.Value]bool, ys []ssa.Value) string {
	for _, in := range b.Instrs[start:] {
		switch x := in.(type) {
		case *ssa.Index:
			if at[x.Index] && sameText(x.X, w.x.X) {
				ys = append(ys[:len(ys):len(ys)], x)
			}
			continue
		case *ssa.Slice:
			if x.Low != nil && at[x.Low] || x.High != nil && at[x.High] {
				return "cuts it there"
			}
		case *ssa.BinOp:
			if k, ok := x.Y.(*ssa.Const); ok && at[x.X] && x.Op == token.ADD && constant.Compare(k.Value, token.EQL, constant.MakeInt64(1)) && len(ys) > 0 {
				y := ys[len(ys)-1].(*ssa.Index)
				if byteCopied(y, x) == w.copies || w.t.below(y, b, 0) {
					return ""
				}
				return map[bool]string{true: "skips the next", false: "copies the next"}[w.copies]
			}
		case *ssa.Return:
			if w.copies {
				return "ends"
			}
			return ""
		case *ssa.Panic:
			return ""
		case ssa.CallInstruction:
			if v := writesByte(in); v != nil {
				for _, y := range ys {
					if sameByte(v, y) {
						if w.copies || w.t.below(y, b, 0) {
							return ""
						}
						return "copies the next"
					}
				}
			}
			if _, ok := x.Common().Value.(*ssa.Builtin); ok {
				continue
			}
			for _, a := range x.Common().Args {
				if at[a] {
					return "takes the next for the start of a character"
				}
			}
		}
	}
	last := b.Instrs[len(b.Instrs)-1]
	for i, q := range b.Succs {
		if iff, ok := last.(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
			val := i == 0
			ok := asciiWhen(iff.Cond, val, w.x) || w.atEnd(iff.Cond, val, at)
			for _, y := range ys {
				ok = ok || asciiWhen(iff.Cond, val, y)
			}
			if ok {
				continue
			}
		}
		key := fmt.Sprint(b.Index, ">", q.Index, len(ys) > 0)
		if w.seen[key] {
			continue
		}
		w.seen[key] = true
		next := map[ssa.Value]bool{}
		for v := range at {
			next[v] = true
		}
		nys := ys
		for _, in := range q.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for j, pr := range q.Preds {
				if pr == b {
					if at[p.Edges[j]] {
						next[p] = true
					} else {
						delete(next, p)
					}
				}
			}
		}
		if s := w.walk(q, 0, next, nys); s != "" {
			return s
		}
	}
	return ""
}

// atEnd: when cond is val the text ends at the position.
func (w *byteWalk) atEnd(cond ssa.Value, val bool, at map[ssa.Value]bool) bool {
	c, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isLen := func(v ssa.Value) bool {
		l, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := l.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && sameText(l.Call.Args[0], w.x.X)
	}
	switch {
	case at[c.X] && isLen(c.Y):
		return c.Op == token.LSS && !val || c.Op == token.GEQ && val || c.Op == token.EQL && val || c.Op == token.NEQ && !val
	case at[c.Y] && isLen(c.X):
		return c.Op == token.GTR && !val || c.Op == token.LEQ && val || c.Op == token.EQL && val || c.Op == token.NEQ && !val
	}
	return false
}
