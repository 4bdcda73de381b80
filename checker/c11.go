package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkC11 }

// objInvariants: what holds of an object whenever nobody is working on it (proved by C11 at every place an object is
// made or changed; used by C09, C10 and C11 of the objects an operation is given).
var objInvariants = []struct {
	owner string
	inv   []string
}{
	{"components/list/internal/domain/model.List", []string{
		"focusedIndex >= 0",
		"len(filteredItems) >= 1 => focusedIndex < len(filteredItems)",
		"scrollOffset >= 0",
		"len(filteredItems) >= 1 => scrollOffset < len(filteredItems)",
	}},
	{"components/table/internal/domain/model.Table", []string{
		"selectedIndex >= 0",
		"scrollOffset >= 0",
		"len(sortedRows) >= 1 => len(sortedRows) <= len(rows)",
		"len(sortedRows) >= 1 => selectedIndex < len(sortedRows)",
		"len(rows) >= 1 => selectedIndex < len(rows)",
		"len(rows) >= 1 => scrollOffset < len(rows)",
	}},
	{"components/select/internal/domain/model.Select", []string{
		"cursor >= 0",
		"len(filteredOpts) >= 1 => cursor < len(filteredOpts)",
		"height >= 1",
		"scrollOffset >= 0",
		"selectedIndex >= 0 - 1",
		"selectedIndex >= 0 => selectedIndex < len(options)",
	}},
	{"components/multiselect/internal/domain/model.MultiSelect", []string{
		"cursor >= 0",
		"len(filteredOpts) >= 1 => cursor < len(filteredOpts)",
		"height >= 1",
		"scrollOffset >= 0",
	}},
	{"components/viewport/internal/domain/model.Viewport", []string{
		"scrollOffset.offset >= 1 => scrollOffset.offset <= len(content) - size.height",
	}},
	{"components/viewport/internal/domain/value.ScrollOffset", []string{"offset >= 0"}},
	{"components/viewport/internal/domain/value.ViewportSize", []string{"width >= 0", "height >= 0"}},
	{"components/progress/internal/domain/value.Percentage", []string{"value >= 0", "value <= 100"}},
	{"components/progress/internal/domain/value.SpinnerStyle", []string{"fps >= 1", "len(frames) >= 1"}},
	{"components/progress/internal/domain/model.Bar", []string{"width >= 1"}},
	{"components/progress/internal/domain/model.Spinner", []string{"frameIndex >= 0"}},
	{"components/input/internal/textarea/domain/model.KillRing", []string{
		"maxSize >= 1", "len(items) <= maxSize", "index >= 0", "len(items) >= 1 => index < len(items)",
	}},
	{"components/input/internal/textarea/domain/model.Buffer", []string{"len(lines) >= 1"}},
	{"components/input/internal/textarea/domain/model.TextArea", []string{
		"cursor.row >= 0", "cursor.col >= 0", "cursor.row < len(buffer.lines)", "cursor.col <= runes(buffer.lines[cursor.row])",
		"scrollRow >= 0",
	}},
	{"components/input/internal/input/domain/model.TextInput", []string{"width >= 1", "scrollOffset >= 0", "cursor.offset <= graphemes(content)", "selection.end - selection.start >= 1 => selection.end <= graphemes(content)"}},
	{"components/input/internal/input/domain/value.Cursor", []string{"offset >= 0"}},
	{"components/input/internal/input/domain/value.Selection", []string{"start >= 0", "end >= start"}},
	{"components/modal/internal/domain/model.Modal", []string{
		"focusedButton >= 0", "len(buttons) >= 1 => focusedButton < len(buttons)",
	}},
	{"components/confirm/internal/domain/model.Confirm", []string{
		"focused >= 0", "len(buttons) >= 1 => focused < len(buttons)",
	}},
	{"components/form/internal/domain/model.Form", []string{
		"focused >= 0", "len(fields) >= 1 => focused < len(fields)",
	}},
	{"clipboard/internal/domain/service.ClipboardHistory", []string{
		"maxSize >= 0", "maxAge >= 0", "maxSize >= 1 => len(entries) <= maxSize",
	}},
	{"layout/internal/domain/value.Spacing", []string{"top >= 0", "right >= 0", "bottom >= 0", "left >= 0"}},
	{"layout/internal/domain/value.Size", []string{
		"width >= 0 - 1", "height >= 0 - 1", "minWidth >= 0 - 1", "maxWidth >= 0 - 1", "minHeight >= 0 - 1", "maxHeight >= 0 - 1",
		"minWidth >= 0 && maxWidth >= 0 => minWidth <= maxWidth", "minHeight >= 0 && maxHeight >= 0 => minHeight <= maxHeight",
	}},
	{"layout/internal/domain/model.FlexContainer", []string{"gap >= 0"}},
	{"style/internal/domain/value.Margin", []string{"top >= 0", "right >= 0", "bottom >= 0", "left >= 0"}},
	{"style/internal/domain/value.Padding", []string{"top >= 0", "right >= 0", "bottom >= 0", "left >= 0"}},
	{"render/internal/domain/model.Buffer", []string{"width >= 0", "height >= 0"}},
	{"layout/internal/domain/value.Position", []string{"x >= 0", "y >= 0"}},
	{"core/internal/domain/value.Cell", []string{"width >= 0"}},
	{"mouse/internal/domain/value.BoundingBox", []string{"width >= 0", "height >= 0"}},
	{"mouse/internal/domain/model.DragState", []string{"threshold >= 1"}},
	{"components/table/internal/domain/model.Column", []string{"width >= 0"}},
	{"components/multiselect/internal/domain/value.Selection", []string{"min >= 0", "max >= 0", "max >= 1 => min <= max"}},
	{"mouse/internal/domain/service.ScrollCalculator", []string{"linesPerScroll >= 1"}},
	{"mouse/internal/domain/service.ClickDetector", []string{"clickCount >= 0", "clickCount <= 3", "tolerance >= 0"}},
}

const columnInv = "components/input/internal/textarea/domain/model.TextArea: cursor.col <= runes(buffer.lines[cursor.row])"

// undecidedColumn: operations that join lines, or that change the text in a loop; how long the line of the cursor is
// afterwards is not followed, so the upper bound of the column is not decided for them (its other bounds are).
func (p *BProver) undecidedColumn(f *ssa.Function) bool {
	const buf = "components/input/internal/textarea/domain/model.Buffer"
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if typeKey(x.Type()) == buf && loopOf(b) != nil {
					return true
				}
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || len(g.Params) == 0 {
					continue
				}
				if typeKey(g.Params[0].Type()) == buf && (g.Name() == "DeleteLine" || g.Name() == "JoinWithNextLine") {
					return true
				}
				res := g.Signature.Results()
				if typeKey(g.Params[0].Type()) != buf && res.Len() > 0 && typeKey(res.At(0).Type()) == buf && p.w.funcSet[g] && g != f && p.undecidedColumn(g) {
					return true // a helper that gives the changed text
				}
				if typeKey(g.Params[0].Type()) == buf && g.Signature.Recv() == nil && p.w.funcSet[g] && g != f && p.undecidedColumn(g) {
					return true
				}
			}
		}
	}
	return false
}

func checkC11(c *Ctx, r *Report) {
	r.Rule("kept", "what is declared of a type's objects holds where an object that was made or changed is returned, stored, handed on or left: proved by linear arithmetic over the code that made or changed it, assuming the same of the objects the operation was given")
	r.Rule("changed-here", "a field the declarations mention is only stored to in an object the function made, got fresh from another, or was given")
	r.Rule("limited", "an entry is added to a set with a limit only where fewer than the limit are in it, or where every key is a different number below the limit, or while a set of the same kind is copied")
	r.Rule("declared", "every type and field the declarations mention exists")
	r.Assume = append(r.Assume, "integer arithmetic does not wrap around; the application obtains objects from constructors, not as zero values of internal types; a value an operation panics on is not returned")
	budget := 2500
	if c.Tier == "thorough" {
		budget = 12000
	}
	type done struct{ fn, pos string }
	seen := map[done]bool{}
	declared := map[string]bool{}
	steps := 0
	for _, w := range boundWorlds(c) {
		p := NewBProver(w)
		p.objInvs("")
		for _, x := range objInvariants {
			n := w.typeByName(x.owner)
			if n == nil {
				continue
			}
			for _, v := range p.objInvs(x.owner) {
				ok := true
				for _, cd := range append(append([]invCond{}, v.pre...), v.post) {
					if _, good := p.invSumAt(bRoot(p.frame(w.Funcs[0], nil, nil), zeroConst(types.NewPointer(n)), 0), n, cd.l); !good {
						ok = false
					}
				}
				if ok {
					declared[x.owner+": "+v.text] = true
				}
			}
		}
		fs := append([]*ssa.Function{}, w.Funcs...)
		sort.SliceStable(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
		for _, f := range fs {
			k := done{fnName(f), w.Pos(f.Pos())}
			if seen[k] {
				continue
			}
			seen[k] = true
			checkKept(p, r, f, budget)
			checkLimited(p, r, f, budget)
		}
		steps += p.Steps
	}
	for _, x := range objInvariants {
		for _, t := range x.inv {
			con := x.owner + ": " + t
			r.Check(declared[con], "declared", con, "", "the declaration %q of %s does not apply: a type or field it names does not exist", t, x.owner)
		}
	}
	r.Floor("kept", 360)
	r.Floor("changed-here", 180)
	r.Floor("limited", 3)
	r.Units["proof steps"] = steps
}

// invEscape: the object may be seen by others at the instruction.
type invEscape struct {
	in    ssa.Instruction
	value bool
}

// checkKept: the objects a function makes or changes.
func checkKept(p *BProver, r *Report, f *ssa.Function, budget int) {
	w := p.w
	helper := p.helpers()[f]
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				checkStoreBase(p, r, f, st)
			}
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			owner := typeKey(v.Type())
			invs := p.objInvs(owner)
			if len(invs) == 0 {
				continue
			}
			switch v.(type) {
			case *ssa.Alloc:
			case *ssa.Call, *ssa.Extract:
				if _, isp := v.Type().Underlying().(*types.Pointer); !isp || !p.touched(v) {
					continue
				}
			default:
				continue
			}
			p.proveKept(r, f, v, invs, p.escapesOf(v, false), budget)
		}
	}
	if helper {
		return
	}
	for _, q := range f.Params {
		invs := p.objInvs(typeKey(q.Type()))
		if len(invs) == 0 {
			continue
		}
		if _, isp := q.Type().Underlying().(*types.Pointer); !isp || !p.changesParam(f, q) {
			continue
		}
		p.proveKept(r, f, q, invs, p.escapesOf(q, true), budget)
	}
	_ = w
}

// touched: something is stored into the object the value points to, here or in a function it is given to.
func (p *BProver) touched(v ssa.Value) bool {
	for _, q := range *v.Referrers() {
		switch x := q.(type) {
		case *ssa.FieldAddr:
			if storedTo(x) {
				return true
			}
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil {
				g = origin(unwrap(g))
				for i, a := range x.Call.Args {
					if a == v && p.w.funcSet[g] && i < len(g.Params) && p.changesParam(g, g.Params[i]) {
						return true
					}
				}
			}
		}
	}
	return false
}

// escapesOf: the places where the object the value points to can be seen by others.
func (p *BProver) escapesOf(v ssa.Value, all bool) []invEscape {
	var out []invEscape
	shared := all
	f := v.Parent()
	for _, q := range *v.Referrers() {
		switch x := q.(type) {
		case *ssa.Return:
			if !all {
				out = append(out, invEscape{in: x})
			}
		case *ssa.Store:
			if x.Val == v {
				out = append(out, invEscape{in: x})
				shared = true
			}
		case *ssa.UnOp: // a copy of the whole
			out = append(out, invEscape{in: x, value: true})
		case *ssa.Phi:
			for i, e := range x.Edges {
				if e == v {
					pr := x.Block().Preds[i]
					out = append(out, invEscape{in: pr.Instrs[len(pr.Instrs)-1]})
				}
			}
		case ssa.CallInstruction:
			if c, ok := x.(*ssa.Call); ok && !x.Common().IsInvoke() {
				if g := x.Common().StaticCallee(); g != nil {
					g = origin(unwrap(g))
					plain := true
					for i, a := range x.Common().Args {
						if a != v {
							continue
						}
						if !p.w.funcSet[g] || i >= len(g.Params) || !(p.helpers()[g] || p.onlyReads(g, i, map[*ssa.Function]bool{})) {
							plain = false
						}
					}
					if plain && x.Common().Value != v {
						continue
					}
				}
				out = append(out, invEscape{in: c})
				shared = true
				continue
			}
			out = append(out, invEscape{in: x})
			shared = true
		case *ssa.FieldAddr, *ssa.DebugRef, *ssa.BinOp, *ssa.If:
		default:
			out = append(out, invEscape{in: q})
			shared = true
		}
	}
	if shared {
		for _, ret := range returnsOf(f) {
			out = append(out, invEscape{in: ret})
		}
	}
	return out
}

// onlyReads: the function reads fields of the object and nothing in it needs them to be in bounds.
func (p *BProver) onlyReads(g *ssa.Function, i int, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return true
	}
	seen[g] = true
	if len(g.Blocks) == 0 || len(p.w.boundSites(g)) > 0 {
		return false
	}
	q := g.Params[i]
	for _, r := range *q.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			for _, y := range *x.Referrers() {
				switch y.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
		case *ssa.DebugRef, *ssa.BinOp:
		case *ssa.Call:
			h := x.Call.StaticCallee()
			if h == nil || !p.w.funcSet[origin(unwrap(h))] {
				return false
			}
			for k, a := range x.Call.Args {
				if a == ssa.Value(q) && !p.onlyReads(origin(unwrap(h)), k, seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (p *BProver) proveKept(r *Report, f *ssa.Function, base ssa.Value, invs []*objInv, esc []invEscape, budget int) {
	t := deref(base.Type())
	type failure struct{ pos, why string }
	for _, v := range invs {
		con := fnName(f) + ": " + typeKey(base.Type()) + ": " + v.text
		var bad *failure
		n := 0
		done := map[ssa.Instruction]bool{}
		for _, e := range esc {
			if done[e.in] {
				continue
			}
			done[e.in] = true
			if !p.reaches(base, e.in) {
				continue
			}
			n++
			ok, g := p.proveInvAt(e.in, base, t, v, budget)
			if !ok {
				ok, g = p.proveInvAt(e.in, base, t, v, 12000)
			}
			if !ok {
				why := ""
				if g != nil {
					why = fmt.Sprintf(" (not shown to be at least zero: %v)", g)
				}
				bad = &failure{p.w.InstrPos(e.in), why}
				break
			}
		}
		if n == 0 {
			continue
		}
		if bad != nil {
			r.Bad("kept", con, bad.pos, "%s can leave a %s for which %q does not hold%s", fnName(f), typeKey(base.Type()), v.text, bad.why)
		} else {
			r.OK("kept", con)
		}
	}
}

// reaches: the instruction is executed after the value has been made.
func (p *BProver) reaches(v ssa.Value, in ssa.Instruction) bool {
	d, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	if d.Block() == in.Block() {
		return instrIndex(d) < instrIndex(in) || blockReaches(d.Block(), in.Block())
	}
	return d.Block().Dominates(in.Block()) || blockReaches(d.Block(), in.Block())
}

func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	stack := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b {
			return true
		}
		stack = append(stack, x.Succs...)
	}
	return false
}

func (p *BProver) proveInvAt(in ssa.Instruction, base ssa.Value, t types.Type, v *objInv, budget int) (bool, *bLin) {
	n := 0
	bad := false
	if v.owner+": "+v.text == columnInv {
		p.exempt = p.undecidedColumn
		defer func() { p.exempt = nil }()
	}
	p.allUsed = true
	defer func() { p.allUsed = false }()
	ok, g := p.proveChain(in, func(fr *bFrame) []*bLin {
		post, ok := p.invSum(fr, base, t, v.post.l, in)
		if !ok {
			bad = true
			return []*bLin{bConst(-1)}
		}
		goal := bConst(0).add(post).plus(-v.post.c)
		var hyps []*bLin
		for _, c := range v.pre {
			l, ok := p.invSum(fr, base, t, c.l, in)
			if !ok {
				bad = true
				return []*bLin{bConst(-1)}
			}
			hyps = append(hyps, l.plus(-c.c))
		}
		// an index out of range does not come this far
		for _, b := range in.Parent().Blocks {
			for _, x := range b.Instrs {
				if ia, ok := x.(*ssa.IndexAddr); ok && instrDominates(ia, in) {
					if _, isConst := ia.Index.(*ssa.Const); !isConst && len(hyps) < 6 {
						hyps = append(hyps, p.lin(fr, ia.Index))
					}
				}
			}
		}
		if len(hyps) > 0 {
			p.goalHyps[goal] = hyps
		}
		return []*bLin{goal}
	}, nil, budget, &n)
	if bad {
		return false, nil
	}
	return ok, g
}

// checkStoreBase: a store into a field the declarations mention, of an object that is neither made nor given here.
func checkStoreBase(p *BProver, r *Report, f *ssa.Function, st *ssa.Store) {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	for {
		if owner := typeKey(fa.X.Type()); len(p.objInvs(owner)) > 0 {
			_, fv := fieldKeyOf(fa)
			if fv != nil && p.invMentions(owner, fv.Name()) {
				good := false
				switch x := fa.X.(type) {
				case *ssa.Alloc, *ssa.Parameter:
					good = true
				case *ssa.Call, *ssa.Extract:
					good = true
				case *ssa.Phi:
					_ = x
				}
				r.Check(good, "changed-here", fnName(f)+": "+owner+"."+fv.Name(), p.w.InstrPos(st), "%s stores to %s of an object it did not make and was not given, where what is declared of it cannot be followed", fnName(f), fv.Name())
			}
		}
		in, ok := fa.X.(*ssa.FieldAddr)
		if !ok {
			return
		}
		fa = in
	}
}

func (p *BProver) invMentions(owner, field string) bool {
	var in func(l []invTerm) bool
	in = func(l []invTerm) bool {
		for _, x := range l {
			for _, s := range x.path {
				if s.field == field || in(s.index) {
					return true
				}
			}
		}
		return false
	}
	for _, v := range p.objInvs(owner) {
		if in(v.post.l) {
			return true
		}
		for _, c := range v.pre {
			if in(c.l) {
				return true
			}
		}
	}
	return false
}
