package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Leaf is one attribute of a value a method returns, compared with the same attribute of the receiver.
type Leaf struct {
	Path   string // relative to the receiver type, e.g. domain.height
	Kind   string // "kept" (always), "changed", "maybe" (kept on some path, changed on another)
	Consts strset // constants or "0" among its sources
	Deps   strset // parameter roots and receiver paths it is computed from (other than itself)
	AV     *AV
}

type cmpCtx struct {
	s   *Summary
	out map[string]*Leaf
}

// compareResult compares result i of the summary with the receiver.
func compareResult(s *Summary, av *AV, recv types.Type) map[string]*Leaf {
	c := &cmpCtx{s: s, out: map[string]*Leaf{}}
	c.cmp("", "p0", av, recv, 0, true)
	return c.out
}

func (c *cmpCtx) leaf(path, kind string, av *AV, orig string) {
	l := &Leaf{Path: path, Kind: kind, Consts: strset{}, Deps: strset{}, AV: av}
	if av != nil {
		for k := range av.src {
			if k == "0" || strings.HasPrefix(k, "#") {
				l.Consts[k] = true
			}
			if strings.HasPrefix(k, "=") && k[1:] != orig {
				l.Deps[k[1:]] = true
			}
		}
		for k := range av.dep {
			l.Deps[k] = true
		}
		// computed through freshly built memory
		seen := map[string]bool{}
		var walk func(v *AV, d int)
		walk = func(v *AV, d int) {
			if v == nil || d > 5 {
				return
			}
			for p := range v.pts {
				if !isFresh(p) || seen[p] {
					continue
				}
				seen[p] = true
				for k, h := range c.s.Heap {
					if strings.HasPrefix(k, p+".") || strings.HasPrefix(k, p+"[") || k == p {
						for x := range h.src {
							if strings.HasPrefix(x, "=") {
								l.Deps[x[1:]] = true
							}
						}
						for x := range h.dep {
							l.Deps[x] = true
						}
						walk(h, d+1)
					}
				}
			}
			for _, f := range v.fields {
				for x := range f.src {
					if strings.HasPrefix(x, "=") {
						l.Deps[x[1:]] = true
					}
				}
				for x := range f.dep {
					l.Deps[x] = true
				}
				walk(f, d+1)
			}
		}
		walk(av, 0)
	}
	if old := c.out[path]; old != nil {
		if old.Kind != kind {
			l.Kind = "maybe"
		}
		for k := range old.Consts {
			l.Consts[k] = true
		}
		for k := range old.Deps {
			l.Deps[k] = true
		}
	}
	c.out[path] = l
}

// copied reports whether the fresh collection at p holds only elements (and keys) of the one at orig.
func (c *cmpCtx) copied(p, orig string, d int) bool {
	n := 0
	for k, h := range c.s.Heap {
		for _, step := range []string{keyStep, "[]"} {
			if k != p+step && !strings.HasPrefix(k, p+step+".") {
				continue
			}
			if step == "[]" {
				n++
			}
			want := orig + step + k[len(p+step):]
			for x := range h.src {
				if x == "0" || strings.HasPrefix(x, "="+want) {
					continue
				}
				if x == "?" && len(h.pts) > 0 && d < 3 {
					continue // judged by what it points to
				}
				return false
			}
			if h.src["?"] {
				for q := range h.pts {
					if isFresh(q) && !c.copied(q, want+"*", d+1) {
						return false
					}
					if !isFresh(q) && q != want+"*" {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

func join(path, f string) string {
	if path == "" {
		return f
	}
	return path + "." + f
}

func (c *cmpCtx) cmp(path, orig string, av *AV, t types.Type, depth int, top bool) {
	if av == nil {
		c.leaf(path, "changed", &AV{src: ss("?")}, orig)
		return
	}
	if st := structOf(t); st != nil && av.fields != nil {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			c.cmp(join(path, f.Name()), ext(orig, "."+f.Name()), av.fields[f.Name()], f.Type(), depth+1, false)
		}
		return
	}
	same, other := false, false
	for k := range av.src {
		if k == "="+orig {
			same = true
		} else if k != "?" || len(av.src) > 1 {
			other = true
		}
	}
	if same && !other && len(av.src) == 1 {
		c.leaf(path, "kept", av, orig)
		return
	}
	// pointer to a struct built here: compare its fields
	if pt, ok := t.Underlying().(*types.Pointer); ok && depth < 5 {
		if st := structOf(pt.Elem()); st != nil {
			var fr []string
			shared, foreign := false, false
			for p := range av.pts {
				if isFresh(p) {
					fr = append(fr, p)
				} else if p == orig+"*" || top && p == orig {
					shared = true
				} else {
					foreign = true
				}
			}
			if len(fr) > 0 && !foreign {
				sort.Strings(fr)
				base := orig + "*"
				if top {
					base = orig
				}
				for _, p := range fr {
					c.region(path, base, p, st, depth, 0)
				}
				if shared {
					c.keptAll(path, st, depth, 0)
				}
				if av.src["0"] {
					c.leaf(path, "changed", &AV{src: ss("0")}, orig)
				}
				return
			}
		}
	}
	// a copied collection: elements only from the original
	if isColl(t) && len(av.pts) > 0 {
		ok, any := !av.src["/"], false
		for p := range av.pts {
			if p == orig+"*" {
				any = true
			} else if isFresh(p) && c.copied(p, orig+"*", 0) {
				any = true
			} else {
				ok = false
			}
		}
		if ok && any {
			c.leaf(path, "kept", &AV{}, orig)
			return
		}
	}
	kind := "changed"
	if same {
		kind = "maybe"
	}
	c.leaf(path, kind, av, orig)
}

func (c *cmpCtx) region(path, orig, loc string, st *types.Struct, depth, d int) {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fl := ext(loc, "."+f.Name())
		fo := ext(orig, "."+f.Name())
		fp := join(path, f.Name())
		if av, ok := c.s.Heap[fl]; ok {
			c.cmp(fp, fo, av, f.Type(), depth+1, false)
			continue
		}
		if in := structOf(f.Type()); in != nil && d < 4 {
			found := false
			for k := range c.s.Heap {
				if strings.HasPrefix(k, fl+".") {
					found = true
				}
			}
			if found {
				c.region(fp, fo, fl, in, depth+1, d+1)
				continue
			}
		}
		c.leaf(fp, "changed", &AV{src: ss("0")}, fo)
	}
}

func (c *cmpCtx) keptAll(path string, st *types.Struct, depth, d int) {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fp := join(path, f.Name())
		// only leaves already seen
		for k, l := range c.out {
			if (k == fp || strings.HasPrefix(k, fp+".")) && l.Kind == "changed" {
				l.Kind = "maybe"
			}
		}
	}
}

// selfMethods lists the methods whose result 0 has the receiver's type.
func selfMethods(w *World) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.Funcs {
		r := recvNamed(f)
		if r == nil || f.Signature.Results().Len() == 0 {
			continue
		}
		if namedOf(f.Signature.Results().At(0).Type()) == r {
			out = append(out, f)
		}
	}
	return out
}

// A c08Leaf is what the unchanged tree does to one attribute in one method.
type c08Leaf struct {
	Own    bool     `json:"own,omitempty"`    // the receiver's own value may survive
	Consts []string `json:"consts,omitempty"` // constants it may be set to
	Other  bool     `json:"other,omitempty"`  // it may be computed or taken from elsewhere
	Params []string `json:"params,omitempty"` // parameter paths it is computed from
	Self   bool     `json:"self,omitempty"`   // it is computed from the receiver's own value, too
}

type c08Method struct {
	Leaves  int                `json:"leaves"`
	Changes map[string]c08Leaf `json:"changes,omitempty"`
}

//go:embed tables/c08.json
var c08Table []byte

func describeLeaf(l *Leaf, orig string) c08Leaf {
	var d c08Leaf
	d.Own = l.Kind != "changed"
	for k := range l.Consts {
		d.Consts = append(d.Consts, k)
	}
	sort.Strings(d.Consts)
	if l.AV != nil {
		for k := range l.AV.src {
			if k == "?" || k == "/" || strings.HasPrefix(k, "=") && k[1:] != orig {
				d.Other = true
			}
		}
		if len(l.AV.src) == 0 && len(l.AV.fields) > 0 {
			d.Other = true
		}
	}
	for k := range l.Deps {
		r := rootOf(k)
		if r != "p0" && strings.HasPrefix(r, "p") {
			d.Params = append(d.Params, k)
		}
		d.Self = d.Self || r == "p0" && lastStep(k) == lastStep(orig)
	}
	sort.Strings(d.Params)
	if len(d.Params) > 0 {
		d.Other = true
	}
	return d
}

// c08Methods computes the table for the current tree.
func c08Methods(w *World, p *Prov) (map[string]c08Method, map[string]map[string]*Leaf, map[string]*ssa.Function) {
	out := map[string]c08Method{}
	all := map[string]map[string]*Leaf{}
	fns := map[string]*ssa.Function{}
	for _, f := range selfMethods(w) {
		s := p.Sum(f)
		if s == nil || len(s.Ret) == 0 || s.Ret[0] == nil {
			continue
		}
		n := fnName(f)
		m := compareResult(s, s.Ret[0], f.Params[0].Type())
		cm := c08Method{Leaves: len(m), Changes: map[string]c08Leaf{}}
		for k, l := range m {
			if l.Kind != "kept" {
				cm.Changes[k] = describeLeaf(l, leafOrig(f, k))
			}
		}
		out[n] = cm
		all[n] = m
		fns[n] = f
	}
	return out, all, fns
}

// leafOrig is the location of the attribute in the receiver.
func leafOrig(f *ssa.Function, path string) string {
	loc := "p0"
	t := f.Params[0].Type()
	first := true
	for _, step := range strings.Split(path, ".") {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if !first {
				loc = ext(loc, "*")
			}
			t = pt.Elem()
		}
		first = false
		st := structOf(t)
		if st == nil {
			return loc
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == step {
				loc = ext(loc, "."+step)
				t = st.Field(i).Type()
			}
		}
	}
	return loc
}

func dumpC08Table(c *Ctx) {
	w := c.Linux()
	m, _, _ := c08Methods(w, w.Prov())
	b, _ := json.MarshalIndent(m, "", " ")
	fmt.Println(string(b))
}

// deadFields lists the struct fields nothing ever sets to anything but their zero or old value.
func deadFields(w *World) map[*types.Var]bool {
	live := map[*types.Var]bool{}
	all := map[*types.Var]bool{}
	for _, p := range w.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if st := structOf(tn.Type()); st != nil {
					for i := 0; i < st.NumFields(); i++ {
						all[st.Field(i)] = true
					}
				}
			}
		}
	}
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					_, fv, ok := fieldOf(x)
					if !ok {
						continue
					}
					for _, r := range *x.Referrers() {
						switch u := r.(type) {
						case *ssa.Store:
							if u.Addr == x && !isZeroStore(u.Val) && !isFieldLoad(u.Val, fv) {
								live[fieldOrigin(fv)] = true
							}
							if u.Val == x {
								live[fieldOrigin(fv)] = true
							}
						case *ssa.UnOp, *ssa.DebugRef:
						default: // address taken: sub-fields, calls
							live[fieldOrigin(fv)] = true
						}
					}
				}
			}
		}
	}
	dead := map[*types.Var]bool{}
	for v := range all {
		if !live[v] && !v.Exported() {
			dead[v] = true
		}
	}
	return dead
}

func fieldOrigin(v *types.Var) *types.Var { return v.Origin() }

func isZeroStore(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && isZeroConst(c)
}

func isFieldLoad(v ssa.Value, fv *types.Var) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			_, o, ok := fieldOf(x.X)
			return ok && o.Origin() == fv.Origin()
		}
	case *ssa.Field:
		_, o, ok := fieldOf(x)
		return ok && o.Origin() == fv.Origin()
	}
	return false
}

// deadLeaf reports whether the attribute at path lies in a field nothing ever sets.
func deadLeaf(dead map[*types.Var]bool, t types.Type, path string) bool {
	for _, step := range strings.Split(path, ".") {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		st := structOf(t)
		if st == nil {
			return false
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == step {
				if dead[st.Field(i).Origin()] {
					return true
				}
				t = st.Field(i).Type()
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return false
}

func related(a, b string) bool {
	a, b = strings.ReplaceAll(a, "*", ""), strings.ReplaceAll(b, "*", "")
	a, b = strings.ReplaceAll(a, "[]", ""), strings.ReplaceAll(b, "[]", "")
	a, b = strings.TrimSuffix(a, "~"), strings.TrimSuffix(b, "~")
	return a == b || strings.HasPrefix(a, b+".") || strings.HasPrefix(b, a+".")
}

func init() {
	checks["C08"] = func(c *Ctx, r *Report) {
		r.Rule("attribute-kept", "every attribute of the value a method returns, other than those the method is there to change, comes unchanged (or clamped) from the receiver's same attribute")
		r.Rule("attribute-set", "an attribute a method sets is computed from exactly the parameters (and parameter fields) it is documented to be set from")
		w := c.Linux()
		p := w.Prov()
		var table map[string]c08Method
		if err := json.Unmarshal(c08Table, &table); err != nil {
			r.Bad("internal", "tables/c08.json", "-", "%v", err)
			return
		}
		cur, _, fns := c08Methods(w, p)
		dead := deadFields(w)
		var names []string
		for n := range table {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			want := table[n]
			got, ok := cur[n]
			if !ok {
				if !strings.Contains(n, "/internal/") && ast.IsExported(n[strings.LastIndex(n, ".")+1:]) {
					r.Bad("attribute-kept", n, "-", "the method no longer exists or no longer returns its receiver type: its attributes cannot be checked")
				}
				continue
			}
			f := fns[n]
			pos := w.Pos(f.Pos())
			// attributes that vanished (renamed fields) may reappear under another name
			_, leaves := got, got.Leaves
			missing := 0
			for path := range want.Changes {
				if _, ok := got.Changes[path]; !ok && leafOrig(f, path) == "p0" {
					missing++
				}
			}
			var paths []string
			for path := range got.Changes {
				paths = append(paths, path)
			}
			sort.Strings(paths)
			bad := 0
			for _, path := range paths {
				g := got.Changes[path]
				wl, listed := want.Changes[path]
				if !listed {
					// a struct attribute replaced as a whole: judged leaf by leaf or as a whole on either side
					if a, ok := coarse(want.Changes, path); ok {
						wl, listed = a, true
					}
				}
				construct := n + " " + path
				if !listed {
					if deadLeaf(dead, f.Params[0].Type(), path) {
						continue
					}
					if len(g.Params) == 0 && onlySelf(w, p, f, path) {
						continue
					}
					if missing > 0 {
						missing--
						continue
					}
					bad++
					r.Bad("attribute-kept", construct, pos, "%s must keep attribute %q of the value it is called on, but the result may hold %s instead", n, path, describe(g))
					continue
				}
				if !wl.Other {
					if g.Other && !(len(g.Params) == 0 && onlySelf(w, p, f, path)) {
						bad++
						r.Bad("attribute-kept", construct, pos, "%s may only keep attribute %q or reset it to %v, but the result may hold %s", n, path, wl.Consts, describe(g))
						continue
					}
					if wl.Own && !g.Own && !g.Other {
						bad++
						r.Bad("attribute-kept", construct, pos, "%s never keeps attribute %q any more: the result always holds %s", n, path, describe(g))
						continue
					}
				}
			}
			for path, wl := range want.Changes {
				if len(wl.Params) == 0 {
					continue
				}
				construct := n + " " + path
				g, ok := got.Changes[path]
				if !ok {
					if a, ok2 := coarse(got.Changes, path); ok2 {
						g, ok = a, true
					}
				}
				if !ok {
					if leafOrig(f, path) == "p0" {
						continue // renamed
					}
					r.Bad("attribute-set", construct, pos, "%s must set attribute %q from its argument (%s), but the result keeps the old value", n, path, strings.Join(wl.Params, ", "))
					continue
				}
				okAll := true
				for _, wp := range wl.Params {
					hit := false
					for _, gp := range g.Params {
						if related(wp, gp) {
							hit = true
						}
					}
					if !hit {
						okAll = false
						r.Bad("attribute-set", construct, pos, "%s must set attribute %q from %s, which no longer flows into it (it holds %s)", n, path, paramName(f, wp), describe(g))
					}
				}
				for _, gp := range g.Params {
					hit := false
					for _, wp := range wl.Params {
						if related(wp, gp) {
							hit = true
						}
					}
					if !hit {
						okAll = false
						r.Bad("attribute-set", construct, pos, "%s sets attribute %q from %s, which it must not depend on (it is set from %s)", n, path, paramName(f, gp), strings.Join(wl.Params, ", "))
					}
				}
				if !wl.Own && !wl.Self && (g.Own || g.Self) && !comparesOwn(w, f, 3) {
					okAll = false
					r.Bad("attribute-set", construct, pos, "%s must replace attribute %q by its argument whatever the old value is, but the old value can survive or is mixed into the new one", n, path)
				}
				if okAll {
					r.OK("attribute-set", construct)
				}
			}
			for i := len(paths); i < leaves; i++ {
				r.OK("attribute-kept", n)
			}
			_ = bad
		}
		r.Floor("attribute-kept", 2500)
		r.Floor("attribute-set", 250)
		r.Units["self_methods"] = len(cur)
		r.Units["methods_in_table"] = len(table)
		r.Assume = append(r.Assume, "The table of attributes each method may change was generated from the tree after the recorded repairs and read through by hand.",
			"An attribute clamped by a comparison with a constant counts as that attribute; library calls return values computed from all their arguments.")
	}
}

// comparesOwn: the function, or one it calls on the way, tests an attribute for equality with something that is not
// constant (and may leave the value alone when it is already what it is to become).
func comparesOwn(w *World, f *ssa.Function, depth int) bool {
	isField := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.UnOp:
			_, ok := x.X.(*ssa.FieldAddr)
			return ok && x.Op == token.MUL
		case *ssa.Field, *ssa.Call:
			return true
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if (x.Op == token.EQL || x.Op == token.NEQ) && !isConstVal(x.X) && !isConstVal(x.Y) && (isField(x.X) || isField(x.Y)) {
					return true
				}
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil {
					continue
				}
				if strings.HasPrefix(g.Name(), "Equal") || g.Name() == "DeepEqual" {
					return true
				}
				if depth > 0 && w.funcSet[origin(g)] && module(origin(g)) == module(f) && comparesOwn(w, origin(g), depth-1) {
					return true
				}
			}
		}
	}
	return false
}

func lastStep(k string) string { return strings.TrimRight(k[strings.LastIndex(k, ".")+1:], "*[]~") }

func isConstVal(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// coarse finds an entry for an enclosing or enclosed attribute.
func coarse(m map[string]c08Leaf, path string) (c08Leaf, bool) {
	if l, ok := m[""]; ok {
		return l, true
	}
	for k, l := range m {
		if strings.HasPrefix(path, k+".") {
			return l, true
		}
	}
	var sum c08Leaf
	found := false
	for k, l := range m {
		if strings.HasPrefix(k, path+".") {
			found = true
			sum.Own = sum.Own || l.Own
			sum.Other = sum.Other || l.Other
			sum.Consts = append(sum.Consts, l.Consts...)
			sum.Params = append(sum.Params, l.Params...)
		}
	}
	return sum, found
}

// onlySelf reports whether the attribute is recomputed from nothing but its own old value.
func onlySelf(w *World, p *Prov, f *ssa.Function, path string) bool {
	s := p.Sum(f)
	m := compareResult(s, s.Ret[0], f.Params[0].Type())
	l := m[path]
	if l == nil {
		return false
	}
	orig := leafOrig(f, path)
	if len(l.Consts) > 0 && l.Kind == "changed" && len(l.Deps) == 0 {
		return false
	}
	n := 0
	for d := range l.Deps {
		if !related(d, orig) {
			return false
		}
		n++
	}
	return n > 0 && len(l.Consts) == 0
}

func describe(l c08Leaf) string {
	var parts []string
	if l.Own {
		parts = append(parts, "the old value on some paths")
	}
	for _, c := range l.Consts {
		if c == "0" {
			parts = append(parts, "the zero value")
		} else {
			parts = append(parts, "the constant "+strings.TrimPrefix(c, "#"))
		}
	}
	if len(l.Params) > 0 {
		parts = append(parts, "a value computed from "+strings.Join(l.Params, ", "))
	} else if l.Other {
		parts = append(parts, "a value computed from other attributes")
	}
	if len(parts) == 0 {
		return "another value"
	}
	return strings.Join(parts, " or ")
}

func paramName(f *ssa.Function, loc string) string {
	var i int
	if _, err := fmt.Sscanf(rootOf(loc), "p%d", &i); err == nil && i < len(f.Params) {
		return "parameter " + f.Params[i].Name() + loc[len(rootOf(loc)):]
	}
	return loc
}

func dumpC08(c *Ctx) {
	w := c.Linux()
	p := w.Prov()
	for _, f := range selfMethods(w) {
		s := p.Sum(f)
		if s == nil || len(s.Ret) == 0 || s.Ret[0] == nil {
			continue
		}
		m := compareResult(s, s.Ret[0], f.Params[0].Type())
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		kept := 0
		var ch []string
		for _, k := range ks {
			l := m[k]
			if l.Kind == "kept" {
				kept++
				continue
			}
			d := []string{}
			for x := range l.Deps {
				r := rootOf(x)
				if r != "p0" {
					d = append(d, x)
				}
			}
			sort.Strings(d)
			ch = append(ch, fmt.Sprintf("%s[%s %s %s]", k, l.Kind, l.Consts, strings.Join(d, ",")))
		}
		fmt.Printf("%s kept=%d changed: %s\n", fnName(f), kept, strings.Join(ch, " "))
	}
}
