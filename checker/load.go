package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modRoot = "github.com/phoenix-tui/phoenix"

var repoDir = "/repo"

// World is the resolved program for one platform.
type World struct {
	texts        map[token.Pos]string
	namedIdx     map[string]*types.Named
	procs        map[*ssa.Global]string
	recvWrites   map[*ssa.Function]int8
	GOOS, GOARCH string
	Fset         *token.FileSet
	Pkgs         []*packages.Package // library packages of the repository (no examples, no benchmarks)
	ByPath       map[string]*packages.Package
	Prog         *ssa.Program
	Funcs        []*ssa.Function // every source function of Pkgs, closures included
	funcSet      map[*ssa.Function]bool
	Inits        []*ssa.Function
	TypeErrors   []string

	impls     map[*types.Func][]*ssa.Function
	byName    map[string]*ssa.Function
	callers   map[*ssa.Function][]ssa.CallInstruction
	directs   map[*ssa.Function][]ssa.CallInstruction
	invokes   map[string]bool
	named     []*types.Named
	addrTaken map[*ssa.Function]bool
	prov      *Prov
	effects   *Effects
	flow      *Flow
}

// Prov runs the provenance analysis once.
func (w *World) Prov() *Prov {
	if w.prov == nil {
		w.prov = NewProv(w)
	}
	return w.prov
}

var libModules = []string{"", "core", "mouse", "terminal", "testing", "style", "layout", "render", "tea", "components", "clipboard"}

func inScope(path string) bool {
	if !strings.HasPrefix(path, modRoot) {
		return false
	}
	for _, s := range strings.Split(path, "/") {
		if s == "examples" || s == "benchmarks" || s == "bench" {
			return false
		}
	}
	return true
}

// scratchWork writes a go.work naming every library module; nothing in /repo is written.
func scratchWork() (string, func(), error) {
	dir, err := os.MkdirTemp("", "phxwork")
	if err != nil {
		return "", nil, err
	}
	var b strings.Builder
	b.WriteString("go 1.25.1\n\nuse (\n")
	for _, m := range libModules {
		fmt.Fprintf(&b, "\t%s\n", filepath.Join(repoDir, m))
	}
	b.WriteString(")\n")
	if err := os.WriteFile(filepath.Join(dir, "go.work"), []byte(b.String()), 0o644); err != nil {
		return "", nil, err
	}
	return filepath.Join(dir, "go.work"), func() { os.RemoveAll(dir) }, nil
}

func baseEnv(work, goos, goarch string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOWORK", "GOFLAGS", "GOOS", "GOARCH", "GOPROXY", "GOTOOLCHAIN", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOWORK="+work, "GOFLAGS=", "GOOS="+goos, "GOARCH="+goarch, "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

// Load type-checks the repository for one platform and builds its SSA form.
func Load(goos, goarch string, buildSSA bool) (*World, error) {
	work, clean, err := scratchWork()
	if err != nil {
		return nil, err
	}
	defer clean()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repoDir,
		Env: baseEnv(work, goos, goarch),
	}
	all, err := packages.Load(cfg, modRoot+"/...")
	if err != nil {
		return nil, err
	}
	w := &World{GOOS: goos, GOARCH: goarch, ByPath: map[string]*packages.Package{}, funcSet: map[*ssa.Function]bool{}, byName: map[string]*ssa.Function{}}
	for _, p := range all {
		if !inScope(p.PkgPath) {
			continue
		}
		for _, e := range p.Errors {
			w.TypeErrors = append(w.TypeErrors, fmt.Sprintf("%s: %s", p.PkgPath, e.Error()))
		}
		w.Pkgs = append(w.Pkgs, p)
		w.ByPath[p.PkgPath] = p
		w.Fset = p.Fset
	}
	sort.Slice(w.Pkgs, func(i, j int) bool { return w.Pkgs[i].PkgPath < w.Pkgs[j].PkgPath })
	if len(w.Pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded")
	}
	if !buildSSA || len(w.TypeErrors) > 0 {
		return w, nil
	}
	prog, _ := ssautil.Packages(w.Pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	w.Prog = prog
	for _, p := range w.Pkgs {
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		if f := sp.Func("init"); f != nil {
			w.Inits = append(w.Inits, f)
		}
		for _, file := range p.Syntax {
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				fn := prog.FuncValue(obj)
				if fn == nil || fn.Blocks == nil {
					continue
				}
				w.addFunc(fn)
			}
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nm, ok := tn.Type().(*types.Named); ok {
					w.named = append(w.named, nm)
				}
			}
		}
	}
	for _, f := range w.Inits {
		for _, a := range f.AnonFuncs {
			w.addFunc(a)
		}
	}
	return w, nil
}

func (w *World) addFunc(fn *ssa.Function) {
	if w.funcSet[fn] {
		return
	}
	w.funcSet[fn] = true
	w.Funcs = append(w.Funcs, fn)
	w.byName[fnName(fn)] = fn
	for _, a := range fn.AnonFuncs {
		w.addFunc(a)
	}
}

// fnName is the stable name of a function: module path prefix removed, generics by origin.
func fnName(fn *ssa.Function) string {
	fn = origin(fn)
	s := fn.String()
	s = strings.ReplaceAll(s, modRoot+"/", "")
	s = strings.ReplaceAll(s, modRoot, "phoenix")
	return s
}

func origin(fn *ssa.Function) *ssa.Function {
	if fn == nil {
		return nil
	}
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

// Func finds a function by its stable name.
func (w *World) Func(name string) *ssa.Function { return w.byName[name] }

// NamedType finds a named type by package path below the module root.
func (w *World) NamedType(path, name string) *types.Named {
	p := w.ByPath[modRoot+"/"+path]
	if p == nil {
		return nil
	}
	tn, ok := p.Types.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(tn.Type()).(*types.Named)
	return n
}

// Method finds the method of a type, promoted ones included.
func (w *World) Method(t types.Type, name string) *ssa.Function {
	sel := w.Prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f := w.Prog.MethodValue(sel)
	if f == nil {
		return nil
	}
	if g := unwrap(f); g != nil {
		return g
	}
	return f
}

func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.Fset.Position(p)
	f := strings.TrimPrefix(q.Filename, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (w *World) InstrPos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return w.Pos(in.Pos())
	}
	// nearest positioned instruction of the block
	b := in.Block()
	if b != nil {
		for _, o := range b.Instrs {
			if o.Pos().IsValid() {
				return w.Pos(o.Pos())
			}
		}
	}
	if in.Parent() != nil {
		return w.Pos(in.Parent().Pos())
	}
	return "-"
}

// pkgOf returns the package path of a function relative to the module root.
func pkgOf(fn *ssa.Function) string {
	fn = origin(fn)
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		if fn.Object() != nil && fn.Object().Pkg() != nil {
			return relPath(fn.Object().Pkg().Path())
		}
		return ""
	}
	return relPath(fn.Pkg.Pkg.Path())
}

func relPath(p string) string {
	if p == modRoot {
		return "phoenix"
	}
	return strings.TrimPrefix(p, modRoot+"/")
}

func isRepoPath(p string) bool { return p == modRoot || strings.HasPrefix(p, modRoot+"/") }

// Callees resolves a call: static callee, closures, and for interface calls every
// repository type that implements the interface. ext lists callees outside the repository.
func (w *World) Callees(c ssa.CallInstruction) (in []*ssa.Function, ext []*types.Func, unknown bool) {
	com := c.Common()
	if com.IsInvoke() {
		m := com.Method
		fs := w.Implementers(m)
		in = append(in, fs...)
		if m.Pkg() == nil || !isRepoPath(m.Pkg().Path()) {
			ext = append(ext, m)
		}
		return in, ext, false
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		_ = b
		return nil, nil, false
	}
	if f := com.StaticCallee(); f != nil {
		f = unwrap(f)
		o := origin(f)
		if w.funcSet[o] {
			return []*ssa.Function{o}, nil, false
		}
		if obj, ok := o.Object().(*types.Func); ok {
			return nil, []*types.Func{obj}, false
		}
		return nil, nil, true
	}
	if in, ok := w.funcValue(com.Value, map[ssa.Value]bool{}); ok {
		return in, nil, false
	}
	// a function value: every address-taken repository function or closure with the same signature
	sig := com.Signature()
	for _, f := range w.Funcs {
		if w.isAddrTaken(f) && types.Identical(stripRecv(f.Signature), stripRecv(sig)) {
			in = append(in, f)
		}
	}
	return in, nil, true
}

// funcValue: the functions a value can be, where every one of them is seen: literals, named functions,
// and what the callers of an unexported function pass it.
func (w *World) funcValue(v ssa.Value, seen map[ssa.Value]bool) ([]*ssa.Function, bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	add := func(out []*ssa.Function, vs ...ssa.Value) ([]*ssa.Function, bool) {
		for _, x := range vs {
			fs, ok := w.funcValue(x, seen)
			if !ok {
				return nil, false
			}
			out = append(out, fs...)
		}
		return out, true
	}
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return add(nil, x.Fn)
	case *ssa.Function:
		f := origin(unwrap(x))
		return []*ssa.Function{f}, w.funcSet[f]
	case *ssa.ChangeType:
		return add(nil, x.X)
	case *ssa.Phi:
		return add(nil, x.Edges...)
	case *ssa.UnOp: // a variable that is assigned once and captured
		var cells []*ssa.Alloc
		switch c := x.X.(type) {
		case *ssa.Alloc:
			cells = append(cells, c)
		case *ssa.FreeVar:
			cells, _ = w.capturedCells(c)
		}
		var vs []ssa.Value
		for _, c := range cells {
			s := onlyStore(c)
			if s == nil {
				return nil, false
			}
			vs = append(vs, s.Val)
		}
		if len(vs) == 0 {
			return nil, false
		}
		return add(nil, vs...)
	case *ssa.Parameter:
		f := x.Parent()
		if f.Parent() != nil || exported(f) || f.Synthetic != "" || w.isAddrTaken(origin(f)) || w.invoked(f.Name()) {
			return nil, false
		}
		for i, p := range f.Params {
			if p != x {
				continue
			}
			var vs []ssa.Value
			for _, c := range w.direct(origin(f)) {
				vs = append(vs, c.Common().Args[i])
			}
			if len(vs) == 0 {
				return nil, false
			}
			return add(nil, vs...)
		}
	case *ssa.Const:
		return nil, x.IsNil()
	}
	return nil, false
}

// direct: the calls that name a function.
func (w *World) direct(f *ssa.Function) []ssa.CallInstruction {
	if w.directs == nil {
		w.directs = map[*ssa.Function][]ssa.CallInstruction{}
		w.invokes = map[string]bool{}
		for _, g := range append(append([]*ssa.Function{}, w.Funcs...), w.Inits...) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if c.Common().IsInvoke() {
						w.invokes[c.Common().Method.Name()] = true
					} else if h := c.Common().StaticCallee(); h != nil {
						w.directs[origin(unwrap(h))] = append(w.directs[origin(unwrap(h))], c)
					}
				}
			}
		}
	}
	return w.directs[f]
}

// invoked: an interface method of that name is called.
func (w *World) invoked(name string) bool {
	w.direct(nil)
	return w.invokes[name]
}

func stripRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// unwrap maps synthetic wrappers (bound methods, thunks, promoted methods) to the method they call.
func unwrap(f *ssa.Function) *ssa.Function {
	for i := 0; i < 4 && f.Synthetic != "" && f.Origin() == nil && len(f.Blocks) > 0; i++ {
		var next *ssa.Function
		n := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						next = g
						n++
					}
				}
			}
		}
		if n != 1 {
			break
		}
		f = next
	}
	return f
}

func (w *World) isAddrTaken(f *ssa.Function) bool {
	if w.addrTaken == nil {
		w.addrTaken = map[*ssa.Function]bool{}
		mark := func(v ssa.Value) {
			if g, ok := v.(*ssa.Function); ok {
				w.addrTaken[origin(unwrap(g))] = true
			}
		}
		for _, fn := range append(append([]*ssa.Function{}, w.Funcs...), w.Inits...) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					var rands [16]*ssa.Value
					for _, op := range in.Operands(rands[:0]) {
						if *op == nil {
							continue
						}
						if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == *op && !c.Common().IsInvoke() {
							// direct callee; but a closure's function is also taken by MakeClosure
							continue
						}
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == *op && onlyCalled(mc) {
							continue
						}
						mark(*op)
					}
				}
			}
		}
	}
	return w.addrTaken[f]
}

// onlyCalled: the closure is called, deferred or started where it is made and goes nowhere else.
func onlyCalled(mc *ssa.MakeClosure) bool {
	refs := mc.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		c, ok := r.(ssa.CallInstruction)
		if !ok || c.Common().Value != ssa.Value(mc) {
			return false
		}
		for _, a := range c.Common().Args {
			if a == ssa.Value(mc) {
				return false
			}
		}
	}
	return true
}

// Implementers returns the repository methods an interface method can dispatch to.
func (w *World) Implementers(m *types.Func) []*ssa.Function {
	if w.impls == nil {
		w.impls = map[*types.Func][]*ssa.Function{}
	}
	if r, ok := w.impls[m]; ok {
		return r
	}
	var out []*ssa.Function
	sig := m.Type().(*types.Signature)
	var iface *types.Interface
	if sig.Recv() != nil {
		iface, _ = sig.Recv().Type().Underlying().(*types.Interface)
	}
	if iface != nil {
		for _, n := range w.named {
			if types.IsInterface(n) {
				continue
			}
			for _, t := range []types.Type{n, types.NewPointer(n)} {
				if n.TypeParams().Len() > 0 {
					continue
				}
				if !types.Implements(t, iface) {
					continue
				}
				sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				if f := w.Prog.FuncValue(sel.Obj().(*types.Func)); f != nil && w.funcSet[origin(f)] {
					dup := false
					for _, o := range out {
						if o == origin(f) {
							dup = true
						}
					}
					if !dup {
						out = append(out, origin(f))
					}
				}
				break
			}
		}
	}
	w.impls[m] = out
	return out
}

// Callers returns the call instructions that can call fn directly or through an interface.
func (w *World) Callers(fn *ssa.Function) []ssa.CallInstruction {
	if w.callers == nil {
		w.callers = map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range append(append([]*ssa.Function{}, w.Funcs...), w.Inits...) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						cs, _, _ := w.Callees(c)
						for _, g := range cs {
							w.callers[g] = append(w.callers[g], c)
						}
					}
				}
			}
		}
	}
	return w.callers[fn]
}

func extFuncName(f *types.Func) string { return f.FullName() }

// namedOf returns the named type of t, looking through one pointer; generics by origin.
func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	if n != nil {
		n = n.Origin()
	}
	return n
}

func typeName(t types.Type) string {
	n := namedOf(t)
	if n == nil {
		return types.TypeString(t, func(p *types.Package) string { return relPath(p.Path()) })
	}
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	return relPath(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
}

// fieldName names the field selected by a FieldAddr or Field instruction: "pkg.Type.field".
func fieldOf(v ssa.Value) (owner *types.Named, fv *types.Var, ok bool) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		owner = namedOf(x.X.Type())
		st, _ := deref(x.X.Type()).Underlying().(*types.Struct)
		if st == nil {
			return nil, nil, false
		}
		return owner, st.Field(x.Field), true
	case *ssa.Field:
		owner = namedOf(x.X.Type())
		st, _ := x.X.Type().Underlying().(*types.Struct)
		if st == nil {
			return nil, nil, false
		}
		return owner, st.Field(x.Field), true
	}
	return nil, nil, false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func recvNamed(fn *ssa.Function) *types.Named {
	if r := fn.Signature.Recv(); r != nil {
		return namedOf(r.Type())
	}
	return nil
}

func exported(fn *ssa.Function) bool {
	return fn.Object() != nil && fn.Object().Exported()
}
