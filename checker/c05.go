package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C05"] = checkC05 }

// syncKind: the synchronisation role of a field's type.
func syncKind(t types.Type) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "sync.Mutex", "sync.RWMutex":
		return "mutex"
	case "sync.Once", "sync.Pool", "sync.WaitGroup", "sync.Map", "sync.Cond":
		return "sync"
	}
	if n.Obj().Pkg().Path() == "sync/atomic" {
		return "sync"
	}
	return ""
}

// selfSync: values of the type synchronise themselves (a struct with a mutex, or a goroutine-safe standard type).
func selfSync(t types.Type) bool {
	n := namedOf(t)
	if n == nil {
		return false
	}
	if n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "os", "sync", "sync/atomic", "context", "time":
			return true
		}
	}
	if s, ok := n.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if syncKind(s.Field(i).Type()) != "" {
				return true
			}
		}
	}
	return false
}

type c05Access struct {
	locks map[string]string
	write bool
	pos   string
	fn    string
}

type c05Obj struct {
	w        *World
	r        *Report
	goos     string
	typ      *types.Named
	pkg      string
	acc      map[string][]c05Access
	leaks    map[string][]c05Access
	visited  map[ssa.Instruction]bool
	mutates  map[*ssa.Function]map[int]bool
	mutating map[*ssa.Function]bool
	entries  int
	lockOps  int
}

func checkC05(c *Ctx, r *Report) {
	r.Rule("guarded", "every access to a field (and to the memory reached through it) that changes after construction happens with one common lock of the object held, on every path of every exported operation and goroutine; writes hold it exclusively")
	r.Rule("lock-balance", "a lock is taken only when not held, released only when held, and not held at any end of an operation, panics of application code included")
	r.Rule("no-wait", "no channel operation that can block, wait for a process or goroutine, sleep or application update runs while a lock is held")
	r.Rule("no-leak", "memory that is changed in place under the lock is not handed out to callers")
	r.Rule("publication", "a constructor does not write an object's fields after it started a goroutine using it")
	r.Rule("covered", "every access to a guarded field lies in an analysed operation, or in a function only called on objects still under construction")
	r.Assume = append(r.Assume, "an *os.File and the standard library's own synchronised types may be used concurrently")
	for _, goos := range []string{"linux", "windows"} {
		c05(c.World(goos, "amd64"), r, goos)
	}
	if c.Tier == "thorough" {
		c05(c.World("darwin", "arm64"), r, "darwin")
	}
	r.Floor("guarded", 20)
	r.Floor("lock-balance", 40)
	r.Floor("no-leak", 20)
	r.Floor("covered", 20)
}

func c05(w *World, r *Report, goos string) {
	n := 0
	var names []string
	for _, nm := range w.named {
		s, ok := nm.Underlying().(*types.Struct)
		if !ok || nm.Obj().Pkg() == nil || !isRepoPath(nm.Obj().Pkg().Path()) {
			continue
		}
		has := false
		for i := 0; i < s.NumFields(); i++ {
			if syncKind(s.Field(i).Type()) != "" {
				has = true
			}
		}
		if !has {
			continue
		}
		n++
		names = append(names, typeName(nm))
		o := &c05Obj{w: w, r: r, goos: goos, typ: nm, pkg: relPath(nm.Obj().Pkg().Path()), acc: map[string][]c05Access{}, leaks: map[string][]c05Access{}, visited: map[ssa.Instruction]bool{}, mutates: map[*ssa.Function]map[int]bool{}, mutating: map[*ssa.Function]bool{}}
		o.run()
	}
	// the documented concurrent objects must still have their lock
	want := []string{"Program", "InlineRenderer", "Writer", "Renderer", "ClipboardHistory", "ThemeManager", "MockTerminal", "CancelableReader"}
	if goos == "windows" {
		want = append(want, "Console")
	} else {
		want = append(want, "ANSITerminal")
	}
	for _, x := range want {
		ok := false
		for _, m := range names {
			ok = ok || strings.HasSuffix(m, "."+x)
		}
		r.Check(ok, "guarded", "synchronised "+x+" "+goos, "-", "%s is documented as safe for concurrent use but has no lock (or was renamed)", x)
	}
	r.Units["synchronised types "+goos] = n
}

// root: which field of the object a cell name lies in; content means memory reached through the field.
func (o *c05Obj) root(cell string) (field string, content, ok bool) {
	s := strings.TrimLeft(cell, "*")
	deref := len(cell) - len(s)
	if !strings.HasPrefix(s, "obj.") {
		return "", false, false
	}
	s = s[4:]
	i := strings.IndexAny(s, ".[@")
	if i < 0 {
		return s, deref > 0, true
	}
	f := s[:i]
	if deref == 0 && s[i] == '.' { // a field of a struct held by value
		return f, false, true
	}
	return f, deref > 0 || s[i] == '[', true
}

func (o *c05Obj) fieldType(name string) types.Type {
	s := o.typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (o *c05Obj) locks(st *SState) map[string]string {
	m := map[string]string{}
	for k, v := range st.ts {
		if strings.HasPrefix(k, "L:") {
			m[k[2:]] = v
		}
	}
	return m
}

func (o *c05Obj) access(sm *Sim, st *SState, at ssa.Instruction, cell string, write bool) {
	f, content, ok := o.root(cell)
	if !ok {
		if strings.HasPrefix(cell, "a:") {
			o.visited[at] = true
			if st, ok := at.(*ssa.Store); write && ok {
				n, _, isF := fieldOf(st.Addr)
				write = isF && n != nil && n.Origin() == o.typ.Origin()
			} else {
				write = false
			}
			if write {
				rt := cell
				if i := strings.IndexByte(cell[strings.LastIndexByte(cell, ':'):], '.'); i >= 0 {
					rt = cell[:strings.LastIndexByte(cell, ':')+i]
				}
				if st.ts["shared "+rt] != "" && len(o.locks(st)) == 0 {
					o.r.Bad("publication", fnName(at.Parent())+" "+o.goos, o.w.InstrPos(at), "the object is written here without a lock after a goroutine using it was started")
				}
			}
		}
		return
	}
	o.visited[at] = true
	t := o.fieldType(f)
	if t == nil || syncKind(t) != "" {
		return
	}
	if content {
		f += " (contents)"
	}
	o.acc[f] = append(o.acc[f], c05Access{o.locks(st), write, o.w.InstrPos(at), fnName(sm.stack[0])})
}

// localRoot: the local variable an address lies in, without going through a pointer.
func localRoot(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
}

// hasPointers: values of the type can share memory with others.
func hasPointers(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem(), d+1)
	}
	return true
}

// mutatesParam: the function may write memory reached through its i-th parameter.
func (o *c05Obj) mutatesParam(f *ssa.Function, i int) bool {
	f = origin(f)
	if m, ok := o.mutates[f]; ok {
		return m[i]
	}
	if o.mutating[f] {
		return false
	}
	if len(f.Blocks) == 0 {
		return true
	}
	o.mutating[f] = true
	m := map[int]bool{}
	from := map[ssa.Value]map[int]bool{}
	for j, p := range f.Params {
		from[p] = map[int]bool{j: true}
	}
	add := func(dst ssa.Value, src ssa.Value) bool {
		ch := false
		for k := range from[src] {
			if from[dst] == nil {
				from[dst] = map[int]bool{}
			}
			if !from[dst][k] {
				from[dst][k] = true
				ch = true
			}
		}
		return ch
	}
	mark := func(v ssa.Value) {
		for k := range from[v] {
			m[k] = true
		}
	}
	for again := true; again; {
		again = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					again = add(x, x.X) || again
				case *ssa.IndexAddr:
					again = add(x, x.X) || again
				case *ssa.UnOp:
					if hasPointers(x.Type(), 0) {
						again = add(x, x.X) || again
					}
				case *ssa.Field:
					if hasPointers(x.Type(), 0) {
						again = add(x, x.X) || again
					}
				case *ssa.Slice:
					again = add(x, x.X) || again
				case *ssa.Phi:
					for _, e := range x.Edges {
						again = add(x, e) || again
					}
				case *ssa.Store:
					if a := localRoot(x.Addr); a != nil {
						again = add(a, x.Val) || again
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if localRoot(x.Addr) == nil {
					mark(x.Addr)
				}
			case *ssa.MapUpdate:
				mark(x.Map)
			case ssa.CallInstruction:
				c := x.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					if b.Name() == "copy" || b.Name() == "delete" || b.Name() == "clear" {
						mark(c.Args[0])
					}
					continue
				}
				cs, ext, _ := o.w.Callees(x)
				args := c.Args
				if c.IsInvoke() {
					args = append([]ssa.Value{c.Value}, args...)
				}
				for _, g := range cs {
					for j, a := range args {
						if len(from[a]) > 0 && o.mutatesParam(g, j) {
							mark(a)
						}
					}
				}
				for _, e := range ext {
					if len(args) > 0 && e.Type().(*types.Signature).Recv() != nil && !selfSync(args[0].Type()) {
						if _, isPtr := args[0].Type().Underlying().(*types.Pointer); isPtr {
							mark(args[0])
						}
					}
				}
			}
		}
	}
	delete(o.mutating, f)
	o.mutates[f] = m
	return m[i]
}

func (o *c05Obj) run() {
	w, r := o.w, o.r
	tn := typeName(o.typ)
	inPkg := func(f *ssa.Function) bool { return pkgOf(f) == o.pkg }
	fields := map[string]bool{} // fields whose identity matters
	s := o.typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature:
			fields[s.Field(i).Name()] = true
		}
	}
	track := trackFields(fields)
	// what was known of the fields no longer holds once other goroutines may have changed them
	havoc := func(st *SState) {
		for k := range st.cells {
			if strings.HasPrefix(k, "obj.") {
				delete(st.cells, k)
			}
		}
		for k := range st.facts {
			if strings.HasPrefix(k, "*obj.") {
				delete(st.facts, k)
			}
		}
	}
	waits := func(sm *Sim, st *SState, at ssa.Instruction, what string) {
		ls := o.locks(st)
		for l := range ls {
			if k := o.fieldType(l); k != nil && syncKind(k) == "sync" {
				delete(ls, l) // inside Once.Do
			}
		}
		r.Check(len(ls) == 0, "no-wait", fnName(at.Parent())+" "+what+" "+o.goos, w.InstrPos(at), "%s while holding %s", what, keyList2(ls))
	}
	var subs []func()
	doneGo := map[string]bool{}
	var client *SimClient
	lockKey := func(a SV) string {
		if a.k != 'r' && a.k != 's' {
			return ""
		}
		if strings.HasPrefix(a.s, "obj.") {
			return a.s[4:]
		}
		return a.s
	}
	client = &SimClient{
		NoNilPanic: true,
		Enter:      inPkg,
		Track:      track,
		MayPanic: func(c *ssa.CallCommon, callee *ssa.Function, ext *types.Func) bool {
			return appCode(c, ext) != ""
		},
		Load:  func(sm *Sim, st *SState, at ssa.Instruction, a SV) { o.access(sm, st, at, a.s, false) },
		Store: func(sm *Sim, st *SState, at ssa.Instruction, a, v SV) { o.access(sm, st, at, a.s, true) },
		Use: func(sm *Sim, st *SState, at ssa.Instruction, v SV, write bool) {
			if v.k == 's' || v.k == 'r' {
				o.access(sm, st, at, v.s, write)
			}
		},
		Chan: func(sm *Sim, st *SState, at ssa.Instruction) {
			switch x := at.(type) {
			case *ssa.Send:
				waits(sm, st, at, "channel send")
			case *ssa.UnOp:
				waits(sm, st, at, "channel receive")
			case *ssa.Select:
				if x.Blocking {
					waits(sm, st, at, "select")
				}
			}
		},
		Go: func(sm *Sim, st *SState, at *ssa.Go, fn SV, args []SV) {
			var share func(v SV)
			share = func(v SV) {
				if v.k == 'r' && strings.HasPrefix(v.s, "a:") {
					if st.ts["shared "+v.s] == "" {
						st.Set("shared "+v.s, "y")
						if c, ok := st.cells[v.s]; ok {
							share(c)
						}
					}
				}
				for _, b := range v.binds {
					share(b)
				}
			}
			share(fn)
			for _, a := range args {
				share(a)
			}
			for _, t := range w.goTargets(at) {
				if !inPkg(t) {
					continue
				}
				s0 := newSState()
				for k, v := range st.cells {
					if !strings.HasPrefix(k, "obj.") {
						s0.cells[k] = v
					}
				}
				for k := range st.zero {
					s0.zero[k] = true
				}
				kb := t.String()
				for _, a := range append(append([]SV{}, args...), fn.binds...) {
					kb += "," + a.key()
				}
				if doneGo[kb] {
					continue
				}
				doneGo[kb] = true
				t, binds := t, fn.binds
				subs = append(subs, func() { o.entry(client, t, args, binds, s0) })
			}
		},
		Call: func(sm *Sim, st *SState, at ssa.Instruction, c *ssa.CallCommon, callee *ssa.Function, ext *types.Func, args []SV) ([]SOut, bool) {
			full := ""
			if ext != nil {
				full = ext.FullName()
			} else if callee != nil {
				if ob, ok := origin(callee).Object().(*types.Func); ok {
					full = ob.FullName()
				}
			}
			con := fnName(at.Parent()) + " " + o.goos
			switch full {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
				k := lockKey(args[0])
				if k == "" {
					r.Bad("lock-balance", con, w.InstrPos(at), "the lock taken here cannot be identified")
					return []SOut{{st: st}}, true
				}
				o.lockOps++
				if st.ts["L:"+k] != "" {
					r.Bad("lock-balance", fnName(at.Parent())+" locks "+k, w.InstrPos(at), "%s is locked again while already held (%s)", k, sm.Path())
					return nil, true
				}
				r.OK("lock-balance", con+" lock "+k)
				n := st.clone()
				havoc(n)
				mode := "w"
				if strings.HasSuffix(full, "RLock") {
					mode = "r"
				}
				n.Set("L:"+k, mode)
				return []SOut{{st: n}}, true
			case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
				k := lockKey(args[0])
				mode := "w"
				if strings.HasSuffix(full, "RUnlock") {
					mode = "r"
				}
				o.lockOps++
				r.Check(k != "" && st.ts["L:"+k] == mode, "lock-balance", fnName(at.Parent())+" unlocks "+k, w.InstrPos(at), "%s is released here although not held (%s)", k, sm.Path())
				n := st.clone()
				havoc(n)
				n.Set("L:"+k, "")
				return []SOut{{st: n}}, true
			case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
				k := lockKey(args[0])
				a, b := st.clone(), st.clone()
				havoc(a)
				a.Set("L:"+k, "w")
				return []SOut{{st: a, ret: svBool(true)}, {st: b, ret: svBool(false)}}, true
			case "(*sync.Once).Do":
				k := lockKey(args[0])
				if st.ts["L:"+k] != "" {
					r.Bad("lock-balance", con, w.InstrPos(at), "Once.Do is called from the function it runs")
					return nil, true
				}
				n := st.clone()
				n.Set("L:"+k, "w")
				outs := []SOut{{st: st.clone()}}
				if args[1].k == 'f' && len(args[1].fn.Blocks) > 0 {
					for _, x := range sm.Exec(args[1].fn, nil, args[1].binds, n) {
						x.st.Set("L:"+k, "")
						outs = append(outs, x)
					}
				}
				return outs, true
			case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "time.Sleep", "(*os/exec.Cmd).Wait", "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput", "(*os.Process).Wait":
				waits(sm, st, at, full)
			}
			if a := appCode(c, ext); a != "" && a != "View" {
				waits(sm, st, at, "application "+a)
			}
			// sorting through an interface writes the elements
			if strings.HasPrefix(full, "sort.") && len(c.Args) > 0 {
				if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
					if _, ok := mi.X.Type().Underlying().(*types.Slice); ok {
						if a := sm.val(sm.cur, mi.X); a.k == 's' {
							o.access(sm, st, at, "*"+a.s, true)
						}
					}
				}
			}
			// objects reached through a field and not synchronising themselves
			for i, a := range args {
				if a.k != 's' && a.k != 'r' {
					continue
				}
				_, content, ok := o.root(a.s)
				if !ok {
					continue
				}
				if a.k == 'r' && !content { // the address of a field
					if callee != nil && w.funcSet[origin(callee)] {
						if !inPkg(callee) {
							o.access(sm, st, at, a.s, o.mutatesParam(callee, i))
						}
					} else {
						o.access(sm, st, at, a.s, true)
					}
					continue
				}
				var v ssa.Value
				if c.IsInvoke() {
					if i == 0 {
						v = c.Value
					} else {
						v = c.Args[i-1]
					}
				} else if i < len(c.Args) {
					v = c.Args[i]
				}
				if v == nil || selfSync(v.Type()) {
					continue
				}
				if mi, ok := v.(*ssa.MakeInterface); ok && selfSync(mi.X.Type()) {
					continue
				}
				switch v.Type().Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Slice:
					if callee != nil && len(callee.Blocks) > 0 && w.funcSet[origin(callee)] {
						if !inPkg(callee) {
							o.access(sm, st, at, "*"+a.s, o.mutatesParam(callee, i))
						}
					} else if ext != nil && i == 0 && ext.Type().(*types.Signature).Recv() != nil {
						o.access(sm, st, at, "*"+a.s, true)
					} else if ext != nil {
						o.access(sm, st, at, "*"+a.s, strings.HasPrefix(full, "sort.") || strings.HasPrefix(full, "slices.Sort"))
					}
				case *types.Interface:
					if n := namedOf(v.Type()); n != nil && i == 0 && c.IsInvoke() && (typeName(n) == "io.Writer" || typeName(n) == "io.Reader") {
						o.access(sm, st, at, "*"+a.s, true)
					} else if n != nil && typeName(n) == "io.Writer" && ext != nil && extPkg(ext) == "fmt" {
						o.access(sm, st, at, "*"+a.s, true)
					}
				}
			}
			return nil, false
		},
	}
	run := func(f *ssa.Function, args []SV) {
		o.entries++
		o.entry(client, f, args, nil, newSState())
		for len(subs) > 0 {
			s := subs[0]
			subs = subs[1:]
			s()
		}
	}
	isT := func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && n.Origin() == o.typ.Origin()
	}
	for _, f := range w.Funcs {
		if !inPkg(f) || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		k := -1
		for i, p := range f.Params {
			if isT(p.Type()) {
				if _, ptr := p.Type().Underlying().(*types.Pointer); ptr && k < 0 {
					k = i
				}
			}
		}
		isExp := f.Object() != nil && f.Object().Exported()
		if k >= 0 && isExp {
			args := make([]SV, len(f.Params))
			for i := range args {
				args[i] = svSym(fmt.Sprintf("arg%d", i))
			}
			args[k] = svSym("obj")
			run(f, args)
		} else if k < 0 && returnsType(f, isT) && o.startsOwn(f) {
			args := make([]SV, len(f.Params))
			for i := range args {
				args[i] = svSym(fmt.Sprintf("arg%d", i))
			}
			run(f, args)
		}
	}
	if o.entries == 0 {
		r.Bad("covered", tn+" "+o.goos, "-", "no exported operation of %s found", tn)
		return
	}
	o.judge(tn)
}

func returnsType(f *ssa.Function, isT func(types.Type) bool) bool {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if isT(res.At(i).Type()) {
			return true
		}
	}
	return false
}

func (o *c05Obj) startsOwn(f *ssa.Function) bool {
	for g := range o.w.staticSame(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					return true
				}
			}
		}
	}
	return false
}

func keyList2(m map[string]string) string { return strings.Join(sortedKeys(m), ", ") }

func (o *c05Obj) entry(cl *SimClient, f *ssa.Function, args, binds []SV, st *SState) {
	sm := NewSim(o.w, cl)
	outs := sm.Exec(f, args, binds, st)
	con := fnName(f) + " " + o.goos
	if sm.Blown {
		o.r.Bad("lock-balance", con, o.w.Pos(f.Pos()), "too many states, undecided")
	}
	o.r.Units["simulation steps"] += sm.Steps
	for _, x := range outs {
		ls := o.locks(x.st)
		o.r.Check(len(ls) == 0, "lock-balance", con, o.w.Pos(f.Pos()), "%s is still held when %s ends", keyList2(ls), fnName(f))
		var rets []SV
		if x.ret.k == 't' {
			rets = x.ret.binds
		} else {
			rets = []SV{x.ret}
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len() && i < len(rets); i++ {
			v := rets[i]
			if v.k != 's' && v.k != 'r' {
				continue
			}
			switch res.At(i).Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Slice:
				if selfSync(res.At(i).Type()) {
					continue
				}
				if fl, _, ok := o.root(v.s); ok {
					o.leaks[fl] = append(o.leaks[fl], c05Access{fn: fnName(f), pos: o.w.Pos(f.Pos())})
				}
			}
		}
	}
}

var debugC05 = os.Getenv("PHX_C05") != ""

// judge infers each field's lock and reports accesses outside it.
func (o *c05Obj) judge(tn string) {
	r := o.r
	var fs []string
	for f := range o.acc {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	guarded := map[string]bool{}
	for _, f := range fs {
		as := o.acc[f]
		written := false
		count := map[string]int{}
		for _, a := range as {
			written = written || a.write
			for l, m := range a.locks {
				if m == "w" || !a.write {
					count[l]++
				}
			}
		}
		con := tn + "." + f + " " + o.goos
		if !written {
			r.OK("guarded", con+" (never changed)")
			continue
		}
		guarded[strings.TrimSuffix(f, " (contents)")] = true
		best := ""
		for _, l := range sortedKeys(count) {
			if best == "" || count[l] > count[best] {
				best = l
			}
		}
		if best == "" {
			best = "any lock"
		}
		if count[best] == len(as) {
			r.OK("guarded", con+" by "+best)
			continue
		}
		seen := map[string]bool{}
		if len(as) > 0 && written && debugC05 {
			for _, a := range as {
				fmt.Println(f, a.fn, a.write, a.pos)
			}
		}
		for _, a := range as {
			m := a.locks[best]
			if m == "w" || m == "r" && !a.write {
				continue
			}
			kind := "read"
			if a.write {
				kind = "written"
			}
			if seen[a.fn+kind] {
				continue
			}
			seen[a.fn+kind] = true
			r.Bad("guarded", tn+"."+f+" in "+a.fn, a.pos, "%s.%s is %s without holding %s, which guards it elsewhere (%d of %d accesses)", tn, f, kind, best, count[best], len(as))
		}
	}
	for _, f := range fs {
		if !strings.HasSuffix(f, " (contents)") {
			continue
		}
		base := strings.TrimSuffix(f, " (contents)")
		w := false
		for _, a := range o.acc[f] {
			w = w || a.write
		}
		bad := false
		for _, l := range o.leaks[base] {
			if w {
				bad = true
				r.Bad("no-leak", tn+"."+base+" from "+l.fn, l.pos, "%s hands out memory of %s.%s that other operations change in place", l.fn, tn, base)
			}
		}
		if !bad {
			r.OK("no-leak", tn+"."+base+" "+o.goos)
		}
	}
	// accesses outside the analysed operations
	s := o.typ.Underlying().(*types.Struct)
	_ = s
	for _, f := range o.w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var addr ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					addr = x.Addr
				case *ssa.UnOp:
					if x.Op == token.MUL {
						addr = x.X
					}
				}
				if addr == nil {
					continue
				}
				n, fv, ok := fieldOf(addr)
				if !ok || n == nil || n.Origin() != o.typ.Origin() || !guarded[fv.Name()] {
					continue
				}
				con := tn + "." + fv.Name() + " in " + fnName(f) + " " + o.goos
				if o.visited[in] || o.underConstruction(addr.(*ssa.FieldAddr).X, f, 0) {
					r.OK("covered", con)
					continue
				}
				if _, live := o.live(f); !live {
					r.OK("covered", con+" (unused)")
					continue
				}
				r.Bad("covered", con, o.w.InstrPos(in), "%s.%s is accessed outside the analysed operations of its object", tn, fv.Name())
			}
		}
	}
}

func (o *c05Obj) live(f *ssa.Function) (int, bool) {
	if f.Parent() != nil || f.Object() != nil && f.Object().Exported() {
		return 1, true
	}
	return 0, len(o.w.Callers(f)) > 0 || o.w.isAddrTaken(f)
}

// underConstruction: the object is fresh in the function, or the function is only called with fresh objects.
func (o *c05Obj) underConstruction(v ssa.Value, f *ssa.Function, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			ok := false
			for _, r := range *a.Referrers() {
				if s, isS := r.(*ssa.Store); isS && s.Addr == a {
					if !o.underConstruction(s.Val, f, d+1) {
						return false
					}
					ok = true
				}
			}
			return ok
		}
	case *ssa.Parameter:
		i := -1
		for j, p := range f.Params {
			if p == x {
				i = j
			}
		}
		if f.Object() != nil && f.Object().Exported() && f.Signature.Recv() != nil {
			return false
		}
		cs := o.w.Callers(f)
		if f.Parent() != nil && len(f.Params) == 1 && o.typ.TypeParams().Len() > 0 {
			// an option of a generic type: every call of a function value taking the object
			for _, g := range o.w.Funcs {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						c, ok := in.(ssa.CallInstruction)
						if !ok || c.Common().IsInvoke() || c.Common().StaticCallee() != nil || len(c.Common().Args) != 1 {
							continue
						}
						if n := namedOf(c.Common().Args[0].Type()); n != nil && n.Origin() == o.typ.Origin() {
							cs = append(cs, c)
						}
					}
				}
			}
		}
		if len(cs) == 0 {
			return false
		}
		for _, c := range cs {
			a := c.Common().Args
			if i >= len(a) || !o.underConstruction(a[i], c.Parent(), d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil || !o.w.funcSet[origin(g)] {
			return false
		}
		ok := false
		for _, b := range origin(g).Blocks {
			for _, in := range b.Instrs {
				if r, isR := in.(*ssa.Return); isR && len(r.Results) > 0 {
					if !o.underConstruction(r.Results[0], origin(g), d+1) {
						return false
					}
					ok = true
				}
			}
		}
		return ok
	}
	return false
}
