package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Eff is one side effect an operation can have, with where it happens.
type Eff struct {
	Kind string // io, clock, env, random, goroutine, channel, global, cmd
	What string
	Pos  string
	In   *ssa.Function
}

// Effects computes, for every function, the side effects of executing it (callees included).
type Effects struct {
	w      *World
	direct map[*ssa.Function][]Eff
	memo   map[*ssa.Function]map[string]Eff
	calls  map[*ssa.Function][]*ssa.Function
}

func (w *World) Effects() *Effects {
	if w.effects == nil {
		e := &Effects{w: w, direct: map[*ssa.Function][]Eff{}, memo: map[*ssa.Function]map[string]Eff{}, calls: map[*ssa.Function][]*ssa.Function{}}
		for _, f := range w.Funcs {
			e.scan(f)
		}
		// transitive closure by fixpoint
		for _, f := range w.Funcs {
			m := map[string]Eff{}
			for _, d := range e.direct[f] {
				m[d.Kind+" "+d.What] = d
			}
			e.memo[f] = m
		}
		for changed := true; changed; {
			changed = false
			for _, f := range w.Funcs {
				m := e.memo[f]
				for _, g := range e.calls[f] {
					for k, d := range e.memo[g] {
						if _, ok := m[k]; !ok {
							m[k] = d
							changed = true
						}
					}
				}
			}
		}
		w.effects = e
	}
	return w.effects
}

// Of lists the effects of a function, sorted.
func (e *Effects) Of(f *ssa.Function) []Eff {
	m := e.memo[origin(f)]
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []Eff
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

var pureExtPkgs = []string{"strings", "strconv", "unicode", "unicode/utf8", "unicode/utf16", "errors", "math", "math/bits", "math/big", "sort", "bytes", "slices", "maps", "cmp", "iter",
	"regexp", "regexp/syntax", "html", "encoding", "encoding/base64", "encoding/hex", "encoding/binary", "encoding/json", "image", "image/color", "image/png", "image/jpeg", "image/gif", "image/draw", "text/template",
	"container/list", "container/heap", "container/ring", "path", "path/filepath", "sync", "sync/atomic", "context", "reflect", "hash/fnv", "hash/crc32", "compress/gzip", "html/template",
	"github.com/rivo/uniseg", "github.com/mattn/go-runewidth", "github.com/unilibs/uniwidth", "io", "io/fs", "bufio", "unsafe", "text/tabwriter", "errors/fmt"}

var pureExtSet = func() map[string]bool {
	m := map[string]bool{}
	for _, p := range pureExtPkgs {
		m[p] = true
	}
	return m
}()

var clockFuncs = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true, "After": true, "AfterFunc": true, "NewTimer": true, "NewTicker": true, "Tick": true, "LoadLocation": true}

// classify an external call; "" means no effect.
func (e *Effects) extEffect(c ssa.CallInstruction, f *types.Func) (kind, what string) {
	p := extPkg(f)
	name := f.FullName()
	sig := f.Type().(*types.Signature)
	switch p {
	case "":
		return "", "" // error.Error
	case "fmt":
		switch {
		case strings.HasPrefix(f.Name(), "Sprint"), strings.HasPrefix(f.Name(), "Sscan"), strings.HasPrefix(f.Name(), "Append"), f.Name() == "Errorf":
			return "", ""
		case strings.HasPrefix(f.Name(), "Fprint"):
			if memWriter(c.Common().Args[0]) {
				return "", ""
			}
			return "io", name
		case sig.Recv() != nil:
			return "", ""
		}
		return "io", name
	case "time":
		if sig.Recv() == nil && clockFuncs[f.Name()] {
			return "clock", name
		}
		if sig.Recv() != nil {
			if n := namedOf(sig.Recv().Type()); n != nil && (n.Obj().Name() == "Timer" || n.Obj().Name() == "Ticker") {
				return "clock", name
			}
		}
		return "", ""
	case "os":
		switch f.Name() {
		case "Getenv", "LookupEnv", "Environ", "ExpandEnv", "Hostname", "Getpid", "Getuid", "Getwd", "UserHomeDir":
			return "env", name
		case "IsNotExist", "IsExist", "IsPermission", "IsTimeout":
			return "", ""
		}
		return "io", name
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return "random", name
	case "io", "bufio":
		// operations on an abstract writer or reader
		if sig.Recv() != nil {
			if c.Common().IsInvoke() {
				return "io", name
			}
			return "io", name
		}
		if f.Name() == "WriteString" || f.Name() == "Copy" || strings.HasPrefix(f.Name(), "Read") {
			if len(c.Common().Args) > 0 && memWriter(c.Common().Args[0]) {
				return "", ""
			}
			return "io", name
		}
		return "", ""
	case "runtime", "runtime/debug", "os/user":
		return "env", name
	}
	if pureExtSet[p] {
		return "", ""
	}
	return "io", name
}

// memWriter: the value is an in-memory writer.
func memWriter(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	n := namedOf(v.Type())
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	k := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return k == "strings.Builder" || k == "bytes.Buffer" || k == "strings.Reader" || k == "bytes.Reader"
}

// isCmdType: the named command type of the program engine (a function run later by the event loop).
func isCmdType(t types.Type) bool {
	n, _ := types.Unalias(t).(*types.Named)
	if n == nil {
		return false
	}
	n = n.Origin()
	s, ok := n.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 0 && s.Results().Len() == 1 && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path()) && strings.Contains(n.Obj().Name(), "Cmd")
}

func (e *Effects) scan(f *ssa.Function) {
	w := e.w
	add := func(in ssa.Instruction, kind, what string) {
		e.direct[f] = append(e.direct[f], Eff{kind, what, w.InstrPos(in), f})
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				add(in, "goroutine", "go statement")
			case *ssa.Send:
				add(in, "channel", "send")
			case *ssa.Select:
				add(in, "channel", "select")
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					add(in, "channel", "receive")
				}
			case *ssa.Store:
				if g := globalRoot(x.Addr); g != nil {
					add(in, "global", "write to "+relPath(g.Pkg.Pkg.Path())+"."+g.Name())
				}
			case *ssa.MapUpdate:
				if g := globalRoot(x.Map); g != nil {
					add(in, "global", "write to "+relPath(g.Pkg.Pkg.Path())+"."+g.Name())
				}
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := c.Common()
			if b, ok := com.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "print", "println":
					add(in, "io", "builtin "+b.Name())
				case "delete", "clear", "copy":
					if g := globalRoot(com.Args[0]); g != nil {
						add(in, "global", "write to "+relPath(g.Pkg.Pkg.Path())+"."+g.Name())
					}
				case "close":
					add(in, "channel", "close")
				}
				continue
			}
			ins, exts, _ := w.Callees(c)
			if com.StaticCallee() == nil && !com.IsInvoke() {
				if isCmdType(com.Value.Type()) {
					add(in, "cmd", "runs a command")
					continue
				}
				// a callback: functions of the repository that can be this value
				if _, isParam := com.Value.(*ssa.Parameter); isParam && f.Parent() == nil && publicMember(f) {
					continue // the caller's own function
				}
			}
			dynamic := com.StaticCallee() == nil && !com.IsInvoke()
			for _, g := range ins {
				if dynamic && pureZone(pkgOf(f)) && !pureZone(pkgOf(g)) {
					continue // a callback of a value component: the application's own function, or one of its package's
				}
				e.calls[f] = append(e.calls[f], g)
			}
			if len(ins) == 0 || len(exts) > 0 {
				// functions handed to code outside the repository are run by it (sort, strings.Map, sync.Once, ...)
				for _, a := range com.Args {
					switch y := a.(type) {
					case *ssa.MakeClosure:
						if g, ok := y.Fn.(*ssa.Function); ok && w.funcSet[origin(unwrap(g))] {
							e.calls[f] = append(e.calls[f], origin(unwrap(g)))
						}
					case *ssa.Function:
						if w.funcSet[origin(unwrap(y))] {
							e.calls[f] = append(e.calls[f], origin(unwrap(y)))
						}
					}
				}
			}
			for _, x := range exts {
				if com.IsInvoke() && len(ins) > 0 && !isIOIface(x) {
					continue
				}
				if k, what := e.extEffect(c, x); k != "" {
					add(in, k, what)
				}
			}
		}
	}
}

func isIOIface(f *types.Func) bool { p := extPkg(f); return p == "io" || p == "net" || p == "os" }

// globalRoot: the package-level variable an address or container expression belongs to.
func globalRoot(v ssa.Value) *ssa.Global {
	for i := 0; i < 30; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

func dumpEffects(c *Ctx) {
	w := c.Linux()
	e := w.Effects()
	for _, f := range w.Funcs {
		if fs := e.Of(f); len(fs) > 0 {
			fmt.Println(fnName(f))
			for _, x := range fs {
				fmt.Println("    ", x.Kind, x.What, x.Pos)
			}
		}
	}
}
