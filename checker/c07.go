package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Types whose documented contract is to be mutable: buffers, writers, registries, trackers, builders,
// the program, terminals and the test doubles. Everything else is a value.
var mutableTypes = map[string]string{
	"clipboard.Clipboard":                                              "handle holding the history",
	"clipboard.Builder":                                                "fluent builder that returns itself",
	"clipboard/internal/application.ClipboardManager":                  "stateful manager",
	"clipboard/internal/domain/service.ClipboardHistory":               "history store",
	"clipboard/internal/infrastructure/osc52.Provider":                 "provider with configurable timeout",
	"components/input/internal/input/infrastructure.CustomKeyBindings": "registry (AddHandler)",
	"layout.Box":  "fluent builder: methods returning the box change it",
	"layout.Flex": "fluent builder: methods returning the flex change it",
	"mouse.Mouse": "stateful handler",
	"mouse/internal/application.EventProcessor":           "stateful processor",
	"mouse/internal/application.MouseHandler":             "stateful handler",
	"mouse/internal/domain/model.DragState":               "tracker state",
	"mouse/internal/domain/model.HoverState":              "tracker state",
	"mouse/internal/domain/service.ClickDetector":         "tracker",
	"mouse/internal/domain/service.DragTracker":           "tracker",
	"mouse/internal/domain/service.HoverTracker":          "tracker",
	"mouse/internal/infrastructure/platform.TerminalMode": "terminal mode switch",
	"render.Buffer":                                       "screen buffer",
	"render.Renderer":                                     "renderer",
	"render/internal/application.Renderer":                "renderer",
	"render/internal/domain/model.Buffer":                 "screen buffer",
	"render/internal/infrastructure/ansi.Writer":          "writer",
	"style/internal/application.ThemeManager":             "registry",
	"style.ThemeManager":                                  "registry",
	"tea.Program":                                         "running program",
	"tea/internal/application/program.Program":            "running program",
	"tea/internal/infrastructure/input.CancelableReader":  "reader",
	"tea/internal/infrastructure/input.Reader":            "reader",
	"tea/internal/infrastructure/renderer.InlineRenderer": "renderer",
	"terminal.terminalAdapter":                            "terminal",
	"terminal/internal/infrastructure/unix.ANSITerminal":  "terminal",
	"terminal/internal/infrastructure/windows.Console":    "terminal",
	"testing.MockTerminal":                                "test double",
	"testing.NullTerminal":                                "test double",
}

// In these types only operations that return the type itself are mutators; the rest are queries.
var builderTypes = map[string]bool{"layout.Box": true, "layout.Flex": true}

//go:embed tables/c07.json
var c07JSON []byte

type c07Table struct {
	Values  []string `json:"values"`  // value types confirmed on the reference tree
	Results []string `json:"results"` // "func #i": a collection result that shares nothing
	Args    []string `json:"args"`    // "func #i": a collection argument that is not kept
	Clones  []string `json:"clones"`  // functions deriving a mutable object that share nothing with their inputs
}

func isColl(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// resultShares: the parameter memory that collection result i shares.
func resultShares(s *Summary, i int) []string {
	var sh []string
	if i < len(s.Ret) && s.Ret[i] != nil {
		for l := range s.Ret[i].pts {
			if !isFresh(l) && l != "x" {
				sh = append(sh, l)
			}
		}
	}
	sort.Strings(sh)
	return sh
}

// argKept: where the storage of collection argument i stays reachable after the call.
func argKept(s *Summary, i int) []string {
	root := fmt.Sprintf("p%d", i)
	var sh []string
	chk := func(where string, v *AV) {
		for l := range v.allPts() {
			if l == root {
				sh = append(sh, where)
			}
		}
	}
	for k, v := range s.Heap {
		chk("memory it returns ("+strings.TrimLeft(k, "@f0123456789.")+")", v)
	}
	for k, v := range s.Stores {
		chk("stored in "+k, v)
	}
	for _, r := range s.Ret {
		if r != nil {
			chk("the result", r)
		}
	}
	sort.Strings(sh)
	return sh
}

// writable: the locations some exported operation of the mutable type of f's first parameter writes.
func writable(w *World, f *ssa.Function) strset {
	out := strset{}
	n := namedOf(f.Params[0].Type())
	for _, g := range w.Funcs {
		if len(g.Params) > 0 && publicMember(g) && namedOf(g.Params[0].Type()) == n {
			if s := w.Prov().Sum(g); s != nil {
				for k := range s.Mut {
					out[k] = true
				}
				for k := range s.Ext {
					out[k] = true
				}
			}
		}
	}
	return out
}

// reachShares: parameter memory reachable from any result that some operation can write.
func reachShares(s *Summary, writable strset) []string {
	out := strset{}
	shared := func(l string) bool {
		for e := range writable {
			if strings.HasPrefix(e, l) && (len(e) == len(l) || strings.IndexByte(".*[", e[len(l)]) >= 0) {
				return true
			}
		}
		return false
	}
	seen := map[string]bool{}
	var visit func(v *AV)
	visit = func(v *AV) {
		for l := range v.allPts() {
			if !isFresh(l) {
				if l != "x" && !strings.HasPrefix(l, "g:") && shared(l) {
					out[l] = true
				}
				continue
			}
			r := rootOf(l)
			if seen[r] {
				continue
			}
			seen[r] = true
			for k, h := range s.Heap {
				if k[0] != '@' && rootOf(k) == r {
					visit(h)
				}
			}
		}
	}
	for _, r := range s.Ret {
		if r != nil {
			visit(r)
		}
	}
	return out.list()
}

func isMutable(t types.Type) bool {
	n := namedOf(t)
	return n != nil && mutableTypes[typeName(n)] != ""
}

// publicMember: an exported function or exported method.
func publicMember(f *ssa.Function) bool {
	return f.Parent() == nil && f.Object() != nil && f.Object().Exported()
}

func c07Compute(w *World) c07Table {
	p := w.Prov()
	var t c07Table
	for _, n := range w.named {
		if types.IsInterface(n) || mutableTypes[typeName(n)] != "" {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); ok && n.NumMethods() > 0 {
			t.Values = append(t.Values, typeName(n))
		}
	}
	for _, f := range w.Funcs {
		if !publicMember(f) {
			continue
		}
		s := p.Sum(f)
		if s == nil {
			continue
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if isColl(res.At(i).Type()) && len(f.Params) > 0 && len(resultShares(s, i)) == 0 {
				t.Results = append(t.Results, fmt.Sprintf("%s #%d", fnName(f), i))
			}
		}
		for i, prm := range f.Params {
			if isColl(prm.Type()) && len(argKept(s, i)) == 0 {
				t.Args = append(t.Args, fmt.Sprintf("%s #%d", fnName(f), i))
			}
		}
		if res.Len() > 0 && isMutable(res.At(0).Type()) && len(f.Params) > 0 && isMutable(f.Params[0].Type()) && len(reachShares(s, writable(w, f))) == 0 {
			t.Clones = append(t.Clones, fnName(f))
		}
	}
	sort.Strings(t.Values)
	sort.Strings(t.Results)
	sort.Strings(t.Args)
	sort.Strings(t.Clones)
	return t
}

func dumpC07Table(c *Ctx) {
	t := c07Compute(c.Linux())
	b, _ := json.MarshalIndent(t, "", " ")
	os.WriteFile(filepath.Join(verifDir(), "checker/tables/c07.json"), append(b, '\n'), 0o644)
}

func init() { checks["C07"] = checkC07 }

func checkC07(c *Ctx, r *Report) {
	var tab c07Table
	if err := json.Unmarshal(c07JSON, &tab); err != nil {
		panic(err)
	}
	w := c.Linux()
	p := w.Prov()
	r.Rule("no-write", "an exported operation writes no memory reachable from a value-typed receiver or from any argument, directly, through callees, or through a closure it creates")
	r.Rule("no-shared-growth", "an exported operation never appends in place into spare capacity reachable from a value-typed receiver or argument")
	r.Rule("copied-result", "a collection result confirmed to be independent of the receiver and arguments still is")
	r.Rule("copied-argument", "a collection argument confirmed to be copied still is (its storage is not reachable after the call)")
	r.Rule("independent-clone", "a duplicate of a mutable object confirmed to be independent shares no memory with the original")
	r.Assume = append(r.Assume, "go/types and go/ssa resolve the program; interface calls dispatch to the implementations in the repository; functions outside the repository only write through pointers listed in the checker's model")
	values := map[string]bool{}
	for _, v := range tab.Values {
		values[v] = true
	}
	byName := map[string]*ssa.Function{}
	for _, f := range w.Funcs {
		if !publicMember(f) {
			continue
		}
		byName[fnName(f)] = f
		s := p.Sum(f)
		if s == nil {
			r.Bad("no-write", fnName(f), w.Pos(f.Pos()), "no summary could be computed")
			continue
		}
		for i, prm := range f.Params {
			if mutableParam(f, i, values) {
				continue
			}
			if !refLike(prm.Type(), 0) {
				continue
			}
			root := fmt.Sprintf("p%d", i)
			name := fmt.Sprintf("%s %s", fnName(f), paramLabel(f, i))
			bad := false
			for _, e := range sortedEff(s.Mut) {
				if rootOf(e.Loc) == root && !viaMutable(prm.Type(), e.Loc) {
					bad = true
					r.Bad("no-write", name, w.Pos(e.Pos), "%s writes %s, memory that belongs to its %s (%s in %s)", fnName(f), e.Loc, paramLabel(f, i), e.What, fnName(e.In))
				}
			}
			if !bad {
				r.OK("no-write", name)
			}
			bad = false
			for _, e := range sortedEff(s.Ext) {
				if rootOf(e.Loc) == root && !viaMutable(prm.Type(), e.Loc) {
					bad = true
					r.Bad("no-shared-growth", name, w.Pos(e.Pos), "%s appends into %s, which a sibling value derived from the same ancestor may share (%s in %s)", fnName(f), e.Loc, e.What, fnName(e.In))
				}
			}
			if !bad {
				r.OK("no-shared-growth", name)
			}
		}
	}
	split := func(k string) (string, int) {
		i := strings.LastIndex(k, " #")
		var n int
		fmt.Sscanf(k[i+2:], "%d", &n)
		return k[:i], n
	}
	for _, k := range tab.Results {
		n, i := split(k)
		f := byName[n]
		if f == nil || i >= f.Signature.Results().Len() || !isColl(f.Signature.Results().At(i).Type()) {
			continue // the operation is gone or returns something else
		}
		sh := resultShares(p.Sum(f), i)
		r.Check(len(sh) == 0, "copied-result", k, w.Pos(f.Pos()), "result %d of %s shares storage with %v: changing the returned collection changes the value it came from", i, n, sh)
	}
	for _, k := range tab.Args {
		n, i := split(k)
		f := byName[n]
		if f == nil || i >= len(f.Params) || !isColl(f.Params[i].Type()) {
			continue
		}
		sh := argKept(p.Sum(f), i)
		r.Check(len(sh) == 0, "copied-argument", k, w.Pos(f.Pos()), "%s keeps the caller's collection %s (%s): later changes by the caller change the value", n, paramLabel(f, i), strings.Join(sh, "; "))
	}
	for _, n := range tab.Clones {
		f := byName[n]
		if f == nil {
			continue
		}
		sh := reachShares(p.Sum(f), writable(w, f))
		r.Check(len(sh) == 0, "independent-clone", n, w.Pos(f.Pos()), "what %s returns shares %v with its input", n, sh)
	}
	r.Floor("no-write", 600)
	r.Floor("copied-result", 30)
	r.Floor("copied-argument", 35)
	r.Floor("independent-clone", 2)
}

func paramLabel(f *ssa.Function, i int) string {
	if f.Signature.Recv() != nil {
		if i == 0 {
			return "receiver"
		}
		return fmt.Sprintf("argument %d", i)
	}
	return fmt.Sprintf("argument %d", i+1)
}

// mutableParam: a parameter the operation is documented to change.
func mutableParam(f *ssa.Function, i int, values map[string]bool) bool {
	t := f.Params[i].Type()
	n := namedOf(t)
	if n == nil {
		// the io.Reader contract: Read fills the caller's buffer
		return f.Name() == "Read" && f.Signature.Recv() != nil && i == 1 && f.Signature.Results().Len() == 2
	}
	name := typeName(n)
	if builderTypes[name] {
		res := f.Signature.Results()
		return f.Signature.Recv() != nil && i == 0 && res.Len() == 1 && types.Identical(res.At(0).Type(), t)
	}
	if mutableTypes[name] != "" {
		return true
	}
	if n.Obj().Pkg() == nil || !isRepoPath(n.Obj().Pkg().Path()) {
		return true // a type of another library (exec.Cmd, bytes.Buffer): not one of the repository's values
	}
	if types.IsInterface(n) {
		return true // writers, terminals, readers: implementations decide
	}
	return !values[name] && isStruct(n) // a type added since the table was confirmed
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

// refLike: memory can be reached through a value of this type.
func refLike(t types.Type, d int) bool {
	if d > 4 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refLike(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return refLike(u.Elem(), d+1)
	case *types.Signature:
		return false
	}
	return true
}

// viaMutable: the written path passes through a field holding a documented mutable object.
func viaMutable(t types.Type, loc string) bool {
	steps := pathSteps(loc[len(rootOf(loc)):])
	cur := t
	for _, st := range steps {
		if isMutable(cur) && !builderTypes[typeName(namedOf(cur))] {
			return true
		}
		if cur == nil {
			return false
		}
		switch {
		case st == "*":
			if p, ok := cur.Underlying().(*types.Pointer); ok {
				cur = p.Elem()
			}
		case st == "[]":
			switch u := cur.Underlying().(type) {
			case *types.Slice:
				cur = u.Elem()
			case *types.Map:
				cur = u.Elem()
			case *types.Array:
				cur = u.Elem()
			}
		case strings.HasPrefix(st, "."):
			s, _ := deref(cur).Underlying().(*types.Struct)
			if s == nil {
				return false
			}
			var nt types.Type
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == st[1:] {
					nt = s.Field(i).Type()
				}
			}
			if nt == nil {
				return false
			}
			cur = nt
		}
	}
	return isMutable(cur) && len(steps) > 0 && !builderTypes[typeName(namedOf(cur))]
}
