package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// natLoop is the natural loop of a header block.
type natLoop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool // includes head
}

// loopOf returns the natural loop headed by h (all back edges into h), or nil.
func loopOf(h *ssa.BasicBlock) *natLoop {
	l := &natLoop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	if len(work) == 0 {
		return nil
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if l.body[b] {
			continue
		}
		l.body[b] = true
		work = append(work, b.Preds...)
	}
	return l
}

// loopsOf lists every natural loop of a function.
func loopsOf(f *ssa.Function) []*natLoop {
	var out []*natLoop
	for _, b := range f.Blocks {
		if l := loopOf(b); l != nil {
			out = append(out, l)
		}
	}
	return out
}

// reaches: a path from block a (its end) to block b (its start) exists.
func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// instrDominates: every path to b passes a first.
func instrDominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// dependsOn: v is computed from one of the values in set (through instructions, not through memory).
func dependsOn(v ssa.Value, set map[ssa.Value]bool) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if set[v] {
			return true
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		var ops [12]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			if *o != nil && rec(*o) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBuiltin(c ssa.CallInstruction, name string) bool {
	b, ok := c.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == name
}

// extCallee is the function outside the repository a call names, as pkg.Func or (pkg.Type).Method.
func extCallee(c ssa.CallInstruction) *types.Func {
	com := c.Common()
	if com.IsInvoke() {
		return com.Method
	}
	if f := com.StaticCallee(); f != nil {
		if o, ok := origin(f).Object().(*types.Func); ok {
			return o
		}
	}
	return nil
}

func extPkg(f *types.Func) string {
	if f == nil || f.Pkg() == nil {
		return ""
	}
	return f.Pkg().Path()
}
