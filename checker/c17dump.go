package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

var refFn = regexp.MustCompile(`^(?:\(\*?)?([\w/]+)\.(\w+)(?:\[\w+\])?(?:\)\.(\w+))?$`)

// refText writes a term in the reference language.
func refText(t *Term) (string, bool) {
	switch t.op {
	case "sym":
		return t.name, !strings.ContainsAny(t.name, " (*")
	case "const":
		if n, ok := t.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			for _, c := range enumConsts(n) {
				if fmt.Sprint(c.val) == t.c.ExactString() {
					return n.Obj().Pkg().Name() + "." + c.name, true
				}
			}
		}
		return t.c.ExactString(), true
	case "nil":
		return "nil", true
	case "iface":
		return refText(t.args[0])
	case "op":
		if strings.HasPrefix(t.name, ".") && len(t.args) == 1 {
			a, ok := refText(t.args[0])
			return a + strings.Split(t.name, "@")[0], ok
		}
		if strings.HasPrefix(t.name, "#") {
			a, ok := refText(t.args[0])
			return a + "[" + t.name[1:] + "]", ok
		}
		if t.name == "==" && len(t.args) == 2 {
			a, ok1 := refText(t.args[0])
			b, ok2 := refText(t.args[1])
			return a + " == " + b, ok1 && ok2
		}
		if n, ok := strings.CutPrefix(t.name, "call "); ok {
			m := refFn.FindStringSubmatch(n)
			if m == nil {
				return n, false
			}
			var as []string
			good := true
			for _, a := range t.args {
				s, ok := refText(a)
				good = good && ok
				as = append(as, s)
			}
			if m[3] != "" && len(as) > 0 {
				return as[0] + "." + m[3] + "(" + strings.Join(as[1:], ", ") + ")", good
			}
			return m[1][strings.LastIndex(m[1], "/")+1:] + "." + m[2] + "(" + strings.Join(as, ", ") + ")", good
		}
	}
	return t.key(), false
}

func dumpC17(c *Ctx) {
	t := &c17{w: c.Linux(), r: NewReport("C17")}
	t.forwards()
	t.functions()
	for _, f := range t.w.Funcs {
		if f.Parent() != nil || len(f.Blocks) == 0 || !t.public(pkgOf(f)) || f.Object() == nil || !f.Object().Exported() || t.seen[fnName(f)] {
			continue
		}
		ev := t.refEval(f, true)
		st, args, _, recv, cell := t.refStart(ev, f, nil)
		outs := ev.Run(f, args, nil, st)
		if ev.Blown || len(outs) != 1 || outs[0].ret == nil {
			fmt.Println("#", fnName(f), len(outs))
			continue
		}
		o := outs[0]
		r := o.ret
		if r.op == "ref" || r.op == "struct" {
			var parts []string
			good := true
			var s *types.Struct = recv
			if nn := namedOf(deref(f.Signature.Results().At(0).Type())); nn != nil {
				s, _ = nn.Underlying().(*types.Struct)
			}
			for i := 0; s != nil && i < s.NumFields(); i++ {
				nm := s.Field(i).Name()
				var v *Term
				if r.op == "ref" {
					v = o.st.mem[r.name+"."+nm]
				} else {
					v = r.field(i, s)
				}
				if v == nil || v.key() == tSym("w."+nm).key() {
					continue
				}
				x, ok := refText(v)
				good = good && ok
				parts = append(parts, nm+" = "+x)
			}
			if good && len(parts) > 0 {
				fmt.Println(fnName(f) + ": " + strings.Join(parts, "; "))
			} else {
				fmt.Println("#", fnName(f)+": "+strings.Join(parts, "; "))
			}
			continue
		}
		_ = cell
		x, ok := refText(r)
		if !ok {
			x = "# " + x
		}
		if !ok {
			fmt.Print("# ")
		}
		fmt.Println(fnName(f) + ": " + x)
	}
}
