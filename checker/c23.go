package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() { checks["C23"] = checkC23 }

var platforms = []string{"linux/amd64", "linux/arm64", "linux/386", "linux/arm", "darwin/amd64", "darwin/arm64", "windows/amd64", "windows/arm64", "windows/386"}

// apiOf lists the exported objects of a package with their types, fields and methods.
func apiOf(p *types.Package) map[string]string {
	out := map[string]string{}
	q := func(o *types.Package) string { return relPath(o.Path()) }
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			if o.IsAlias() {
				out[n] = "alias " + types.TypeString(o.Type(), q)
			} else {
				out[n] = "type"
				switch u := o.Type().Underlying().(type) {
				case *types.Struct:
					for i := 0; i < u.NumFields(); i++ {
						if f := u.Field(i); f.Exported() {
							out[n+"."+f.Name()] = "field " + types.TypeString(f.Type(), q)
						}
					}
				case *types.Interface:
					for i := 0; i < u.NumMethods(); i++ {
						m := u.Method(i)
						out[n+"."+m.Name()] = "method " + types.TypeString(m.Type(), q)
					}
				default:
					out[n] = "type " + types.TypeString(u, q)
				}
			}
			for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
				ms := types.NewMethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if m := ms.At(i).Obj(); m.Exported() {
						k := n + "." + m.Name()
						if _, ok := t.(*types.Pointer); ok {
							k = "*" + k
						}
						out[k] = types.TypeString(m.Type(), q)
					}
				}
			}
		case *types.Const:
			out[n] = "const " + types.TypeString(o.Type(), q) + " " + o.Val().ExactString()
		default:
			out[n] = types.TypeString(o.Type(), q)
		}
	}
	return out
}

func checkC23(c *Ctx, r *Report) {
	r.Rule("type-checks", "every library package type-checks for the platform, including constant overflow in the platform's integer sizes")
	r.Rule("same-api", "an exported operation of a public package exists on every platform with the same type (constants with the same value)")
	r.Assume = append(r.Assume, "the Go type checker accepts a package exactly when the compiler's front end does; the platforms are "+strings.Join(platforms, ", "))
	apis := map[string]map[string]map[string]string{} // platform -> package -> api
	pkgs := map[string]map[string]bool{}
	for _, pl := range platforms {
		osarch := strings.Split(pl, "/")
		w, err := Load(osarch[0], osarch[1], false)
		if err != nil {
			r.Bad("type-checks", pl, "-", "cannot load the tree for %s: %v", pl, err)
			continue
		}
		c.note(w)
		r.Units["packages"] = max(r.Units["packages"], len(w.Pkgs))
		bad := map[string]string{}
		for _, e := range w.TypeErrors {
			k := strings.SplitN(e, ": ", 2)
			if _, ok := bad[k[0]]; !ok {
				bad[k[0]] = k[len(k)-1]
			}
		}
		apis[pl] = map[string]map[string]string{}
		for _, p := range w.Pkgs {
			name := relPath(p.PkgPath)
			if len(p.GoFiles) == 0 {
				continue // nothing of this package is built on this platform
			}
			if pkgs[name] == nil {
				pkgs[name] = map[string]bool{}
			}
			pkgs[name][pl] = true
			if e, ok := bad[p.PkgPath]; ok {
				r.Bad("type-checks", name+" on "+pl, e, "%s does not compile for %s: %s", name, pl, e)
				continue
			}
			r.OK("type-checks", name+" on "+pl)
			apis[pl][name] = apiOf(p.Types)
		}
	}
	var names []string
	for n := range pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if strings.Contains("/"+n+"/", "/internal/") {
			continue // its uses are covered by type-checking its users on every platform
		}
		all := map[string]bool{}
		have := 0
		for _, pl := range platforms {
			a, ok := apis[pl][n]
			if !ok {
				r.Bad("same-api", n, "-", "public package %s is not built on %s", n, pl)
				continue
			}
			have++
			for k := range a {
				all[k] = true
			}
		}
		rule := "same-api"
		if have < 2 {
			continue
		}
		ks := strset(all).list()
		for _, k := range ks {
			vals := map[string][]string{}
			for _, pl := range platforms {
				a, ok := apis[pl][n]
				if !ok {
					continue
				}
				v, ok := a[k]
				if !ok {
					v = "missing"
				}
				vals[v] = append(vals[v], pl)
			}
			if len(vals) == 1 {
				r.OK(rule, n+"."+k)
				continue
			}
			var d []string
			for v, pls := range vals {
				d = append(d, fmt.Sprintf("%s: %s", strings.Join(pls, " "), v))
			}
			sort.Strings(d)
			r.Bad(rule, n+"."+k, "-", "%s.%s differs between platforms (%s)", n, k, strings.Join(d, "; "))
		}
	}
	r.Floor("type-checks", 400)
	r.Floor("same-api", 600)
}
