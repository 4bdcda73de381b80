package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

// Structured text: a "cat" term is a text made of known pieces, decimal numbers and single bytes.
// The functions here answer questions about such a text when every possible value of the unknown
// pieces gives the same answer.

func textParts(t *Term) []*Term {
	if t.op == "op" && t.name == "cat" {
		return t.args
	}
	if s, ok := t.isStr(); ok && s == "" {
		return nil
	}
	return []*Term{t}
}

func isNumPart(t *Term) bool  { return t.op == "op" && t.name == "decimal" }
func isBytePart(t *Term) bool { return t.op == "op" && t.name == "byte" }

const numChars = "-0123456789"

// textLen: the length when every piece has a fixed one.
func textLen(t *Term) (int, bool) {
	n := 0
	for _, p := range textParts(t) {
		if s, ok := p.isStr(); ok {
			n += len(s)
		} else if isBytePart(p) {
			n++
		} else {
			return 0, false
		}
	}
	return n, true
}

// textHasPrefix: yes, known.
func textHasPrefix(t *Term, p string) (bool, bool) {
	if p == "" {
		return true, true
	}
	for _, x := range textParts(t) {
		if s, ok := x.isStr(); ok {
			k := len(p)
			if len(s) < k {
				k = len(s)
			}
			if s[:k] != p[:k] {
				return false, true
			}
			p = p[k:]
			if p == "" {
				return true, true
			}
			continue
		}
		if isNumPart(x) && !strings.ContainsRune(numChars, rune(p[0])) {
			return false, true
		}
		return false, false
	}
	return false, true // the text is shorter
}

func textHasSuffix(t *Term, p string) (bool, bool) {
	ps := textParts(t)
	for i := len(ps) - 1; i >= 0; i-- {
		if p == "" {
			return true, true
		}
		x := ps[i]
		if s, ok := x.isStr(); ok {
			k := len(p)
			if len(s) < k {
				k = len(s)
			}
			if s[len(s)-k:] != p[len(p)-k:] {
				return false, true
			}
			p = p[:len(p)-k]
			continue
		}
		if isNumPart(x) && !strings.ContainsRune(numChars, rune(p[len(p)-1])) {
			return false, true
		}
		return false, false
	}
	return p == "", true
}

// textFind: index of part and offset in it of the first occurrence of a one-character text that no
// number contains.
func textFind(t *Term, sep string, last bool) (part, off int, found, known bool) {
	if len(sep) == 0 || strings.ContainsAny(sep, numChars) {
		return 0, 0, false, false
	}
	ps := textParts(t)
	idx := make([]int, len(ps))
	for i := range idx {
		idx[i] = i
		if last {
			idx[i] = len(ps) - 1 - i
		}
	}
	for _, i := range idx {
		x := ps[i]
		if s, ok := x.isStr(); ok {
			k := strings.Index(s, sep)
			if last {
				k = strings.LastIndex(s, sep)
			}
			if k >= 0 {
				return i, k, true, true
			}
			continue
		}
		if !isNumPart(x) {
			return 0, 0, false, false
		}
	}
	return 0, 0, false, true
}

func textDropLeft(t *Term, n int) (*Term, bool) {
	ps := textParts(t)
	for n > 0 && len(ps) > 0 {
		s, ok := ps[0].isStr()
		if !ok {
			if isBytePart(ps[0]) {
				ps, n = ps[1:], n-1
				continue
			}
			return nil, false
		}
		if len(s) > n {
			return tCat(append([]*Term{tStr(s[n:])}, ps[1:]...)...), true
		}
		n -= len(s)
		ps = ps[1:]
	}
	if n > 0 {
		return nil, false
	}
	return tCat(ps...), true
}

func textDropRight(t *Term, n int) (*Term, bool) {
	ps := append([]*Term(nil), textParts(t)...)
	for n > 0 && len(ps) > 0 {
		x := ps[len(ps)-1]
		s, ok := x.isStr()
		if !ok {
			if isBytePart(x) {
				ps, n = ps[:len(ps)-1], n-1
				continue
			}
			return nil, false
		}
		if len(s) > n {
			return tCat(append(ps[:len(ps)-1:len(ps)-1], tStr(s[:len(s)-n]))...), true
		}
		n -= len(s)
		ps = ps[:len(ps)-1]
	}
	if n > 0 {
		return nil, false
	}
	return tCat(ps...), true
}

// textSlice: t[lo:hi] where hi may be relative to the end.
func textSlice(t *Term, lo int, hi *Term) (*Term, bool) {
	r, ok := textDropLeft(t, lo)
	if !ok {
		return nil, false
	}
	if hi == nil {
		return r, true
	}
	if n, ok := hi.isInt(); ok {
		if l, ok := textLen(t); ok && int(n) <= l {
			return textDropRight(r, l-int(n))
		}
		// a prefix of the known pieces
		var out []*Term
		left := int(n) - lo
		for _, p := range textParts(r) {
			if left == 0 {
				break
			}
			s, ok := p.isStr()
			if !ok {
				if isBytePart(p) {
					out = append(out, p)
					left--
					continue
				}
				return nil, false
			}
			if len(s) > left {
				s = s[:left]
			}
			out = append(out, tStr(s))
			left -= len(s)
		}
		if left != 0 {
			return nil, false
		}
		return tCat(out...), true
	}
	ln := tOp("len", t)
	if hi.key() == ln.key() {
		return r, true
	}
	if hi.op == "op" && hi.name == "+" && hi.args[0].key() == ln.key() {
		if k, ok := hi.args[1].isInt(); ok && k < 0 {
			return textDropRight(r, int(-k))
		}
	}
	return nil, false
}

// textAt: the byte at an index.
func textAt(t, i *Term) (*Term, bool) {
	pick := func(x *Term) (*Term, bool) {
		ps := textParts(x)
		if len(ps) == 0 {
			return nil, false
		}
		if s, ok := ps[0].isStr(); ok {
			return tConst(constant.MakeInt64(int64(s[0])), types.Typ[types.Byte]), true
		}
		if isBytePart(ps[0]) {
			return ps[0].args[0], true
		}
		return nil, false
	}
	if n, ok := i.isInt(); ok {
		r, ok := textDropLeft(t, int(n))
		if !ok {
			return nil, false
		}
		return pick(r)
	}
	if i.op == "op" && i.name == "+" && i.args[0].key() == tOp("len", t).key() {
		if k, ok := i.args[1].isInt(); ok && k < 0 {
			ps := textParts(t)
			if k == -1 && len(ps) > 0 {
				x := ps[len(ps)-1]
				if s, ok := x.isStr(); ok {
					return tConst(constant.MakeInt64(int64(s[len(s)-1])), types.Typ[types.Byte]), true
				}
				if isBytePart(x) {
					return x.args[0], true
				}
			}
		}
	}
	return nil, false
}

func textSplit(t *Term, sep string, max int) ([]*Term, bool) {
	var out []*Term
	for max < 0 || len(out) < max-1 {
		p, off, found, known := textFind(t, sep, false)
		if !known {
			return nil, false
		}
		if !found {
			break
		}
		a, b := textCut(t, p, off, len(sep))
		out = append(out, a)
		t = b
	}
	return append(out, t), true
}

func textCut(t *Term, part, off, n int) (before, after *Term) {
	ps := textParts(t)
	s, _ := ps[part].isStr()
	before = tCat(append(append([]*Term{}, ps[:part]...), tStr(s[:off]))...)
	after = tCat(append([]*Term{tStr(s[off+n:])}, ps[part+1:]...)...)
	return
}

// textBytes: the bytes when every piece has a fixed length.
func textBytes(t *Term) ([]*Term, bool) {
	var out []*Term
	for _, p := range textParts(t) {
		if s, ok := p.isStr(); ok {
			for i := 0; i < len(s); i++ {
				out = append(out, tConst(constant.MakeInt64(int64(s[i])), types.Typ[types.Byte]))
			}
		} else if isBytePart(p) {
			out = append(out, p.args[0])
		} else {
			return nil, false
		}
	}
	return out, true
}

// bytesText: the text made of these bytes.
func bytesText(es []*Term) *Term {
	var out []*Term
	for _, e := range es {
		if n, ok := e.isInt(); ok {
			out = append(out, tStr(string([]byte{byte(n)})))
		} else {
			out = append(out, tOp("byte", e))
		}
	}
	return tCat(out...)
}

// textModel: the strings and strconv functions on structured text.
func (ev *TEval) textModel(st *TState, name string, args []*Term) ([]TOut, bool) {
	one := func(s *TState, r *Term) ([]TOut, bool) { return []TOut{{st: s, ret: r}}, true }
	arg := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		return args[i].isStr()
	}
	if len(args) == 0 {
		return nil, false
	}
	t := args[0]
	list := func(es []*Term) ([]TOut, bool) {
		n := st.clone()
		return one(n, ev.newSlice(n, es, types.Typ[types.String]))
	}
	switch name {
	case "bytes.Equal", "bytes.HasPrefix", "bytes.HasSuffix", "slices.Equal":
		a, ok1 := ev.elems(st, args[0])
		b, ok2 := ev.elems(st, args[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		if len(a) < len(b) || len(a) != len(b) && strings.HasSuffix(name, ".Equal") {
			return one(st, tBool(false))
		}
		if name == "bytes.HasSuffix" {
			a = a[len(a)-len(b):]
		}
		all := true
		for i := range b {
			v, ok := ev.decide(st, ev.equal(st, a[i], b[i]))
			if ok && !v {
				return one(st, tBool(false))
			}
			all = all && ok
		}
		if all {
			return one(st, tBool(true))
		}
		return nil, false
	case "strings.HasPrefix", "strings.TrimPrefix", "strings.CutPrefix":
		if p, ok := arg(1); ok {
			if yes, known := textHasPrefix(t, p); known {
				rest := t
				if yes {
					rest, _ = textDropLeft(t, len(p))
				}
				switch name {
				case "strings.HasPrefix":
					return one(st, tBool(yes))
				case "strings.CutPrefix":
					return one(st, tTuple(rest, tBool(yes)))
				}
				return one(st, rest)
			}
		}
	case "strings.HasSuffix", "strings.TrimSuffix", "strings.CutSuffix":
		if p, ok := arg(1); ok {
			if yes, known := textHasSuffix(t, p); known {
				rest := t
				if yes {
					rest, _ = textDropRight(t, len(p))
				}
				switch name {
				case "strings.HasSuffix":
					return one(st, tBool(yes))
				case "strings.CutSuffix":
					return one(st, tTuple(rest, tBool(yes)))
				}
				return one(st, rest)
			}
		}
	case "strings.Contains", "strings.ContainsRune":
		p, ok := arg(1)
		if n, isN := args[1].isInt(); isN {
			p, ok = string(rune(n)), true
		}
		if ok {
			for _, x := range textParts(t) {
				if s, ok := x.isStr(); ok && strings.Contains(s, p) {
					return one(st, tBool(true))
				}
			}
			if len(p) == 1 {
				if _, _, found, known := textFind(t, p, false); known {
					return one(st, tBool(found))
				}
			}
		}
	case "strings.Split", "strings.SplitN":
		max := -1
		if name == "strings.SplitN" {
			n, ok := args[2].isInt()
			if !ok || n == 0 {
				return nil, false
			}
			max = int(n)
		}
		if p, ok := arg(1); ok && len(p) == 1 {
			if es, ok := textSplit(t, p, max); ok {
				return list(es)
			}
		}
	case "strings.Cut":
		if p, ok := arg(1); ok && len(p) == 1 {
			if i, off, found, known := textFind(t, p, false); known {
				if !found {
					return one(st, tTuple(t, tStr(""), tBool(false)))
				}
				a, b := textCut(t, i, off, 1)
				return one(st, tTuple(a, b, tBool(true)))
			}
		}
	case "strings.Count":
		if p, ok := arg(1); ok && len(p) == 1 {
			if es, ok := textSplit(t, p, -1); ok {
				return one(st, tInt(int64(len(es)-1)))
			}
		}
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		if isNumPart(t) {
			return one(st, tTuple(t.args[0], tNil))
		}
		if s, ok := t.isStr(); ok {
			base := 10
			if name != "strconv.Atoi" {
				b, ok := args[1].isInt()
				if !ok {
					return nil, false
				}
				base = int(b)
			}
			if n, err := strconv.ParseInt(s, base, 64); err == nil {
				return one(st, tTuple(tInt(n), tNil))
			}
			return one(st, tTuple(tInt(0), tOp("call errors.New", tStr("not a number"))))
		}
	}
	return nil, false
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
