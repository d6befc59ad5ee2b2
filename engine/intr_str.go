package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

func (e *Exec) strSliceVal(st *State, v Value) []Str {
	var out []Str
	for _, x := range e.sliceElems(st, v.(Slice)) {
		out = append(out, x.(Str))
	}
	return out
}

func (e *Exec) mkStrSlice(st *State, ss []Str) Value {
	vs := make([]Value, len(ss))
	for i := range ss {
		vs[i] = ss[i]
	}
	return e.newSlice(st, vs, 0, Str{})
}

// splitRope splits on a concrete separator. Formatted numbers never contain
// separators other than [0-9+-.eE], "Inf", "NaN".
func (e *Exec) splitRope(st *State, s Str, sep string, n int) []Str {
	if c, ok := s.conc(); ok {
		var out []Str
		for _, p := range strings.SplitN(c, sep, n) {
			out = append(out, cstr(p))
		}
		return out
	}
	if sep == "" {
		bs, ok := e.explode(s)
		if !ok {
			unsupported("split of symbolic text into characters")
		}
		var out []Str
		for _, b := range bs {
			out = append(out, e.implode([]*Term{b}))
		}
		return out
	}
	if bs, ok := e.explode(s); ok && len(sep) == 1 {
		var out []Str
		start := 0
		for i, b := range bs {
			if n > 0 && len(out) == n-1 {
				break
			}
			if e.decide(st, e.c.Eq(b, e.c.Int(int64(sep[0])))) {
				out = append(out, e.implode(bs[start:i]))
				start = i + 1
			}
		}
		return append(out, e.implode(bs[start:]))
	}
	for _, p := range s.ps {
		if p.k == pcSym {
			unsupported("split of symbolic text")
		}
		if p.k == pcByte && len(sep) > 1 {
			var alts []*Term
			for k := range sep {
				alts = append(alts, e.c.Eq(p.t, e.c.Int(int64(sep[k]))))
			}
			if e.decide(st, e.c.Or(alts...)) {
				unsupported("split of symbolic text")
			}
		}
		if p.k == pcFmt && !safeFmt(p, sep) {
			unsupported("split of formatted text")
		}
	}
	var out []Str
	cur := Str{}
	for _, p := range s.ps {
		if p.k == pcByte && len(sep) == 1 && !(n > 0 && len(out) == n-1) && e.decide(st, e.c.Eq(p.t, e.c.Int(int64(sep[0])))) {
			out = append(out, cur)
			cur = Str{}
			continue
		}
		if p.k != pcConc {
			cur = catStr(cur, Str{[]piece{p}})
			continue
		}
		parts := strings.Split(p.s, sep)
		for i, q := range parts {
			if i > 0 {
				if n > 0 && len(out) == n-1 {
					cur = catStr(cur, cstr(sep+q))
					continue
				}
				out = append(out, cur)
				cur = Str{}
			}
			cur = catStr(cur, cstr(q))
		}
	}
	return append(out, cur)
}

func safeFmt(p piece, sep string) bool {
	switch p.s {
	case "d", "v", "f", "g", "e", "t":
		return !strings.ContainsAny(sep, "0123456789+-.eEINanfbtruels")
	}
	return false
}

// trimRope removes concrete cutset characters at the ends of a rope.
func (e *Exec) trimRope(st *State, s Str, f func(string) bool, left, right bool) Str {
	if bs, ok := e.explode(s); ok {
		test := func(b *Term) bool {
			if b.isConst() {
				return f(string([]byte{byte(b.rat.Num().Int64())}))
			}
			var alts []*Term
			for k := 0; k < 256; k++ {
				if f(string([]byte{byte(k)})) {
					alts = append(alts, e.c.Eq(b, e.c.Int(int64(k))))
				}
			}
			return e.decide(st, e.c.Or(alts...))
		}
		i, j := 0, len(bs)
		for left && i < j && test(bs[i]) {
			i++
		}
		for right && j > i && test(bs[j-1]) {
			j--
		}
		return e.implode(bs[i:j])
	}
	ps := append([]piece(nil), s.ps...)
	for left && len(ps) > 0 {
		if ps[0].k == pcSym {
			unsupported("trim of symbolic text")
		}
		if ps[0].k != pcConc {
			break
		}
		t := ps[0].s
		for t != "" && f(t[:1]) {
			t = t[1:]
		}
		if t != "" {
			ps[0] = piece{k: pcConc, s: t}
			break
		}
		ps = ps[1:]
	}
	for right && len(ps) > 0 {
		l := len(ps) - 1
		if ps[l].k == pcSym {
			unsupported("trim of symbolic text")
		}
		if ps[l].k != pcConc {
			break
		}
		t := ps[l].s
		for t != "" && f(t[len(t)-1:]) {
			t = t[:len(t)-1]
		}
		if t != "" {
			ps[l] = piece{k: pcConc, s: t}
			break
		}
		ps = ps[:l]
	}
	return Str{ps}
}

// fold changes the case of a text whose characters are known or ASCII.
func (e *Exec) fold(s Str, from, by int64, f func(string) string) Str {
	if c, ok := s.conc(); ok {
		return cstr(f(c))
	}
	bs, ok := e.explode(s)
	if !ok {
		unsupported("change of case of symbolic text")
	}
	out := make([]*Term, len(bs))
	for i, b := range bs {
		in := e.c.And(e.c.Le(e.c.Int(from), b), e.c.Le(b, e.c.Int(from+25)))
		out[i] = e.c.Ite(in, e.c.Add(b, e.c.Int(by)), b)
	}
	return e.implode(out)
}

func isSpace1(s string) bool { return strings.Contains(" \t\n\v\f\r", s) }

func initStrings(R func(string, func(e *Exec, st *State, a []Value) Value)) {
	conc := func(name string, k int, f func(ss []string) interface{}) {
		R(name, func(e *Exec, st *State, a []Value) Value {
			ss := make([]string, k)
			for i := 0; i < k; i++ {
				ss[i] = a[i].(Str).mustConc(name)
			}
			switch r := f(ss).(type) {
			case string:
				return cstr(r)
			case int:
				return e.c.Int(int64(r))
			case bool:
				return e.c.Bool(r)
			case []string:
				var out []Str
				for _, x := range r {
					out = append(out, cstr(x))
				}
				return e.mkStrSlice(st, out)
			}
			return nil
		})
	}
	R("strings.ToUpper", func(e *Exec, st *State, a []Value) Value { return e.fold(a[0].(Str), 'a', -32, strings.ToUpper) })
	R("strings.ToLower", func(e *Exec, st *State, a []Value) Value { return e.fold(a[0].(Str), 'A', 32, strings.ToLower) })
	R("strings.EqualFold", func(e *Exec, st *State, a []Value) Value {
		x, y := e.fold(a[0].(Str), 'A', 32, strings.ToLower), e.fold(a[1].(Str), 'A', 32, strings.ToLower)
		return e.strEq(x, y)
	})
	R("strings.Count", func(e *Exec, st *State, a []Value) Value {
		sub := a[1].(Str).mustConc("substring")
		if sub == "" {
			return e.c.Add(e.strLen(a[0].(Str)), e.c.Int(1))
		}
		return e.c.Int(int64(len(e.splitRope(st, a[0].(Str), sub, -1)) - 1))
	})
	R("strings.Cut", func(e *Exec, st *State, a []Value) Value {
		ps := e.splitRope(st, a[0].(Str), a[1].(Str).mustConc("separator"), 2)
		if len(ps) < 2 {
			return Tuple{a[0], Str{}, e.c.Bool(false)}
		}
		return Tuple{ps[0], ps[1], e.c.Bool(true)}
	})
	conc("strings.Title", 1, func(s []string) interface{} { return strings.Title(s[0]) })
	conc("strings.LastIndex", 2, func(s []string) interface{} { return strings.LastIndex(s[0], s[1]) })
	conc("strings.IndexAny", 2, func(s []string) interface{} { return strings.IndexAny(s[0], s[1]) })
	conc("strings.ReplaceAll", 3, func(s []string) interface{} { return strings.ReplaceAll(s[0], s[1], s[2]) })
	R("strings.Replace", func(e *Exec, st *State, a []Value) Value {
		return cstr(strings.Replace(a[0].(Str).mustConc("Replace"), a[1].(Str).mustConc("Replace"), a[2].(Str).mustConc("Replace"), int(concI(a[3]))))
	})
	R("strings.Repeat", func(e *Exec, st *State, a []Value) Value {
		return cstr(strings.Repeat(a[0].(Str).mustConc("Repeat"), int(concI(a[1]))))
	})
	R("strings.Split", func(e *Exec, st *State, a []Value) Value {
		return e.mkStrSlice(st, e.splitRope(st, a[0].(Str), a[1].(Str).mustConc("separator"), -1))
	})
	R("strings.SplitN", func(e *Exec, st *State, a []Value) Value {
		return e.mkStrSlice(st, e.splitRope(st, a[0].(Str), a[1].(Str).mustConc("separator"), int(concI(a[2]))))
	})
	R("strings.Fields", func(e *Exec, st *State, a []Value) Value {
		s := a[0].(Str)
		if c, ok := s.conc(); ok {
			var out []Str
			for _, f := range strings.Fields(c) {
				out = append(out, cstr(f))
			}
			return e.mkStrSlice(st, out)
		}
		var out []Str
		for _, p := range e.splitRope(st, s, " ", -1) {
			p = e.trimRope(st, p, isSpace1, true, true)
			if len(p.ps) > 0 {
				out = append(out, p)
			}
		}
		return e.mkStrSlice(st, out)
	})
	R("strings.Join", func(e *Exec, st *State, a []Value) Value {
		var out Str
		for i, s := range e.strSliceVal(st, a[0]) {
			if i > 0 {
				out = catStr(out, a[1].(Str))
			}
			out = catStr(out, s)
		}
		return out
	})
	R("strings.TrimSpace", func(e *Exec, st *State, a []Value) Value {
		return e.trimRope(st, a[0].(Str), isSpace1, true, true)
	})
	trim := func(l, r bool) func(e *Exec, st *State, a []Value) Value {
		return func(e *Exec, st *State, a []Value) Value {
			cs := a[1].(Str).mustConc("cutset")
			return e.trimRope(st, a[0].(Str), func(s string) bool { return strings.Contains(cs, s) }, l, r)
		}
	}
	R("strings.Trim", trim(true, true))
	R("strings.TrimLeft", trim(true, false))
	R("strings.TrimRight", trim(false, true))
	R("strings.HasPrefix", func(e *Exec, st *State, a []Value) Value { return e.hasFix(st, a[0].(Str), a[1].(Str), true) })
	R("strings.HasSuffix", func(e *Exec, st *State, a []Value) Value { return e.hasFix(st, a[0].(Str), a[1].(Str), false) })
	R("strings.TrimPrefix", func(e *Exec, st *State, a []Value) Value {
		s, p := a[0].(Str), a[1].(Str)
		if e.decide(st, e.hasFix(st, s, p, true)) {
			ln := e.strLen(s)
			return e.substr(st, s, e.strLen(p), ln, ln)
		}
		return s
	})
	R("strings.TrimSuffix", func(e *Exec, st *State, a []Value) Value {
		s, p := a[0].(Str), a[1].(Str)
		if e.decide(st, e.hasFix(st, s, p, false)) {
			ln := e.strLen(s)
			return e.substr(st, s, e.c.Int(0), e.c.Sub(ln, e.strLen(p)), ln)
		}
		return s
	})
	R("strings.Contains", func(e *Exec, st *State, a []Value) Value { return e.contains(st, a[0].(Str), a[1].(Str)) })
	index := func(e *Exec, st *State, s Str, sub string) Value {
		if c, ok := s.conc(); ok {
			return e.c.Int(int64(strings.Index(c, sub)))
		}
		if bs, ok := e.explode(s); ok {
			for i := 0; i+len(sub) <= len(bs); i++ {
				var cs []*Term
				for j := range sub {
					cs = append(cs, e.c.Eq(bs[i+j], e.c.Int(int64(sub[j]))))
				}
				if e.decide(st, e.c.And(cs...)) {
					return e.c.Int(int64(i))
				}
			}
			return e.c.Int(-1)
		}
		ps := e.splitRope(st, s, sub, 2)
		if len(ps) < 2 {
			return e.c.Int(-1)
		}
		return e.strLen(ps[0])
	}
	R("strings.Index", func(e *Exec, st *State, a []Value) Value {
		return index(e, st, a[0].(Str), a[1].(Str).mustConc("substring"))
	})
	R("strings.IndexByte", func(e *Exec, st *State, a []Value) Value {
		return index(e, st, a[0].(Str), string([]byte{byte(concI(a[1]))}))
	})
	R("strings.IndexRune", func(e *Exec, st *State, a []Value) Value {
		return index(e, st, a[0].(Str), string(rune(concI(a[1]))))
	})

	// strings.Builder: modelled on the builder object itself
	sb := func(e *Exec, st *State, p Value) (Ptr, Str) {
		pp := p.(Ptr)
		if pp.isNil() {
			e.throw(st, "invalid memory address or nil pointer dereference")
		}
		v := e.load(st, pp)
		if o, ok := v.(*Opaque); ok && o.kind == "builder" {
			return pp, o.vs[0].(Str)
		}
		return pp, Str{}
	}
	put := func(e *Exec, st *State, p Ptr, s Str) {
		e.store(st, p, &Opaque{kind: "builder", vs: []Value{s}})
	}
	for _, ty := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		R(ty+".WriteString", func(e *Exec, st *State, a []Value) Value {
			p, s := sb(e, st, a[0])
			put(e, st, p, catStr(s, a[1].(Str)))
			return Tuple{e.strLen(a[1].(Str)), nilErr}
		})
		R(ty+".Write", func(e *Exec, st *State, a []Value) Value {
			p, s := sb(e, st, a[0])
			t := e.bytesStr(st, a[1])
			put(e, st, p, catStr(s, t))
			return Tuple{e.strLen(t), nilErr}
		})
		R(ty+".WriteByte", func(e *Exec, st *State, a []Value) Value {
			p, s := sb(e, st, a[0])
			put(e, st, p, catStr(s, e.implode([]*Term{a[1].(*Term)})))
			return nilErr
		})
		R(ty+".WriteRune", func(e *Exec, st *State, a []Value) Value {
			p, s := sb(e, st, a[0])
			r := cstr(string(rune(concI(a[1]))))
			put(e, st, p, catStr(s, r))
			return Tuple{e.strLen(r), nilErr}
		})
		R(ty+".String", func(e *Exec, st *State, a []Value) Value {
			_, s := sb(e, st, a[0])
			return s
		})
		R(ty+".Len", func(e *Exec, st *State, a []Value) Value {
			_, s := sb(e, st, a[0])
			return e.strLen(s)
		})
		R(ty+".Reset", func(e *Exec, st *State, a []Value) Value {
			p, _ := sb(e, st, a[0])
			put(e, st, p, Str{})
			return nil
		})
		R(ty+".Grow", func(e *Exec, st *State, a []Value) Value { return nil })
	}
	R("(*bytes.Buffer).Bytes", func(e *Exec, st *State, a []Value) Value {
		_, s := sb(e, st, a[0])
		return &SymBytes{s}
	})

	// ---- strconv
	R("strconv.Itoa", func(e *Exec, st *State, a []Value) Value { return e.fmtInt(a[0].(*Term)) })
	R("strconv.FormatInt", func(e *Exec, st *State, a []Value) Value {
		t := a[0].(*Term)
		b := concI(a[1])
		if t.isConst() {
			return cstr(t.rat.Num().Text(int(b)))
		}
		if b != 10 {
			unsupported("FormatInt base")
		}
		return e.fmtInt(t)
	})
	R("strconv.FormatFloat", func(e *Exec, st *State, a []Value) Value {
		x := a[0].(Float)
		f, prec, bits := byte(concI(a[1])), int(concI(a[2])), int(concI(a[3]))
		if v, ok := fconcrete(x); ok {
			return cstr(strconv.FormatFloat(v, f, prec, bits))
		}
		if prec < 0 && bits == 64 {
			return Str{[]piece{{k: pcFmt, s: "g", v: x, prec: -1}}}
		}
		if f == 'f' {
			return Str{[]piece{{k: pcFmt, s: "f", v: x, prec: prec}}}
		}
		unsupported("FormatFloat format")
		return nil
	})
	R("strconv.ParseFloat", func(e *Exec, st *State, a []Value) Value {
		v, ok := e.parseFloat(st, a[0].(Str))
		if !ok {
			return Tuple{e.fconst(0), e.mkError(st, catStr(cstr("strconv.ParseFloat: parsing: invalid syntax ")))}
		}
		if concI(a[1]) == 32 && v.k == fFin {
			v = e.fround(v.t, 32)
		}
		return Tuple{v, nilErr}
	})
	pint := func(e *Exec, st *State, s Str, base, bits int) Value {
		if bits == 0 {
			bits = 64
		}
		bad := func(why string) Value { return Tuple{e.c.Int(0), e.mkError(st, cstr("strconv.ParseInt: "+why))} }
		if c, ok := s.conc(); ok {
			v, err := strconv.ParseInt(c, base, bits)
			if err != nil {
				return Tuple{e.c.Int(v), e.mkError(st, cstr(err.Error()))}
			}
			return Tuple{e.c.Int(v), nilErr}
		}
		if len(s.ps) == 1 && s.ps[0].k == pcFmt && (base == 10 || base == 0) {
			if t, ok := s.ps[0].v.(*Term); ok && t.sort == SInt {
				lim := pow2(bits - 1)
				in := e.c.And(e.c.Le(e.c.Num(SInt, new(big.Rat).Neg(lim)), t), e.c.Lt(t, e.c.Num(SInt, lim)))
				if !e.decide(st, in) {
					if e.decide(st, e.c.Lt0(t)) {
						return Tuple{e.c.Num(SInt, new(big.Rat).Neg(lim)), e.mkError(st, cstr("strconv.ParseInt: value out of range"))}
					}
					return Tuple{e.c.Num(SInt, new(big.Rat).Sub(lim, ratOne)), e.mkError(st, cstr("strconv.ParseInt: value out of range"))}
				}
				return Tuple{t, nilErr}
			}
		}
		if len(s.ps) == 1 && s.ps[0].k == pcFmt && base == 10 && s.ps[0].prec < 0 {
			// the shortest text of a float is that of an integer when it is one
			if v, ok := s.ps[0].v.(Float); ok && v.k == fFin && v.t.lo != nil && v.t.hi != nil && v.t.lo.Cmp(big.NewRat(-1000000000000, 1)) > 0 && v.t.hi.Cmp(big.NewRat(1000000000000, 1)) < 0 {
				n := e.c.Floor(v.t)
				if e.decide(st, e.c.Eq(e.c.ToReal(n), v.t)) {
					return Tuple{n, nilErr}
				}
				return bad("invalid syntax")
			}
		}
		if hasConcJunk(s) {
			return bad("invalid syntax")
		}
		if bs, ok := e.explode(s); ok && base == 10 && len(bs) < 18 {
			v, ok := e.parseDecimal(st, bs, false)
			if !ok {
				return bad("invalid syntax")
			}
			return Tuple{e.c.Floor(v), nilErr}
		}
		unsupported("ParseInt of symbolic text")
		return nil
	}
	R("strconv.ParseInt", func(e *Exec, st *State, a []Value) Value {
		return pint(e, st, a[0].(Str), int(concI(a[1])), int(concI(a[2])))
	})
	R("strconv.Atoi", func(e *Exec, st *State, a []Value) Value { return pint(e, st, a[0].(Str), 10, 64) })
	R("strconv.Quote", func(e *Exec, st *State, a []Value) Value {
		return cstr(strconv.Quote(a[0].(Str).mustConc("Quote")))
	})

	// ---- fmt
	R("fmt.Sprintf", func(e *Exec, st *State, a []Value) Value {
		return e.sprintf(st, a[0].(Str).mustConc("format"), e.sliceElems(st, a[1].(Slice)))
	})
	R("fmt.Sprint", func(e *Exec, st *State, a []Value) Value { return e.sprint(st, e.sliceElems(st, a[0].(Slice)), false) })
	R("fmt.Sprintln", func(e *Exec, st *State, a []Value) Value { return e.sprint(st, e.sliceElems(st, a[0].(Slice)), true) })
	R("fmt.Errorf", func(e *Exec, st *State, a []Value) Value {
		format := a[0].(Str).mustConc("format")
		args := e.sliceElems(st, a[1].(Slice))
		msg := e.sprintf(st, strings.ReplaceAll(format, "%w", "%v"), args)
		return e.mkError(st, msg)
	})
	R("fmt.Printf", func(e *Exec, st *State, a []Value) Value {
		return e.printOut(st, e.sprintf(st, a[0].(Str).mustConc("format"), e.sliceElems(st, a[1].(Slice))))
	})
	R("fmt.Println", func(e *Exec, st *State, a []Value) Value {
		return e.printOut(st, e.sprint(st, e.sliceElems(st, a[0].(Slice)), true))
	})
	R("fmt.Print", func(e *Exec, st *State, a []Value) Value {
		return e.printOut(st, e.sprint(st, e.sliceElems(st, a[0].(Slice)), false))
	})
	R("fmt.Fprintf", func(e *Exec, st *State, a []Value) Value {
		return e.writeTo(st, a[0].(Iface), e.sprintf(st, a[1].(Str).mustConc("format"), e.sliceElems(st, a[2].(Slice))))
	})
	R("fmt.Fprintln", func(e *Exec, st *State, a []Value) Value {
		return e.writeTo(st, a[0].(Iface), e.sprint(st, e.sliceElems(st, a[1].(Slice)), true))
	})
	R("fmt.Fprint", func(e *Exec, st *State, a []Value) Value {
		return e.writeTo(st, a[0].(Iface), e.sprint(st, e.sliceElems(st, a[1].(Slice)), false))
	})
	R("io.WriteString", func(e *Exec, st *State, a []Value) Value {
		return e.writeTo(st, a[0].(Iface), a[1].(Str))
	})
}

func hasConcJunk(s Str) bool {
	for _, p := range s.ps {
		if p.k == pcConc && strings.Trim(p.s, "0123456789+-") != "" {
			return true
		}
	}
	return false
}

func (e *Exec) bytesStr(st *State, v Value) Str {
	switch x := v.(type) {
	case *SymBytes:
		return x.s
	case Slice:
		var bs []*Term
		for _, b := range e.sliceElems(st, x) {
			bs = append(bs, b.(*Term))
		}
		return e.implode(bs)
	}
	unsupported("bytes")
	return Str{}
}

func (e *Exec) hasFix(st *State, s, p Str, pre bool) *Term {
	pc, ok := p.conc()
	if !ok {
		unsupported("symbolic prefix")
	}
	if c, ok := s.conc(); ok {
		if pre {
			return e.c.Bool(strings.HasPrefix(c, pc))
		}
		return e.c.Bool(strings.HasSuffix(c, pc))
	}
	if bs, ok := e.explode(s); ok {
		if len(bs) < len(pc) {
			return e.c.tFalse
		}
		off := 0
		if !pre {
			off = len(bs) - len(pc)
		}
		var cs []*Term
		for i := range pc {
			cs = append(cs, e.c.Eq(bs[off+i], e.c.Int(int64(pc[i]))))
		}
		return e.c.And(cs...)
	}
	if pc == "" {
		return e.c.tTrue
	}
	// compare against the concrete text at the end in question
	ps := s.ps
	if pre && ps[0].k == pcConc {
		n := len(pc)
		if len(ps[0].s) >= n {
			return e.c.Bool(strings.HasPrefix(ps[0].s, pc))
		}
		if !strings.HasPrefix(pc, ps[0].s) {
			return e.c.tFalse
		}
	}
	if !pre && ps[len(ps)-1].k == pcConc {
		l := ps[len(ps)-1].s
		if len(l) >= len(pc) {
			return e.c.Bool(strings.HasSuffix(l, pc))
		}
		if !strings.HasSuffix(pc, l) {
			return e.c.tFalse
		}
	}
	end := ps[0]
	if !pre {
		end = ps[len(ps)-1]
	}
	if end.k == pcFmt && safeFmt(end, pc) {
		return e.c.tFalse
	}
	unsupported("prefix test on symbolic text")
	return nil
}

func (e *Exec) fmtInt(t *Term) Str {
	if t.isConst() {
		return cstr(t.rat.Num().String())
	}
	return Str{[]piece{{k: pcFmt, s: "d", v: t, prec: -1}}}
}

// parseFloat inverts formatting.
func (e *Exec) parseFloat(st *State, s Str) (Float, bool) {
	if c, ok := s.conc(); ok {
		f, err := strconv.ParseFloat(c, 64)
		return e.fconst(f), err == nil
	}
	// leading sign text is not produced by the formatter for finite values
	if len(s.ps) == 1 && s.ps[0].k == pcFmt {
		p := s.ps[0]
		switch v := p.v.(type) {
		case *Term:
			if v.sort == SInt {
				return e.fround(e.c.ToReal(v), 64), true
			}
			return Float{}, false
		case Float:
			if v.k != fFin {
				return v, true
			}
			if p.prec < 0 {
				return v, true
			}
			return e.decimalRound(v, p.prec), true
		}
	}
	for _, p := range s.ps {
		if p.k == pcConc && strings.Trim(p.s, "0123456789+-.eE") != "" {
			return Float{}, false
		}
	}
	if bs, ok := e.explode(s); ok && len(bs) < 18 {
		v, ok := e.parseDecimal(st, bs, true)
		if !ok {
			return Float{}, false
		}
		return e.fround(v, 64), true
	}
	unsupported("ParseFloat of symbolic text")
	return Float{}, false
}

// parseDecimal reads [+-]digits[.digits] from symbolic bytes. Exponents,
// hexadecimal numbers and the words for infinity and NaN are not modelled.
func (e *Exec) parseDecimal(st *State, bs []*Term, point bool) (*Term, bool) {
	c := e.c
	is := func(b *Term, set string) bool {
		var alts []*Term
		for i := range set {
			alts = append(alts, c.Eq(b, c.Int(int64(set[i]))))
		}
		return e.decide(st, c.Or(alts...))
	}
	neg, i := false, 0
	if len(bs) > 0 && is(bs[0], "+-") {
		neg = e.decide(st, c.Eq(bs[0], c.Int('-')))
		i = 1
	}
	v := c.Real(0)
	scale := ratOne
	digits, dot := 0, false
	for ; i < len(bs); i++ {
		b := bs[i]
		if e.decide(st, c.And(c.Le(c.Int('0'), b), c.Le(b, c.Int('9')))) {
			d := c.ToReal(c.Sub(b, c.Int('0')))
			digits++
			if dot {
				scale = new(big.Rat).Mul(scale, big.NewRat(1, 10))
				v = c.Add(v, c.Scale(d, scale))
			} else {
				v = c.Add(c.Scale(v, big.NewRat(10, 1)), d)
			}
			continue
		}
		if point && !dot && is(b, ".") {
			dot = true
			continue
		}
		if point && (digits > 0 && len(bs) > i+1 && is(b, "eExX_") || digits == 0 && len(bs) > i+2 && is(b, "iInN")) {
			unsupported("exponents and words in symbolic numbers")
		}
		return nil, false
	}
	if digits == 0 {
		return nil, false
	}
	if neg {
		v = c.Neg(v)
	}
	return v, true
}

// decimalRound is the float nearest to v rounded to n decimals: the integer k
// with |10^n*v - k| <= 1/2 divided by 10^n.
func (e *Exec) decimalRound(v Float, n int) Float {
	c := e.c
	sc := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil))
	x := c.Scale(v.t, sc)
	var lo, hi *big.Rat
	half := big.NewRat(1, 2)
	if x.lo != nil {
		lo = floorRat(new(big.Rat).Sub(x.lo, half))
	}
	if x.hi != nil {
		hi = floorRat(new(big.Rat).Add(new(big.Rat).Add(x.hi, half), ratOne))
	}
	k := c.Var(fmt.Sprintf("dec%d!%d", n, v.t.id), SInt, lo, hi, 0)
	if len(k.side) <= 2 {
		d := c.Sub(x, c.ToReal(k))
		k.side = append(k.side, c.rawLe(c.AddK(d, new(big.Rat).Neg(half)), c.Real(0)), c.rawLe(c.AddK(c.Neg(d), new(big.Rat).Neg(half)), c.Real(0)))
	}
	return e.fround(c.Scale(c.ToReal(k), new(big.Rat).Inv(sc)), 64)
}

// ---- formatting ------------------------------------------------------------

func (e *Exec) sprint(st *State, args []Value, ln bool) Str {
	var out Str
	prevStr := true
	for i, a := range args {
		ifc := a.(Iface)
		_, isStr := ifc.v.(Str)
		if i > 0 && (ln || !isStr && !prevStr) {
			out = catStr(out, cstr(" "))
		}
		prevStr = isStr
		out = catStr(out, e.formatArg(st, "v", "", -1, ifc, 0))
	}
	if ln {
		out = catStr(out, cstr("\n"))
	}
	return out
}

func (e *Exec) sprintf(st *State, format string, args []Value) Str {
	var out Str
	ai := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = catStr(out, cstr(format[i:]))
			break
		}
		out = catStr(out, cstr(format[i:i+j]))
		i += j + 1
		k := i
		for k < len(format) && strings.IndexByte("+-# 0123456789.*", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			out = catStr(out, cstr("%!(NOVERB)"))
			break
		}
		flags, verb := format[i:k], format[k]
		i = k + 1
		if verb == '%' {
			out = catStr(out, cstr("%"))
			continue
		}
		if strings.Contains(flags, "*") {
			unsupported("format width argument")
		}
		if ai >= len(args) {
			out = catStr(out, cstr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		prec := -1
		if d := strings.IndexByte(flags, '.'); d >= 0 {
			prec, _ = strconv.Atoi(flags[d+1:])
		}
		out = catStr(out, e.formatArg(st, string(verb), flags, prec, args[ai].(Iface), 0))
		ai++
	}
	if ai < len(args) {
		out = catStr(out, cstr("%!(EXTRA )"))
	}
	return out
}

func (e *Exec) tryMethod(st *State, v Iface, name string) (Str, bool) {
	m := e.methodOf(v.t, name)
	if m == nil {
		return Str{}, false
	}
	sig := m.Signature
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return Str{}, false
	}
	if b, ok := sig.Results().At(0).Type().(*types.Basic); !ok || b.Kind() != types.String {
		return Str{}, false
	}
	if p, ok := v.v.(Ptr); ok && p.isNil() {
		// fmt prints <nil> when the method panics on a nil receiver
		return cstr("<nil>"), true
	}
	n := len(st.pc)
	_ = n
	var res Str
	ok := true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if gp, is := r.(goPanic); is {
					res = cstr("%!v(PANIC=" + name + " method: " + gp.info.msg + ")")
					return
				}
				panic(r)
			}
		}()
		f := &Closure{fn: m}
		if in := e.findIntrinsic(m); in != nil {
			o := in(e, st, m, []Value{v.v})
			res = o[0].val.(Str)
			return
		}
		res = e.callSub(st, f, []Value{v.v}).(Str)
	}()
	return res, ok
}

func (e *Exec) formatArg(st *State, verb, flags string, prec int, v Iface, depth int) Str {
	if v.t == nil {
		if verb == "v" {
			return cstr("<nil>")
		}
		return cstr("%!" + verb + "(<nil>)")
	}
	if verb == "T" {
		return cstr(v.t.String())
	}
	if p, ok := v.v.(Poison); ok {
		unsupported("poison: " + p.why)
	}
	if strings.Contains("vsxXq", verb) && !strings.Contains(flags, "#") {
		if s, ok := e.tryMethod(st, v, "Error"); ok {
			return s
		}
		if s, ok := e.tryMethod(st, v, "String"); ok {
			return s
		}
	}
	u := v.t.Underlying()
	num := flags
	switch x := v.v.(type) {
	case *Term:
		if x.isConst() {
			if x.sort == SBool {
				return cstr(fmt.Sprintf("%"+num+verb, x.b))
			}
			n := x.rat.Num()
			bits, signed := intBits(v.t)
			_ = bits
			if signed {
				return cstr(fmt.Sprintf("%"+num+verb, n.Int64()))
			}
			return cstr(fmt.Sprintf("%"+num+verb, n.Uint64()))
		}
		if x.sort == SBool {
			return Str{[]piece{{k: pcFmt, s: "t", v: x, prec: -1}}}
		}
		if (verb == "d" || verb == "v") && num == "" {
			return Str{[]piece{{k: pcFmt, s: "d", v: x, prec: -1}}}
		}
		return Str{[]piece{{k: pcFmt, s: "%" + num + verb, v: x, prec: -1}}}
	case Float:
		if f, ok := fconcrete(x); ok {
			if floatBits(v.t) == 32 {
				return cstr(fmt.Sprintf("%"+num+verb, float32(f)))
			}
			return cstr(fmt.Sprintf("%"+num+verb, f))
		}
		switch {
		case (verb == "v" || verb == "g") && num == "":
			if floatBits(v.t) == 32 {
				return Str{[]piece{{k: pcFmt, s: "g32", v: x, prec: -1}}}
			}
			return Str{[]piece{{k: pcFmt, s: "g", v: x, prec: -1}}}
		case (verb == "f" || verb == "F") && (num == "" || num[0] == '.'):
			if prec < 0 {
				prec = 6
			}
			return Str{[]piece{{k: pcFmt, s: "f", v: x, prec: prec}}}
		}
		return Str{[]piece{{k: pcFmt, s: "%" + num + verb, v: x, prec: 1000 + prec}}}
	case Str:
		if c, ok := x.conc(); ok {
			return cstr(fmt.Sprintf("%"+num+verb, c))
		}
		if (verb == "s" || verb == "v") && num == "" {
			return x
		}
		unsupported("formatting symbolic text with " + verb)
	case *Struct:
		s, ok := u.(*types.Struct)
		if !ok {
			break
		}
		out := cstr("{")
		for i := range x.f {
			if i > 0 {
				out = catStr(out, cstr(" "))
			}
			if strings.Contains(flags, "+") {
				out = catStr(out, cstr(s.Field(i).Name()+":"))
			}
			out = catStr(out, e.formatField(st, verb, flags, prec, s.Field(i).Type(), x.f[i], depth+1))
		}
		return catStr(out, cstr("}"))
	case *Array:
		et := u.(*types.Array).Elem()
		return e.formatList(st, verb, flags, prec, et, x.e, depth)
	case Slice:
		et := u.(*types.Slice).Elem()
		return e.formatList(st, verb, flags, prec, et, e.sliceElems(st, x), depth)
	case MapRef:
		return Str{[]piece{{k: pcFmt, s: "map", v: x, prec: x.obj}}}
	case Ptr:
		if x.isNil() {
			return cstr("<nil>")
		}
		el := u.(*types.Pointer).Elem()
		switch el.Underlying().(type) {
		case *types.Struct, *types.Array, *types.Slice:
			if depth == 0 {
				return catStr(cstr("&"), e.formatField(st, verb, flags, prec, el, e.load(st, x), depth+1))
			}
		}
		return Str{[]piece{{k: pcFmt, s: "ptr", v: x, prec: x.obj}}}
	}
	unsupported(fmt.Sprintf("formatting %s (%T)", v.t, v.v))
	return Str{}
}

func (e *Exec) formatField(st *State, verb, flags string, prec int, t types.Type, v Value, depth int) Str {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return e.formatArg(st, verb, flags, prec, v.(Iface), depth)
	}
	return e.formatArg(st, verb, flags, prec, Iface{t: t, v: v}, depth)
}

func (e *Exec) formatList(st *State, verb, flags string, prec int, et types.Type, xs []Value, depth int) Str {
	out := cstr("[")
	for i, x := range xs {
		if i > 0 {
			out = catStr(out, cstr(" "))
		}
		out = catStr(out, e.formatField(st, verb, flags, prec, et, x, depth+1))
	}
	return catStr(out, cstr("]"))
}

// units gives the bytes and the formatted or free parts of a rope.
func (e *Exec) units(s Str) []piece {
	var out []piece
	for _, p := range s.ps {
		if p.k != pcConc {
			out = append(out, p)
			continue
		}
		for i := 0; i < len(p.s); i++ {
			out = append(out, piece{k: pcByte, t: e.c.Int(int64(p.s[i]))})
		}
	}
	return out
}

// contains decides whether sub occurs in s. Formatted parts match formatted
// parts of the same kind; texts that could only occur inside a formatted part
// are not decided.
func (e *Exec) contains(st *State, s, sub Str) *Term {
	if c, ok := s.conc(); ok {
		if d, ok := sub.conc(); ok {
			return e.c.Bool(strings.Contains(c, d))
		}
	}
	us, ws := e.units(s), e.units(sub)
	free := false
	for _, u := range us {
		free = free || u.k != pcByte
	}
	var alts []*Term
	for i := 0; i+len(ws) <= len(us); i++ {
		var cs []*Term
		for j, w := range ws {
			u := us[i+j]
			switch {
			case u.k == pcByte && w.k == pcByte:
				cs = append(cs, e.c.Eq(u.t, w.t))
			default:
				cs = append(cs, e.c.Bool(samePiece(u, w)))
			}
		}
		alts = append(alts, e.c.And(cs...))
	}
	t := e.c.Or(alts...)
	if !free {
		for _, w := range ws {
			if w.k != pcByte {
				unsupported("occurrence of formatted text in symbolic text")
			}
		}
		return t
	}
	if e.decide(st, t) {
		return e.c.Bool(true)
	}
	// letters of no number or time
	var cs []*Term
	for _, w := range ws {
		if w.k != pcByte {
			unsupported("occurrence of formatted text")
		}
		cs = append(cs, e.c.Le(e.c.Int('v'), w.t), e.c.Le(w.t, e.c.Int('z')))
	}
	for _, u := range us {
		if u.k == pcSym {
			unsupported("occurrence in free text")
		}
	}
	if e.decide(st, e.c.And(cs...)) {
		return e.c.Bool(false)
	}
	unsupported("occurrence in formatted text")
	return nil
}
