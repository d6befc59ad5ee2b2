package main

import (
	"go/types"
	"math/big"
	"reflect"
	"strings"
)

// JSONBytes is the text of a JSON value, kept as the value itself: the model
// of encoding/json goes by struct tags as the library does but never looks at
// characters.
type JSONBytes struct{ n *jnode }

type jnode struct {
	kind   string // null bool num int str time list obj
	v      Value
	names  []string
	kids   []*jnode
	quoted bool // written with the option "string"
}

type jfield struct {
	index     int
	name      string
	omitEmpty bool
	quoted    bool
}

// jfields are the fields the library writes and reads.
func jfields(s *types.Struct) []jfield {
	var out []jfield
	tagged := map[string]int{}
	count := map[string]int{}
	isTagged := map[int]bool{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		if f.Embedded() {
			unsupported("JSON of an embedded field")
		}
		if !f.Exported() || tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		jf := jfield{index: i, name: name}
		if name == "" {
			jf.name = f.Name()
		} else {
			isTagged[i] = true
			tagged[name]++
		}
		for _, o := range strings.Split(opts, ",") {
			switch o {
			case "omitempty":
				jf.omitEmpty = true
			case "string":
				jf.quoted = true
			case "omitzero":
				unsupported("JSON option omitzero")
			}
		}
		count[jf.name]++
		out = append(out, jf)
	}
	// of several fields of one name a single tagged one wins, else none
	var keep []jfield
	for _, f := range out {
		if count[f.name] == 1 || tagged[f.name] == 1 && isTagged[f.index] {
			keep = append(keep, f)
		}
	}
	return keep
}

func isTime(t types.Type) bool { return t.String() == "time.Time" }

// jmethod is the named method of t, if it is one of the repository.
func (e *Exec) jmethod(st *State, t types.Type, name string, args []Value) (Tuple, bool) {
	m := e.methodOf(t, name)
	if m == nil {
		return nil, false
	}
	switch r := e.callSub(st, &Closure{fn: m}, args).(type) {
	case Tuple:
		return r, true
	default:
		return Tuple{r}, true
	}
}

// toJSON is json.Marshal of v, found at p when it is addressable.
func (e *Exec) toJSON(st *State, t types.Type, v Value, p Ptr) (*jnode, Value) {
	if isTime(t) {
		sec := e.unixSec(v)
		if !e.decide(st, e.c.And(e.c.Le(e.c.Int(-62167219200), sec), e.c.Lt(sec, e.c.Int(253402214400)))) {
			unsupported("JSON of a time outside years 0 to 9999")
		}
		return &jnode{kind: "time", v: v}, nilErr
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		q := v.(Ptr)
		if q.isNil() {
			return &jnode{kind: "null"}, nilErr
		}
		return e.toJSON(st, pt.Elem(), e.load(st, q), q)
	}
	for _, name := range []string{"MarshalJSON", "MarshalText"} {
		r, ok := e.jmethod(st, t, name, []Value{v})
		if !ok && !p.isNil() {
			r, ok = e.jmethod(st, types.NewPointer(t), name, []Value{p})
		}
		if !ok {
			continue
		}
		if r[1].(Iface).t != nil {
			return nil, r[1]
		}
		if name == "MarshalText" {
			return &jnode{kind: "str", v: e.jtext(st, r[0])}, nilErr
		}
		j, ok := r[0].(*JSONBytes)
		if !ok {
			unsupported("JSON text made by the code itself")
		}
		return j.n, nilErr
	}
	at := func(i int) Ptr {
		if p.isNil() {
			return Ptr{}
		}
		return p.sub(i)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case Float:
			if x.k != fFin {
				return nil, e.mkError(st, cstr("json: unsupported value"))
			}
			return &jnode{kind: "num", v: x}, nilErr
		case Str:
			return &jnode{kind: "str", v: x}, nilErr
		case *Term:
			if u.Info()&types.IsBoolean != 0 {
				return &jnode{kind: "bool", v: x}, nilErr
			}
			return &jnode{kind: "int", v: x}, nilErr
		}
	case *types.Struct:
		e.fnsSeen["fields and tags of "+t.String()]++
		n := &jnode{kind: "obj"}
		for _, f := range jfields(u) {
			x := v.(*Struct).f[f.index]
			if f.omitEmpty && e.jempty(st, x) {
				continue
			}
			k, err := e.toJSON(st, u.Field(f.index).Type(), x, at(f.index))
			if err.(Iface).t != nil {
				return nil, err
			}
			if f.quoted && (k.kind == "num" || k.kind == "int" || k.kind == "bool" || k.kind == "str") {
				q := *k
				q.quoted = true
				k = &q
			}
			n.names, n.kids = append(n.names, f.name), append(n.kids, k)
		}
		return n, nilErr
	case *types.Slice:
		s, ok := v.(Slice)
		if !ok {
			break
		}
		if s.isNil() {
			return &jnode{kind: "null"}, nilErr
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			break
		}
		n := &jnode{kind: "list"}
		for i, x := range e.sliceElems(st, s) {
			k, err := e.toJSON(st, u.Elem(), x, s.base.sub(s.off+i))
			if err.(Iface).t != nil {
				return nil, err
			}
			n.kids = append(n.kids, k)
		}
		return n, nilErr
	case *types.Interface:
		x := v.(Iface)
		if x.t == nil {
			return &jnode{kind: "null"}, nilErr
		}
		return e.toJSON(st, x.t, x.v, Ptr{})
	}
	unsupported("JSON of " + t.String())
	return nil, nil
}

func (e *Exec) jtext(st *State, v Value) Str {
	switch x := v.(type) {
	case *SymBytes:
		return x.s
	case Slice:
		var bs []*Term
		for _, b := range e.sliceElems(st, x) {
			bs = append(bs, b.(*Term))
		}
		return e.implode(bs)
	}
	unsupported("JSON text")
	return Str{}
}

// jempty is the library's notion of an empty value.
func (e *Exec) jempty(st *State, v Value) bool {
	switch x := v.(type) {
	case Float:
		return x.k == fFin && e.decide(st, e.c.Eq(x.t, e.c.Real(0)))
	case Str:
		return e.decide(st, e.strEq(x, Str{}))
	case *Term:
		if x.sort == SBool {
			return !e.decide(st, x)
		}
		return e.decide(st, e.c.Eq(x, e.c.Int(0)))
	case Slice:
		return x.len == 0
	case Ptr:
		return x.isNil()
	case Iface:
		return x.t == nil
	}
	return false
}

// fromJSON is json.Unmarshal into the value of type t at p; it reports
// whether the kinds agree.
func (e *Exec) fromJSON(st *State, n *jnode, t types.Type, p Ptr, quoted bool) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n.kind == "null" {
			e.store(st, p, Ptr{})
			return true
		}
		q := e.load(st, p).(Ptr)
		if q.isNil() {
			q = e.alloc(st, e.zero(pt.Elem()))
			e.store(st, p, q)
		}
		return e.fromJSON(st, n, pt.Elem(), q, quoted)
	}
	if isTime(t) {
		if n.kind == "time" {
			e.store(st, p, n.v)
			return true
		}
		if n.kind != "null" {
			unsupported("JSON time of another kind")
		}
		return true
	}
	if r, ok := e.jmethod(st, types.NewPointer(t), "UnmarshalJSON", []Value{p, &JSONBytes{n}}); ok {
		return r[0].(Iface).t == nil
	}
	if n.kind == "null" {
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Interface:
			e.store(st, p, e.zero(t))
		}
		return true
	}
	if n.kind == "str" && e.methodOf(types.NewPointer(t), "UnmarshalText") != nil {
		r, _ := e.jmethod(st, types.NewPointer(t), "UnmarshalText", []Value{p, &SymBytes{n.v.(Str)}})
		return r[0].(Iface).t == nil
	}
	if quoted != n.quoted && (n.kind == "num" || n.kind == "int" || n.kind == "bool" || n.kind == "str") {
		// a string read where a number is wanted, or the other way
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0 && n.kind == "str", u.Info()&types.IsBoolean != 0 && n.kind == "bool":
			e.store(st, p, n.v)
			return true
		case u.Info()&types.IsFloat != 0 && n.kind == "num":
			if u.Kind() == types.Float32 {
				unsupported("JSON number read as float32")
			}
			e.store(st, p, n.v)
			return true
		case u.Info()&types.IsFloat != 0 && n.kind == "int":
			x := n.v.(*Term)
			lim := e.c.Int(1 << 53)
			if !e.decide(st, e.c.And(e.c.Le(e.c.Neg(lim), x), e.c.Le(x, lim))) {
				unsupported("JSON of a great integer read as float")
			}
			e.store(st, p, Float{t: e.c.ToReal(x)})
			return true
		case u.Info()&types.IsInteger != 0 && n.kind == "int":
			lo, hi := intRange(u)
			x := n.v.(*Term)
			if !e.decide(st, e.c.And(e.c.Le(e.c.Num(SInt, lo), x), e.c.Le(x, e.c.Num(SInt, hi)))) {
				return false
			}
			e.store(st, p, x)
			return true
		case u.Info()&types.IsInteger != 0 && n.kind == "num":
			unsupported("JSON of a float read as integer")
		}
		return false
	case *types.Struct:
		if n.kind != "obj" {
			return false
		}
		fs := jfields(u)
		ok := true
		for i, name := range n.names {
			at := -1
			for k, f := range fs {
				if f.name == name {
					at = k
				}
			}
			for k, f := range fs {
				if at < 0 && strings.EqualFold(f.name, name) {
					at = k
				}
			}
			if at >= 0 {
				f := fs[at]
				ok = e.fromJSON(st, n.kids[i], u.Field(f.index).Type(), p.sub(f.index), f.quoted) && ok
			}
		}
		return ok
	case *types.Slice:
		if n.kind != "list" {
			return false
		}
		if cur, ok := e.load(st, p).(Slice); !ok || cur.cap > 0 {
			unsupported("JSON read into a list that is not empty")
		}
		zeros := make([]Value, len(n.kids))
		for i := range zeros {
			zeros[i] = e.zero(u.Elem())
		}
		s := e.newSlice(st, zeros, 0, e.zero(u.Elem()))
		e.store(st, p, s)
		ok := true
		for i, k := range n.kids {
			ok = e.fromJSON(st, k, u.Elem(), s.base.sub(i), false) && ok
		}
		return ok
	case *types.Map:
		// only texts left as they are
		if u.Elem().String() != "encoding/json.RawMessage" {
			break
		}
		if n.kind != "obj" {
			return false
		}
		m, isMap := e.load(st, p).(MapRef)
		if !isMap || m.obj == 0 {
			m = MapRef{e.alloc(st, &MapVal{}).obj}
			e.store(st, p, m)
		}
		for i, name := range n.names {
			e.mapSet(st, m, cstr(name), &JSONBytes{n.kids[i]})
		}
		return true
	}
	unsupported("JSON read as " + t.String())
	return false
}

func intRange(b *types.Basic) (lo, hi *big.Rat) {
	bits, unsigned := 64, b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	one := big.NewInt(1)
	if unsigned {
		return new(big.Rat), new(big.Rat).SetInt(new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one))
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return new(big.Rat).SetInt(new(big.Int).Neg(h)), new(big.Rat).SetInt(new(big.Int).Sub(h, one))
}

func initJSON(R func(string, func(e *Exec, st *State, a []Value) Value)) {
	R("encoding/json.Marshal", func(e *Exec, st *State, a []Value) Value {
		v := a[0].(Iface)
		if v.t == nil {
			return Tuple{&JSONBytes{&jnode{kind: "null"}}, nilErr}
		}
		n, err := e.toJSON(st, v.t, v.v, Ptr{})
		if err.(Iface).t != nil {
			return Tuple{Slice{}, err}
		}
		return Tuple{&JSONBytes{n}, nilErr}
	})
	R("encoding/json.Unmarshal", func(e *Exec, st *State, a []Value) Value {
		b, ok := a[0].(*JSONBytes)
		if !ok {
			unsupported("JSON text not made by the library")
		}
		v := a[1].(Iface)
		pt, ok := v.t.Underlying().(*types.Pointer)
		if !ok || v.v.(Ptr).isNil() {
			return e.mkError(st, cstr("json: Unmarshal(non-pointer)"))
		}
		if !e.fromJSON(st, b.n, pt.Elem(), v.v.(Ptr), false) {
			return e.mkError(st, cstr("json: cannot unmarshal"))
		}
		return nilErr
	})
}
