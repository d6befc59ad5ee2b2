package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, integers), Float, Str, *Struct, *Array, Ptr,
// Slice, MapRef, Iface, *Closure, Tuple, Poison, *Opaque.
type Value interface{}

type Float struct {
	k uint8 // 0 finite, 1 +Inf, 2 -Inf, 3 NaN
	t *Term
}

const (
	fFin uint8 = iota
	fPInf
	fNInf
	fNaN
)

type Struct struct{ f []Value }
type Array struct{ e []Value }

// Ptr points at a heap object or inside it. obj == 0 is nil.
type Ptr struct {
	obj  int
	path []int
}

func (p Ptr) isNil() bool { return p.obj == 0 }
func (p Ptr) sub(i int) Ptr {
	np := make([]int, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = i
	return Ptr{p.obj, np}
}
func samePtr(a, b Ptr) bool {
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

type Slice struct {
	base          Ptr // pointer to an *Array
	off, len, cap int
}

func (s Slice) isNil() bool { return s.base.obj == 0 }

type MapRef struct{ obj int }

type MapVal struct {
	keys, vals []Value
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
	// builtin-bound natives
	native func(e *Exec, st *State, args []Value) Value
}

type Tuple []Value
type Poison struct{ why string }

// Opaque is a model object (file, scanner, builder, iterator, ...).
type Opaque struct {
	kind string
	s    string
	i    int
	vs   []Value
	b    bool
	p    Ptr
}

// ---- strings ---------------------------------------------------------------

const (
	pcConc uint8 = iota
	pcByte
	pcSym
	pcFmt
)

type piece struct {
	k    uint8
	s    string // concrete text, or verb for pcFmt
	t    *Term  // byte term or String term
	v    Value  // formatted value
	prec int    // precision for %f style pieces, -1 shortest
}

type Str struct{ ps []piece }

func cstr(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{[]piece{{k: pcConc, s: s}}}
}

func (s Str) conc() (string, bool) {
	switch len(s.ps) {
	case 0:
		return "", true
	case 1:
		if s.ps[0].k == pcConc {
			return s.ps[0].s, true
		}
	}
	return "", false
}

func (s Str) mustConc(what string) string {
	c, ok := s.conc()
	if !ok {
		unsupported("symbolic string in " + what)
	}
	return c
}

func catStr(xs ...Str) Str {
	var out []piece
	for _, x := range xs {
		for _, p := range x.ps {
			if p.k == pcConc {
				if p.s == "" {
					continue
				}
				if n := len(out); n > 0 && out[n-1].k == pcConc {
					out[n-1] = piece{k: pcConc, s: out[n-1].s + p.s}
					continue
				}
			}
			out = append(out, p)
		}
	}
	return Str{out}
}

// fixedLen returns the byte length when it does not depend on symbolic text.
func (s Str) fixedLen() (int, bool) {
	n := 0
	for _, p := range s.ps {
		switch p.k {
		case pcConc:
			n += len(p.s)
		case pcByte:
			n++
		default:
			return 0, false
		}
	}
	return n, true
}

func (s Str) String() string {
	var sb strings.Builder
	for _, p := range s.ps {
		switch p.k {
		case pcConc:
			sb.WriteString(p.s)
		case pcByte:
			sb.WriteString("<byte>")
		case pcSym:
			sb.WriteString("<" + p.t.str + ">")
		case pcFmt:
			sb.WriteString("<" + p.s + ">")
		}
	}
	return sb.String()
}

// explode turns a fixed-length string into one-byte pieces.
func (e *Exec) explode(s Str) ([]*Term, bool) {
	var out []*Term
	for _, p := range s.ps {
		switch p.k {
		case pcConc:
			for i := 0; i < len(p.s); i++ {
				out = append(out, e.c.Int(int64(p.s[i])))
			}
		case pcByte:
			out = append(out, p.t)
		default:
			return nil, false
		}
	}
	return out, true
}

func (e *Exec) implode(bs []*Term) Str {
	var parts []Str
	for _, b := range bs {
		if b.isConst() {
			parts = append(parts, cstr(string([]byte{byte(b.rat.Num().Int64())})))
		} else {
			parts = append(parts, Str{[]piece{{k: pcByte, t: b}}})
		}
	}
	return catStr(parts...)
}

// strTerm gives the SMT String term of a rope.
func (e *Exec) strTerm(s Str) *Term {
	var ts []*Term
	for _, p := range s.ps {
		switch p.k {
		case pcConc:
			ts = append(ts, e.c.Str(p.s))
		case pcByte:
			ts = append(ts, e.c.mk(&Term{op: OStrCode, sort: SStr, args: []*Term{p.t}}))
		case pcSym:
			ts = append(ts, p.t)
		case pcFmt:
			switch v := p.v.(type) {
			case *Term:
				ts = append(ts, e.c.Fn("fmt"+p.s+v.sort.String(), SStr, v))
			case Float:
				if v.k == fFin {
					ts = append(ts, e.c.Fn(fmt.Sprintf("fmtF%s.%d", p.s, p.prec), SStr, v.t))
				} else {
					ts = append(ts, e.c.Str([]string{"", "+Inf", "-Inf", "NaN"}[v.k]))
				}
			default:
				ts = append(ts, e.c.Fn("fmtOpaque"+p.s, SStr))
			}
		}
	}
	return e.c.StrCat(ts...)
}

func samePiece(a, b piece) bool {
	if a.k != b.k {
		return false
	}
	switch a.k {
	case pcConc:
		return a.s == b.s
	case pcByte, pcSym:
		return a.t == b.t
	}
	return a.s == b.s && a.prec == b.prec && sameValue(a.v, b.v)
}

// sameValue is syntactic identity.
func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Float:
		y, ok := b.(Float)
		return ok && x.k == y.k && (x.k != fFin || x.t == y.t)
	case Str:
		y, ok := b.(Str)
		if !ok || len(x.ps) != len(y.ps) {
			return false
		}
		for i := range x.ps {
			if !samePiece(x.ps[i], y.ps[i]) {
				return false
			}
		}
		return true
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.f {
			if !sameValue(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *Array:
		y, ok := b.(*Array)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.e {
			if !sameValue(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case Ptr:
		y, ok := b.(Ptr)
		return ok && samePtr(x, y)
	case Slice:
		y, ok := b.(Slice)
		return ok && samePtr(x.base, y.base) && x.off == y.off && x.len == y.len && x.cap == y.cap
	case MapRef:
		y, ok := b.(MapRef)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameValue(x.v, y.v)
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil || x.fn != y.fn || x.native != nil || y.native != nil || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !sameValue(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case *MapVal:
		y, ok := b.(*MapVal)
		if !ok || len(x.keys) != len(y.keys) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.keys {
			if !sameValue(x.keys[i], y.keys[i]) || !sameValue(x.vals[i], y.vals[i]) {
				return false
			}
		}
		return true
	case *Opaque:
		y, ok := b.(*Opaque)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.kind != y.kind || x.s != y.s || x.i != y.i || x.b != y.b || !samePtr(x.p, y.p) || len(x.vs) != len(y.vs) {
			return false
		}
		for i := range x.vs {
			if !sameValue(x.vs[i], y.vs[i]) {
				return false
			}
		}
		return true
	case Poison:
		_, ok := b.(Poison)
		return ok
	case nil:
		return b == nil
	}
	return false
}

// ---- zero values -----------------------------------------------------------

func (e *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.c.tFalse
		case u.Info()&types.IsInteger != 0:
			return e.c.Int(0)
		case u.Info()&types.IsFloat != 0:
			return Float{t: e.c.Real(0)}
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		}
		return Poison{"zero of " + t.String()}
	case *types.Struct:
		s := &Struct{make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = e.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 1<<16 {
			return Poison{"large array"}
		}
		a := &Array{make([]Value, n)}
		if n > 0 {
			z := e.zero(u.Elem())
			for i := range a.e {
				a.e[i] = z
			}
		}
		return a
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return Ptr{}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = e.zero(u.At(i).Type())
		}
		return tp
	}
	return Poison{"zero of " + t.String()}
}

// ---- state -----------------------------------------------------------------

type State struct {
	heap   map[int]Value
	hs     bool // heap map shared
	pc     []*Term
	known  map[int]bool
	ks     bool
	inputs []*Term
	flags  map[string]int
	fsh    bool
	dead   bool
	model  *Model
	panicV *PanicInfo // value visible to recover()
	unsure bool       // some feasibility answer on this path was unknown
}

func (st *State) clone() *State {
	n := *st
	st.hs, n.hs = true, true
	st.ks, n.ks = true, true
	st.fsh, n.fsh = true, true
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	st.pc = st.pc[:len(st.pc):len(st.pc)]
	n.inputs = st.inputs[:len(st.inputs):len(st.inputs)]
	st.inputs = st.inputs[:len(st.inputs):len(st.inputs)]
	return &n
}

func (st *State) setHeap(id int, v Value) {
	if st.hs {
		m := make(map[int]Value, len(st.heap)+8)
		for k, x := range st.heap {
			m[k] = x
		}
		st.heap = m
		st.hs = false
	}
	st.heap[id] = v
}

func (st *State) setFlag(k string, v int) {
	if st.fsh {
		m := make(map[string]int, len(st.flags)+2)
		for a, b := range st.flags {
			m[a] = b
		}
		st.flags = m
		st.fsh = false
	}
	st.flags[k] = v
}

func (st *State) setKnown(id int, v bool) {
	if st.ks {
		m := make(map[int]bool, len(st.known)+8)
		for k, x := range st.known {
			m[k] = x
		}
		st.known = m
		st.ks = false
	}
	st.known[id] = v
}

// Model is a concrete assignment used to shortcut feasibility checks.
type Model struct{ m map[string]*big.Rat }

type PanicInfo struct {
	msg string
	val Value
	pos string
}

// errors thrown by the interpreter via Go panics
type unsupportedErr struct{ why string }
type forkSignal struct{ cond *Term }
type goPanic struct{ info *PanicInfo }
type stopPath struct{}
type abortTask struct{ why string }

func unsupported(why string) { panic(unsupportedErr{why}) }

// ---- heap ------------------------------------------------------------------

func (e *Exec) alloc(st *State, v Value) Ptr {
	e.nobj++
	st.setHeap(e.nobj, v)
	return Ptr{obj: e.nobj}
}

func (e *Exec) heapGet(st *State, id int) Value {
	if v, ok := st.heap[id]; ok {
		return v
	}
	if v, ok := e.base[id]; ok {
		return v
	}
	unsupported(fmt.Sprintf("dangling object %d", id))
	return nil
}

func (e *Exec) load(st *State, p Ptr) Value {
	if p.isNil() {
		e.throw(st, "invalid memory address or nil pointer dereference")
	}
	v := e.heapGet(st, p.obj)
	for _, i := range p.path {
		switch x := v.(type) {
		case *Struct:
			v = x.f[i]
		case *Array:
			v = x.e[i]
		case Poison:
			unsupported("load through poison: " + x.why)
		default:
			unsupported(fmt.Sprintf("load path through %T", v))
		}
	}
	return v
}

func (e *Exec) store(st *State, p Ptr, v Value) {
	if p.isNil() {
		e.throw(st, "invalid memory address or nil pointer dereference")
	}
	if len(p.path) == 0 {
		st.setHeap(p.obj, v)
		return
	}
	st.setHeap(p.obj, updPath(e.heapGet(st, p.obj), p.path, v))
}

func updPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *Struct:
		f := make([]Value, len(x.f))
		copy(f, x.f)
		f[path[0]] = updPath(x.f[path[0]], path[1:], nv)
		return &Struct{f}
	case *Array:
		f := make([]Value, len(x.e))
		copy(f, x.e)
		f[path[0]] = updPath(x.e[path[0]], path[1:], nv)
		return &Array{f}
	}
	unsupported(fmt.Sprintf("store path through %T", v))
	return nil
}

func (e *Exec) sliceElems(st *State, s Slice) []Value {
	if s.len == 0 {
		return nil
	}
	a, ok := e.load(st, s.base).(*Array)
	if !ok {
		unsupported("slice backing is not an array")
	}
	return a.e[s.off : s.off+s.len]
}

func (e *Exec) newSlice(st *State, elems []Value, capa int, zero Value) Slice {
	if capa < len(elems) {
		capa = len(elems)
	}
	arr := make([]Value, capa)
	copy(arr, elems)
	for i := len(elems); i < capa; i++ {
		arr[i] = zero
	}
	p := e.alloc(st, &Array{arr})
	return Slice{base: p, off: 0, len: len(elems), cap: capa}
}

func (e *Exec) throw(st *State, msg string) {
	panic(goPanic{&PanicInfo{msg: "runtime error: " + msg}})
}

// ---- floats ----------------------------------------------------------------

func (e *Exec) fconst(f float64) Float {
	switch {
	case math.IsNaN(f):
		return Float{k: fNaN}
	case math.IsInf(f, 1):
		return Float{k: fPInf}
	case math.IsInf(f, -1):
		return Float{k: fNInf}
	}
	return Float{t: e.c.Real(f)}
}

// fconcrete returns the concrete float64 of v when it has one.
func fconcrete(v Float) (float64, bool) {
	switch v.k {
	case fPInf:
		return math.Inf(1), true
	case fNInf:
		return math.Inf(-1), true
	case fNaN:
		return math.NaN(), true
	}
	if v.t.isConst() {
		f, _ := v.t.rat.Float64()
		return f, true
	}
	return 0, false
}

// fround rounds the exact real value x to a bits-wide float.
func (e *Exec) fround(x *Term, bits int) Float { return e.froundOp(x, bits, true) }

// froundOp rounds; additions and subtractions of floats never underflow.
func (e *Exec) froundOp(x *Term, bits int, under bool) Float {
	if x.isConst() {
		if bits == 32 {
			f, _ := x.rat.Float32()
			return e.fconst(float64(f))
		}
		f, _ := x.rat.Float64()
		return e.fconst(f)
	}
	prec, u, tiny, mx := two53, ulp64, tiny64, maxF64
	if bits == 32 {
		prec, u, tiny, mx = two24, ulp32, tiny32, maxF32
	}
	if !under {
		tiny = ratZero
	}
	var m *big.Rat
	if x.lo != nil && x.hi != nil {
		m = maxRat(new(big.Rat).Abs(x.lo), new(big.Rat).Abs(x.hi))
		if m.Cmp(mx) > 0 {
			e.note("float overflow to infinity is outside the model (magnitudes assumed below the format's maximum)")
		}
		if x.grid >= 0 && x.grid < 1000 {
			sc := new(big.Rat).Mul(m, new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(x.grid))))
			if sc.Cmp(prec) <= 0 {
				return Float{t: x} // exactly representable
			}
		}
	} else {
		e.note("float overflow to infinity is outside the model (magnitudes assumed below the format's maximum)")
	}
	if bits == 64 && x.op == OVar && x.input || e.isRounded(x, bits) {
		return Float{t: x} // already a float of that width
	}
	e.inexact++
	if !e.opt.rounding {
		e.note("float arithmetic on this run uses exact real semantics where an operation is not exact on the input grid (rounding not modelled)")
		return Float{t: x}
	}
	name := fmt.Sprintf("rnd%d!%d", bits, x.id)
	if r, ok := e.rnd[name]; ok {
		return Float{t: r}
	}
	var lo, hi *big.Rat
	if m != nil {
		hi = new(big.Rat).Mul(m, u)
		hi.Add(hi, tiny)
		lo = new(big.Rat).Neg(hi)
	}
	d := e.c.Var(name, SReal, lo, hi, -1)
	// |d| <= u*|x| + tiny, piecewise linear
	c := e.c
	up := c.AddK(c.Scale(x, u), tiny)
	un := c.AddK(c.Scale(x, new(big.Rat).Neg(u)), tiny)
	rawLe := func(a, b *Term) *Term { return c.rawLe(a, b) }
	if x.lo != nil && x.lo.Sign() >= 0 {
		d.side = append(d.side, rawLe(d, up), rawLe(c.Neg(d), up))
	} else if x.hi != nil && x.hi.Sign() <= 0 {
		d.side = append(d.side, rawLe(d, un), rawLe(c.Neg(d), un))
	} else {
		neg := c.Lt0(x)
		d.side = append(d.side, c.Or(neg, c.And(rawLe(d, up), rawLe(c.Neg(d), up))),
			c.Or(c.Not(neg), c.And(rawLe(d, un), rawLe(c.Neg(d), un))))
	}
	r := c.Add(x, d)
	e.rnd[name] = r
	e.rounded[r.id] |= bits
	return Float{t: r}
}

func (e *Exec) isRounded(x *Term, bits int) bool {
	b := e.rounded[x.id]
	if b&bits != 0 {
		return true
	}
	return bits == 64 && b&32 != 0
}

// fadd .. fdiv: IEEE semantics on specials, rounded reals otherwise.
func (e *Exec) fadd(st *State, a, b Float, bits int) Float {
	if a.k == fFin && b.k == fFin {
		if x, ok := fconcrete(a); ok {
			if y, ok := fconcrete(b); ok {
				return e.fconstBits(x+y, bits, float64(float32(x)+float32(y)))
			}
			if x == 0 {
				return b
			}
		}
		if y, ok := fconcrete(b); ok && y == 0 {
			return a
		}
		return e.froundOp(e.c.Add(a.t, b.t), bits, false)
	}
	if a.k == fNaN || b.k == fNaN {
		return Float{k: fNaN}
	}
	if a.k == fFin {
		return b
	}
	if b.k == fFin || a.k == b.k {
		return a
	}
	return Float{k: fNaN}
}

func (e *Exec) fconstBits(f64 float64, bits int, f32 float64) Float {
	if bits == 32 {
		return e.fconst(f32)
	}
	return e.fconst(f64)
}

func (e *Exec) fneg(a Float) Float {
	switch a.k {
	case fPInf:
		return Float{k: fNInf}
	case fNInf:
		return Float{k: fPInf}
	case fNaN:
		return a
	}
	r := e.c.Neg(a.t)
	if e.isRounded(a.t, 32) {
		e.rounded[r.id] |= 32
	}
	if e.isRounded(a.t, 64) || a.t.op == OVar {
		e.rounded[r.id] |= 64
	}
	return Float{t: r}
}

func (e *Exec) fsub(st *State, a, b Float, bits int) Float {
	if a.k == fFin && b.k == fFin {
		if x, ok := fconcrete(a); ok {
			if y, ok := fconcrete(b); ok {
				return e.fconstBits(x-y, bits, float64(float32(x)-float32(y)))
			}
			if x == 0 {
				return e.fneg(b)
			}
		}
		if y, ok := fconcrete(b); ok && y == 0 {
			return a
		}
		return e.froundOp(e.c.Sub(a.t, b.t), bits, false)
	}
	return e.fadd(st, a, e.fneg(b), bits)
}

// fsign decides the sign of a finite value: -1, 0, 1 (forks when needed).
func (e *Exec) fsign(st *State, a Float) int {
	switch a.k {
	case fPInf:
		return 1
	case fNInf:
		return -1
	}
	if e.decide(st, e.c.Lt0(a.t)) {
		return -1
	}
	if e.decide(st, e.c.Eq(a.t, e.c.Real(0))) {
		return 0
	}
	return 1
}

func (e *Exec) fmul(st *State, a, b Float, bits int) Float {
	if a.k == fNaN || b.k == fNaN {
		return Float{k: fNaN}
	}
	if a.k == fFin && b.k == fFin {
		if x, ok := fconcrete(a); ok {
			if y, ok := fconcrete(b); ok {
				return e.fconstBits(x*y, bits, float64(float32(x)*float32(y)))
			}
			if x == 1 {
				return b
			}
			if x == -1 {
				return e.fneg(b)
			}
		}
		if y, ok := fconcrete(b); ok && y == 1 {
			return a
		} else if ok && y == -1 {
			return e.fneg(a)
		}
		return e.fround(e.c.Mul(a.t, b.t), bits)
	}
	s := e.fsign(st, a) * e.fsign(st, b)
	switch {
	case s > 0:
		return Float{k: fPInf}
	case s < 0:
		return Float{k: fNInf}
	}
	return Float{k: fNaN}
}

func (e *Exec) fdiv(st *State, a, b Float, bits int) Float {
	if a.k == fNaN || b.k == fNaN {
		return Float{k: fNaN}
	}
	if a.k != fFin && b.k != fFin {
		return Float{k: fNaN}
	}
	if a.k == fFin && b.k != fFin {
		return e.fconst(0)
	}
	if x, ok := fconcrete(a); ok {
		if y, ok := fconcrete(b); ok {
			return e.fconstBits(x/y, bits, float64(float32(x)/float32(y)))
		}
	}
	sb := 1
	if !b.t.isConst() {
		if e.decide(st, e.c.Eq(b.t, e.c.Real(0))) {
			sb = 0
		}
	} else if b.t.rat.Sign() == 0 {
		sb = 0
	}
	if sb == 0 {
		// sign of zero is not modelled: a zero divisor is +0
		e.note("sign of zero is not modelled (a zero divisor is treated as +0)")
		switch e.fsign(st, a) {
		case 1:
			return Float{k: fPInf}
		case -1:
			return Float{k: fNInf}
		}
		return Float{k: fNaN}
	}
	if a.k != fFin {
		if e.fsign(st, a)*e.fsign(st, b) > 0 {
			return Float{k: fPInf}
		}
		return Float{k: fNInf}
	}
	if b.t.isConst() {
		if b.t.rat.Cmp(ratOne) == 0 {
			return a
		}
		return e.fround(e.c.Scale(a.t, new(big.Rat).Inv(b.t.rat)), bits)
	}
	if a.t.isConst() && a.t.rat.Sign() == 0 {
		return a
	}
	if a.t == b.t {
		return e.fconst(1)
	}
	return e.fround(e.realDiv(a.t, b.t), bits)
}

// realDiv is the exact quotient a/b for b != 0.
func (e *Exec) realDiv(a, b *Term) *Term {
	name := fmt.Sprintf("quo!%d!%d", a.id, b.id)
	if q, ok := e.c.vars[name]; ok {
		return q
	}
	c := e.c
	var lo, hi *big.Rat
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil && (b.lo.Sign() > 0 || b.hi.Sign() < 0) {
		cands := []*big.Rat{}
		for _, x := range []*big.Rat{a.lo, a.hi} {
			for _, y := range []*big.Rat{b.lo, b.hi} {
				cands = append(cands, new(big.Rat).Quo(x, y))
			}
		}
		lo, hi = cands[0], cands[0]
		for _, q := range cands[1:] {
			lo, hi = minRat(lo, q), maxRat(hi, q)
		}
	} else if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		lo = ratZero
	}
	q := c.Var(name, SReal, lo, hi, -1)
	q.side = append(q.side, c.Or(c.Eq(b, c.Real(0)), c.Eq(c.Mul(q, b), a)))
	// sign facts help the solver and are implied
	if lo == nil && a.lo != nil && a.lo.Sign() >= 0 {
		q.side = append(q.side, c.Or(c.Le0(b), c.rawLe(c.Real(0), q)))
	}
	return q
}

// fcmp returns the Bool term for a op b.
func (e *Exec) fcmp(op string, a, b Float) *Term {
	c := e.c
	if a.k == fNaN || b.k == fNaN {
		return c.Bool(op == "!=")
	}
	if a.k == fFin && b.k == fFin {
		switch op {
		case "==":
			return c.Eq(a.t, b.t)
		case "!=":
			return c.Not(c.Eq(a.t, b.t))
		case "<":
			return c.Lt(a.t, b.t)
		case "<=":
			return c.Le(a.t, b.t)
		case ">":
			return c.Lt(b.t, a.t)
		case ">=":
			return c.Le(b.t, a.t)
		}
	}
	f := func(x Float) float64 {
		switch x.k {
		case fPInf:
			return math.Inf(1)
		case fNInf:
			return math.Inf(-1)
		}
		return 0
	}
	x, y := f(a), f(b)
	switch op {
	case "==":
		return c.Bool(x == y)
	case "!=":
		return c.Bool(x != y)
	case "<":
		return c.Bool(x < y)
	case "<=":
		return c.Bool(x <= y)
	case ">":
		return c.Bool(x > y)
	}
	return c.Bool(x >= y)
}
