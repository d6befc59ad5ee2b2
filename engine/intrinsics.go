package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SymBytes is a []byte whose text is a symbolic rope.
type SymBytes struct{ s Str }

type intrinsic func(e *Exec, st *State, fn *ssa.Function, args []Value) []Outcome

// simple wraps a function with a single outcome.
func simple(f func(e *Exec, st *State, a []Value) Value) intrinsic {
	return func(e *Exec, st *State, fn *ssa.Function, args []Value) []Outcome {
		for _, a := range args {
			if p, ok := a.(Poison); ok {
				unsupported("poison: " + p.why)
			}
		}
		return []Outcome{{st: st, val: f(e, st, args)}}
	}
}

var intrinsics map[string]intrinsic

func (e *Exec) findIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if fn.Pkg == nil && fn.Origin() == nil && fn.Synthetic != "" {
		// wrappers execute their body
		if in, ok := intrinsics[name]; ok {
			return in
		}
		return nil
	}
	in, ok := intrinsics[name]
	if ok {
		if !strings.Contains(name, "/zzverif/") {
			e.stubs[name] = true
		}
		return in
	}
	return nil
}

func ratF(f float64) *big.Rat {
	r := new(big.Rat)
	r.SetFloat64(f)
	return r
}

func (e *Exec) mkError(st *State, msg Str) Value {
	p := e.prog.ImportedPackage("errors")
	t := p.Type("errorString").Type()
	o := e.alloc(st, &Struct{[]Value{msg}})
	return Iface{t: types.NewPointer(t), v: o}
}

var nilErr = Iface{}

const symPkg = "github.com/vanclief/finmod/zzverif/sym"

func (e *Exec) input(st *State, v *Term) *Term {
	v.input = true
	for _, x := range st.inputs {
		if x == v {
			return v
		}
	}
	st.inputs = append(st.inputs[:len(st.inputs):len(st.inputs)], v)
	return v
}

func concF(v Value) float64 {
	f, ok := fconcrete(v.(Float))
	if !ok {
		unsupported("symbolic bound")
	}
	return f
}

func concI(v Value) int64 {
	t := v.(*Term)
	if !t.isConst() {
		unsupported("symbolic integer where a constant is required")
	}
	return t.rat.Num().Int64()
}

func init() {
	intrinsics = map[string]intrinsic{}
	S := func(n string, f func(e *Exec, st *State, a []Value) Value) {
		intrinsics[symPkg+"."+n] = simple(f)
	}
	R := func(n string, f func(e *Exec, st *State, a []Value) Value) { intrinsics[n] = simple(f) }

	// ---- harness API
	S("F64", func(e *Exec, st *State, a []Value) Value {
		n := a[0].(Str).mustConc("input name")
		lo, hi := concF(a[1]), concF(a[2])
		v := e.c.Var(n, SReal, ratF(lo), ratF(hi), -1)
		return Float{t: e.input(st, v)}
	})
	S("Grid", func(e *Exec, st *State, a []Value) Value {
		n := a[0].(Str).mustConc("input name")
		lo, hi, g := concF(a[1]), concF(a[2]), concI(a[3])
		v := e.c.Var(n, SReal, ratF(lo), ratF(hi), int(g))
		return Float{t: e.input(st, v)}
	})
	S("I64", func(e *Exec, st *State, a []Value) Value {
		n := a[0].(Str).mustConc("input name")
		v := e.c.Var(n, SInt, a[1].(*Term).rat, a[2].(*Term).rat, 0)
		return e.input(st, v)
	})
	intrinsics[symPkg+".Int"] = intrinsics[symPkg+".I64"]
	S("Choose", func(e *Exec, st *State, a []Value) Value {
		n := a[0].(Str).mustConc("input name")
		v := e.c.Var(n, SInt, ratZero, new(big.Rat).SetInt64(concI(a[1])-1), 0)
		e.input(st, v)
		return e.c.Int(int64(e.concretize(st, v, n)))
	})
	S("Bool", func(e *Exec, st *State, a []Value) Value {
		n := a[0].(Str).mustConc("input name")
		return e.input(st, e.c.Var(n, SBool, nil, nil, -1))
	})
	S("Str", func(e *Exec, st *State, a []Value) Value {
		n := a[0].(Str).mustConc("input name")
		v := e.input(st, e.c.Var(n, SStr, nil, nil, -1))
		return Str{[]piece{{k: pcSym, t: v}}}
	})
	// Text: a string of exactly n symbolic bytes
	S("Text", func(e *Exec, st *State, a []Value) Value {
		n := a[0].(Str).mustConc("input name")
		k, lo, hi := int(concI(a[1])), a[2].(*Term).rat, a[3].(*Term).rat
		var bs []*Term
		for i := 0; i < k; i++ {
			v := e.c.Var(fmt.Sprintf("%s.%d", n, i), SInt, lo, hi, 0)
			bs = append(bs, e.input(st, v))
		}
		return e.implode(bs)
	})
	S("N", func(e *Exec, st *State, a []Value) Value {
		return cstr(a[0].(Str).mustConc("name") + strconv.FormatInt(concI(a[1]), 10))
	})
	S("Param", func(e *Exec, st *State, a []Value) Value {
		n := a[0].(Str).mustConc("param")
		v, ok := e.params[n]
		if !ok {
			v = int(concI(a[1]))
		}
		return e.c.Int(int64(v))
	})
	S("Assume", func(e *Exec, st *State, a []Value) Value {
		t := a[0].(*Term)
		if v, ok := e.lookup(st, t); ok {
			if !v {
				panic(stopPath{})
			}
			return nil
		}
		if e.feasible(st, t) == Unsat {
			panic(stopPath{})
		}
		e.addPC(st, t)
		return nil
	})
	S("Assert", func(e *Exec, st *State, a []Value) Value {
		label := a[1].(Str).mustConc("label")
		e.assert(st, a[0].(*Term), label)
		return nil
	})
	S("Reach", func(e *Exec, st *State, a []Value) Value {
		label := a[0].(Str).mustConc("label")
		e.reached[label]++
		return nil
	})
	S("And", func(e *Exec, st *State, a []Value) Value { return e.c.And(e.boolArgs(st, a[0])...) })
	S("Or", func(e *Exec, st *State, a []Value) Value { return e.c.Or(e.boolArgs(st, a[0])...) })
	S("Imp", func(e *Exec, st *State, a []Value) Value { return e.c.Or(e.c.Not(a[0].(*Term)), a[1].(*Term)) })
	S("Iff", func(e *Exec, st *State, a []Value) Value { return e.c.Eq(a[0].(*Term), a[1].(*Term)) })
	S("IteF", func(e *Exec, st *State, a []Value) Value {
		x, y := a[1].(Float), a[2].(Float)
		if x.k != y.k {
			if e.decide(st, a[0].(*Term)) {
				return x
			}
			return y
		}
		if x.k != fFin {
			return x
		}
		r := e.c.Ite(a[0].(*Term), x.t, y.t)
		e.joinRounded(r, x.t, y.t)
		return Float{t: r}
	})
	S("IteI", func(e *Exec, st *State, a []Value) Value {
		return e.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	// exact real arithmetic for specifications
	S("Add", func(e *Exec, st *State, a []Value) Value {
		return e.exact2(a, func(x, y *Term) *Term { return e.c.Add(x, y) }, func(x, y float64) float64 { return x + y })
	})
	S("Sub", func(e *Exec, st *State, a []Value) Value {
		return e.exact2(a, func(x, y *Term) *Term { return e.c.Sub(x, y) }, func(x, y float64) float64 { return x - y })
	})
	S("Mul", func(e *Exec, st *State, a []Value) Value {
		return e.exact2(a, func(x, y *Term) *Term { return e.c.Mul(x, y) }, func(x, y float64) float64 { return x * y })
	})
	S("Near", func(e *Exec, st *State, a []Value) Value {
		x, y, tol := a[0].(Float), a[1].(Float), a[2].(Float)
		if x.k != fFin || y.k != fFin {
			return e.c.Bool(x.k == y.k)
		}
		d := e.c.Sub(x.t, y.t)
		if !e.opt.rounding && !d.isConst() {
			// without rounding the two are mostly equal, which is simpler to prove
			ne := e.c.Not(e.c.Eq(x.t, y.t))
			if v, ok := e.lookup(st, ne); ok && !v || e.feasible(st, ne) == Unsat {
				return e.c.Bool(true) // tolerances are never negative
			}
		}
		if d.isConst() && d.rat.Sign() == 0 {
			return e.c.Bool(true)
		}
		return e.c.And(e.c.Le(d, tol.t), e.c.Le(e.c.Neg(d), tol.t))
	})
	S("IsFinite", func(e *Exec, st *State, a []Value) Value { return e.c.Bool(a[0].(Float).k == fFin) })
	S("SetLocalOffset", func(e *Exec, st *State, a []Value) Value {
		st.setHeap(e.locLocal, &Opaque{kind: "loc", s: "Local", vs: []Value{a[0]}})
		return nil
	})
	S("Path", func(e *Exec, st *State, a []Value) Value {
		return cstr("/sym/" + a[0].(Str).mustConc("path"))
	})
	intrinsics[symPkg+".Catch"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) []Outcome {
		outs := e.invoke(st, args[0], nil)
		var res []Outcome
		for _, o := range outs {
			p := o.pan != nil
			if p {
				e.reached["panic:"+o.pan.msg]++
			}
			res = append(res, Outcome{st: o.st, val: e.c.Bool(p)})
		}
		return res
	}

	intrinsics[symPkg+".Capture"] = func(e *Exec, st *State, fn *ssa.Function, args []Value) []Outcome {
		e.fsPut(st, captured, Str{})
		outs := e.invoke(st, args[0], nil)
		for i, o := range outs {
			if o.pan == nil {
				s, _ := e.fsGet(o.st, captured)
				outs[i].val = s
			}
		}
		return outs
	}

	// ---- math
	R("math.Abs", func(e *Exec, st *State, a []Value) Value {
		x := a[0].(Float)
		switch x.k {
		case fNInf:
			return Float{k: fPInf}
		case fPInf, fNaN:
			return x
		}
		r := e.c.Abs(x.t)
		e.joinRounded(r, x.t, x.t)
		return Float{t: r}
	})
	minmax := func(isMin bool) func(e *Exec, st *State, a []Value) Value {
		return func(e *Exec, st *State, a []Value) Value {
			x, y := a[0].(Float), a[1].(Float)
			lo, hi := fNInf, fPInf
			if !isMin {
				lo, hi = fPInf, fNInf
			}
			switch {
			case x.k == lo || y.k == lo:
				return Float{k: lo}
			case x.k == fNaN || y.k == fNaN:
				return Float{k: fNaN}
			case x.k == hi:
				return y
			case y.k == hi:
				return x
			}
			g := e.c.Le(x.t, y.t)
			if !isMin {
				g = e.c.Le(y.t, x.t)
			}
			r := e.c.Ite(g, x.t, y.t)
			e.joinRounded(r, x.t, y.t)
			return Float{t: r}
		}
	}
	R("math.Min", minmax(true))
	R("math.Max", minmax(false))
	rnd := func(f func(e *Exec, t *Term) *Term) func(e *Exec, st *State, a []Value) Value {
		return func(e *Exec, st *State, a []Value) Value {
			x := a[0].(Float)
			if x.k != fFin {
				return x
			}
			r := e.c.ToReal(f(e, x.t))
			e.rounded[r.id] |= 64
			return Float{t: r}
		}
	}
	R("math.Floor", rnd(func(e *Exec, t *Term) *Term { return e.c.Floor(t) }))
	R("math.Ceil", rnd(func(e *Exec, t *Term) *Term { return e.c.Neg(e.c.Floor(e.c.Neg(t))) }))
	R("math.Trunc", rnd(func(e *Exec, t *Term) *Term { return e.truncReal(t) }))
	R("math.Round", rnd(func(e *Exec, t *Term) *Term {
		h := big.NewRat(1, 2)
		up := e.c.Floor(e.c.AddK(t, h))
		dn := e.c.Neg(e.c.Floor(e.c.AddK(e.c.Neg(t), h)))
		return e.c.Ite(e.c.Lt0(t), dn, up)
	}))
	R("math.IsNaN", func(e *Exec, st *State, a []Value) Value { return e.c.Bool(a[0].(Float).k == fNaN) })
	R("math.IsInf", func(e *Exec, st *State, a []Value) Value {
		k := a[0].(Float).k
		s := concI(a[1])
		return e.c.Bool(k == fPInf && s >= 0 || k == fNInf && s <= 0)
	})
	R("math.Inf", func(e *Exec, st *State, a []Value) Value {
		if concI(a[0]) >= 0 {
			return Float{k: fPInf}
		}
		return Float{k: fNInf}
	})
	R("math.NaN", func(e *Exec, st *State, a []Value) Value { return Float{k: fNaN} })
	R("math.Signbit", func(e *Exec, st *State, a []Value) Value {
		x := a[0].(Float)
		if x.k != fFin {
			return e.c.Bool(x.k == fNInf)
		}
		return e.c.Lt0(x.t)
	})
	R("math.FMA", func(e *Exec, st *State, a []Value) Value {
		x, y, z := a[0].(Float), a[1].(Float), a[2].(Float)
		if x.k != fFin || y.k != fFin || z.k != fFin {
			unsupported("FMA on special values")
		}
		return e.fround(e.c.Add(e.c.Mul(x.t, y.t), z.t), 64)
	})
	R("math.Mod", func(e *Exec, st *State, a []Value) Value {
		x, y := a[0].(Float), a[1].(Float)
		if xf, ok := fconcrete(x); ok {
			if yf, ok := fconcrete(y); ok {
				return e.fconst(math.Mod(xf, yf))
			}
		}
		if x.k != fFin || y.k != fFin || !y.t.isConst() || y.t.rat.Sign() == 0 {
			unsupported("math.Mod on symbolic divisor")
		}
		m := new(big.Rat).Abs(y.t.rat)
		q := e.truncReal(e.c.Scale(x.t, new(big.Rat).Inv(m)))
		r := e.c.Sub(x.t, e.c.Scale(e.c.ToReal(q), m))
		e.rounded[r.id] |= 64
		return Float{t: r}
	})
	R("math.Pow", func(e *Exec, st *State, a []Value) Value {
		x, y := a[0].(Float), a[1].(Float)
		xf, ok1 := fconcrete(x)
		yf, ok2 := fconcrete(y)
		if ok1 && ok2 {
			return e.fconst(math.Pow(xf, yf))
		}
		if ok2 && yf == math.Trunc(yf) && yf >= 0 && yf <= 8 && x.k == fFin {
			r := e.fconst(1)
			for i := 0; i < int(yf); i++ {
				r = e.fmul(st, r, x, 64)
			}
			e.note("math.Pow with a small integer exponent is modelled as repeated multiplication")
			return r
		}
		unsupported("math.Pow")
		return nil
	})
	R("math.Sqrt", func(e *Exec, st *State, a []Value) Value {
		if f, ok := fconcrete(a[0].(Float)); ok {
			return e.fconst(math.Sqrt(f))
		}
		unsupported("math.Sqrt")
		return nil
	})
	R("math.Float64bits", func(e *Exec, st *State, a []Value) Value {
		if f, ok := fconcrete(a[0].(Float)); ok {
			return e.c.Num(SInt, new(big.Rat).SetInt(new(big.Int).SetUint64(math.Float64bits(f))))
		}
		unsupported("math.Float64bits of a symbolic value")
		return nil
	})
	R("math.Float64frombits", func(e *Exec, st *State, a []Value) Value {
		t := a[0].(*Term)
		if t.isConst() {
			return e.fconst(math.Float64frombits(t.rat.Num().Uint64()))
		}
		unsupported("math.Float64frombits of a symbolic value")
		return nil
	})

	// ---- identifiers
	R("github.com/rs/xid.New", func(e *Exec, st *State, a []Value) Value {
		n := st.flags["xid"]
		st.setFlag("xid", n+1)
		vs := make([]Value, 12)
		for i := range vs {
			vs[i] = e.c.Int(int64((n + 1) >> (8 * (11 - i)) & 255))
			if 8*(11-i) > 24 {
				vs[i] = e.c.Int(0)
			}
		}
		e.note("identifier generator (xid.New) is modelled as returning pairwise distinct 20-character identifiers")
		return &Array{vs}
	})
	R("(github.com/rs/xid.ID).String", func(e *Exec, st *State, a []Value) Value {
		n := int64(0)
		for _, b := range a[0].(*Array).e {
			n = n<<8 | concI(b)
		}
		return cstr(fmt.Sprintf("xid%017d", n))
	})

	// ---- errors
	R("errors.Is", func(e *Exec, st *State, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		for i := 0; i < 20; i++ {
			if x.t == nil {
				return e.c.Bool(y.t == nil)
			}
			if y.t != nil && types.Identical(x.t, y.t) && types.Comparable(x.t) {
				if e.decide(st, e.eqVal(st, x.v, y.v)) {
					return e.c.tTrue
				}
			}
			m := e.methodOf(x.t, "Unwrap")
			if m == nil {
				return e.c.tFalse
			}
			r, ok := e.callSub(st, &Closure{fn: m}, []Value{x.v}).(Iface)
			if !ok || r.t == nil {
				return e.c.tFalse
			}
			x = r
		}
		return e.c.tFalse
	})

	initStrings(R)
	initTime(R)
	initIO(R)
	initSort()
	initSync(R)
	initJSON(R)
}

func (e *Exec) exact2(a []Value, f func(x, y *Term) *Term, g func(x, y float64) float64) Value {
	x, y := a[0].(Float), a[1].(Float)
	if x.k == fFin && y.k == fFin {
		return Float{t: f(x.t, y.t)}
	}
	conv := func(v Float) float64 {
		switch v.k {
		case fPInf:
			return math.Inf(1)
		case fNInf:
			return math.Inf(-1)
		case fNaN:
			return math.NaN()
		}
		return 1
	}
	return e.fconst(g(conv(x), conv(y)))
}

func (e *Exec) boolArgs(st *State, v Value) []*Term {
	var ts []*Term
	for _, x := range e.sliceElems(st, v.(Slice)) {
		ts = append(ts, x.(*Term))
	}
	return ts
}

func (e *Exec) methodOf(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return e.prog.MethodValue(s)
		}
	}
	return nil
}

// assert checks one property assertion on this path.
func (e *Exec) assert(st *State, cond *Term, label string) {
	e.Asserts++
	e.reached["assert:"+label]++
	if cond.isTrue() {
		e.Trivial++
		return
	}
	if v, ok := e.lookup(st, cond); ok && v {
		e.Discharged++
		return
	}
	if e.onAssert != nil {
		if !e.onAssert(st, cond, label) {
			panic(stopPath{})
		}
	}
	// continue under the assertion
	if v, ok := e.lookup(st, cond); ok {
		if !v {
			panic(stopPath{})
		}
		return
	}
	if e.feasible(st, cond) == Unsat {
		panic(stopPath{})
	}
	e.addPC(st, cond)
}

func initSync(R func(string, func(e *Exec, st *State, a []Value) Value)) {
	nop := func(e *Exec, st *State, a []Value) Value { return nil }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"runtime.KeepAlive", "runtime.GC"} {
		R(n, nop)
	}
	R("(*sync.Once).Do", func(e *Exec, st *State, a []Value) Value {
		p := a[0].(Ptr)
		key := fmt.Sprintf("once:%d%v", p.obj, p.path)
		if st.flags[key] != 0 {
			return nil
		}
		st.setFlag(key, 1)
		return e.callSub(st, a[1], nil)
	})
}
