package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT sort.
type Sort uint8

const (
	SBool Sort = iota
	SInt
	SReal
	SStr
)

func (s Sort) String() string { return [...]string{"Bool", "Int", "Real", "String"}[s] }

// Op is a term constructor.
type Op uint8

const (
	OConst Op = iota
	OVar
	OLin    // rat + sum coefs[i]*args[i] (Int or Real)
	OMul    // product of args (all non-constant)
	OIDiv   // SMT-LIB integer div
	OIMod   // SMT-LIB integer mod
	OToReal // Int -> Real
	OFloor  // Real -> Int (to_int)
	OIte
	OEq // args of any sort; numeric equality is normalised to args[0] = 0
	OLe // args[0] <= 0
	OLt // args[0] < 0
	ONot
	OAnd
	OOr
	OStrCat
	OStrLen
	OStrCode // string of length one from a code point (Int)
	OStrLt
	OFn // uninterpreted function application; str holds the name
)

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    Op
	sort  Sort
	args  []*Term
	rat   *big.Rat // numeric constant, or constant part of OLin
	coefs []*big.Rat
	str   string // var / fn name, or string constant
	b     bool   // bool constant
	lo    *big.Rat
	hi    *big.Rat
	grid  int // Real terms: value is a multiple of 2^-grid; -1 when unknown
	side  []*Term
	neg   *Term
	// display/replay information for input variables
	input bool
	size  int
}

// Ctx owns a table of terms.
type Ctx struct {
	tab    map[string]*Term
	n      int
	vars   map[string]*Term
	freshN int
	tTrue  *Term
	tFalse *Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, vars: map[string]*Term{}}
	c.tTrue = c.mk(&Term{op: OConst, sort: SBool, b: true})
	c.tFalse = c.mk(&Term{op: OConst, sort: SBool, b: false})
	c.tTrue.neg = c.tFalse
	c.tFalse.neg = c.tTrue
	return c
}

func (c *Ctx) key(t *Term) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d.%d", t.op, t.sort)
	if t.rat != nil {
		sb.WriteByte('r')
		sb.WriteString(t.rat.RatString())
	}
	if t.op == OConst && t.sort == SBool && t.b {
		sb.WriteByte('T')
	}
	if t.op == OConst && t.sort == SStr || t.op == OVar || t.op == OFn {
		sb.WriteByte('s')
		sb.WriteString(t.str)
		sb.WriteByte(0)
	}
	for i, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if t.coefs != nil {
			sb.WriteByte('*')
			sb.WriteString(t.coefs[i].RatString())
		}
	}
	return sb.String()
}

func (c *Ctx) mk(t *Term) *Term {
	k := c.key(t)
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.n++
	t.id = c.n
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if t.size > 1<<28 {
			t.size = 1 << 28
		}
	}
	c.attrs(t)
	c.tab[k] = t
	return t
}

func dyadicGrid(r *big.Rat) int {
	d := r.Denom()
	n := d.BitLen() - 1
	if n > 2000 {
		return -1
	}
	if new(big.Int).Lsh(big.NewInt(1), uint(n)).Cmp(d) == 0 {
		return n
	}
	return -1
}

func maxRat(a, b *big.Rat) *big.Rat {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}
func minRat(a, b *big.Rat) *big.Rat {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}

// attrs computes interval and grid information.
func (c *Ctx) attrs(t *Term) {
	if t.op != OVar {
		t.grid = -1
	}
	if t.sort != SInt && t.sort != SReal {
		return
	}
	switch t.op {
	case OConst:
		t.lo, t.hi = t.rat, t.rat
		t.grid = dyadicGrid(t.rat)
	case OLin:
		lo, hi := new(big.Rat).Set(t.rat), new(big.Rat).Set(t.rat)
		g := dyadicGrid(t.rat)
		for i, a := range t.args {
			k := t.coefs[i]
			al, ah := a.lo, a.hi
			if k.Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil {
				if al == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Rat).Mul(k, al))
				}
			}
			if hi != nil {
				if ah == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Rat).Mul(k, ah))
				}
			}
			kg := dyadicGrid(k)
			if a.grid < 0 || kg < 0 || g < 0 {
				g = -1
			} else if a.grid+kg > g {
				g = a.grid + kg
			}
		}
		t.lo, t.hi, t.grid = lo, hi, g
	case OMul:
		lo, hi := t.args[0].lo, t.args[0].hi
		g := t.args[0].grid
		for i, a := range t.args[1:] {
			if g >= 0 && a.grid >= 0 {
				g += a.grid
			} else {
				g = -1
			}
			if lo == nil || hi == nil || a.lo == nil || a.hi == nil {
				lo, hi = nil, nil
				continue
			}
			p := []*big.Rat{new(big.Rat).Mul(lo, a.lo), new(big.Rat).Mul(lo, a.hi), new(big.Rat).Mul(hi, a.lo), new(big.Rat).Mul(hi, a.hi)}
			lo, hi = p[0], p[0]
			for _, q := range p[1:] {
				lo, hi = minRat(lo, q), maxRat(hi, q)
			}
			if i == 0 && len(t.args) == 2 && t.args[0] == a && lo.Sign() < 0 {
				lo = new(big.Rat)
			}
		}
		t.lo, t.hi, t.grid = lo, hi, g
	case OIte:
		a, b := t.args[1], t.args[2]
		if a.lo != nil && b.lo != nil {
			t.lo = minRat(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = maxRat(a.hi, b.hi)
		}
		if a.grid >= 0 && b.grid >= 0 {
			t.grid = a.grid
			if b.grid > t.grid {
				t.grid = b.grid
			}
		}
	case OIDiv:
		d := t.args[1]
		if d.op == OConst && d.rat.Sign() > 0 {
			if a := t.args[0].lo; a != nil {
				t.lo = floorRat(new(big.Rat).Quo(a, d.rat))
			}
			if a := t.args[0].hi; a != nil {
				t.hi = floorRat(new(big.Rat).Quo(a, d.rat))
			}
		}
		t.grid = 0
	case OIMod:
		d := t.args[1]
		if d.hi != nil && d.lo != nil {
			m := maxRat(new(big.Rat).Abs(d.hi), new(big.Rat).Abs(d.lo))
			t.lo = new(big.Rat)
			t.hi = new(big.Rat).Sub(m, big.NewRat(1, 1))
			if d.op == OConst && d.rat.Sign() > 0 {
				if a := t.args[0]; a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(t.hi) < 0 {
					t.hi = a.hi
				}
			}
		}
		t.grid = 0
	case OToReal:
		t.lo, t.hi, t.grid = t.args[0].lo, t.args[0].hi, 0
	case OFloor:
		if a := t.args[0].lo; a != nil {
			t.lo = floorRat(a)
		}
		if a := t.args[0].hi; a != nil {
			t.hi = floorRat(a)
		}
		t.grid = 0
	case OStrLen:
		t.lo = new(big.Rat)
		t.hi = big.NewRat(1<<40, 1)
		t.grid = 0
	}
	if t.sort == SInt {
		t.grid = 0
	}
}

func floorRat(r *big.Rat) *big.Rat {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m) // Euclidean, denom > 0 -> floor
	return new(big.Rat).SetInt(q)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == SBool && t.b }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == SBool && !t.b }

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}
func (c *Ctx) Num(s Sort, r *big.Rat) *Term {
	return c.mk(&Term{op: OConst, sort: s, rat: r})
}
func (c *Ctx) Int(i int64) *Term { return c.Num(SInt, new(big.Rat).SetInt64(i)) }
func (c *Ctx) Real(f float64) *Term {
	r := new(big.Rat)
	if r.SetFloat64(f) == nil {
		panic("non-finite real constant")
	}
	return c.Num(SReal, r)
}
func (c *Ctx) Str(s string) *Term { return c.mk(&Term{op: OConst, sort: SStr, str: s}) }

// Var declares (or returns) a variable. Bounds may be nil.
func (c *Ctx) Var(name string, s Sort, lo, hi *big.Rat, grid int) *Term {
	if v, ok := c.vars[name]; ok {
		return v
	}
	t := &Term{op: OVar, sort: s, str: name, lo: lo, hi: hi, grid: grid}
	if s == SInt {
		t.grid = 0
	}
	t = c.mk(t)
	c.vars[name] = t
	if lo != nil {
		t.side = append(t.side, c.rawLe(c.Num(s, lo), t))
	}
	if hi != nil {
		t.side = append(t.side, c.rawLe(t, c.Num(s, hi)))
	}
	return t
}

// rawLe builds a <= b without interval-based simplification (used for the
// defining bounds of variables).
func (c *Ctx) rawLe(a, b *Term) *Term {
	d := c.Sub(a, b)
	if d.isConst() {
		return c.Bool(d.rat.Sign() <= 0)
	}
	return c.mk(&Term{op: OLe, sort: SBool, args: []*Term{d}})
}

func (c *Ctx) Fresh(prefix string, s Sort, lo, hi *big.Rat, grid int) *Term {
	c.freshN++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.freshN), s, lo, hi, grid)
}

type lin struct {
	k  *big.Rat
	at []*Term
	co []*big.Rat
}

func (c *Ctx) toLin(t *Term) lin {
	switch t.op {
	case OConst:
		return lin{k: t.rat}
	case OLin:
		return lin{t.rat, t.args, t.coefs}
	}
	return lin{new(big.Rat), []*Term{t}, []*big.Rat{big.NewRat(1, 1)}}
}

func (c *Ctx) fromLin(s Sort, k *big.Rat, m map[*Term]*big.Rat) *Term {
	var at []*Term
	for a, q := range m {
		if q.Sign() != 0 {
			at = append(at, a)
		}
	}
	if len(at) == 0 {
		return c.Num(s, k)
	}
	sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
	one := big.NewRat(1, 1)
	if len(at) == 1 && k.Sign() == 0 && m[at[0]].Cmp(one) == 0 {
		return at[0]
	}
	co := make([]*big.Rat, len(at))
	for i, a := range at {
		co[i] = m[a]
	}
	return c.mk(&Term{op: OLin, sort: s, rat: k, args: at, coefs: co})
}

func (c *Ctx) lincomb(s Sort, k *big.Rat, parts []lin, scales []*big.Rat) *Term {
	m := map[*Term]*big.Rat{}
	kk := new(big.Rat).Set(k)
	for i, p := range parts {
		kk.Add(kk, new(big.Rat).Mul(p.k, scales[i]))
		for j, a := range p.at {
			q := new(big.Rat).Mul(p.co[j], scales[i])
			if o, ok := m[a]; ok {
				q.Add(q, o)
			}
			m[a] = q
		}
	}
	return c.fromLin(s, kk, m)
}

var ratOne = big.NewRat(1, 1)
var ratNegOne = big.NewRat(-1, 1)
var ratZero = new(big.Rat)

func (c *Ctx) Add(a, b *Term) *Term {
	return c.lincomb(a.sort, ratZero, []lin{c.toLin(a), c.toLin(b)}, []*big.Rat{ratOne, ratOne})
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Num(a.sort, ratZero)
	}
	return c.lincomb(a.sort, ratZero, []lin{c.toLin(a), c.toLin(b)}, []*big.Rat{ratOne, ratNegOne})
}
func (c *Ctx) Scale(a *Term, k *big.Rat) *Term {
	return c.lincomb(a.sort, ratZero, []lin{c.toLin(a)}, []*big.Rat{k})
}
func (c *Ctx) Neg(a *Term) *Term { return c.Scale(a, ratNegOne) }
func (c *Ctx) AddK(a *Term, k *big.Rat) *Term {
	return c.lincomb(a.sort, k, []lin{c.toLin(a)}, []*big.Rat{ratOne})
}

func (c *Ctx) mulAtoms(a, b *Term) *Term {
	var fs []*Term
	if a.op == OMul {
		fs = append(fs, a.args...)
	} else {
		fs = append(fs, a)
	}
	if b.op == OMul {
		fs = append(fs, b.args...)
	} else {
		fs = append(fs, b)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return c.mk(&Term{op: OMul, sort: a.sort, args: fs})
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.Scale(b, a.rat)
	}
	if b.isConst() {
		return c.Scale(a, b.rat)
	}
	la, lb := c.toLin(a), c.toLin(b)
	na, nb := len(la.at), len(lb.at)
	if (na+1)*(nb+1) <= 36 {
		m := map[*Term]*big.Rat{}
		add := func(t *Term, q *big.Rat) {
			if q.Sign() == 0 {
				return
			}
			if o, ok := m[t]; ok {
				m[t] = new(big.Rat).Add(o, q)
			} else {
				m[t] = q
			}
		}
		for i, x := range la.at {
			add(x, new(big.Rat).Mul(la.co[i], lb.k))
			for j, y := range lb.at {
				add(c.mulAtoms(x, y), new(big.Rat).Mul(la.co[i], lb.co[j]))
			}
		}
		for j, y := range lb.at {
			add(y, new(big.Rat).Mul(lb.co[j], la.k))
		}
		return c.fromLin(a.sort, new(big.Rat).Mul(la.k, lb.k), m)
	}
	return c.mulAtoms(a, b)
}

// IDiv / IMod: SMT-LIB (floor for positive divisors) division.
func (c *Ctx) IDiv(a, b *Term) *Term {
	if b.isConst() && b.rat.Sign() != 0 {
		if b.rat.Cmp(ratOne) == 0 {
			return a
		}
		if a.isConst() {
			q, _ := euclid(a.rat.Num(), b.rat.Num())
			return c.Num(SInt, new(big.Rat).SetInt(q))
		}
		if b.rat.Sign() > 0 {
			// pull out multiples of the divisor
			if rem, quo, ok := c.splitMultiples(a, b.rat); ok {
				return c.Add(quo, c.IDiv(rem, b))
			}
			if a.lo != nil && a.hi != nil {
				fl, fh := floorRat(new(big.Rat).Quo(a.lo, b.rat)), floorRat(new(big.Rat).Quo(a.hi, b.rat))
				if fl.Cmp(fh) == 0 {
					return c.Num(SInt, fl)
				}
			}
		}
	}
	return c.mk(&Term{op: OIDiv, sort: SInt, args: []*Term{a, b}})
}

func (c *Ctx) splitMultiples(a *Term, d *big.Rat) (rem, quo *Term, ok bool) {
	if a.op != OLin {
		return nil, nil, false
	}
	rm, qm := map[*Term]*big.Rat{}, map[*Term]*big.Rat{}
	for i, x := range a.args {
		q := new(big.Rat).Quo(a.coefs[i], d)
		if q.IsInt() {
			qm[x] = q
			ok = true
		} else {
			rm[x] = a.coefs[i]
		}
	}
	kq := floorRat(new(big.Rat).Quo(a.rat, d))
	kr := new(big.Rat).Sub(a.rat, new(big.Rat).Mul(kq, d))
	if kq.Sign() != 0 {
		ok = true
	}
	if !ok {
		return nil, nil, false
	}
	return c.fromLin(SInt, kr, rm), c.fromLin(SInt, kq, qm), true
}

func (c *Ctx) IMod(a, b *Term) *Term {
	if b.isConst() && b.rat.Sign() != 0 {
		if a.isConst() {
			_, m := euclid(a.rat.Num(), b.rat.Num())
			return c.Num(SInt, new(big.Rat).SetInt(m))
		}
		if b.rat.Sign() > 0 {
			if rem, _, ok := c.splitMultiples(a, b.rat); ok {
				return c.IMod(rem, b)
			}
			if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.rat) < 0 {
				return a
			}
		}
	}
	return c.mk(&Term{op: OIMod, sort: SInt, args: []*Term{a, b}})
}

func euclid(a, b *big.Int) (*big.Int, *big.Int) {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m)
	return q, m
}

func (c *Ctx) ToReal(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Num(SReal, a.rat)
	case OLin:
		m := map[*Term]*big.Rat{}
		for i, x := range a.args {
			m[c.ToReal(x)] = a.coefs[i]
		}
		return c.fromLin(SReal, a.rat, m)
	case OIte:
		return c.Ite(a.args[0], c.ToReal(a.args[1]), c.ToReal(a.args[2]))
	}
	return c.mk(&Term{op: OToReal, sort: SReal, args: []*Term{a}})
}

func (c *Ctx) Floor(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Num(SInt, floorRat(a.rat))
	case OToReal:
		return a.args[0]
	case OIte:
		return c.Ite(a.args[0], c.Floor(a.args[1]), c.Floor(a.args[2]))
	case OLin:
		// floor of an integer-valued linear form
		allInt := a.rat.IsInt()
		for i, x := range a.args {
			if x.op != OToReal || !a.coefs[i].IsInt() {
				allInt = false
				break
			}
		}
		if allInt {
			m := map[*Term]*big.Rat{}
			for i, x := range a.args {
				m[x.args[0]] = a.coefs[i]
			}
			return c.fromLin(SInt, a.rat, m)
		}
	}
	return c.mk(&Term{op: OFloor, sort: SInt, args: []*Term{a}})
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isTrue() || a == b {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a.sort == SBool {
		if a.isTrue() && b.isFalse() {
			return g
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(g)
		}
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if g.op == ONot {
		return c.Ite(g.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == g {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == g {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(&Term{op: OIte, sort: a.sort, args: []*Term{g, a, b}})
}

func (c *Ctx) Not(a *Term) *Term {
	if a.neg != nil {
		return a.neg
	}
	var r *Term
	switch a.op {
	case ONot:
		r = a.args[0]
	case OLe: // l <= 0  ->  -l < 0
		r = c.Lt0(c.Neg(a.args[0]))
	case OLt:
		r = c.Le0(c.Neg(a.args[0]))
	case OAnd:
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = c.Not(x)
		}
		r = c.Or(xs...)
	case OOr:
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = c.Not(x)
		}
		r = c.And(xs...)
	default:
		r = c.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
	}
	a.neg = r
	if r.neg == nil {
		r.neg = a
	}
	return r
}

// scaleNorm divides a linear form by the absolute value of its leading
// coefficient (Real) or by the gcd of its coefficients (Int).
func (c *Ctx) scaleNorm(t *Term) *Term {
	if t.op != OLin {
		return t
	}
	if t.sort == SReal {
		k := new(big.Rat).Abs(t.coefs[0])
		if k.Cmp(ratOne) == 0 {
			return t
		}
		return c.Scale(t, new(big.Rat).Inv(k))
	}
	g := new(big.Int)
	for _, q := range t.coefs {
		if !q.IsInt() {
			return t
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(q.Num()))
	}
	if g.Cmp(big.NewInt(1)) == 0 {
		return t
	}
	return c.Scale(t, new(big.Rat).SetFrac(big.NewInt(1), g))
}

func (c *Ctx) Le0(t *Term) *Term {
	if t.isConst() {
		return c.Bool(t.rat.Sign() <= 0)
	}
	if t.hi != nil && t.hi.Sign() <= 0 {
		return c.tTrue
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return c.tFalse
	}
	t = c.scaleNorm(t)
	if t.sort == SInt && t.op == OLin && !t.rat.IsInt() {
		// sum + k <= 0  with integer sum  <=>  sum + ceil(k) <= 0
		k := new(big.Rat).Neg(floorRat(new(big.Rat).Neg(t.rat)))
		t = c.AddK(t, new(big.Rat).Sub(k, t.rat))
	}
	return c.mk(&Term{op: OLe, sort: SBool, args: []*Term{t}})
}

func (c *Ctx) Lt0(t *Term) *Term {
	if t.isConst() {
		return c.Bool(t.rat.Sign() < 0)
	}
	if t.hi != nil && t.hi.Sign() < 0 {
		return c.tTrue
	}
	if t.lo != nil && t.lo.Sign() >= 0 {
		return c.tFalse
	}
	if t.sort == SInt {
		return c.Le0(c.AddK(t, ratOne))
	}
	t = c.scaleNorm(t)
	return c.mk(&Term{op: OLt, sort: SBool, args: []*Term{t}})
}

func (c *Ctx) Le(a, b *Term) *Term { return c.Le0(c.Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.Lt0(c.Sub(a, b)) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	switch a.sort {
	case SBool:
		if a.isConst() {
			if a.b {
				return b
			}
			return c.Not(b)
		}
		if b.isConst() {
			return c.Eq(b, a)
		}
	case SInt, SReal:
		d := c.Sub(a, b)
		if d.isConst() {
			return c.Bool(d.rat.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return c.tFalse
		}
		d = c.scaleNorm(d)
		if d.op == OLin && d.coefs[0].Sign() < 0 {
			d = c.Neg(d)
		}
		if d.sort == SInt && d.op == OLin && !d.rat.IsInt() {
			return c.tFalse
		}
		return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{d}})
	case SStr:
		if a.isConst() && b.isConst() {
			return c.Bool(a.str == b.str)
		}
		// distribute over ite with constant branches
		if a.op == OIte && b.isConst() {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if b.op == OIte && a.isConst() {
			return c.Eq(b, a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func (c *Ctx) nary(op Op, xs []*Term) *Term {
	unit, zero := c.tTrue, c.tFalse
	if op == OOr {
		unit, zero = zero, unit
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero || (x.neg != nil && seen[x.neg]) {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	// complementary pair check also for not-yet-negated literals
	for _, x := range out {
		if n := c.Not(x); n.op != OAnd && n.op != OOr && seen[n] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, sort: SBool, args: out})
}

func (c *Ctx) And(xs ...*Term) *Term { return c.nary(OAnd, xs) }
func (c *Ctx) Or(xs ...*Term) *Term  { return c.nary(OOr, xs) }

func (c *Ctx) Abs(a *Term) *Term {
	if a.isConst() {
		return c.Num(a.sort, new(big.Rat).Abs(a.rat))
	}
	if a.lo != nil && a.lo.Sign() >= 0 {
		return a
	}
	if a.hi != nil && a.hi.Sign() <= 0 {
		return c.Neg(a)
	}
	return c.Ite(c.Lt0(a), c.Neg(a), a)
}

func (c *Ctx) StrCat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x.isConst() && x.str == "" {
			continue
		}
		if x.op == OStrCat {
			out = append(out, x.args...)
			continue
		}
		if x.isConst() && len(out) > 0 && out[len(out)-1].isConst() {
			out[len(out)-1] = c.Str(out[len(out)-1].str + x.str)
			continue
		}
		out = append(out, x)
	}
	if len(out) == 0 {
		return c.Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: OStrCat, sort: SStr, args: out})
}

func (c *Ctx) StrLen(a *Term) *Term {
	if a.isConst() {
		return c.Int(int64(len(a.str)))
	}
	return c.mk(&Term{op: OStrLen, sort: SInt, args: []*Term{a}})
}

func (c *Ctx) Fn(name string, s Sort, args ...*Term) *Term {
	return c.mk(&Term{op: OFn, sort: s, str: name, args: args})
}

// ---- float64 rounding model -------------------------------------------------

var two53 = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 53))
var ulp64 = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 53))
var ulp32 = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 24))
var tiny64 = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 1074))
var tiny32 = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 149))
var two24 = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 24))
var maxF64 = func() *big.Rat { r := new(big.Rat); r.SetFloat64(math.MaxFloat64); return r }()
var maxF32 = func() *big.Rat { r := new(big.Rat); r.SetFloat64(math.MaxFloat32); return r }()

func ratToF64(r *big.Rat) (float64, bool) {
	f, ex := r.Float64()
	return f, ex
}

func smtRat(r *big.Rat, s Sort) string {
	n, d := r.Num(), r.Denom()
	num := func(x *big.Int) string {
		t := new(big.Int).Abs(x).String()
		if s == SReal {
			t += ".0"
		}
		return t
	}
	var out string
	if d.Cmp(big.NewInt(1)) == 0 {
		out = num(n)
	} else {
		out = "(/ " + num(n) + " " + num(d) + ")"
	}
	if n.Sign() < 0 {
		out = "(- " + out + ")"
	}
	return out
}

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		b := s[i]
		if b == '"' {
			sb.WriteString(`""`)
		} else if b < 32 || b > 126 || b == '\\' {
			fmt.Fprintf(&sb, `\u{%x}`, b)
		} else {
			sb.WriteByte(b)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}
