package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"
)

const unixToInternal = 62135596800

// time.Time values: f[0] nanoseconds, f[1] seconds since year 1, f[2] location.

func (e *Exec) mkTime(nsec, sec *Term, loc Value) Value { return &Struct{[]Value{nsec, sec, loc}} }

func (e *Exec) timeParts(v Value) (nsec, sec *Term, loc Ptr) {
	s, ok := v.(*Struct)
	if !ok {
		unsupported(fmt.Sprintf("time value %T", v))
	}
	return s.f[0].(*Term), s.f[1].(*Term), s.f[2].(Ptr)
}

// locOffset is the zone offset in seconds at a time in seconds since year 1.
func (e *Exec) locOffset(st *State, loc Ptr, sec *Term) *Term {
	if loc.isNil() {
		return e.c.Int(0)
	}
	if tp := e.prog.ImportedPackage("time"); tp != nil {
		if g := tp.Var("utcLoc"); g != nil && e.globals[g] == loc.obj {
			return e.c.Int(0)
		}
		if g := tp.Var("localLoc"); g != nil && e.globals[g] == loc.obj {
			loc = Ptr{obj: e.locLocal}
		}
	}
	o, ok := e.load(st, loc).(*Opaque)
	if ok && o.kind == "zone" {
		return e.zoneOffset(o.s, sec)
	}
	if !ok || o.kind != "loc" {
		unsupported("time zone")
	}
	return o.vs[0].(*Term)
}

// zoneOffset is the offset of a named zone, a choice between the periods of
// the zone that the bounds of the time allow.
func (e *Exec) zoneOffset(name string, sec *Term) *Term {
	l, err := time.LoadLocation(name)
	if err != nil || sec == nil || sec.lo == nil || sec.hi == nil {
		unsupported("zone " + name + " at an unbounded time")
	}
	unix := func(r *big.Rat) int64 { return new(big.Int).Quo(r.Num(), r.Denom()).Int64() - unixToInternal }
	t := time.Unix(unix(sec.lo)-1, 0).In(l)
	last := unix(sec.hi) + 1
	var ends []int64
	var offs []int
	for {
		_, off := t.Zone()
		_, end := t.ZoneBounds()
		ends, offs = append(ends, end.Unix()), append(offs, off)
		if end.IsZero() || end.Unix() > last {
			break
		}
		if len(ends) > 600 {
			unsupported("zone " + name + " over a very long time")
		}
		t = end
	}
	res := e.c.Int(int64(offs[len(offs)-1]))
	for i := len(offs) - 2; i >= 0; i-- {
		res = e.c.Ite(e.c.Lt(sec, e.c.Int(ends[i]+unixToInternal)), e.c.Int(int64(offs[i])), res)
	}
	return res
}

func (e *Exec) unixSec(v Value) *Term {
	_, sec, _ := e.timeParts(v)
	return e.c.AddK(sec, big.NewRat(-unixToInternal, 1))
}

func (e *Exec) localSec(st *State, v Value) *Term {
	_, sec, loc := e.timeParts(v)
	return e.c.Add(sec, e.locOffset(st, loc, sec))
}

func (e *Exec) concTime(st *State, v Value) (time.Time, bool) {
	n, s, loc := e.timeParts(v)
	off := e.locOffset(st, loc, s)
	if !n.isConst() || !s.isConst() || !off.isConst() {
		return time.Time{}, false
	}
	t := time.Unix(s.rat.Num().Int64()-unixToInternal, n.rat.Num().Int64())
	if off.rat.Sign() == 0 {
		return t.UTC(), true
	}
	return t.In(time.FixedZone("", int(off.rat.Num().Int64()))), true
}

func (e *Exec) mkUnix(sec, nsec *Term) Value {
	c := e.c
	k := c.Int(1000000000)
	if !(nsec.isConst() && nsec.rat.Sign() == 0) {
		sec = c.Add(sec, c.IDiv(nsec, k))
		nsec = c.IMod(nsec, k)
	}
	return e.mkTime(nsec, c.AddK(sec, big.NewRat(unixToInternal, 1)), Ptr{obj: e.locLocal})
}

func (e *Exec) nanos(v Value) *Term {
	n, s, _ := e.timeParts(v)
	return e.c.Add(e.c.Scale(s, big.NewRat(1000000000, 1)), n)
}

func initTime(R func(string, func(e *Exec, st *State, a []Value) Value)) {
	R("time.Now", func(e *Exec, st *State, a []Value) Value {
		k := st.flags["now"]
		st.setFlag("now", k+1)
		mk := func(i int) *Term {
			return e.c.Var(fmt.Sprintf("now!%d", i), SInt, big.NewRat(1600000000, 1), big.NewRat(4000000000, 1), 0)
		}
		v := mk(k)
		if k > 0 {
			e.addPC(st, e.c.Le(mk(k-1), v))
		}
		e.note("the wall clock never runs backwards (time.Now is modelled as a nondecreasing sequence)")
		return e.mkUnix(v, e.c.Int(0))
	})
	R("time.Unix", func(e *Exec, st *State, a []Value) Value { return e.mkUnix(a[0].(*Term), a[1].(*Term)) })
	R("time.UnixMilli", func(e *Exec, st *State, a []Value) Value {
		k := e.c.Int(1000)
		return e.mkUnix(e.c.IDiv(a[0].(*Term), k), e.c.Scale(e.c.IMod(a[0].(*Term), k), big.NewRat(1000000, 1)))
	})
	R("(time.Time).Unix", func(e *Exec, st *State, a []Value) Value { return e.unixSec(a[0]) })
	R("(time.Time).UnixNano", func(e *Exec, st *State, a []Value) Value {
		n, _, _ := e.timeParts(a[0])
		return e.c.Add(e.c.Scale(e.unixSec(a[0]), big.NewRat(1000000000, 1)), n)
	})
	R("(time.Time).UnixMilli", func(e *Exec, st *State, a []Value) Value {
		n, _, _ := e.timeParts(a[0])
		return e.c.Add(e.c.Scale(e.unixSec(a[0]), big.NewRat(1000, 1)), e.c.IDiv(n, e.c.Int(1000000)))
	})
	R("(time.Time).Nanosecond", func(e *Exec, st *State, a []Value) Value {
		n, _, _ := e.timeParts(a[0])
		return n
	})
	R("(time.Time).Second", func(e *Exec, st *State, a []Value) Value {
		return e.c.IMod(e.localSec(st, a[0]), e.c.Int(60))
	})
	R("(time.Time).Minute", func(e *Exec, st *State, a []Value) Value {
		return e.c.IMod(e.c.IDiv(e.localSec(st, a[0]), e.c.Int(60)), e.c.Int(60))
	})
	R("(time.Time).Hour", func(e *Exec, st *State, a []Value) Value {
		return e.c.IMod(e.c.IDiv(e.localSec(st, a[0]), e.c.Int(3600)), e.c.Int(24))
	})
	R("(time.Time).Weekday", func(e *Exec, st *State, a []Value) Value {
		// January 1 of year 1 was a Monday
		d := e.c.IDiv(e.localSec(st, a[0]), e.c.Int(86400))
		return e.c.IMod(e.c.AddK(d, ratOne), e.c.Int(7))
	})
	cal := func(f func(t time.Time) int, g func(y, m, d *Term) *Term) func(e *Exec, st *State, a []Value) Value {
		return func(e *Exec, st *State, a []Value) Value {
			if t, ok := e.concTime(st, a[0]); ok {
				return e.c.Int(int64(f(t)))
			}
			if g == nil {
				unsupported("calendar field of a symbolic time")
			}
			return g(e.civil(st, a[0]))
		}
	}
	R("(time.Time).Year", cal(func(t time.Time) int { return t.Year() }, func(y, m, d *Term) *Term { return y }))
	R("(time.Time).Month", cal(func(t time.Time) int { return int(t.Month()) }, func(y, m, d *Term) *Term { return m }))
	R("(time.Time).Day", cal(func(t time.Time) int { return t.Day() }, func(y, m, d *Term) *Term { return d }))
	R("(time.Time).YearDay", cal(func(t time.Time) int { return t.YearDay() }, nil))
	R("(time.Time).Date", func(e *Exec, st *State, a []Value) Value {
		y, m, d := e.civil(st, a[0])
		return Tuple{y, m, d}
	})
	R("(time.Time).Clock", func(e *Exec, st *State, a []Value) Value {
		s := e.localSec(st, a[0])
		return Tuple{e.c.IMod(e.c.IDiv(s, e.c.Int(3600)), e.c.Int(24)), e.c.IMod(e.c.IDiv(s, e.c.Int(60)), e.c.Int(60)), e.c.IMod(s, e.c.Int(60))}
	})
	R("(time.Time).Zone", func(e *Exec, st *State, a []Value) Value {
		_, sec, loc := e.timeParts(a[0])
		off := e.locOffset(st, loc, sec)
		return Tuple{Str{[]piece{{k: pcFmt, s: "zone", v: off, prec: -1}}}, off}
	})
	with := func(f func(e *Exec, a []Value) Value) func(e *Exec, st *State, a []Value) Value {
		return func(e *Exec, st *State, a []Value) Value {
			n, s, _ := e.timeParts(a[0])
			return e.mkTime(n, s, f(e, a))
		}
	}
	R("(time.Time).UTC", with(func(e *Exec, a []Value) Value { return Ptr{obj: e.locUTC} }))
	R("(time.Time).Local", with(func(e *Exec, a []Value) Value { return Ptr{obj: e.locLocal} }))
	intrinsics["(time.Time).In"] = simple(func(e *Exec, st *State, a []Value) Value {
		if a[1].(Ptr).isNil() {
			e.throw(st, "time: missing Location in call to Time.In")
		}
		n, s, _ := e.timeParts(a[0])
		return e.mkTime(n, s, a[1])
	})
	R("(time.Time).Location", func(e *Exec, st *State, a []Value) Value {
		_, _, l := e.timeParts(a[0])
		if l.isNil() {
			return Ptr{obj: e.locUTC}
		}
		return l
	})
	R("(time.Time).Round", func(e *Exec, st *State, a []Value) Value {
		d := a[1].(*Term)
		if d.isConst() && d.rat.Sign() <= 0 {
			return a[0]
		}
		unsupported("Time.Round")
		return nil
	})
	R("(time.Time).Truncate", func(e *Exec, st *State, a []Value) Value {
		d := a[1].(*Term)
		if !d.isConst() {
			unsupported("Time.Truncate")
		}
		if d.rat.Sign() <= 0 {
			return a[0]
		}
		_, _, loc := e.timeParts(a[0])
		ns := e.nanos(a[0])
		t := e.c.Sub(ns, e.c.IMod(ns, d))
		k := e.c.Int(1000000000)
		return e.mkTime(e.c.IMod(t, k), e.c.IDiv(t, k), loc)
	})
	R("(time.Time).Add", func(e *Exec, st *State, a []Value) Value {
		n, s, loc := e.timeParts(a[0])
		k := e.c.Int(1000000000)
		t := e.c.Add(n, a[1].(*Term))
		return e.mkTime(e.c.IMod(t, k), e.c.Add(s, e.c.IDiv(t, k)), loc)
	})
	R("(time.Time).Sub", func(e *Exec, st *State, a []Value) Value {
		return e.c.Sub(e.nanos(a[0]), e.nanos(a[1]))
	})
	R("(time.Time).Equal", func(e *Exec, st *State, a []Value) Value { return e.c.Eq(e.nanos(a[0]), e.nanos(a[1])) })
	R("(time.Time).Before", func(e *Exec, st *State, a []Value) Value { return e.c.Lt(e.nanos(a[0]), e.nanos(a[1])) })
	R("(time.Time).After", func(e *Exec, st *State, a []Value) Value { return e.c.Lt(e.nanos(a[1]), e.nanos(a[0])) })
	R("(time.Time).IsZero", func(e *Exec, st *State, a []Value) Value {
		return e.c.Eq(e.nanos(a[0]), e.c.Int(0))
	})
	R("(time.Time).Format", func(e *Exec, st *State, a []Value) Value {
		if t, ok := e.concTime(st, a[0]); ok {
			return cstr(t.Format(a[1].(Str).mustConc("layout")))
		}
		return Str{[]piece{{k: pcFmt, s: "time:" + a[1].(Str).mustConc("layout"), v: e.nanos(a[0]), prec: -1}}}
	})
	R("(time.Time).String", func(e *Exec, st *State, a []Value) Value {
		if t, ok := e.concTime(st, a[0]); ok {
			return cstr(t.String())
		}
		return Str{[]piece{{k: pcFmt, s: "time", v: e.nanos(a[0]), prec: -1}}}
	})
	R("(time.Duration).Minutes", func(e *Exec, st *State, a []Value) Value {
		return e.fround(e.c.Scale(e.c.ToReal(a[0].(*Term)), big.NewRat(1, 60000000000)), 64)
	})
	R("(time.Duration).Seconds", func(e *Exec, st *State, a []Value) Value {
		return e.fround(e.c.Scale(e.c.ToReal(a[0].(*Term)), big.NewRat(1, 1000000000)), 64)
	})
	R("(time.Duration).Hours", func(e *Exec, st *State, a []Value) Value {
		return e.fround(e.c.Scale(e.c.ToReal(a[0].(*Term)), big.NewRat(1, 3600000000000)), 64)
	})
	R("time.FixedZone", func(e *Exec, st *State, a []Value) Value {
		return e.alloc(st, &Opaque{kind: "loc", s: a[0].(Str).String(), vs: []Value{a[1]}})
	})
	R("time.LoadLocation", func(e *Exec, st *State, a []Value) Value {
		switch n := a[0].(Str).mustConc("zone name"); n {
		case "", "UTC":
			return Tuple{Ptr{obj: e.locUTC}, nilErr}
		case "Local":
			return Tuple{Ptr{obj: e.locLocal}, nilErr}
		default:
			if _, err := time.LoadLocation(n); err != nil {
				return Tuple{Ptr{}, e.mkError(st, cstr(err.Error()))}
			}
			e.note("the offsets of named time zones are those of the zone database of this machine")
			return Tuple{e.alloc(st, &Opaque{kind: "zone", s: n}), nilErr}
		}
	})
	R("time.Date", func(e *Exec, st *State, a []Value) Value {
		c := e.c
		mi := e.concretize(st, a[1].(*Term), "month")
		y := a[0].(*Term)
		for ; mi < 1; mi += 12 {
			y = c.AddK(y, ratNegOne)
		}
		for ; mi > 12; mi -= 12 {
			y = c.AddK(y, ratOne)
		}
		sec := c.Scale(e.daysTo(y, mi, a[2].(*Term)), big.NewRat(86400, 1))
		sec = c.Add(sec, c.Scale(a[3].(*Term), big.NewRat(3600, 1)))
		sec = c.Add(sec, c.Scale(a[4].(*Term), big.NewRat(60, 1)))
		sec = c.Sub(c.Add(sec, a[5].(*Term)), e.locOffset(st, a[7].(Ptr), nil))
		k := c.Int(1000000000)
		n := a[6].(*Term)
		return e.mkTime(c.IMod(n, k), c.Add(sec, c.IDiv(n, k)), a[7])
	})
	parse := func(e *Exec, st *State, a []Value) Value {
		layout := a[0].(Str).mustConc("layout")
		zero := e.mkTime(e.c.Int(0), e.c.Int(0), Ptr{})
		s := a[1].(Str)
		if cs, ok := s.conc(); ok {
			t, err := time.Parse(layout, cs)
			if err != nil {
				return Tuple{zero, e.mkError(st, cstr(err.Error()))}
			}
			return Tuple{e.mkTime(e.c.Int(int64(t.Nanosecond())), e.c.Int(t.Unix()+unixToInternal), Ptr{obj: e.locUTC}), nilErr}
		}
		return e.parseSym(st, layout, s, zero)
	}
	R("time.Parse", parse)
	R("time.ParseInLocation", func(e *Exec, st *State, a []Value) Value {
		r := parse(e, st, a[:2]).(Tuple)
		if _, err := r[1].(Iface); !err || r[1].(Iface).t != nil || strings.Contains(a[0].(Str).mustConc("layout"), "Z07") {
			return r
		}
		n, sec, _ := e.timeParts(r[0])
		return Tuple{e.mkTime(n, e.c.Sub(sec, e.locOffset(st, a[2].(Ptr), nil)), a[2]), r[1]}
	})
}

// parseSym parses a symbolic fixed-length "2006-01-02[T15:04:05Z]" text; the
// grammar is that of time.Parse for these layouts.
func (e *Exec) parseSym(st *State, layout string, s Str, zero Value) Value {
	c := e.c
	if layout != time.RFC3339 && layout != "2006-01-02" {
		unsupported("time.Parse layout " + layout + " on symbolic text")
	}
	bs, ok := e.explode(s)
	if !ok {
		unsupported("time.Parse of symbolic text of unknown length")
	}
	e.stubs["time.Parse (RFC 3339 / date grammar, fixed-length text, Z suffix)"] = true
	bad := func() Value { return Tuple{zero, e.mkError(st, cstr("parsing time: cannot parse"))} }
	i := 0
	num := func(n int) (*Term, bool) {
		v := c.Int(0)
		if i+n > len(bs) {
			return nil, false
		}
		var cs []*Term
		for k := 0; k < n; k++ {
			b := bs[i+k]
			cs = append(cs, c.Le(c.Int('0'), b), c.Le(b, c.Int('9')))
			v = c.AddK(c.Add(c.Scale(v, big.NewRat(10, 1)), b), big.NewRat(-'0', 1))
		}
		i += n
		return v, e.decide(st, c.And(cs...))
	}
	lit := func(b byte) bool {
		if i >= len(bs) {
			return false
		}
		i++
		return e.decide(st, c.Eq(bs[i-1], c.Int(int64(b))))
	}
	in := func(v *Term, lo, hi int64) bool { return e.decide(st, c.And(c.Le(c.Int(lo), v), c.Le(v, c.Int(hi)))) }
	y, ok := num(4)
	if !ok || !lit('-') {
		return bad()
	}
	m, ok := num(2)
	if !ok || !in(m, 1, 12) || !lit('-') {
		return bad()
	}
	d, ok := num(2)
	if !ok {
		return bad()
	}
	leap := e.leap(y)
	mi := e.concretize(st, m, "month")
	last := c.Int(monthDays[mi])
	if mi == 2 {
		last = c.Ite(leap, c.Int(29), c.Int(28))
	}
	if !e.decide(st, c.And(c.Le(c.Int(1), d), c.Le(d, last))) {
		return bad()
	}
	sec := c.Int(0)
	if layout == time.RFC3339 {
		if !lit('T') {
			return bad()
		}
		hh, ok := num(2)
		if !ok || !in(hh, 0, 23) || !lit(':') {
			return bad()
		}
		mm, ok := num(2)
		if !ok || !in(mm, 0, 59) || !lit(':') {
			return bad()
		}
		ss, ok := num(2)
		if !ok || !in(ss, 0, 59) || !lit('Z') {
			return bad()
		}
		sec = c.Add(c.Add(c.Scale(hh, big.NewRat(3600, 1)), c.Scale(mm, big.NewRat(60, 1))), ss)
	}
	if i != len(bs) {
		return bad()
	}
	dd := e.daysTo(y, mi, d)
	sec = c.Add(sec, c.Scale(dd, big.NewRat(86400, 1)))
	return Tuple{e.mkTime(c.Int(0), sec, Ptr{obj: e.locUTC}), nilErr}
}

var monthDays = []int64{0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

func (e *Exec) leap(y *Term) *Term {
	c := e.c
	zero := func(k int64) *Term { return c.Eq(c.IMod(y, c.Int(k)), c.Int(0)) }
	return c.And(zero(4), c.Or(c.Not(zero(100)), zero(400)))
}

// daysTo is the number of days from 0001-01-01 to a date.
func (e *Exec) daysTo(y *Term, month int, d *Term) *Term {
	c := e.c
	y1 := c.AddK(y, ratNegOne)
	before := int64(0)
	for k := 1; k < month; k++ {
		before += monthDays[k]
	}
	dd := c.Add(c.Scale(y1, big.NewRat(365, 1)), c.Add(c.IDiv(y1, c.Int(4)), c.Sub(c.IDiv(y1, c.Int(400)), c.IDiv(y1, c.Int(100)))))
	dd = c.Add(dd, c.AddK(d, big.NewRat(before-1, 1)))
	if month > 2 {
		dd = c.Add(dd, c.Ite(e.leap(y), c.Int(1), c.Int(0)))
	}
	return dd
}

// civil gives year, month and day of a time in its zone.
func (e *Exec) civil(st *State, v Value) (y, m, d *Term) {
	c := e.c
	k := func(n int64) *Term { return c.Int(n) }
	// days since 0000-03-01
	z := c.AddK(c.IDiv(e.localSec(st, v), k(86400)), big.NewRat(306, 1))
	era := c.IDiv(z, k(146097))
	doe := c.IMod(z, k(146097))
	t := c.Sub(c.Add(c.Sub(doe, c.IDiv(doe, k(1460))), c.IDiv(doe, k(36524))), c.IDiv(doe, k(146096)))
	yoe := c.IDiv(t, k(365))
	doy := c.Sub(doe, c.Sub(c.Add(c.Scale(yoe, big.NewRat(365, 1)), c.IDiv(yoe, k(4))), c.IDiv(yoe, k(100))))
	mp := c.IDiv(c.AddK(c.Scale(doy, big.NewRat(5, 1)), big.NewRat(2, 1)), k(153))
	d = c.AddK(c.Sub(doy, c.IDiv(c.AddK(c.Scale(mp, big.NewRat(153, 1)), big.NewRat(2, 1)), k(5))), ratOne)
	m = c.Ite(c.Lt(mp, k(10)), c.AddK(mp, big.NewRat(3, 1)), c.AddK(mp, big.NewRat(-9, 1)))
	y = c.Add(c.Add(yoe, c.Scale(era, big.NewRat(400, 1))), c.Ite(c.Le(m, k(2)), k(1), k(0)))
	return y, m, d
}
