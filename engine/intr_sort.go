package main

import (
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// sortNet is insertion sort with merged swaps: the algorithm the library uses
// for slices this short (12 for Slice/Sort, 20 for the stable variants).
func (e *Exec) sortNet(st *State, sl Slice, less func(i, j int) *Term) {
	for i := 1; i < sl.len; i++ {
		going := e.c.tTrue
		for j := i; j > 0; j-- {
			s := e.c.And(going, less(j, j-1))
			if v, ok := e.lookup(st, s); ok {
				s = e.c.Bool(v)
			}
			if s.isFalse() {
				break
			}
			x := e.load(st, sl.base.sub(sl.off+j))
			y := e.load(st, sl.base.sub(sl.off+j-1))
			if s.isTrue() {
				e.store(st, sl.base.sub(sl.off+j), y)
				e.store(st, sl.base.sub(sl.off+j-1), x)
				continue
			}
			m := &merger{e: e, force: true}
			lo, ok1 := m.merge(s, x, y)
			hi, ok2 := m.merge(s, y, x)
			if ok1 && ok2 && e.opt.merge {
				e.store(st, sl.base.sub(sl.off+j-1), lo)
				e.store(st, sl.base.sub(sl.off+j), hi)
				going = s
				continue
			}
			if !e.decide(st, s) {
				break
			}
			e.store(st, sl.base.sub(sl.off+j), y)
			e.store(st, sl.base.sub(sl.off+j-1), x)
		}
	}
}

type libSort struct {
	n    int
	less func(i, j int) bool
	swap func(i, j int)
}

func (l libSort) Len() int           { return l.n }
func (l libSort) Less(i, j int) bool { return l.less(i, j) }
func (l libSort) Swap(i, j int)      { l.swap(i, j) }

// librarySort sorts a long list with the algorithm of the library itself. It gives up, leaving the state alone, when a comparison is open.
func (e *Exec) librarySort(st *State, n int, algorithm func(sort.Interface), less func(st *State, i, j int) *Term, swap func(st *State, i, j int)) (ok bool) {
	work := st.clone()
	defer func() {
		if r := recover(); r != nil {
			if _, fork := r.(forkSignal); !fork {
				panic(r)
			}
			e.note("sorting a long list whose order is open: ties are assumed to keep their order")
			ok = false
		}
	}()
	algorithm(libSort{n, func(i, j int) bool { return e.decide(work, less(work, i, j)) }, func(i, j int) { swap(work, i, j) }})
	*st = *work
	return true
}

func initSort() {
	slice := func(algorithm func(sort.Interface)) intrinsic {
		return func(e *Exec, st *State, fn *ssa.Function, a []Value) []Outcome {
			ifc := a[0].(Iface)
			sl, ok := ifc.v.(Slice)
			if !ok {
				e.throw(st, "reflect: call of Swapper on non-slice value")
			}
			if sl.len > 12 && e.librarySort(st, sl.len, algorithm, func(st *State, i, j int) *Term {
				return e.callSub(st, a[1], []Value{e.c.Int(int64(i)), e.c.Int(int64(j))}).(*Term)
			}, func(st *State, i, j int) {
				x, y := e.load(st, sl.base.sub(sl.off+i)), e.load(st, sl.base.sub(sl.off+j))
				e.store(st, sl.base.sub(sl.off+i), y)
				e.store(st, sl.base.sub(sl.off+j), x)
			}) {
				return []Outcome{{st: st}}
			}
			e.sortNet(st, sl, func(i, j int) *Term {
				r := e.callSub(st, a[1], []Value{e.c.Int(int64(i)), e.c.Int(int64(j))})
				return r.(*Term)
			})
			return []Outcome{{st: st}}
		}
	}
	intrinsics["sort.Slice"] = slice(sort.Sort)
	intrinsics["sort.SliceStable"] = slice(sort.Stable)
	iface := func(algorithm func(sort.Interface)) intrinsic {
		return func(e *Exec, st *State, fn *ssa.Function, a []Value) []Outcome {
			ifc := a[0].(Iface)
			call := func(st *State, name string, args ...Value) Value {
				m := e.methodOf(ifc.t, name)
				if m == nil {
					unsupported("sort.Interface method " + name)
				}
				return e.callSub(st, &Closure{fn: m}, append([]Value{ifc.v}, args...))
			}
			n := int(concI(call(st, "Len")))
			if n > 12 && e.librarySort(st, n, algorithm, func(st *State, i, j int) *Term {
				return call(st, "Less", e.c.Int(int64(i)), e.c.Int(int64(j))).(*Term)
			}, func(st *State, i, j int) { call(st, "Swap", e.c.Int(int64(i)), e.c.Int(int64(j))) }) {
				return []Outcome{{st: st}}
			}
			for i := 1; i < n; i++ {
				for j := i; j > 0; j-- {
					l := call(st, "Less", e.c.Int(int64(j)), e.c.Int(int64(j-1))).(*Term)
					if !e.decide(st, l) {
						break
					}
					call(st, "Swap", e.c.Int(int64(j)), e.c.Int(int64(j-1)))
				}
			}
			return []Outcome{{st: st}}
		}
	}
	intrinsics["sort.Sort"] = iface(sort.Sort)
	intrinsics["sort.Stable"] = iface(sort.Stable)
	basic := func(e *Exec, st *State, fn *ssa.Function, a []Value) []Outcome {
		sl := a[0].(Slice)
		e.sortNet(st, sl, func(i, j int) *Term {
			x, y := e.load(st, sl.base.sub(sl.off+i)), e.load(st, sl.base.sub(sl.off+j))
			switch p := x.(type) {
			case Float:
				q := y.(Float)
				if p.k == fNaN && q.k != fNaN {
					return e.c.tTrue
				}
				return e.fcmp("<", p, q)
			case *Term:
				return e.c.Lt(p, y.(*Term))
			case Str:
				return e.strCmp(token.LSS, p, y.(Str))
			}
			unsupported("sort element")
			return nil
		})
		return []Outcome{{st: st}}
	}
	for _, n := range []string{"sort.Float64s", "sort.Ints", "sort.Strings"} {
		intrinsics[n] = basic
	}
}
