package main

import (
	"go/types"
)

// merger combines two values under a guard. force allows two different
// constants to be joined with an ite.
type merger struct {
	e     *Exec
	force bool
	g     *Term
	a, b  *State
	pa    map[int]int // a object -> b object
	pb    map[int]int
	queue []int
}

func (m *merger) isNew(in, other *State, id int) bool {
	if _, ok := in.heap[id]; !ok {
		return false
	}
	if _, ok := other.heap[id]; ok {
		return false
	}
	_, ok := m.e.base[id]
	return !ok
}

func (m *merger) pair(x, y int) bool {
	if x == y {
		return true
	}
	if m.a == nil || x == 0 || y == 0 {
		return false
	}
	if p, ok := m.pa[x]; ok {
		return p == y
	}
	if _, ok := m.pb[y]; ok {
		return false
	}
	if !m.isNew(m.a, m.b, x) || !m.isNew(m.b, m.a, y) {
		return false
	}
	m.pa[x], m.pb[y] = y, x
	m.queue = append(m.queue, x)
	return true
}

func (m *merger) merge(g *Term, a, b Value) (Value, bool) {
	m.g = g
	return m.val(a, b)
}

func (m *merger) val(a, b Value) (Value, bool) {
	switch x := a.(type) {
	case nil:
		return nil, b == nil
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.sort == SInt && x.isConst() && y.isConst() && !m.force {
			return nil, false
		}
		return m.e.c.Ite(m.g, x, y), true
	case Float:
		y, ok := b.(Float)
		if !ok || x.k != y.k {
			return nil, false
		}
		if x.k != fFin || x.t == y.t {
			return x, true
		}
		r := m.e.c.Ite(m.g, x.t, y.t)
		// a choice between two floats is a float of the narrower common width
		m.e.joinRounded(r, x.t, y.t)
		return Float{t: r}, true
	case Str:
		y, ok := b.(Str)
		if !ok {
			return nil, false
		}
		if sameValue(x, y) {
			return x, true
		}
		if m.force || simpleStr(x) && simpleStr(y) && !(isConcStr(x) && isConcStr(y)) {
			if len(x.ps) <= 1 && len(y.ps) <= 1 && simpleStr(x) && simpleStr(y) {
				return Str{[]piece{{k: pcSym, t: m.e.c.Ite(m.g, m.e.strTerm(x), m.e.strTerm(y))}}}, true
			}
		}
		return nil, false
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.f) != len(y.f) {
			return nil, false
		}
		if x == y && m.a == nil {
			return x, true
		}
		f := make([]Value, len(x.f))
		for i := range f {
			v, ok := m.val(x.f[i], y.f[i])
			if !ok {
				return nil, false
			}
			f[i] = v
		}
		return &Struct{f}, true
	case *Array:
		y, ok := b.(*Array)
		if !ok || len(x.e) != len(y.e) {
			return nil, false
		}
		if x == y && m.a == nil {
			return x, true
		}
		f := make([]Value, len(x.e))
		for i := range f {
			v, ok := m.val(x.e[i], y.e[i])
			if !ok {
				return nil, false
			}
			f[i] = v
		}
		return &Array{f}, true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || len(x.path) != len(y.path) {
			return nil, false
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return nil, false
			}
		}
		if !m.pair(x.obj, y.obj) {
			return nil, false
		}
		return x, true
	case Slice:
		y, ok := b.(Slice)
		if !ok || x.off != y.off || x.len != y.len || x.cap != y.cap {
			return nil, false
		}
		if _, ok := m.val(x.base, y.base); !ok {
			return nil, false
		}
		return x, true
	case MapRef:
		y, ok := b.(MapRef)
		if !ok || !m.pair(x.obj, y.obj) {
			return nil, false
		}
		return x, true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil || y.t == nil {
			return x, x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := m.val(x.v, y.v)
		if !ok {
			return nil, false
		}
		return Iface{x.t, v}, true
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x == nil || y == nil || x.fn != y.fn || x.native != nil || y.native != nil || len(x.bind) != len(y.bind) {
			return nil, false
		}
		n := &Closure{fn: x.fn}
		for i := range x.bind {
			v, ok := m.val(x.bind[i], y.bind[i])
			if !ok {
				return nil, false
			}
			n.bind = append(n.bind, v)
		}
		return n, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		t := make(Tuple, len(x))
		for i := range x {
			v, ok := m.val(x[i], y[i])
			if !ok {
				return nil, false
			}
			t[i] = v
		}
		return t, true
	case *MapVal:
		y, ok := b.(*MapVal)
		if !ok || len(x.keys) != len(y.keys) {
			return nil, false
		}
		if x == y && m.a == nil {
			return x, true
		}
		n := &MapVal{keys: x.keys, vals: make([]Value, len(x.vals))}
		for i := range x.keys {
			if !sameValue(x.keys[i], y.keys[i]) {
				return nil, false
			}
			v, ok := m.val(x.vals[i], y.vals[i])
			if !ok {
				return nil, false
			}
			n.vals[i] = v
		}
		return n, true
	case *Opaque:
		y, ok := b.(*Opaque)
		if !ok || x.kind != y.kind || x.s != y.s || x.i != y.i || x.b != y.b || len(x.vs) != len(y.vs) {
			return nil, false
		}
		if _, ok := m.val(x.p, y.p); !ok {
			return nil, false
		}
		n := *x
		n.vs = make([]Value, len(x.vs))
		for i := range x.vs {
			v, ok := m.val(x.vs[i], y.vs[i])
			if !ok {
				return nil, false
			}
			n.vs[i] = v
		}
		return &n, true
	case *SymBytes:
		y, ok := b.(*SymBytes)
		return x, ok && sameValue(x.s, y.s)
	case Poison:
		_, ok := b.(Poison)
		return x, ok
	}
	return a, sameValue(a, b)
}

func simpleStr(s Str) bool {
	if len(s.ps) == 0 {
		return true
	}
	return len(s.ps) == 1 && (s.ps[0].k == pcConc || s.ps[0].k == pcSym)
}

func isConcStr(s Str) bool { _, ok := s.conc(); return ok }

func (e *Exec) joinRounded(r, x, y *Term) {
	for _, b := range []int{32, 64} {
		if e.floatOfWidth(x, b) && e.floatOfWidth(y, b) {
			e.rounded[r.id] |= b
		}
	}
}

func (e *Exec) floatOfWidth(t *Term, bits int) bool {
	if e.isRounded(t, bits) || bits == 64 && t.op == OVar && t.input {
		return true
	}
	if t.isConst() {
		if bits == 32 {
			_, ex := t.rat.Float32()
			return ex
		}
		_, ex := t.rat.Float64()
		return ex
	}
	return false
}

// guardOf separates two path conditions.
func (e *Exec) guardOf(a, b *State) (g *Term, pc []*Term) {
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	sa, sb := a.pc[k:], b.pc[k:]
	ca, cb := e.c.And(sa...), e.c.And(sb...)
	g = ca
	if len(sa) > 0 && len(sb) > 0 && e.c.Not(sa[0]) == sb[0] {
		g = sa[0]
	} else if nb := e.c.Not(cb); nb.size < g.size {
		g = nb
	}
	pc = a.pc[:k:k]
	if d := e.c.Or(ca, cb); !d.isTrue() {
		pc = append(pc, d)
	}
	return g, pc
}

// mergeStates joins two states; roots are pairs of live values to be joined.
func (e *Exec) mergeStates(a, b *State, ra, rb []Value) (*State, []Value, bool) {
	if a.panicV != b.panicV || len(a.flags) != len(b.flags) {
		return nil, nil, false
	}
	for k, v := range a.flags {
		if w, ok := b.flags[k]; !ok || v != w {
			return nil, nil, false
		}
	}
	g, pc := e.guardOf(a, b)
	m := &merger{e: e, g: g, a: a, b: b, pa: map[int]int{}, pb: map[int]int{}}
	out := make([]Value, len(ra))
	for i := range ra {
		v, ok := m.val(ra[i], rb[i])
		if !ok {
			return nil, nil, false
		}
		out[i] = v
	}
	heap := map[int]Value{}
	var reachA, reachB map[int]bool
	common := func(id int, va, vb Value) bool {
		if sameRef(va, vb) {
			// identical content may still reference objects that are paired
			// differently only if it references new objects, which it cannot:
			// the content existed before the fork.
			heap[id] = va
			return true
		}
		v, ok := m.val(va, vb)
		if !ok {
			if reachA == nil {
				reachA = e.reach(a, ra)
				reachB = e.reach(b, rb)
			}
			if !reachA[id] && !reachB[id] {
				return true
			}
			return false
		}
		heap[id] = v
		return true
	}
	for id, va := range a.heap {
		vb, ok := b.heap[id]
		if !ok {
			vb, ok = e.base[id]
			if !ok {
				continue
			}
		}
		if !common(id, va, vb) {
			return nil, nil, false
		}
	}
	for id, vb := range b.heap {
		if _, ok := a.heap[id]; ok {
			continue
		}
		va, ok := e.base[id]
		if !ok {
			continue
		}
		if !common(id, va, vb) {
			return nil, nil, false
		}
	}
	for len(m.queue) > 0 {
		x := m.queue[0]
		m.queue = m.queue[1:]
		v, ok := m.val(a.heap[x], b.heap[m.pa[x]])
		if !ok {
			return nil, nil, false
		}
		heap[x] = v
	}
	n := &State{heap: heap, pc: pc, known: map[int]bool{}, flags: a.flags, fsh: true, panicV: a.panicV}
	a.fsh = true
	for id, v := range a.known {
		if w, ok := b.known[id]; ok && v == w {
			n.known[id] = v
		}
	}
	if len(pc) > 0 {
		d := pc[len(pc)-1]
		n.known[d.id] = true
		n.known[e.c.Not(d).id] = false
	}
	n.inputs = a.inputs[:len(a.inputs):len(a.inputs)]
	if len(b.inputs) != len(a.inputs) || len(a.inputs) > 0 && a.inputs[len(a.inputs)-1] != b.inputs[len(b.inputs)-1] {
		seen := map[*Term]bool{}
		for _, t := range a.inputs {
			seen[t] = true
		}
		for _, t := range b.inputs {
			if !seen[t] {
				n.inputs = append(n.inputs, t)
			}
		}
	}
	return n, out, true
}

// sameRef is a cheap identity test for heap contents.
func sameRef(a, b Value) bool {
	switch x := a.(type) {
	case *Struct:
		y, ok := b.(*Struct)
		return ok && x == y
	case *Array:
		y, ok := b.(*Array)
		return ok && x == y
	case *MapVal:
		y, ok := b.(*MapVal)
		return ok && x == y
	case *Opaque:
		y, ok := b.(*Opaque)
		return ok && x == y
	}
	return sameValue(a, b)
}

// reach computes the objects reachable from the given roots and from every
// frame on the call stack.
func (e *Exec) reach(st *State, roots []Value) map[int]bool {
	seen := map[int]bool{}
	var visit func(v Value)
	obj := func(id int) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		if v, ok := st.heap[id]; ok {
			visit(v)
		} else if v, ok := e.base[id]; ok {
			visit(v)
		}
	}
	visit = func(v Value) {
		switch x := v.(type) {
		case *Struct:
			for _, f := range x.f {
				visit(f)
			}
		case *Array:
			for _, f := range x.e {
				visit(f)
			}
		case Ptr:
			obj(x.obj)
		case Slice:
			obj(x.base.obj)
		case MapRef:
			obj(x.obj)
		case Iface:
			visit(x.v)
		case *Closure:
			if x != nil {
				for _, f := range x.bind {
					visit(f)
				}
			}
		case Tuple:
			for _, f := range x {
				visit(f)
			}
		case *MapVal:
			for i := range x.keys {
				visit(x.keys[i])
				visit(x.vals[i])
			}
		case *Opaque:
			obj(x.p.obj)
			for _, f := range x.vs {
				visit(f)
			}
		}
	}
	for _, v := range roots {
		visit(v)
	}
	for _, it := range e.stack {
		for _, v := range it.regs {
			visit(v)
		}
		for _, d := range it.defers {
			visit(d.fn)
			for _, a := range d.args {
				visit(a)
			}
		}
	}
	for _, id := range e.globals {
		obj(id)
	}
	for id := range st.flags {
		_ = id
	}
	// file system model
	for id, v := range st.heap {
		if o, ok := v.(*Opaque); ok && o.kind == "fsfile" {
			obj(id)
		}
	}
	return seen
}

func (e *Exec) mergeItems(a, b *Item) *Item {
	if a.pan != nil || b.pan != nil || len(a.defers) != len(b.defers) {
		return nil
	}
	for i := range a.defers {
		x, y := a.defers[i], b.defers[i]
		if x.call != y.call || len(x.args) != len(y.args) {
			return nil
		}
	}
	ra := append([]Value(nil), a.regs...)
	rb := append([]Value(nil), b.regs...)
	nr := len(ra)
	for i := range a.defers {
		ra = append(ra, a.defers[i].fn)
		rb = append(rb, b.defers[i].fn)
		ra = append(ra, a.defers[i].args...)
		rb = append(rb, b.defers[i].args...)
	}
	st, out, ok := e.mergeStates(a.st, b.st, ra, rb)
	if !ok {
		return nil
	}
	n := *a
	n.st = st
	n.regs = out[:nr:nr]
	n.defers = nil
	k := nr
	for i := range a.defers {
		d := a.defers[i]
		d.fn = out[k]
		k++
		d.args = out[k : k+len(d.args) : k+len(d.args)]
		k += len(d.args)
		n.defers = append(n.defers, d)
	}
	return &n
}

func (e *Exec) mergeOutcome(a, b Outcome) (Outcome, bool) {
	st, out, ok := e.mergeStates(a.st, b.st, []Value{a.val}, []Value{b.val})
	if !ok {
		return a, false
	}
	return Outcome{st: st, val: out[0]}, true
}
