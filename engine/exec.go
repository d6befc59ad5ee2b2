package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Options struct {
	rounding bool
	merge    bool
	unwind   int
	depth    int
	maxPaths int
	repoPath string // module path prefix treated as code under test
	trace    bool
}

// Exec is the symbolic executor for one task.
type Exec struct {
	prog     *ssa.Program
	c        *Ctx
	s        *Solver
	opt      Options
	base     map[int]Value
	nobj     int
	globals  map[*ssa.Global]int
	inited   map[*ssa.Package]int
	consts   map[*ssa.Const]Value
	rnd      map[string]*Term
	rounded  map[int]int
	inexact  int
	notes    map[string]bool
	fnsSeen  map[string]int
	stubs    map[string]bool
	incompl  map[string]int
	deadline time.Time
	depth    int
	stack    []*Item
	poison   int // >0 while running package initialisers
	params   map[string]int

	// statistics
	Paths, Forks, Merges, Blocks, Asserts, Discharged, Trivial int
	reached                                                    map[string]int
	// results
	onAssert func(st *State, cond *Term, label string) bool
	onCut    func(st *State)
	onPath   func(st *State)
	onPanic  func(st *State, p *PanicInfo) bool
	onReach  func(st *State, label string)
	locLocal int
	locUTC   int
	nowN     int
	idN      int
}

func NewExec(prog *ssa.Program, opt Options) *Exec {
	c := NewCtx()
	e := &Exec{prog: prog, c: c, opt: opt, base: map[int]Value{}, globals: map[*ssa.Global]int{},
		inited: map[*ssa.Package]int{}, consts: map[*ssa.Const]Value{}, rnd: map[string]*Term{}, rounded: map[int]int{},
		notes: map[string]bool{}, fnsSeen: map[string]int{}, stubs: map[string]bool{}, incompl: map[string]int{},
		reached: map[string]int{}, params: map[string]int{}}
	e.nobj = 3
	e.locLocal, e.locUTC = 1, 2
	e.base[1] = &Opaque{kind: "loc", s: "Local", vs: []Value{c.Int(0)}}
	e.base[2] = &Opaque{kind: "loc", s: "UTC", vs: []Value{c.Int(0)}}
	e.base[fsObj] = &MapVal{}
	return e
}

func (e *Exec) note(s string) { e.notes[s] = true }
func (e *Exec) incomplete(why string) {
	e.incompl[why]++
	if e.opt.trace {
		fmt.Fprintln(os.Stderr, "incomplete:", why)
	}
}

func (e *Exec) newState() *State {
	return &State{heap: map[int]Value{}, known: map[int]bool{}, flags: map[string]int{}}
}

// ---- path conditions -------------------------------------------------------

func (e *Exec) addPC(st *State, t *Term) {
	if t.isTrue() {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			e.addPC(st, a)
		}
		return
	}
	if v, ok := st.known[t.id]; ok && v {
		return
	}
	st.pc = append(st.pc[:len(st.pc):len(st.pc)], t)
	st.setKnown(t.id, true)
	st.setKnown(e.c.Not(t).id, false)
}

func (e *Exec) lookup(st *State, t *Term) (bool, bool) {
	if t.op == OConst {
		return t.b, true
	}
	if v, ok := st.known[t.id]; ok {
		return v, true
	}
	switch t.op {
	case OAnd:
		all := true
		for _, a := range t.args {
			v, ok := e.lookup(st, a)
			if ok && !v {
				return false, true
			}
			all = all && ok
		}
		if all {
			return true, true
		}
	case OOr:
		all := true
		for _, a := range t.args {
			v, ok := e.lookup(st, a)
			if ok && v {
				return true, true
			}
			all = all && ok
		}
		if all {
			return false, true
		}
	}
	return false, false
}

func (e *Exec) feasible(st *State, t *Term) Res {
	pc := append(st.pc[:len(st.pc):len(st.pc)], t)
	r, _ := e.s.Check(pc, nil)
	return r
}

// decide returns the truth value of cond on this path, or forks.
func (e *Exec) decide(st *State, cond *Term) bool {
	if v, ok := e.lookup(st, cond); ok {
		return v
	}
	e.checkTime()
	n := e.c.Not(cond)
	rt := e.feasible(st, cond)
	if rt == Unsat {
		st.setKnown(cond.id, false)
		st.setKnown(n.id, true)
		return false
	}
	rf := e.feasible(st, n)
	if rf == Unsat {
		st.setKnown(cond.id, true)
		st.setKnown(n.id, false)
		return true
	}
	e.Forks++
	panic(forkSignal{cond})
}

func (e *Exec) checkTime() {
	select {
	case <-e.s.quit:
		panic(abortTask{"stopped after a violation"})
	default:
	}
	if !e.deadline.IsZero() && time.Now().After(e.deadline) {
		panic(abortTask{"task time budget exhausted"})
	}
}

// concretize picks the concrete value of an integer term, forking over values.
func (e *Exec) concretize(st *State, t *Term, what string) int {
	if t.isConst() {
		return int(t.rat.Num().Int64())
	}
	if t.op == OIte {
		if e.decide(st, t.args[0]) {
			return e.concretize(st, t.args[1], what)
		}
		return e.concretize(st, t.args[2], what)
	}
	if t.lo == nil || t.hi == nil {
		unsupported("unbounded symbolic " + what)
	}
	lo, hi := t.lo.Num().Int64(), t.hi.Num().Int64()
	if hi-lo > 4096 {
		unsupported("symbolic " + what + " with a large range")
	}
	for lo < hi {
		mid := lo + (hi-lo)/2
		if e.decide(st, e.c.Le(t, e.c.Int(mid))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return int(lo)
}

// ---- frames ----------------------------------------------------------------

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type Item struct {
	fi     *FnInfo
	blk    *ssa.BasicBlock
	idx    int
	regs   []Value
	iters  []int
	st     *State
	defers []deferred
	pan    *PanicInfo // non-nil while unwinding
	atHead bool
}

func (it *Item) fork() *Item {
	n := *it
	n.regs = append([]Value(nil), it.regs...)
	n.st = it.st.clone()
	n.defers = it.defers[:len(it.defers):len(it.defers)]
	return &n
}

func (it *Item) key() []int {
	fi := it.fi
	var k []int
	if it.pan != nil {
		k = append(k, 1<<30)
	}
	for i, h := range fi.loops[it.blk.Index] {
		k = append(k, fi.rpo[h], it.iters[i])
	}
	return append(k, fi.rpo[it.blk.Index], it.idx)
}

func cmpKey(a, b []int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

type Outcome struct {
	st  *State
	val Value
	pan *PanicInfo
}

// call runs a function value.
func (e *Exec) call(st *State, f Value, args []Value) []Outcome {
	switch fn := f.(type) {
	case *ssa.Function:
		return e.callFn(st, fn, args, nil)
	case *Closure:
		if fn == nil {
			return []Outcome{{st: st, pan: &PanicInfo{msg: "runtime error: invalid memory address or nil pointer dereference"}}}
		}
		if fn.native != nil {
			v := fn.native(e, st, args)
			return []Outcome{{st: st, val: v}}
		}
		return e.callFn(st, fn.fn, args, fn.bind)
	}
	unsupported(fmt.Sprintf("call of %T", f))
	return nil
}

// callSub is used by intrinsics: it needs exactly one outcome and forks the
// calling instruction when there are several.
func (e *Exec) callSub(st *State, f Value, args []Value) Value {
	n := len(st.pc)
	outs := e.invoke(st.clone(), f, args)
	if len(outs) == 0 {
		panic(stopPath{})
	}
	if len(outs) > 1 {
		suf := outs[0].st.pc
		k := 0
		for k < n && k < len(suf) && suf[k] == st.pc[k] {
			k++
		}
		cond := e.c.And(suf[k:]...)
		if cond.isConst() {
			unsupported("callback outcomes could not be separated")
		}
		panic(forkSignal{cond})
	}
	*st = *outs[0].st
	if outs[0].pan != nil {
		panic(goPanic{outs[0].pan})
	}
	return outs[0].val
}

func (e *Exec) callFn(st *State, fn *ssa.Function, args []Value, bind []Value) []Outcome {
	if e.depth > e.opt.depth {
		unsupported("call depth bound reached in " + fn.String())
	}
	if len(fn.Blocks) == 0 {
		unsupported("no body: " + fn.String())
	}
	if fn.Pkg != nil && e.opt.repoPath != "" && strings.HasPrefix(fn.Pkg.Pkg.Path(), e.opt.repoPath) {
		e.fnsSeen[fn.String()]++
	}
	fi := fnInfo(fn)
	it := &Item{fi: fi, blk: fn.Blocks[0], regs: make([]Value, fi.nreg), st: st}
	if len(args) != len(fn.Params) {
		unsupported(fmt.Sprintf("arity mismatch calling %s: %d vs %d", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		it.regs[fi.reg[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		it.regs[fi.reg[p]] = bind[i]
	}
	for range fi.loops[0] {
		it.iters = append(it.iters, 0)
	}
	e.depth++
	defer func() { e.depth-- }()
	return e.run(it)
}

func (e *Exec) run(start *Item) []Outcome {
	work := []*Item{start}
	var outs []Outcome
	for len(work) > 0 {
		// pick the smallest key
		best := 0
		bk := work[0].key()
		for i := 1; i < len(work); i++ {
			if k := work[i].key(); cmpKey(k, bk) < 0 {
				best, bk = i, k
			}
		}
		it := work[best]
		work = append(work[:best], work[best+1:]...)
		if it.atHead && e.opt.merge && len(work) > 0 {
			// merge with every compatible item at the same key
			for i := 0; i < len(work); {
				o := work[i]
				if o.atHead && o.blk == it.blk && cmpKey(o.key(), bk) == 0 {
					if m := e.mergeItems(it, o); m != nil {
						it = m
						e.Merges++
						work = append(work[:i], work[i+1:]...)
						continue
					}
				}
				i++
			}
		}
		it.atHead = false
		ni, no := e.step(it)
		work = append(work, ni...)
		for _, o := range no {
			outs = e.addOutcome(outs, o)
		}
		if len(work) > e.opt.maxPaths {
			panic(abortTask{fmt.Sprintf("path bound reached (%d live paths)", len(work))})
		}
	}
	return outs
}

func (e *Exec) addOutcome(outs []Outcome, o Outcome) []Outcome {
	if e.opt.merge && o.pan == nil {
		for i := range outs {
			if outs[i].pan == nil {
				if m, ok := e.mergeOutcome(outs[i], o); ok {
					outs[i] = m
					e.Merges++
					return outs
				}
			}
		}
	}
	return append(outs, o)
}

// step executes it until it ends, forks or leaves its block.
func (e *Exec) step(it *Item) (items []*Item, outs []Outcome) {
	for {
		ins := it.blk.Instrs[it.idx]
		ni, no, cont := e.tryInstr(it, ins)
		if !cont {
			return ni, no
		}
	}
}

func (e *Exec) pos(ins ssa.Instruction) string {
	p := ins.Pos()
	if p == token.NoPos {
		return ins.Parent().String()
	}
	q := e.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (e *Exec) tryInstr(it *Item, ins ssa.Instruction) (items []*Item, outs []Outcome, cont bool) {
	snap := it.st
	depth, stk, poi := e.depth, len(e.stack), e.poison
	if _, ok := ins.(ssa.CallInstruction); ok || it.pan != nil {
		snap = it.st.clone()
	}
	if _, ok := ins.(*ssa.RunDefers); ok {
		snap = it.st.clone()
	}
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		e.depth, e.stack, e.poison = depth, e.stack[:stk], poi
		switch x := r.(type) {
		case forkSignal:
			it.st = snap
			a := it.fork()
			b := it.fork()
			e.addPC(a.st, x.cond)
			e.addPC(b.st, e.c.Not(x.cond))
			items, outs, cont = []*Item{a, b}, nil, false
		case goPanic:
			if x.info.pos == "" {
				x.info.pos = e.pos(ins)
			}
			it.pan = x.info
			items, outs, cont = []*Item{it}, nil, false
		case stopPath:
			items, outs, cont = nil, nil, false
		case unsupportedErr:
			if e.poison > 0 {
				if v, ok := ins.(ssa.Value); ok {
					it.regs[it.fi.reg[v]] = poisonFor(v.Type(), x.why)
					it.idx++
					items, outs, cont = nil, nil, true
					return
				}
				if _, ok := ins.(*ssa.Store); ok {
					it.idx++
					items, outs, cont = nil, nil, true
					return
				}
				panic(r)
			}
			e.incomplete(x.why + " at " + shortPos(e.pos(ins)))
			if e.onCut != nil {
				e.onCut(snap)
			}
			items, outs, cont = nil, nil, false
		default:
			panic(r)
		}
	}()
	if it.pan != nil {
		items, outs = e.unwind(it)
		return items, outs, false
	}
	return e.instr(it, ins)
}

func poisonFor(t types.Type, why string) Value {
	if tp, ok := t.(*types.Tuple); ok {
		v := make(Tuple, tp.Len())
		for i := range v {
			v[i] = Poison{why}
		}
		return v
	}
	return Poison{why}
}

func shortPos(p string) string {
	if i := strings.LastIndex(p, "/repo/"); i >= 0 {
		return p[i+6:]
	}
	parts := strings.Split(p, "/")
	if len(parts) > 3 {
		return strings.Join(parts[len(parts)-3:], "/")
	}
	return p
}

// unwind runs deferred calls of a panicking frame.
func (e *Exec) unwind(it *Item) (items []*Item, outs []Outcome) {
	if len(it.defers) == 0 {
		return nil, []Outcome{{st: it.st, pan: it.pan}}
	}
	d := it.defers[len(it.defers)-1]
	rest := it.defers[:len(it.defers)-1]
	saved := it.st.panicV
	it.st.panicV = it.pan
	e.stack = append(e.stack, it)
	res := e.callDeferred(it.st, d)
	e.stack = e.stack[:len(e.stack)-1]
	for _, o := range res {
		n := it.fork()
		n.st = o.st
		n.defers = rest[:len(rest):len(rest)]
		if o.pan != nil {
			n.pan = o.pan
			n.st.panicV = saved
		} else if o.st.panicV == nil {
			// recovered: run the remaining defers, then return
			n.pan = nil
			n.st.panicV = saved
			if it.fi.fn.Recover != nil {
				n.blk = it.fi.fn.Recover
				n.idx = it.fi.first[n.blk.Index]
				n.iters = nil
				for range it.fi.loops[n.blk.Index] {
					n.iters = append(n.iters, 0)
				}
			} else {
				n2, o2 := e.finishRecovered(n)
				items = append(items, n2...)
				outs = append(outs, o2...)
				continue
			}
		} else {
			n.st.panicV = saved
		}
		items = append(items, n)
	}
	return
}

func (e *Exec) finishRecovered(n *Item) ([]*Item, []Outcome) {
	if len(n.defers) > 0 {
		unsupported("recover with further deferred calls and no recover block")
	}
	res := n.fi.fn.Signature.Results()
	var v Value
	switch res.Len() {
	case 0:
	case 1:
		v = e.zero(res.At(0).Type())
	default:
		v = e.zero(res)
	}
	return nil, []Outcome{{st: n.st, val: v}}
}

func (e *Exec) callDeferred(st *State, d deferred) []Outcome {
	if b, ok := d.fn.(*ssa.Builtin); ok {
		v := e.builtin(st, b, d.args, d.call)
		return []Outcome{{st: st, val: v}}
	}
	return e.invoke(st, d.fn, d.args)
}

// invoke calls a function value, trying intrinsics first.
func (e *Exec) invoke(st *State, f Value, args []Value) []Outcome {
	var fn *ssa.Function
	switch x := f.(type) {
	case *ssa.Function:
		fn = x
	case *Closure:
		if x != nil {
			fn = x.fn
		}
	}
	if fn != nil {
		if in := e.findIntrinsic(fn); in != nil {
			return in(e, st, fn, args)
		}
	}
	return e.call(st, f, args)
}

// ---- instructions ----------------------------------------------------------

func (e *Exec) val(it *Item, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		if std, ok := stdFiles[x.String()]; ok {
			if _, done := e.globals[x]; !done {
				id := e.globalObj(x)
				e.nobj++
				e.base[e.nobj] = &Opaque{kind: "file", s: std}
				e.base[id] = Ptr{obj: e.nobj}
			}
			return Ptr{obj: e.globals[x]}
		}
		e.ensureInit(x.Pkg)
		return Ptr{obj: e.globalObj(x)}
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return x
	}
	r, ok := it.fi.reg[v]
	if !ok {
		unsupported("unknown value " + v.Name())
	}
	return it.regs[r]
}

func (e *Exec) term(it *Item, v ssa.Value) *Term {
	x := e.val(it, v)
	t, ok := x.(*Term)
	if !ok {
		if p, ok := x.(Poison); ok {
			unsupported("poison: " + p.why)
		}
		unsupported(fmt.Sprintf("expected scalar, got %T", x))
	}
	return t
}

func (e *Exec) constVal(c *ssa.Const) Value {
	if v, ok := e.consts[c]; ok {
		return v
	}
	v := e.constVal0(c)
	e.consts[c] = v
	return v
}

func (e *Exec) constVal0(c *ssa.Const) Value {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		unsupported("constant of type " + t.String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return e.c.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return cstr(constant.StringVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		r, ok := new(big.Rat).SetString(constant.ToInt(c.Value).ExactString())
		if !ok {
			unsupported("integer constant")
		}
		return e.c.Num(SInt, r)
	case b.Info()&types.IsFloat != 0:
		if b.Kind() == types.Float32 {
			f, _ := constant.Float32Val(c.Value)
			return e.fconst(float64(f))
		}
		f, _ := constant.Float64Val(c.Value)
		return e.fconst(f)
	}
	unsupported("constant of type " + t.String())
	return nil
}

func (e *Exec) set(it *Item, v ssa.Value, x Value) { it.regs[it.fi.reg[v]] = x }

func (e *Exec) instr(it *Item, ins ssa.Instruction) (items []*Item, outs []Outcome, cont bool) {
	st := it.st
	next := func() ([]*Item, []Outcome, bool) { it.idx++; return nil, nil, true }
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return next()
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		e.set(it, x, e.alloc(st, e.zero(t)))
		return next()
	case *ssa.Store:
		p, ok := e.val(it, x.Addr).(Ptr)
		if !ok {
			unsupported("store through non-pointer")
		}
		e.store(st, p, e.val(it, x.Val))
		return next()
	case *ssa.UnOp:
		e.set(it, x, e.unop(it, x))
		return next()
	case *ssa.BinOp:
		e.set(it, x, e.binop(st, x.Op, e.val(it, x.X), e.val(it, x.Y), x.X.Type(), x.Y.Type()))
		return next()
	case *ssa.FieldAddr:
		p, ok := e.val(it, x.X).(Ptr)
		if !ok {
			unsupported("field of non-pointer")
		}
		if p.isNil() {
			e.throw(st, "invalid memory address or nil pointer dereference")
		}
		e.set(it, x, p.sub(x.Field))
		return next()
	case *ssa.Field:
		s, ok := e.val(it, x.X).(*Struct)
		if !ok {
			unsupported("field of non-struct")
		}
		e.set(it, x, s.f[x.Field])
		return next()
	case *ssa.IndexAddr:
		e.set(it, x, e.indexAddr(it, x))
		return next()
	case *ssa.Index:
		e.set(it, x, e.index(it, x))
		return next()
	case *ssa.Lookup:
		e.set(it, x, e.lookupInstr(it, x))
		return next()
	case *ssa.MapUpdate:
		m, ok := e.val(it, x.Map).(MapRef)
		if !ok {
			unsupported("map update on non-map")
		}
		if m.obj == 0 {
			panic(goPanic{&PanicInfo{msg: "assignment to entry in nil map"}})
		}
		e.mapSet(st, m, e.val(it, x.Key), e.val(it, x.Value))
		return next()
	case *ssa.MakeMap:
		p := e.alloc(st, &MapVal{})
		e.set(it, x, MapRef{p.obj})
		return next()
	case *ssa.MakeSlice:
		n := e.concretize(st, e.term(it, x.Len), "slice length")
		c := e.concretize(st, e.term(it, x.Cap), "slice capacity")
		if n < 0 {
			e.throw(st, "makeslice: len out of range")
		}
		if c < n {
			e.throw(st, "makeslice: cap out of range")
		}
		if c > 1<<20 {
			unsupported("very large make")
		}
		z := e.zero(x.Type().Underlying().(*types.Slice).Elem())
		arr := make([]Value, c)
		for i := range arr {
			arr[i] = z
		}
		p := e.alloc(st, &Array{arr})
		e.set(it, x, Slice{base: p, len: n, cap: c})
		return next()
	case *ssa.MakeChan:
		unsupported("channels")
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.bind = append(c.bind, e.val(it, b))
		}
		e.set(it, x, c)
		return next()
	case *ssa.MakeInterface:
		e.set(it, x, Iface{t: x.X.Type(), v: e.val(it, x.X)})
		return next()
	case *ssa.ChangeInterface:
		e.set(it, x, e.val(it, x.X))
		return next()
	case *ssa.ChangeType:
		e.set(it, x, e.val(it, x.X))
		return next()
	case *ssa.Convert:
		e.set(it, x, e.convert(st, e.val(it, x.X), x.X.Type(), x.Type()))
		return next()
	case *ssa.MultiConvert:
		unsupported("multiconvert")
	case *ssa.TypeAssert:
		e.set(it, x, e.typeAssert(it, x))
		return next()
	case *ssa.Extract:
		t, ok := e.val(it, x.Tuple).(Tuple)
		if !ok {
			unsupported("extract of non-tuple")
		}
		e.set(it, x, t[x.Index])
		return next()
	case *ssa.Slice:
		e.set(it, x, e.sliceOp(it, x))
		return next()
	case *ssa.Range:
		e.set(it, x, e.rangeInit(it, x))
		return next()
	case *ssa.Next:
		e.set(it, x, e.rangeNext(it, x))
		return next()
	case *ssa.Phi:
		unsupported("phi outside block entry")
	case *ssa.Jump:
		e.goTo(it, it.blk.Succs[0], 0)
		return []*Item{it}, nil, false
	case *ssa.If:
		c := e.term(it, x.Cond)
		if e.decide(st, c) {
			e.goTo(it, it.blk.Succs[0], 0)
		} else {
			e.goTo(it, it.blk.Succs[1], 1)
		}
		return []*Item{it}, nil, false
	case *ssa.Return:
		var v Value
		switch len(x.Results) {
		case 0:
		case 1:
			v = e.val(it, x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = e.val(it, r)
			}
			v = t
		}
		return nil, []Outcome{{st: st, val: v}}, false
	case *ssa.Panic:
		v := e.val(it, x.X)
		panic(goPanic{&PanicInfo{msg: "panic: " + e.describe(st, v), val: v}})
	case *ssa.Defer:
		d := deferred{call: &x.Call}
		d.fn, d.args = e.callee(it, &x.Call)
		it.defers = append(it.defers[:len(it.defers):len(it.defers)], d)
		return next()
	case *ssa.RunDefers:
		if len(it.defers) == 0 {
			return next()
		}
		d := it.defers[len(it.defers)-1]
		rest := it.defers[:len(it.defers)-1]
		saved := st.panicV
		st.panicV = nil
		e.stack = append(e.stack, it)
		res := e.callDeferred(st, d)
		e.stack = e.stack[:len(e.stack)-1]
		for _, o := range res {
			n := it.fork()
			n.st = o.st
			n.st.panicV = saved
			n.defers = rest[:len(rest):len(rest)]
			n.pan = o.pan
			items = append(items, n)
		}
		return items, nil, false
	case *ssa.Call:
		return e.callInstr(it, x)
	case *ssa.Go, *ssa.Select, *ssa.Send:
		unsupported("concurrency")
	case *ssa.SliceToArrayPointer:
		unsupported("slice to array pointer")
	}
	unsupported(fmt.Sprintf("instruction %T", ins))
	return nil, nil, false
}

// goTo moves it along an edge, evaluating phis.
func (e *Exec) goTo(it *Item, to *ssa.BasicBlock, succ int) {
	e.Blocks++
	if e.Blocks&255 == 0 {
		e.checkTime()
	}
	from := it.blk
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			// distinguish duplicate edges by successor position
			if succ == 1 && from.Succs[0] == to {
				succ = 0
				continue
			}
			break
		}
	}
	var vals []Value
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(it, p.Edges[pi]))
	}
	for i, v := range vals {
		e.set(it, to.Instrs[i].(*ssa.Phi), v)
	}
	fi := it.fi
	lf, lt := fi.loops[from.Index], fi.loops[to.Index]
	iters := make([]int, len(lt))
	for i, h := range lt {
		if i < len(lf) && lf[i] == h {
			iters[i] = it.iters[i]
			if h == to.Index && to.Dominates(from) {
				iters[i]++
				if iters[i] > e.opt.unwind {
					unsupported("unwind bound reached in " + fi.fn.String())
				}
			}
		}
	}
	it.iters = iters
	it.blk = to
	it.idx = fi.first[to.Index]
	it.atHead = true
	for r, l := range fi.livein[to.Index] {
		if !l {
			it.regs[r] = nil
		}
	}
}

func (e *Exec) callee(it *Item, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv, ok := e.val(it, c.Value).(Iface)
		if !ok {
			unsupported("invoke on non-interface")
		}
		if recv.t == nil {
			e.throw(it.st, "invalid memory address or nil pointer dereference")
		}
		fn := e.prog.LookupMethod(recv.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			unsupported("method " + c.Method.Name() + " not found on " + recv.t.String())
		}
		args = append(args, recv.v)
		for _, a := range c.Args {
			args = append(args, e.val(it, a))
		}
		return fn, args
	}
	for _, a := range c.Args {
		args = append(args, e.val(it, a))
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		return fn, args
	}
	f := e.val(it, c.Value)
	return f, args
}

func (e *Exec) callInstr(it *Item, x *ssa.Call) (items []*Item, outs []Outcome, cont bool) {
	f, args := e.callee(it, &x.Call)
	if b, ok := f.(*ssa.Builtin); ok {
		e.set(it, x, e.builtin(it.st, b, args, &x.Call))
		it.idx++
		return nil, nil, true
	}
	if p, ok := f.(Poison); ok {
		unsupported("poison call: " + p.why)
	}
	if fn, ok := f.(*ssa.Function); ok && e.poison > 0 && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Pkg != it.fi.fn.Pkg {
		it.idx++ // imported packages initialise lazily
		return nil, nil, true
	}
	// the call's own result register must not keep stale values alive
	it.regs[it.fi.reg[x]] = nil
	e.stack = append(e.stack, it)
	res := e.invoke(it.st, f, args)
	e.stack = e.stack[:len(e.stack)-1]
	if len(res) == 1 && res[0].pan == nil {
		it.st = res[0].st
		e.set(it, x, res[0].val)
		it.idx++
		return nil, nil, true
	}
	for _, o := range res {
		n := *it
		n.regs = append([]Value(nil), it.regs...)
		n.st = o.st
		if o.pan != nil {
			if o.pan.pos == "" {
				o.pan.pos = e.pos(x)
			}
			n.pan = o.pan
		} else {
			n.regs[it.fi.reg[x]] = o.val
			n.idx++
		}
		items = append(items, &n)
	}
	return items, nil, false
}

func (e *Exec) unop(it *Item, x *ssa.UnOp) Value {
	v := e.val(it, x.X)
	if p, ok := v.(Poison); ok {
		unsupported("poison: " + p.why)
	}
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			unsupported("load of non-pointer")
		}
		return e.load(it.st, p)
	case token.NOT:
		return e.c.Not(v.(*Term))
	case token.SUB:
		if f, ok := v.(Float); ok {
			return e.fneg(f)
		}
		return e.wrap(e.c.Neg(v.(*Term)), x.Type())
	case token.XOR:
		t := v.(*Term)
		b, signed := intBits(x.Type())
		if signed {
			return e.c.Sub(e.c.Int(-1), t)
		}
		max := new(big.Rat).SetInt(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(b)), big.NewInt(1)))
		return e.c.Sub(e.c.Num(SInt, max), t)
	}
	unsupported("unary " + x.Op.String())
	return nil
}

func intBits(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func floatBits(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return 32
	}
	return 64
}

func pow2(n int) *big.Rat {
	return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(n)))
}

// wrap reduces an exact integer to its machine type.
func (e *Exec) wrap(t *Term, ty types.Type) *Term {
	bits, signed := intBits(ty)
	lo, hi := new(big.Rat), new(big.Rat).Sub(pow2(bits), ratOne)
	if signed {
		lo = new(big.Rat).Neg(pow2(bits - 1))
		hi = new(big.Rat).Sub(pow2(bits-1), ratOne)
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	m := e.c.Num(SInt, pow2(bits))
	if signed {
		h := pow2(bits - 1)
		return e.c.AddK(e.c.IMod(e.c.AddK(t, h), m), new(big.Rat).Neg(h))
	}
	return e.c.IMod(t, m)
}

func (e *Exec) binop(st *State, op token.Token, a, b Value, ta, tb types.Type) Value {
	if p, ok := a.(Poison); ok {
		unsupported("poison: " + p.why)
	}
	if p, ok := b.(Poison); ok {
		unsupported("poison: " + p.why)
	}
	c := e.c
	switch op {
	case token.EQL:
		return e.eqVal(st, a, b)
	case token.NEQ:
		return c.Not(e.eqVal(st, a, b))
	}
	if x, ok := a.(Float); ok {
		y := b.(Float)
		bits := floatBits(ta)
		switch op {
		case token.ADD:
			return e.fadd(st, x, y, bits)
		case token.SUB:
			return e.fsub(st, x, y, bits)
		case token.MUL:
			return e.fmul(st, x, y, bits)
		case token.QUO:
			return e.fdiv(st, x, y, bits)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return e.fcmp(op.String(), x, y)
		}
	}
	if x, ok := a.(Str); ok {
		y := b.(Str)
		switch op {
		case token.ADD:
			return catStr(x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return e.strCmp(op, x, y)
		}
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsupported(fmt.Sprintf("binop %s on %T,%T", op, a, b))
	}
	switch op {
	case token.ADD:
		return e.wrap(c.Add(x, y), ta)
	case token.SUB:
		return e.wrap(c.Sub(x, y), ta)
	case token.MUL:
		return e.wrap(c.Mul(x, y), ta)
	case token.LSS:
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Lt(y, x)
	case token.GEQ:
		return c.Le(y, x)
	case token.QUO, token.REM:
		if e.decide(st, c.Eq(y, c.Int(0))) {
			e.throw(st, "integer divide by zero")
		}
		q, r := e.truncDiv(st, x, y)
		if op == token.QUO {
			return e.wrap(q, ta)
		}
		return r
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		return e.bitop(st, op, x, y, ta, tb)
	}
	unsupported("binop " + op.String())
	return nil
}

// truncDiv is Go's truncated division for y != 0.
func (e *Exec) truncDiv(st *State, x, y *Term) (*Term, *Term) {
	c := e.c
	if !y.isConst() {
		if e.decide(st, c.Lt0(y)) {
			q, r := e.truncDiv(st, x, c.Neg(y))
			return c.Neg(q), r
		}
		if y.lo != nil && y.hi != nil && new(big.Rat).Sub(y.hi, y.lo).Cmp(big.NewRat(64, 1)) < 0 {
			y = c.Int(int64(e.concretize(st, y, "divisor")))
		}
	} else if y.rat.Sign() < 0 {
		q, r := e.truncDiv(st, x, c.Neg(y))
		return c.Neg(q), r
	}
	if x.lo != nil && x.lo.Sign() >= 0 {
		return c.IDiv(x, y), c.IMod(x, y)
	}
	if x.hi != nil && x.hi.Sign() <= 0 {
		return c.Neg(c.IDiv(c.Neg(x), y)), c.Neg(c.IMod(c.Neg(x), y))
	}
	neg := c.Lt0(x)
	nx := c.Neg(x)
	return c.Ite(neg, c.Neg(c.IDiv(nx, y)), c.IDiv(x, y)), c.Ite(neg, c.Neg(c.IMod(nx, y)), c.IMod(x, y))
}

func (e *Exec) bitop(st *State, op token.Token, x, y *Term, ta, tb types.Type) Value {
	c := e.c
	if x.sort == SBool {
		switch op {
		case token.AND:
			return c.And(x, y)
		case token.OR:
			return c.Or(x, y)
		}
	}
	if x.isConst() && y.isConst() {
		xi, yi := x.rat.Num(), y.rat.Num()
		z := new(big.Int)
		switch op {
		case token.AND:
			z.And(xi, yi)
		case token.OR:
			z.Or(xi, yi)
		case token.XOR:
			z.Xor(xi, yi)
		case token.AND_NOT:
			z.AndNot(xi, yi)
		case token.SHL:
			if yi.Sign() < 0 {
				e.throw(st, "negative shift amount")
			}
			if yi.Cmp(big.NewInt(200)) > 0 {
				return c.Int(0)
			}
			z.Lsh(xi, uint(yi.Int64()))
		case token.SHR:
			if yi.Sign() < 0 {
				e.throw(st, "negative shift amount")
			}
			s := uint(200)
			if yi.Cmp(big.NewInt(200)) < 0 {
				s = uint(yi.Int64())
			}
			z.Rsh(xi, s)
		}
		return e.wrap(c.Num(SInt, new(big.Rat).SetInt(z)), ta)
	}
	if y.isConst() {
		yi := y.rat.Num()
		switch op {
		case token.SHL:
			return e.wrap(c.Scale(x, pow2(int(yi.Int64()))), ta)
		case token.SHR:
			return c.IDiv(x, c.Num(SInt, pow2(int(yi.Int64()))))
		case token.AND:
			m := new(big.Int).Add(yi, big.NewInt(1))
			if yi.Sign() >= 0 && new(big.Int).And(yi, m).Sign() == 0 {
				return c.IMod(x, c.Num(SInt, new(big.Rat).SetInt(m)))
			}
			if yi.Sign() == 0 {
				return c.Int(0)
			}
		case token.OR, token.XOR:
			if yi.Sign() == 0 {
				return x
			}
		}
	}
	if x.isConst() && op == token.AND {
		return e.bitop(st, op, y, x, ta, tb)
	}
	unsupported("symbolic bit operation " + op.String())
	return nil
}

func (e *Exec) strCmp(op token.Token, a, b Str) *Term {
	x, ok1 := a.conc()
	y, ok2 := b.conc()
	if ok1 && ok2 {
		switch op {
		case token.LSS:
			return e.c.Bool(x < y)
		case token.LEQ:
			return e.c.Bool(x <= y)
		case token.GTR:
			return e.c.Bool(x > y)
		default:
			return e.c.Bool(x >= y)
		}
	}
	lt := func(p, q Str) *Term {
		return e.c.mk(&Term{op: OStrLt, sort: SBool, args: []*Term{e.strTerm(p), e.strTerm(q)}})
	}
	switch op {
	case token.LSS:
		return lt(a, b)
	case token.GTR:
		return lt(b, a)
	case token.LEQ:
		return e.c.Not(lt(b, a))
	default:
		return e.c.Not(lt(a, b))
	}
}

func (e *Exec) strEq(a, b Str) *Term {
	ap, bp := a.ps, b.ps
	// strip identical prefix and suffix pieces
	for len(ap) > 0 && len(bp) > 0 {
		if samePiece(ap[0], bp[0]) {
			ap, bp = ap[1:], bp[1:]
			continue
		}
		if ap[0].k == pcConc && bp[0].k == pcConc {
			s, t := ap[0].s, bp[0].s
			n := len(s)
			if len(t) < n {
				n = len(t)
			}
			if s[:n] != t[:n] {
				return e.c.tFalse
			}
			ap, bp = append(cstr(s[n:]).ps, ap[1:]...), append(cstr(t[n:]).ps, bp[1:]...)
			continue
		}
		break
	}
	for len(ap) > 0 && len(bp) > 0 {
		x, y := ap[len(ap)-1], bp[len(bp)-1]
		if samePiece(x, y) {
			ap, bp = ap[:len(ap)-1], bp[:len(bp)-1]
			continue
		}
		if x.k == pcConc && y.k == pcConc {
			s, t := x.s, y.s
			n := len(s)
			if len(t) < n {
				n = len(t)
			}
			if s[len(s)-n:] != t[len(t)-n:] {
				return e.c.tFalse
			}
			ap = append(append([]piece(nil), ap[:len(ap)-1]...), cstr(s[:len(s)-n]).ps...)
			bp = append(append([]piece(nil), bp[:len(bp)-1]...), cstr(t[:len(t)-n]).ps...)
			continue
		}
		break
	}
	a, b = Str{ap}, Str{bp}
	if len(ap) == 0 && len(bp) == 0 {
		return e.c.tTrue
	}
	la, oka := a.fixedLen()
	lb, okb := b.fixedLen()
	if oka && okb {
		if la != lb {
			return e.c.tFalse
		}
		xs, _ := e.explode(a)
		ys, _ := e.explode(b)
		var cs []*Term
		for i := range xs {
			cs = append(cs, e.c.Eq(xs[i], ys[i]))
		}
		return e.c.And(cs...)
	}
	// a formatted value is never empty
	if len(ap) == 0 && hasFmt(bp) || len(bp) == 0 && hasFmt(ap) {
		return e.c.tFalse
	}
	return e.c.Eq(e.strTerm(a), e.strTerm(b))
}

func hasFmt(ps []piece) bool {
	for _, p := range ps {
		if p.k == pcFmt || p.k == pcByte || p.k == pcConc && p.s != "" {
			return true
		}
	}
	return false
}

// eqVal is Go's == on two values of the same type.
func (e *Exec) eqVal(st *State, a, b Value) *Term {
	c := e.c
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsupported("eq mismatch")
		}
		return c.Eq(x, y)
	case Float:
		return e.fcmp("==", x, b.(Float))
	case Str:
		return e.strEq(x, b.(Str))
	case *Struct:
		y := b.(*Struct)
		var cs []*Term
		for i := range x.f {
			cs = append(cs, e.eqVal(st, x.f[i], y.f[i]))
		}
		return c.And(cs...)
	case *Array:
		y := b.(*Array)
		var cs []*Term
		for i := range x.e {
			cs = append(cs, e.eqVal(st, x.e[i], y.e[i]))
		}
		return c.And(cs...)
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return c.Bool(samePtr(x, y))
		}
	case Slice:
		y, ok := b.(Slice)
		if ok && (x.isNil() || y.isNil()) {
			return c.Bool(x.isNil() && y.isNil())
		}
		if p, ok := b.(Ptr); ok && p.isNil() {
			return c.Bool(x.isNil())
		}
	case MapRef:
		y, ok := b.(MapRef)
		if ok {
			return c.Bool(x.obj == y.obj)
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && (x == nil || y == nil) {
			return c.Bool(x == nil && y == nil)
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsupported("iface comparison with concrete value")
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.tFalse
		}
		if !types.Comparable(x.t) {
			e.throw(st, "comparing uncomparable type "+x.t.String())
		}
		return e.eqVal(st, x.v, y.v)
	case *SymBytes:
		if s, ok := b.(Slice); ok && s.isNil() {
			return c.tFalse
		}
	}
	unsupported(fmt.Sprintf("== on %T,%T", a, b))
	return nil
}

func (e *Exec) boundsIdx(st *State, t *Term, n int, what string) int {
	c := e.c
	in := c.And(c.Le(c.Int(0), t), c.Lt(t, c.Int(int64(n))))
	if !e.decide(st, in) {
		e.throw(st, "index out of range")
	}
	if t.isConst() {
		return int(t.rat.Num().Int64())
	}
	// narrow to the valid range
	lo, hi := int64(0), int64(n-1)
	for lo < hi {
		mid := lo + (hi-lo)/2
		if e.decide(st, c.Le(t, c.Int(mid))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return int(lo)
}

func (e *Exec) indexAddr(it *Item, x *ssa.IndexAddr) Value {
	st := it.st
	t := e.term(it, x.Index)
	switch b := e.val(it, x.X).(type) {
	case Slice:
		i := e.boundsIdx(st, t, b.len, "slice")
		return b.base.sub(b.off + i)
	case Ptr:
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if b.isNil() {
			e.throw(st, "invalid memory address or nil pointer dereference")
		}
		i := e.boundsIdx(st, t, n, "array")
		return b.sub(i)
	case Poison:
		unsupported("poison: " + b.why)
	case *SymBytes:
		unsupported("index into symbolic bytes")
	}
	unsupported("indexaddr")
	return nil
}

func (e *Exec) index(it *Item, x *ssa.Index) Value {
	t := e.term(it, x.Index)
	switch b := e.val(it, x.X).(type) {
	case *Array:
		return b.e[e.boundsIdx(it.st, t, len(b.e), "array")]
	case Str:
		return e.strIndex(it.st, b, t)
	}
	unsupported("index")
	return nil
}

func (e *Exec) strIndex(st *State, s Str, t *Term) Value {
	if n, ok := s.fixedLen(); ok {
		i := e.boundsIdx(st, t, n, "string")
		bs, _ := e.explode(s)
		return bs[i]
	}
	// index inside a leading concrete part
	if t.isConst() {
		i := int(t.rat.Num().Int64())
		if i < 0 {
			e.throw(st, "index out of range")
		}
		off := 0
		for _, p := range s.ps {
			switch p.k {
			case pcConc:
				if i < off+len(p.s) {
					return e.c.Int(int64(p.s[i-off]))
				}
				off += len(p.s)
			case pcByte:
				if i == off {
					return p.t
				}
				off++
			default:
				unsupported("index into symbolic string")
			}
		}
	}
	// index counted from the end, inside a trailing concrete part
	if back := e.c.Sub(e.strLen(s), t); back.isConst() {
		i := int(back.rat.Num().Int64())
		if i < 1 {
			e.throw(st, "index out of range")
		}
		for k := len(s.ps) - 1; k >= 0; k-- {
			switch p := s.ps[k]; p.k {
			case pcConc:
				if i <= len(p.s) {
					return e.c.Int(int64(p.s[len(p.s)-i]))
				}
				i -= len(p.s)
			case pcByte:
				if i == 1 {
					return p.t
				}
				i--
			default:
				unsupported("index into symbolic string")
			}
		}
	}
	unsupported("index into symbolic string")
	return nil
}

func (e *Exec) lookupInstr(it *Item, x *ssa.Lookup) Value {
	st := it.st
	switch b := e.val(it, x.X).(type) {
	case Str:
		return e.strIndex(st, b, e.term(it, x.Index))
	case MapRef:
		zero := e.zero(x.X.Type().Underlying().(*types.Map).Elem())
		v, ok := e.mapGet(st, b, e.val(it, x.Index), zero)
		if x.CommaOk {
			return Tuple{v, ok}
		}
		return v
	case Poison:
		unsupported("poison: " + b.why)
	}
	unsupported("lookup")
	return nil
}

// mapGet returns the value and presence term for a key.
func (e *Exec) mapGet(st *State, m MapRef, key, zero Value) (Value, *Term) {
	c := e.c
	if m.obj == 0 {
		return zero, c.tFalse
	}
	mv, ok := e.heapGet(st, m.obj).(*MapVal)
	if !ok {
		unsupported("map object")
	}
	if ks, ok := key.(Str); ok {
		if s, ok := ks.conc(); ok {
			// fast path for concrete string keys
			allc := true
			for i, k := range mv.keys {
				if kc, ok := k.(Str).conc(); ok {
					if kc == s {
						return mv.vals[i], c.tTrue
					}
				} else {
					allc = false
				}
			}
			if allc {
				return zero, c.tFalse
			}
		}
	}
	type cand struct {
		g *Term
		v Value
	}
	var cs []cand
	for i, k := range mv.keys {
		g := e.eqVal(st, k, key)
		if v, ok := e.lookup(st, g); ok {
			if v {
				return mv.vals[i], c.tTrue
			}
			continue
		}
		cs = append(cs, cand{g, mv.vals[i]})
	}
	if len(cs) == 0 {
		return zero, c.tFalse
	}
	// try to merge all candidates into one value
	res := zero
	pres := c.tFalse
	mg := &merger{e: e, force: true}
	okAll := true
	for i := len(cs) - 1; i >= 0; i-- {
		v, ok := mg.merge(cs[i].g, cs[i].v, res)
		if !ok {
			okAll = false
			break
		}
		res = v
		pres = c.Or(pres, cs[i].g)
	}
	if okAll {
		return res, pres
	}
	for _, x := range cs {
		if e.decide(st, x.g) {
			return x.v, c.tTrue
		}
	}
	return zero, c.tFalse
}

func (e *Exec) mapSet(st *State, m MapRef, key, val Value) {
	if i, ok := e.checkHash(st, key); !ok {
		e.throw(st, "hash of unhashable type "+i)
	}
	mv := e.heapGet(st, m.obj).(*MapVal)
	idx := -1
	ks, _ := key.(Str)
	kc, kconc := ks.conc()
	for i, k := range mv.keys {
		if kconc {
			if s, ok := k.(Str); ok {
				if c, ok := s.conc(); ok && c != kc {
					continue
				}
			}
		}
		g := e.eqVal(st, k, key)
		if g.isFalse() {
			continue
		}
		if e.decide(st, g) {
			idx = i
			break
		}
	}
	n := &MapVal{}
	if idx >= 0 {
		n.keys = mv.keys
		n.vals = append([]Value(nil), mv.vals...)
		n.vals[idx] = val
	} else if e.poison > 0 {
		// initialisers run on a single path: amortised growth is safe
		n.keys = append(mv.keys, key)
		n.vals = append(mv.vals, val)
	} else {
		n.keys = append(mv.keys[:len(mv.keys):len(mv.keys)], key)
		n.vals = append(mv.vals[:len(mv.vals):len(mv.vals)], val)
	}
	st.setHeap(m.obj, n)
}

func (e *Exec) checkHash(st *State, key Value) (string, bool) {
	if i, ok := key.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		return i.t.String(), false
	}
	return "", true
}

func (e *Exec) mapDelete(st *State, m MapRef, key Value) {
	if m.obj == 0 {
		return
	}
	mv := e.heapGet(st, m.obj).(*MapVal)
	for i, k := range mv.keys {
		g := e.eqVal(st, k, key)
		if g.isFalse() {
			continue
		}
		if e.decide(st, g) {
			n := &MapVal{}
			n.keys = append(append([]Value(nil), mv.keys[:i]...), mv.keys[i+1:]...)
			n.vals = append(append([]Value(nil), mv.vals[:i]...), mv.vals[i+1:]...)
			st.setHeap(m.obj, n)
			return
		}
	}
}

func (e *Exec) sliceOp(it *Item, x *ssa.Slice) Value {
	st := it.st
	c := e.c
	get := func(v ssa.Value, def int) *Term {
		if v == nil {
			return c.Int(int64(def))
		}
		return e.term(it, v)
	}
	switch b := e.val(it, x.X).(type) {
	case Str:
		return e.strSlice(st, b, x, it)
	case Slice, Ptr:
		var s Slice
		if p, ok := b.(Ptr); ok {
			if p.isNil() {
				e.throw(st, "invalid memory address or nil pointer dereference")
			}
			n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			s = Slice{base: p, len: n, cap: n}
		} else {
			s = b.(Slice)
		}
		lo, hi, mx := get(x.Low, 0), get(x.High, s.len), get(x.Max, s.cap)
		ok := c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, c.Int(int64(s.cap))))
		if !e.decide(st, ok) {
			e.throw(st, "slice bounds out of range")
		}
		if s.isNil() {
			return s
		}
		m := e.pick(st, mx, 0, s.cap)
		h := e.pick(st, hi, 0, m)
		l := e.pick(st, lo, 0, h)
		return Slice{base: s.base, off: s.off + l, len: h - l, cap: m - l}
	case Poison:
		unsupported("poison: " + b.why)
	case *SymBytes:
		unsupported("slicing symbolic bytes")
	}
	unsupported("slice of value")
	return nil
}

func (e *Exec) pick(st *State, t *Term, lo, hi int) int {
	if t.isConst() {
		return int(t.rat.Num().Int64())
	}
	for lo < hi {
		mid := lo + (hi-lo)/2
		if e.decide(st, e.c.Le(t, e.c.Int(int64(mid)))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return lo
}

// strSlice implements s[lo:hi]. Bounds counted from the symbolic end of the
// string (len(s)-k) are supported when the trimmed text is concrete.
func (e *Exec) strSlice(st *State, s Str, x *ssa.Slice, it *Item) Value {
	c := e.c
	ln := e.strLen(s)
	lo, hi := c.Int(0), ln
	if x.Low != nil {
		lo = e.term(it, x.Low)
	}
	if x.High != nil {
		hi = e.term(it, x.High)
	}
	return e.substr(st, s, lo, hi, ln)
}

func (e *Exec) substr(st *State, s Str, lo, hi, ln *Term) Value {
	c := e.c
	ok := c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, ln))
	if !e.decide(st, ok) {
		e.throw(st, "slice bounds out of range")
	}
	if n, ok := s.fixedLen(); ok {
		h := e.pick(st, hi, 0, n)
		l := e.pick(st, lo, 0, h)
		bs, _ := e.explode(s)
		return e.implode(bs[l:h])
	}
	// symbolic length: trim fixed pieces at both ends
	front := e.pickSmall(st, lo)
	back := e.pickSmall(st, c.Sub(ln, hi))
	ps := append([]piece(nil), s.ps...)
	for front > 0 {
		if len(ps) == 0 {
			unsupported("substring")
		}
		switch ps[0].k {
		case pcConc:
			n := len(ps[0].s)
			if n > front {
				ps[0] = piece{k: pcConc, s: ps[0].s[front:]}
				front = 0
			} else {
				front -= n
				ps = ps[1:]
			}
		case pcByte:
			front--
			ps = ps[1:]
		default:
			unsupported("substring starting inside symbolic text")
		}
	}
	for back > 0 {
		if len(ps) == 0 {
			unsupported("substring")
		}
		l := len(ps) - 1
		switch ps[l].k {
		case pcConc:
			n := len(ps[l].s)
			if n > back {
				ps[l] = piece{k: pcConc, s: ps[l].s[:n-back]}
				back = 0
			} else {
				back -= n
				ps = ps[:l]
			}
		case pcByte:
			back--
			ps = ps[:l]
		default:
			unsupported("substring ending inside symbolic text")
		}
	}
	return Str{ps}
}

func (e *Exec) pickSmall(st *State, t *Term) int {
	if t.isConst() {
		return int(t.rat.Num().Int64())
	}
	unsupported("symbolic substring bound")
	return 0
}

// strLen is the byte length of a rope.
func (e *Exec) strLen(s Str) *Term {
	c := e.c
	n := int64(0)
	t := c.Int(0)
	for _, p := range s.ps {
		switch p.k {
		case pcConc:
			n += int64(len(p.s))
		case pcByte:
			n++
		case pcSym:
			t = c.Add(t, c.StrLen(p.t))
		case pcFmt:
			// length of formatted text: at least one byte
			id := e.strTerm(Str{[]piece{p}})
			l := c.Var(fmt.Sprintf("fmtlen!%d", id.id), SInt, ratOne, big.NewRat(400, 1), 0)
			t = c.Add(t, l)
		}
	}
	return c.Add(t, c.Int(n))
}

func (e *Exec) rangeInit(it *Item, x *ssa.Range) Value {
	switch b := e.val(it, x.X).(type) {
	case MapRef:
		o := &Opaque{kind: "mapiter", i: 0}
		if b.obj != 0 {
			mv := e.heapGet(it.st, b.obj).(*MapVal)
			o.vs = mv.keys
		}
		o.p = Ptr{obj: b.obj}
		if len(o.vs) > 1 {
			e.note("map iteration is explored in insertion order only")
		}
		return e.alloc(it.st, o)
	case Str:
		return e.alloc(it.st, &Opaque{kind: "striter", vs: []Value{b}})
	}
	unsupported("range")
	return nil
}

func (e *Exec) rangeNext(it *Item, x *ssa.Next) Value {
	st := it.st
	p, ok := e.val(it, x.Iter).(Ptr)
	if !ok {
		unsupported("next on non-iterator")
	}
	o := e.load(st, p).(*Opaque)
	c := e.c
	if o.kind == "striter" {
		s := o.vs[0].(Str)
		if cs, ok := s.conc(); ok {
			for j, r := range cs[o.i:] {
				_ = j
				n := *o
				w := len(string(r))
				if r == 0xFFFD {
					w = 1
					if strings.HasPrefix(cs[o.i:], "�") {
						w = 3
					}
				}
				n.i = o.i + w
				e.store(st, p, &n)
				return Tuple{c.tTrue, c.Int(int64(o.i)), c.Int(int64(r))}
			}
			return Tuple{c.tFalse, c.Int(0), c.Int(0)}
		}
		bs, ok := e.explode(s)
		if !ok {
			unsupported("range over symbolic string")
		}
		if o.i >= len(bs) {
			return Tuple{c.tFalse, c.Int(0), c.Int(0)}
		}
		if !e.decide(st, c.Lt(bs[o.i], c.Int(128))) {
			unsupported("range over symbolic non-ASCII text")
		}
		n := *o
		n.i++
		e.store(st, p, &n)
		return Tuple{c.tTrue, c.Int(int64(o.i)), bs[o.i]}
	}
	tt := x.Type().(*types.Tuple)
	kz, vz := e.zeroOrNil(tt.At(1).Type()), e.zeroOrNil(tt.At(2).Type())
	for o.i < len(o.vs) {
		k := o.vs[o.i]
		n := *o
		n.i++
		e.store(st, p, &n)
		o = &n
		// skip entries deleted during iteration
		mv := e.heapGet(st, o.p.obj).(*MapVal)
		for j, kk := range mv.keys {
			if sameValue(kk, k) {
				return Tuple{c.tTrue, k, mv.vals[j]}
			}
		}
	}
	return Tuple{c.tFalse, kz, vz}
}

func (e *Exec) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return e.zero(t)
}

func (e *Exec) typeAssert(it *Item, x *ssa.TypeAssert) Value {
	v, ok := e.val(it, x.X).(Iface)
	if !ok {
		unsupported("type assertion on non-interface")
	}
	c := e.c
	match := false
	var res Value
	if v.t != nil {
		if ifc, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			match = types.Implements(v.t, ifc)
			res = v
		} else {
			match = types.Identical(v.t, x.AssertedType)
			res = v.v
		}
	}
	if x.CommaOk {
		if match {
			return Tuple{res, c.tTrue}
		}
		return Tuple{e.zero(x.AssertedType), c.tFalse}
	}
	if !match {
		e.throw(it.st, "interface conversion failed")
	}
	return res
}

func (e *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := e.c
	fu, tu := from.Underlying(), to.Underlying()
	if p, ok := v.(Poison); ok {
		unsupported("poison: " + p.why)
	}
	tb, tIsB := tu.(*types.Basic)
	switch x := v.(type) {
	case *Term:
		if !tIsB {
			break
		}
		switch {
		case tb.Info()&types.IsInteger != 0:
			return e.wrap(x, to)
		case tb.Info()&types.IsFloat != 0:
			return e.fround(c.ToReal(x), floatBits(to))
		case tb.Info()&types.IsString != 0:
			if x.isConst() {
				return cstr(string(rune(x.rat.Num().Int64())))
			}
			if x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(big.NewRat(127, 1)) <= 0 {
				return e.implode([]*Term{x})
			}
		}
	case Float:
		if !tIsB {
			break
		}
		if tb.Info()&types.IsFloat != 0 {
			if x.k != fFin {
				return x
			}
			return e.fround(x.t, floatBits(to))
		}
		if tb.Info()&types.IsInteger != 0 {
			if x.k != fFin {
				unsupported("conversion of a non-finite float to an integer")
			}
			tr := e.truncReal(x.t)
			bits, signed := intBits(to)
			if signed && (tr.lo == nil || tr.hi == nil || tr.lo.Cmp(new(big.Rat).Neg(pow2(bits-1))) < 0 || tr.hi.Cmp(pow2(bits-1)) >= 0) {
				in := c.And(c.Le(c.Num(SInt, new(big.Rat).Neg(pow2(bits-1))), tr), c.Lt(tr, c.Num(SInt, pow2(bits-1))))
				if !e.decide(st, in) {
					// out-of-range conversion is implementation specific; amd64 yields the minimum integer
					e.note("out-of-range float to integer conversion follows amd64 (minimum integer)")
					return c.Num(SInt, new(big.Rat).Neg(pow2(bits-1)))
				}
			}
			return e.wrap(tr, to)
		}
	case Str:
		if tIsB && tb.Info()&types.IsString != 0 {
			return x
		}
		if sl, ok := tu.(*types.Slice); ok {
			if eb, ok := sl.Elem().Underlying().(*types.Basic); ok {
				if eb.Kind() == types.Uint8 {
					if bs, ok := e.explode(x); ok {
						vs := make([]Value, len(bs))
						for i := range bs {
							vs[i] = bs[i]
						}
						return e.newSlice(st, vs, 0, c.Int(0))
					}
					return &SymBytes{x}
				}
				if eb.Kind() == types.Int32 {
					if s, ok := x.conc(); ok {
						var vs []Value
						for _, r := range s {
							vs = append(vs, c.Int(int64(r)))
						}
						return e.newSlice(st, vs, 0, c.Int(0))
					}
					if bs, ok := e.explode(x); ok {
						var vs []Value
						for _, b := range bs {
							if !e.decide(st, c.Lt(b, c.Int(128))) {
								unsupported("symbolic non-ASCII rune conversion")
							}
							vs = append(vs, b)
						}
						return e.newSlice(st, vs, 0, c.Int(0))
					}
				}
			}
		}
	case *SymBytes:
		if tIsB && tb.Info()&types.IsString != 0 {
			return x.s
		}
	case Slice:
		if tIsB && tb.Info()&types.IsString != 0 {
			el := e.sliceElems(st, x)
			eb := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				bs := make([]*Term, len(el))
				for i := range el {
					bs[i] = el[i].(*Term)
				}
				return e.implode(bs)
			}
			var sb strings.Builder
			for _, r := range el {
				t := r.(*Term)
				if !t.isConst() {
					unsupported("symbolic rune slice")
				}
				sb.WriteRune(rune(t.rat.Num().Int64()))
			}
			return cstr(sb.String())
		}
		return x
	case Ptr:
		return x
	}
	unsupported(fmt.Sprintf("conversion %s -> %s", from, to))
	return nil
}

// truncReal truncates towards zero.
func (e *Exec) truncReal(t *Term) *Term {
	c := e.c
	if t.isConst() {
		q := new(big.Int).Quo(t.rat.Num(), t.rat.Denom())
		return c.Num(SInt, new(big.Rat).SetInt(q))
	}
	if t.op == OIte {
		return c.Ite(t.args[0], e.truncReal(t.args[1]), e.truncReal(t.args[2]))
	}
	if t.lo != nil && t.lo.Sign() >= 0 {
		return c.Floor(t)
	}
	f := c.Floor(t)
	if t.op == OToReal {
		return t.args[0]
	}
	return c.Ite(c.Lt0(t), c.Neg(c.Floor(c.Neg(t))), f)
}

// ---- builtins --------------------------------------------------------------

func (e *Exec) builtin(st *State, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	c := e.c
	for _, a := range args {
		if p, ok := a.(Poison); ok {
			unsupported("poison: " + p.why)
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return c.Int(int64(x.len))
		case Str:
			return e.strLen(x)
		case MapRef:
			if x.obj == 0 {
				return c.Int(0)
			}
			return c.Int(int64(len(e.heapGet(st, x.obj).(*MapVal).keys)))
		case *Array:
			return c.Int(int64(len(x.e)))
		case *SymBytes:
			return e.strLen(x.s)
		}
	case "cap":
		if x, ok := args[0].(Slice); ok {
			return c.Int(int64(x.cap))
		}
	case "append":
		return e.appendB(st, args[0], args[1], call)
	case "copy":
		d, ok := args[0].(Slice)
		if !ok {
			break
		}
		var src []Value
		switch s := args[1].(type) {
		case Slice:
			src = e.sliceElems(st, s)
		case Str:
			bs, ok := e.explode(s)
			if !ok {
				unsupported("copy from symbolic string")
			}
			for _, x := range bs {
				src = append(src, x)
			}
		default:
			unsupported("copy source")
		}
		n := d.len
		if len(src) < n {
			n = len(src)
		}
		if n > 0 {
			e.writeElems(st, d, 0, src[:n])
		}
		return c.Int(int64(n))
	case "delete":
		e.mapDelete(st, args[0].(MapRef), args[1])
		return nil
	case "panic":
		panic(goPanic{&PanicInfo{msg: "panic: " + e.describe(st, args[0]), val: args[0]}})
	case "recover":
		if st.panicV == nil {
			return Iface{}
		}
		p := st.panicV
		st.panicV = nil
		if i, ok := p.val.(Iface); ok {
			return i
		}
		return Iface{t: types.Typ[types.String], v: cstr(p.msg)}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.isNil() {
			e.throw(st, "invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			switch x := r.(type) {
			case *Term:
				g := c.Le(x, y.(*Term))
				if b.Name() == "max" {
					g = c.Le(y.(*Term), x)
				}
				r = c.Ite(g, x, y.(*Term))
			default:
				unsupported("min/max on non-integers")
			}
		}
		return r
	}
	unsupported("builtin " + b.Name())
	return nil
}

func (e *Exec) writeElems(st *State, d Slice, at int, src []Value) {
	a, ok := e.load(st, d.base).(*Array)
	if !ok {
		unsupported("slice backing")
	}
	ne := make([]Value, len(a.e))
	copy(ne, a.e)
	for i, v := range append([]Value(nil), src...) {
		ne[d.off+at+i] = v
	}
	e.store(st, d.base, &Array{ne})
}

// growCap follows runtime.growslice closely enough to preserve aliasing of
// small slices (capacity doubling with size-class rounding).
func growCap(oldCap, need, elemSize int) int {
	nc := oldCap
	if need > 2*oldCap {
		nc = need
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if elemSize <= 0 {
		return nc
	}
	mem := nc * elemSize
	for _, sc := range sizeClasses {
		if mem <= sc {
			return sc / elemSize
		}
	}
	mem = (mem + 8191) / 8192 * 8192
	return mem / elemSize
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var stdSizes = types.SizesFor("gc", "amd64")

func (e *Exec) appendB(st *State, dst, src Value, call *ssa.CallCommon) Value {
	var add []Value
	switch s := src.(type) {
	case Slice:
		add = append(add, e.sliceElems(st, s)...)
	case Str:
		bs, ok := e.explode(s)
		if !ok {
			if d, ok := dst.(Slice); ok && d.len == 0 {
				return &SymBytes{s}
			}
			if d, ok := dst.(*SymBytes); ok {
				return &SymBytes{catStr(d.s, s)}
			}
			unsupported("append of symbolic string")
		}
		for _, b := range bs {
			add = append(add, b)
		}
	case *SymBytes:
		if d, ok := dst.(Slice); ok {
			bs := make([]*Term, 0)
			for _, b := range e.sliceElems(st, d) {
				bs = append(bs, b.(*Term))
			}
			return &SymBytes{catStr(e.implode(bs), s.s)}
		}
		if d, ok := dst.(*SymBytes); ok {
			return &SymBytes{catStr(d.s, s.s)}
		}
	default:
		unsupported("append source")
	}
	if d, ok := dst.(*SymBytes); ok {
		bs := make([]*Term, len(add))
		for i := range add {
			bs[i] = add[i].(*Term)
		}
		return &SymBytes{catStr(d.s, e.implode(bs))}
	}
	d, ok := dst.(Slice)
	if !ok {
		unsupported("append destination")
	}
	if len(add) == 0 {
		return d
	}
	n := d.len + len(add)
	if n <= d.cap && !d.isNil() {
		e.writeElems(st, d, d.len, add)
		d.len = n
		return d
	}
	elem := call.Args[0].Type().Underlying().(*types.Slice).Elem()
	sz := int(stdSizes.Sizeof(elem))
	nc := growCap(d.cap, n, sz)
	if nc < n {
		nc = n
	}
	all := append(append([]Value(nil), e.sliceElems(st, d)...), add...)
	return e.newSlice(st, all, nc, e.zero(elem))
}

func (e *Exec) describe(st *State, v Value) string {
	switch x := v.(type) {
	case Iface:
		return e.describe(st, x.v)
	case Str:
		return x.String()
	case *Term:
		if x.isConst() && x.rat != nil {
			return x.rat.RatString()
		}
		return "<sym>"
	}
	return fmt.Sprintf("%T", v)
}

// ---- globals and package initialisation ------------------------------------

func (e *Exec) globalObj(g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		return id
	}
	e.nobj++
	id := e.nobj
	e.globals[g] = id
	e.base[id] = e.zero(g.Type().Underlying().(*types.Pointer).Elem())
	return id
}

func (e *Exec) ensureInit(pkg *ssa.Package) {
	if pkg == nil || e.inited[pkg] != 0 {
		return
	}
	e.inited[pkg] = 1
	initFn := pkg.Func("init")
	if initFn == nil || len(initFn.Blocks) == 0 {
		return
	}
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			e.globalObj(g)
		}
	}
	st := e.newState()
	e.poison++
	depth, stk := e.depth, len(e.stack)
	mg := e.opt.merge
	e.opt.merge = false
	aborted := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case unsupportedErr:
					aborted = x.why
				case forkSignal, stopPath:
					aborted = "symbolic initialiser"
				case goPanic:
					aborted = "panic in initialiser: " + x.info.msg
				default:
					panic(r)
				}
			}
		}()
		outs := e.callFn(st, initFn, nil, nil)
		if len(outs) != 1 || outs[0].pan != nil {
			aborted = "initialiser did not finish"
			if len(outs) == 1 {
				st = outs[0].st
			}
		} else {
			st = outs[0].st
		}
	}()
	e.opt.merge = mg
	e.depth, e.stack = depth, e.stack[:stk]
	e.poison--
	for id, v := range st.heap {
		e.base[id] = v
	}
	if aborted != "" {
		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				id := e.globals[g]
				if _, done := st.heap[id]; !done {
					e.base[id] = Poison{"initialiser of " + pkg.Pkg.Path() + " not executed: " + aborted}
				}
			}
		}
		if strings.HasPrefix(pkg.Pkg.Path(), e.opt.repoPath) {
			e.incomplete("package initialiser of " + pkg.Pkg.Path() + ": " + aborted)
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
