package main

import (
	"os"
	"strings"
)

// fsObj is the heap object holding the modelled file system: a map from path
// to content. Paths below /sym/ are created by the harness; "/sym/!nodir/..."
// lies in a missing directory, "/sym/!full" accepts no data and "/sym/!dir" is
// a directory.
const fsObj = 3

// captured is the file that stands for standard output within sym.Capture.
const captured = "/sym/!stdout"

var stdFiles = map[string]string{"os.Stdout": captured, "os.Stderr": "/sym/!stderr"}

func (e *Exec) fsGet(st *State, path string) (Str, bool) {
	m := e.heapGet(st, fsObj).(*MapVal)
	for i, k := range m.keys {
		if s, _ := k.(Str).conc(); s == path {
			return m.vals[i].(Str), true
		}
	}
	return Str{}, false
}

func (e *Exec) fsPut(st *State, path string, s Str) {
	m := e.heapGet(st, fsObj).(*MapVal)
	n := &MapVal{keys: append([]Value(nil), m.keys...), vals: append([]Value(nil), m.vals...)}
	for i, k := range n.keys {
		if c, _ := k.(Str).conc(); c == path {
			n.vals[i] = s
			st.setHeap(fsObj, n)
			return
		}
	}
	n.keys, n.vals = append(n.keys, cstr(path)), append(n.vals, s)
	st.setHeap(fsObj, n)
}

func fsPath(v Value) string {
	p := v.(Str).mustConc("file name")
	if !strings.HasPrefix(p, "/sym/") {
		unsupported("file outside the modelled file system: " + p)
	}
	return p
}

func noDir(p string) bool  { return strings.HasPrefix(p, "/sym/!nodir/") }
func isDir(p string) bool  { return p == "/sym/!dir" }
func isFull(p string) bool { return p == "/sym/!full" }

func (e *Exec) mkFile(st *State, path string, app bool) Ptr {
	return e.alloc(st, &Opaque{kind: "file", s: path, b: app})
}

func (e *Exec) fileOf(st *State, v Value) (*Opaque, Ptr) {
	p, ok := v.(Ptr)
	if !ok || p.isNil() {
		return nil, p
	}
	o, _ := e.load(st, p).(*Opaque)
	if o != nil && o.kind != "file" {
		o = nil
	}
	return o, p
}

// fileWrite appends to the file; ok is false when the device is full.
func (e *Exec) fileWrite(st *State, o *Opaque, s Str) bool {
	if o.i == 1 {
		return false
	}
	if isFull(o.s) {
		n, ok := s.fixedLen()
		return ok && n == 0
	}
	cur, _ := e.fsGet(st, o.s)
	e.fsPut(st, o.s, catStr(cur, s))
	return true
}

// printOut models writing to standard output, which sym.Capture collects.
func (e *Exec) printOut(st *State, s Str) Value {
	if cur, ok := e.fsGet(st, captured); ok {
		e.fsPut(st, captured, catStr(cur, s))
	}
	return Tuple{e.strLen(s), nilErr}
}

// writeTo models io.Writer.Write of a rope.
func (e *Exec) writeTo(st *State, w Iface, s Str) Value {
	n := e.strLen(s)
	fail := func() Value { return Tuple{e.c.Int(0), e.mkError(st, cstr("write: no space left on device"))} }
	if w.t == nil {
		e.throw(st, "invalid memory address or nil pointer dereference")
	}
	switch w.t.String() {
	case "*os.File":
		o, p := e.fileOf(st, w.v)
		if o == nil {
			if p.isNil() {
				return fail()
			}
			return e.printOut(st, s) // standard output or error
		}
		if !e.fileWrite(st, o, s) {
			return fail()
		}
		return Tuple{n, nilErr}
	case "*bufio.Writer":
		p := w.v.(Ptr)
		o := e.load(st, p).(*Opaque)
		q := *o
		q.vs = append([]Value(nil), o.vs...)
		q.vs[1] = catStr(o.vs[1].(Str), s)
		e.store(st, p, &q)
		return Tuple{n, nilErr}
	}
	if m := e.methodOf(w.t, "WriteString"); m != nil {
		return e.callSub(st, &Closure{fn: m}, []Value{w.v, s})
	}
	if m := e.methodOf(w.t, "Write"); m != nil {
		return e.callSub(st, &Closure{fn: m}, []Value{w.v, &SymBytes{s}})
	}
	unsupported("writer " + w.t.String())
	return nil
}

// readAll models draining an io.Reader.
func (e *Exec) readAll(st *State, r Iface) (Str, bool) {
	if r.t == nil {
		e.throw(st, "invalid memory address or nil pointer dereference")
	}
	switch r.t.String() {
	case "*os.File":
		o, p := e.fileOf(st, r.v)
		if o == nil {
			if p.isNil() {
				return Str{}, false
			}
			unsupported("reading standard input")
		}
		if isDir(o.s) || o.i == 1 {
			return Str{}, false
		}
		s, _ := e.fsGet(st, o.s)
		return s, true
	case "*strings.Reader":
		return e.load(st, r.v.(Ptr)).(*Struct).f[0].(Str), true
	case "*bytes.Reader":
		return e.bytesStr(st, e.load(st, r.v.(Ptr)).(*Struct).f[0]), true
	case "*bufio.Reader":
		o := e.load(st, r.v.(Ptr)).(*Opaque)
		return e.readAll(st, o.vs[0].(Iface))
	case "*bytes.Buffer":
		if o, ok := e.load(st, r.v.(Ptr)).(*Opaque); ok {
			return o.vs[0].(Str), true
		}
		return Str{}, true
	}
	unsupported("reader " + r.t.String())
	return Str{}, false
}

// cutLine splits a rope at the first newline.
func (e *Exec) cutLine(st *State, s Str) (line, rest Str, found bool) {
	ps := e.splitRope(st, s, "\n", 2)
	if len(ps) == 2 {
		return ps[0], ps[1], true
	}
	return s, Str{}, false
}

func initIO(R func(string, func(e *Exec, st *State, a []Value) Value)) {
	nofile := func(e *Exec, st *State, p, why string) Value {
		return Tuple{Ptr{}, e.mkError(st, cstr("open "+p+": "+why))}
	}
	open := func(e *Exec, st *State, p string, flag int) Value {
		e.note("file system model: in-memory files; faults are a missing file, a missing parent directory, a directory in place of a file, and a device without space")
		wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
		if noDir(p) {
			return nofile(e, st, p, "no such file or directory")
		}
		if isDir(p) {
			if wr {
				return nofile(e, st, p, "is a directory")
			}
			return Tuple{e.mkFile(st, p, false), nilErr}
		}
		_, ok := e.fsGet(st, p)
		if !ok && !isFull(p) {
			if flag&os.O_CREATE == 0 {
				return nofile(e, st, p, "no such file or directory")
			}
			e.fsPut(st, p, Str{})
		} else if flag&os.O_EXCL != 0 {
			return nofile(e, st, p, "file exists")
		} else if flag&os.O_TRUNC != 0 && !isFull(p) {
			e.fsPut(st, p, Str{})
		} else if wr && flag&os.O_APPEND == 0 && !isFull(p) {
			unsupported("overwriting a file in place")
		}
		return Tuple{e.mkFile(st, p, false), nilErr}
	}
	R("os.Open", func(e *Exec, st *State, a []Value) Value { return open(e, st, fsPath(a[0]), os.O_RDONLY) })
	R("os.Create", func(e *Exec, st *State, a []Value) Value {
		return open(e, st, fsPath(a[0]), os.O_RDWR|os.O_CREATE|os.O_TRUNC)
	})
	R("os.OpenFile", func(e *Exec, st *State, a []Value) Value { return open(e, st, fsPath(a[0]), int(concI(a[1]))) })
	rf := func(e *Exec, st *State, a []Value) Value {
		p := fsPath(a[0])
		s, ok := e.fsGet(st, p)
		if !ok || isDir(p) {
			return Tuple{Slice{}, e.mkError(st, cstr("open "+p+": no such file or directory"))}
		}
		return Tuple{&SymBytes{s}, nilErr}
	}
	R("os.ReadFile", rf)
	R("io/ioutil.ReadFile", rf)
	wf := func(e *Exec, st *State, a []Value) Value {
		p := fsPath(a[0])
		if noDir(p) || isDir(p) {
			return e.mkError(st, cstr("open "+p+": failed"))
		}
		s := e.bytesStr(st, a[1])
		if isFull(p) {
			if n, ok := s.fixedLen(); ok && n == 0 {
				return nilErr
			}
			return e.mkError(st, cstr("write "+p+": no space left on device"))
		}
		e.fsPut(st, p, s)
		return nilErr
	}
	R("os.WriteFile", wf)
	R("io/ioutil.WriteFile", wf)
	R("os.Remove", func(e *Exec, st *State, a []Value) Value {
		p := fsPath(a[0])
		if _, ok := e.fsGet(st, p); !ok {
			return e.mkError(st, cstr("remove "+p+": no such file"))
		}
		m := e.heapGet(st, fsObj).(*MapVal)
		n := &MapVal{}
		for i, k := range m.keys {
			if c, _ := k.(Str).conc(); c != p {
				n.keys, n.vals = append(n.keys, k), append(n.vals, m.vals[i])
			}
		}
		st.setHeap(fsObj, n)
		return nilErr
	})
	R("(*os.File).Close", func(e *Exec, st *State, a []Value) Value {
		o, p := e.fileOf(st, a[0])
		if o == nil {
			if p.isNil() {
				return e.mkError(st, cstr("invalid argument"))
			}
			return nilErr
		}
		if o.i == 1 {
			return e.mkError(st, cstr("close: file already closed"))
		}
		q := *o
		q.i = 1
		e.store(st, p, &q)
		return nilErr
	})
	R("(*os.File).Sync", func(e *Exec, st *State, a []Value) Value { return nilErr })
	R("(*os.File).Name", func(e *Exec, st *State, a []Value) Value {
		o, _ := e.fileOf(st, a[0])
		if o == nil {
			unsupported("File.Name")
		}
		return cstr(o.s)
	})
	fw := func(e *Exec, st *State, f Value, s Str) Value {
		o, p := e.fileOf(st, f)
		if o == nil {
			if p.isNil() {
				return Tuple{e.c.Int(0), e.mkError(st, cstr("invalid argument"))}
			}
			return Tuple{e.strLen(s), nilErr}
		}
		if !e.fileWrite(st, o, s) {
			return Tuple{e.c.Int(0), e.mkError(st, cstr("write "+o.s+": no space left on device"))}
		}
		return Tuple{e.strLen(s), nilErr}
	}
	R("(*os.File).WriteString", func(e *Exec, st *State, a []Value) Value { return fw(e, st, a[0], a[1].(Str)) })
	R("(*os.File).Write", func(e *Exec, st *State, a []Value) Value { return fw(e, st, a[0], e.bytesStr(st, a[1])) })

	// ---- bufio.Writer (data stays in the buffer until Flush)
	nw := func(e *Exec, st *State, a []Value) Value {
		e.note("bufio.Writer is modelled without the automatic flush of a full 4096-byte buffer")
		return e.alloc(st, &Opaque{kind: "bufw", vs: []Value{a[0], Str{}}})
	}
	R("bufio.NewWriter", nw)
	R("bufio.NewWriterSize", nw)
	bw := func(e *Exec, st *State, p Ptr, s Str) {
		o := e.load(st, p).(*Opaque)
		q := *o
		q.vs = []Value{o.vs[0], catStr(o.vs[1].(Str), s)}
		e.store(st, p, &q)
	}
	R("(*bufio.Writer).WriteString", func(e *Exec, st *State, a []Value) Value {
		bw(e, st, a[0].(Ptr), a[1].(Str))
		return Tuple{e.strLen(a[1].(Str)), nilErr}
	})
	R("(*bufio.Writer).Write", func(e *Exec, st *State, a []Value) Value {
		s := e.bytesStr(st, a[1])
		bw(e, st, a[0].(Ptr), s)
		return Tuple{e.strLen(s), nilErr}
	})
	R("(*bufio.Writer).WriteByte", func(e *Exec, st *State, a []Value) Value {
		bw(e, st, a[0].(Ptr), e.implode([]*Term{a[1].(*Term)}))
		return nilErr
	})
	R("(*bufio.Writer).WriteRune", func(e *Exec, st *State, a []Value) Value {
		bw(e, st, a[0].(Ptr), cstr(string(rune(concI(a[1])))))
		return Tuple{e.c.Int(1), nilErr}
	})
	R("(*bufio.Writer).Flush", func(e *Exec, st *State, a []Value) Value {
		p := a[0].(Ptr)
		o := e.load(st, p).(*Opaque)
		s := o.vs[1].(Str)
		q := *o
		q.vs = []Value{o.vs[0], Str{}}
		e.store(st, p, &q)
		if n, ok := s.fixedLen(); ok && n == 0 {
			return nilErr
		}
		return e.writeTo(st, o.vs[0].(Iface), s).(Tuple)[1]
	})

	// ---- bufio.Scanner (line mode): vs = reader, rest, token, error; i = 0 fresh, 1 running, 2 done
	R("bufio.NewScanner", func(e *Exec, st *State, a []Value) Value {
		return e.alloc(st, &Opaque{kind: "scan", vs: []Value{a[0], Str{}, Str{}, nilErr}})
	})
	R("(*bufio.Scanner).Buffer", func(e *Exec, st *State, a []Value) Value {
		p := a[0].(Ptr)
		q := *e.load(st, p).(*Opaque)
		q.b = true
		e.store(st, p, &q)
		return nil
	})
	R("(*bufio.Scanner).Split", func(e *Exec, st *State, a []Value) Value {
		if c, ok := a[1].(*Closure); ok && c != nil && c.fn != nil && c.fn.String() == "bufio.ScanLines" {
			return nil
		}
		unsupported("scanner split function")
		return nil
	})
	R("(*bufio.Scanner).Scan", func(e *Exec, st *State, a []Value) Value {
		p := a[0].(Ptr)
		o := e.load(st, p).(*Opaque)
		q := *o
		q.vs = append([]Value(nil), o.vs...)
		if q.i == 0 {
			s, ok := e.readAll(st, q.vs[0].(Iface))
			q.i = 1
			q.vs[1] = s
			if !ok {
				q.vs[3] = e.mkError(st, cstr("read error"))
				q.i = 2
			}
		}
		rest := q.vs[1].(Str)
		if n, ok := rest.fixedLen(); ok && n == 0 {
			q.i = 2
		}
		q.vs[2] = Str{}
		if q.i == 2 {
			e.store(st, p, &q)
			return e.c.tFalse
		}
		line, more, _ := e.cutLine(st, rest)
		if n, ok := line.fixedLen(); ok && n >= 64*1024 && !q.b {
			q.i = 2
			q.vs[3] = e.mkError(st, cstr("bufio.Scanner: token too long"))
			e.store(st, p, &q)
			return e.c.tFalse
		}
		if k := len(line.ps); k > 0 && line.ps[k-1].k == pcConc && strings.HasSuffix(line.ps[k-1].s, "\r") {
			ps := append([]piece(nil), line.ps[:k-1]...)
			line = catStr(Str{ps}, cstr(strings.TrimSuffix(line.ps[k-1].s, "\r")))
		}
		q.vs[1], q.vs[2] = more, line
		e.store(st, p, &q)
		return e.c.tTrue
	})
	R("(*bufio.Scanner).Text", func(e *Exec, st *State, a []Value) Value {
		return e.load(st, a[0].(Ptr)).(*Opaque).vs[2]
	})
	R("(*bufio.Scanner).Bytes", func(e *Exec, st *State, a []Value) Value {
		return &SymBytes{e.load(st, a[0].(Ptr)).(*Opaque).vs[2].(Str)}
	})
	R("(*bufio.Scanner).Err", func(e *Exec, st *State, a []Value) Value {
		return e.load(st, a[0].(Ptr)).(*Opaque).vs[3]
	})

	// ---- bufio.Reader: vs = reader, rest; i = 1 once loaded
	nr := func(e *Exec, st *State, a []Value) Value {
		return e.alloc(st, &Opaque{kind: "bufr", vs: []Value{a[0], Str{}}})
	}
	R("bufio.NewReader", nr)
	R("bufio.NewReaderSize", nr)
	R("(*bufio.Reader).ReadString", func(e *Exec, st *State, a []Value) Value {
		if concI(a[1]) != '\n' {
			unsupported("ReadString delimiter")
		}
		p := a[0].(Ptr)
		o := e.load(st, p).(*Opaque)
		q := *o
		q.vs = append([]Value(nil), o.vs...)
		if q.i == 0 {
			s, ok := e.readAll(st, q.vs[0].(Iface))
			if !ok {
				return Tuple{Str{}, e.mkError(st, cstr("read error"))}
			}
			q.i, q.vs[1] = 1, s
		}
		line, rest, found := e.cutLine(st, q.vs[1].(Str))
		q.vs[1] = rest
		e.store(st, p, &q)
		if found {
			return Tuple{catStr(line, cstr("\n")), nilErr}
		}
		g := e.prog.ImportedPackage("io").Var("EOF")
		e.ensureInit(g.Pkg)
		return Tuple{line, e.heapGet(st, e.globalObj(g))}
	})
	ra := func(e *Exec, st *State, a []Value) Value {
		s, ok := e.readAll(st, a[0].(Iface))
		if !ok {
			return Tuple{Slice{}, e.mkError(st, cstr("read error"))}
		}
		return Tuple{&SymBytes{s}, nilErr}
	}
	R("io.ReadAll", ra)
	R("io/ioutil.ReadAll", ra)
}
