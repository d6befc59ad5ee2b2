package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res uint8

const (
	Unknown Res = iota
	Sat
	Unsat
)

func (r Res) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type Stats struct {
	Queries   int
	SatN      int
	UnsatN    int
	UnknownN  int
	Fallback  int
	Crossed   int
	SolverSec float64
}

type frame struct {
	t     *Term
	sides []int
}

// Solver drives one incremental SMT process.
type Solver struct {
	c        *Ctx
	cmd      *exec.Cmd
	in       *bufio.Writer
	inPipe   io.WriteCloser
	out      *bufio.Reader
	stack    []frame
	sideOn   map[int]bool
	declared map[int]bool
	timeout  int // ms
	hardMS   int
	Stats    Stats
	binary   string
	log      io.Writer
	lines    chan string
	vmemo    map[int][]*Term
	fn       map[string]bool
	deadline time.Time
	quit     chan struct{} // closed when no more answers are wanted
}

// over reports whether no more answers are wanted.
func (s *Solver) over() bool {
	select {
	case <-s.quit:
		return true
	default:
	}
	return !s.deadline.IsZero() && time.Now().After(s.deadline)
}

// within limits a time in milliseconds to what is left.
func (s *Solver) within(ms int) int {
	if !s.deadline.IsZero() {
		if left := int(time.Until(s.deadline) / time.Millisecond); left < ms {
			ms = left
		}
	}
	if ms < 1 {
		ms = 1
	}
	return ms
}

func NewSolver(c *Ctx, timeoutMS, hardMS int) *Solver {
	s := &Solver{c: c, timeout: timeoutMS, hardMS: hardMS, binary: "z3-new", vmemo: map[int][]*Term{}}
	if _, err := exec.LookPath(s.binary); err != nil {
		s.binary = "z3"
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.binary, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	lines := make(chan string, 1024)
	s.lines = lines
	go func() {
		rd := bufio.NewReaderSize(r, 1<<16)
		for {
			l, err := rd.ReadString('\n')
			if l != "" {
				lines <- strings.TrimRight(l, "\r\n")
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	s.stack = nil
	s.sideOn = map[int]bool{}
	s.declared = map[int]bool{}
	s.fn = nil
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	s.send(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
	s.send("(set-option :pp.decimal false)")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
	if s.log != nil {
		fmt.Fprintln(s.log, l)
	}
}

// vars returns the variables of t (memoised).
func (s *Solver) vars(t *Term) []*Term {
	if v, ok := s.vmemo[t.id]; ok {
		return v
	}
	seen := map[int]bool{}
	var out []*Term
	vis := map[int]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if vis[x.id] {
			return
		}
		vis[x.id] = true
		if x.op == OVar {
			if !seen[x.id] {
				seen[x.id] = true
				out = append(out, x)
			}
			return
		}
		if v, ok := s.vmemo[x.id]; ok && x != t {
			for _, y := range v {
				if !seen[y.id] {
					seen[y.id] = true
					out = append(out, y)
				}
			}
			return
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(t)
	s.vmemo[t.id] = out
	return out
}

func symName(n string) string { return "|" + strings.ReplaceAll(n, "|", "_") + "|" }

// printer renders terms, defining shared nodes.
type printer struct {
	w        func(string)
	declared map[int]bool
	fns      map[string]bool
}

func (p *printer) ref(t *Term) string {
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			if t.b {
				return "true"
			}
			return "false"
		case SStr:
			return smtStr(t.str)
		}
		return smtRat(t.rat, t.sort)
	case OVar:
		if !p.declared[t.id] {
			p.declared[t.id] = true
			p.w(fmt.Sprintf("(declare-const %s %s)", symName(t.str), t.sort))
		}
		return symName(t.str)
	}
	name := fmt.Sprintf("t%d", t.id)
	if p.declared[t.id] {
		return name
	}
	body := p.body(t)
	if len(body) < 40 {
		return body
	}
	p.declared[t.id] = true
	p.w(fmt.Sprintf("(define-fun %s () %s %s)", name, t.sort, body))
	return name
}

func (p *printer) body(t *Term) string {
	rs := make([]string, len(t.args))
	for i, a := range t.args {
		rs[i] = p.ref(a)
	}
	zero := "0"
	if len(t.args) > 0 && t.args[0].sort == SReal {
		zero = "0.0"
	}
	switch t.op {
	case OLin:
		var parts []string
		if t.rat.Sign() != 0 {
			parts = append(parts, smtRat(t.rat, t.sort))
		}
		for i := range t.args {
			if t.coefs[i].Cmp(ratOne) == 0 {
				parts = append(parts, rs[i])
			} else if t.coefs[i].Cmp(ratNegOne) == 0 {
				parts = append(parts, "(- "+rs[i]+")")
			} else {
				parts = append(parts, "(* "+smtRat(t.coefs[i], t.sort)+" "+rs[i]+")")
			}
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case OMul:
		return "(* " + strings.Join(rs, " ") + ")"
	case OIDiv:
		return "(div " + rs[0] + " " + rs[1] + ")"
	case OIMod:
		return "(mod " + rs[0] + " " + rs[1] + ")"
	case OToReal:
		return "(to_real " + rs[0] + ")"
	case OFloor:
		return "(to_int " + rs[0] + ")"
	case OIte:
		return "(ite " + strings.Join(rs, " ") + ")"
	case OEq:
		if len(rs) == 1 {
			return "(= " + rs[0] + " " + zero + ")"
		}
		return "(= " + rs[0] + " " + rs[1] + ")"
	case OLe:
		return "(<= " + rs[0] + " " + zero + ")"
	case OLt:
		return "(< " + rs[0] + " " + zero + ")"
	case ONot:
		return "(not " + rs[0] + ")"
	case OAnd:
		return "(and " + strings.Join(rs, " ") + ")"
	case OOr:
		return "(or " + strings.Join(rs, " ") + ")"
	case OStrCat:
		return "(str.++ " + strings.Join(rs, " ") + ")"
	case OStrLen:
		return "(str.len " + rs[0] + ")"
	case OStrCode:
		return "(str.from_code " + rs[0] + ")"
	case OStrLt:
		return "(str.< " + rs[0] + " " + rs[1] + ")"
	case OFn:
		if p.fns == nil {
			p.fns = map[string]bool{}
		}
		if !p.fns[t.str] {
			p.fns[t.str] = true
			var as []string
			for _, a := range t.args {
				as = append(as, a.sort.String())
			}
			p.w(fmt.Sprintf("(declare-fun %s (%s) %s)", symName(t.str), strings.Join(as, " "), t.sort))
		}
		if len(rs) == 0 {
			return symName(t.str)
		}
		return "(" + symName(t.str) + " " + strings.Join(rs, " ") + ")"
	}
	panic("print op")
}

func (s *Solver) assertLevel(t *Term) {
	p := &printer{w: s.send, declared: s.declared, fns: nil}
	p.fns = s.fnset()
	f := frame{t: t}
	s.send("(push 1)")
	var addSides func(x *Term)
	addSides = func(x *Term) {
		for _, v := range s.vars(x) {
			if s.sideOn[v.id] || len(v.side) == 0 {
				continue
			}
			s.sideOn[v.id] = true
			f.sides = append(f.sides, v.id)
			for _, sd := range v.side {
				addSides(sd)
				s.send("(assert " + p.ref(sd) + ")")
			}
		}
	}
	addSides(t)
	s.send("(assert " + p.ref(t) + ")")
	s.stack = append(s.stack, f)
}

func (s *Solver) fnset() map[string]bool {
	if s.fn == nil {
		s.fn = map[string]bool{}
	}
	return s.fn
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k].t == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.send(fmt.Sprintf("(pop %d)", n))
		for _, f := range s.stack[k:] {
			for _, id := range f.sides {
				delete(s.sideOn, id)
			}
		}
		s.stack = s.stack[:k]
	}
	for _, t := range pc[k:] {
		s.assertLevel(t)
	}
}

func (s *Solver) readLine(d time.Duration) (string, bool) {
	select {
	case l, ok := <-s.lines:
		return l, ok
	case <-s.quit:
		return "", false
	case <-time.After(d):
		return "", false
	}
}

// Check decides satisfiability of the conjunction of pc. On Sat the model of
// the wanted variables is returned when want is non-nil.
func (s *Solver) Check(pc []*Term, want []*Term) (Res, map[string]string) {
	for _, t := range pc {
		if t.isFalse() {
			return Unsat, nil
		}
	}
	if s.over() {
		return Unknown, nil
	}
	t0 := time.Now()
	defer func() { s.Stats.SolverSec += time.Since(t0).Seconds() }()
	s.Stats.Queries++
	r, m := s.incremental(pc, want)
	if r == Unknown && !s.over() {
		s.Stats.Fallback++
		r, m = s.oneShot(pc, want, s.within(s.hardMS))
	}
	switch r {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
	return r, m
}

func (s *Solver) incremental(pc []*Term, want []*Term) (Res, map[string]string) {
	s.sync(pc)
	s.send("(check-sat)")
	s.in.Flush()
	l, ok := s.readLine(time.Duration(s.within(s.timeout)+3000) * time.Millisecond)
	if !ok {
		s.restart()
		return Unknown, nil
	}
	for strings.HasPrefix(l, "(error") {
		// inconclusive: never trust an answer after an error
		s.restart()
		return Unknown, nil
	}
	switch strings.TrimSpace(l) {
	case "sat":
		if want == nil {
			return Sat, nil
		}
		m, ok := s.getValues(want)
		if !ok {
			s.restart()
			return Unknown, nil
		}
		return Sat, m
	case "unsat":
		return Unsat, nil
	}
	return Unknown, nil
}

func (s *Solver) getValues(want []*Term) (map[string]string, bool) {
	m := map[string]string{}
	if len(want) == 0 {
		return m, true
	}
	p := &printer{w: s.send, declared: s.declared, fns: s.fnset()}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range want {
		sb.WriteString(p.ref(v))
		sb.WriteByte(' ')
	}
	sb.WriteString("))")
	s.send(sb.String())
	s.in.Flush()
	var text strings.Builder
	depth := 0
	for {
		l, ok := s.readLine(10 * time.Second)
		if !ok || strings.HasPrefix(l, "(error") {
			return nil, false
		}
		text.WriteString(l)
		text.WriteByte('\n')
		depth += parenDepth(l)
		if depth <= 0 {
			break
		}
	}
	return parseValues(text.String(), want)
}

func parenDepth(l string) int {
	d := 0
	inStr, inBar := false, false
	for i := 0; i < len(l); i++ {
		switch {
		case inStr:
			if l[i] == '"' {
				inStr = false
			}
		case inBar:
			if l[i] == '|' {
				inBar = false
			}
		case l[i] == '"':
			inStr = true
		case l[i] == '|':
			inBar = true
		case l[i] == '(':
			d++
		case l[i] == ')':
			d--
		}
	}
	return d
}

type sexp struct {
	atom string
	list []*sexp
	str  bool
}

func parseSexp(s string, i int) (*sexp, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t') {
		i++
	}
	if i >= len(s) {
		return nil, i
	}
	switch s[i] {
	case '(':
		i++
		e := &sexp{list: []*sexp{}}
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t') {
				i++
			}
			if i >= len(s) {
				return e, i
			}
			if s[i] == ')' {
				return e, i + 1
			}
			var c *sexp
			c, i = parseSexp(s, i)
			if c == nil {
				return e, i
			}
			e.list = append(e.list, c)
		}
	case '"':
		var sb strings.Builder
		i++
		for i < len(s) {
			if s[i] == '"' {
				if i+1 < len(s) && s[i+1] == '"' {
					sb.WriteByte('"')
					i += 2
					continue
				}
				break
			}
			sb.WriteByte(s[i])
			i++
		}
		return &sexp{atom: sb.String(), str: true}, i + 1
	case '|':
		j := strings.IndexByte(s[i+1:], '|')
		if j < 0 {
			return nil, len(s)
		}
		return &sexp{atom: s[i+1 : i+1+j]}, i + j + 2
	}
	j := i
	for j < len(s) && !strings.ContainsRune(" \n\t()", rune(s[j])) {
		j++
	}
	return &sexp{atom: s[i:j]}, j
}

func unescapeSMT(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) && s[i+1] == 'u' {
			if i+2 < len(s) && s[i+2] == '{' {
				j := strings.IndexByte(s[i:], '}')
				if j > 0 {
					v, err := strconv.ParseInt(s[i+3:i+j], 16, 32)
					if err == nil {
						if v < 256 {
							sb.WriteByte(byte(v))
						} else {
							sb.WriteRune(rune(v))
						}
						i += j
						continue
					}
				}
			}
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

func sexpRat(e *sexp) (*big.Rat, bool) {
	if e.list == nil {
		a := strings.TrimSuffix(e.atom, "?")
		r, ok := new(big.Rat).SetString(a)
		return r, ok
	}
	if len(e.list) == 2 && e.list[0].atom == "-" {
		r, ok := sexpRat(e.list[1])
		if !ok {
			return nil, false
		}
		return r.Neg(r), true
	}
	if len(e.list) == 3 && e.list[0].atom == "/" {
		a, ok1 := sexpRat(e.list[1])
		b, ok2 := sexpRat(e.list[2])
		if !ok1 || !ok2 || b.Sign() == 0 {
			return nil, false
		}
		return a.Quo(a, b), true
	}
	if len(e.list) == 2 && e.list[0].atom == "to_real" {
		return sexpRat(e.list[1])
	}
	return nil, false
}

// parseValues returns name -> value text: rationals as RatString, booleans as
// true/false, strings raw.
func parseValues(text string, want []*Term) (map[string]string, bool) {
	e, _ := parseSexp(text, 0)
	if e == nil || len(e.list) != len(want) {
		return nil, false
	}
	m := map[string]string{}
	for i, v := range want {
		pr := e.list[i]
		if len(pr.list) != 2 {
			return nil, false
		}
		val := pr.list[1]
		switch v.sort {
		case SBool:
			m[v.str] = val.atom
		case SStr:
			m[v.str] = unescapeSMT(val.atom)
		default:
			if len(val.list) > 0 && val.list[0].atom == "root-obj" {
				m[v.str] = "?"
				continue
			}
			if r, ok := sexpRat(val); ok {
				m[v.str] = r.RatString()
			} else {
				m[v.str] = "?"
			}
		}
	}
	return m, true
}

// Script renders a self-contained SMT-LIB problem.
func (s *Solver) Script(pc []*Term, want []*Term, decimal bool) string {
	var sb strings.Builder
	declared := map[int]bool{}
	p := &printer{w: func(l string) { sb.WriteString(l); sb.WriteByte('\n') }, declared: declared, fns: map[string]bool{}}
	sb.WriteString("(set-logic ALL)\n")
	done := map[int]bool{}
	var addSides func(x *Term)
	addSides = func(x *Term) {
		for _, v := range s.vars(x) {
			if done[v.id] {
				continue
			}
			done[v.id] = true
			for _, sd := range v.side {
				addSides(sd)
				r := p.ref(sd)
				sb.WriteString("(assert " + r + ")\n")
			}
		}
	}
	for _, t := range pc {
		addSides(t)
		r := p.ref(t)
		sb.WriteString("(assert " + r + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(want) > 0 {
		var refs []string
		for _, v := range want {
			refs = append(refs, p.ref(v))
		}
		// declarations must precede check-sat: re-render with them first
		var pre strings.Builder
		pre.WriteString("(set-logic ALL)\n")
		body := strings.TrimPrefix(sb.String(), "(set-logic ALL)\n")
		if i := strings.Index(body, "(check-sat)\n"); i >= 0 {
			tail := body[i+len("(check-sat)\n"):]
			body = tail + body[:i] + "(check-sat)\n"
		}
		pre.WriteString(body)
		pre.WriteString("(get-value (" + strings.Join(refs, " ") + "))\n")
		return pre.String()
	}
	return sb.String()
}

type shot struct {
	name string
	args []string
}

func (s *Solver) oneShot(pc []*Term, want []*Term, ms int) (Res, map[string]string) {
	script := s.Script(pc, want, false)
	sec := strconv.Itoa((ms + 999) / 1000)
	shots := []shot{
		{"z3-new", []string{"-in", "-smt2", "-T:" + sec}},
		{"cvc5", []string{"--lang=smt2", "--produce-models", "--tlimit=" + strconv.Itoa(ms), "--nl-cov"}},
		{"z3", []string{"-in", "-smt2", "-T:" + sec}},
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+4000)*time.Millisecond)
	defer cancel()
	go func() {
		select {
		case <-s.quit:
			cancel()
		case <-ctx.Done():
		}
	}()
	type ans struct {
		r Res
		m map[string]string
	}
	ch := make(chan ans, len(shots))
	for _, sh := range shots {
		go func(sh shot) {
			cmd := exec.CommandContext(ctx, sh.name, sh.args...)
			in := script
			if sh.name == "cvc5" {
				in = "(set-option :produce-models true)\n" + script
			} else {
				in = "(set-option :produce-models true)\n" + strings.Replace(script, "(set-logic ALL)\n", "", 1)
			}
			cmd.Stdin = strings.NewReader(in)
			out, _ := cmd.Output()
			txt := string(out)
			line, rest, _ := strings.Cut(txt, "\n")
			switch strings.TrimSpace(line) {
			case "sat":
				if len(want) == 0 {
					ch <- ans{Sat, nil}
					return
				}
				if m, ok := parseValues(rest, want); ok {
					ch <- ans{Sat, m}
					return
				}
				ch <- ans{Unknown, nil}
			case "unsat":
				ch <- ans{Unsat, nil}
			default:
				ch <- ans{Unknown, nil}
			}
		}(sh)
	}
	for range shots {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
