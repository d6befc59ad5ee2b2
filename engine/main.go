// Command symgo decides properties of the Go code in /repo by symbolic
// execution of its SSA form with an SMT solver.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func itoa(i int) string { return strconv.Itoa(i) }

// Violation is a counterexample confirmed on the compiled code.
type Violation struct {
	Property string
	Label    string
	Task     string
	Fn       string
	Params   map[string]int
	Inputs   map[string]string
	Native   Answer
	Found    string
	Known    string `json:",omitempty"`
}

// Result is the outcome of one task.
type Result struct {
	Task       *Task
	Violations []*Violation
	Incomplete map[string]int
	Unreplayed []string
	Notes      map[string]bool
	Stubs      map[string]bool
	Fns        map[string]int
	Reached    map[string]int
	Witness    map[string]string
	Stats      Stats
	Paths      int
	Forks      int
	Merges     int
	Blocks     int
	Asserts    int
	Discharged int
	Trivial    int
	Validated  int
	Skipped    int
	NatLabels  map[string]bool
	Seconds    float64
	Rounded    int
}

type Runner struct {
	prop    string
	tier    string
	seed    int
	prog    *ssa.Program
	hpkg    *ssa.Package
	native  []*Native
	mu      sync.Mutex
	next    int
	known   map[string]string // label -> text
	verbose bool
	// the check ends at the deadline, and with the first new violation
	deadline time.Time
	quit     chan struct{}
	once     sync.Once
}

func (r *Runner) halt() { r.once.Do(func() { close(r.quit) }) }

func (r *Runner) run(rq Request) Answer {
	r.mu.Lock()
	n := r.native[r.next%len(r.native)]
	r.next++
	r.mu.Unlock()
	return n.Run(rq)
}

func (r *Runner) execTask(t *Task) (res *Result) {
	t0 := time.Now()
	res = &Result{Task: t, Incomplete: map[string]int{}, NatLabels: map[string]bool{}}
	e := NewExec(r.prog, Options{rounding: t.Rounding, merge: t.Merge, unwind: t.Unwind, depth: 200, maxPaths: 4000, repoPath: modPath, trace: r.verbose})
	e.s = NewSolver(e.c, t.QueryMS, 4*t.QueryMS)
	e.params = t.Params
	e.deadline = t0.Add(time.Duration(t.Seconds) * time.Second)
	if !r.deadline.IsZero() && r.deadline.Before(e.deadline) {
		e.deadline = r.deadline
	}
	e.s.deadline, e.s.quit = e.deadline, r.quit
	seen := map[string]bool{}
	defer func() {
		e.s.Close()
		for _, v := range res.Violations {
			if r.known[v.Label] == "" {
				r.halt()
			}
		}
		for k, v := range e.incompl {
			res.Incomplete[k] += v
		}
		res.Notes, res.Stubs, res.Fns, res.Reached = e.notes, e.stubs, e.fnsSeen, e.reached
		res.Stats = e.s.Stats
		res.Paths, res.Forks, res.Merges, res.Blocks = e.Paths, e.Forks, e.Merges, e.Blocks
		res.Asserts, res.Discharged, res.Trivial = e.Asserts, e.Discharged, e.Trivial
		res.Rounded = len(e.rnd)
		res.Seconds = time.Since(t0).Seconds()
	}()
	defer func() {
		if x := recover(); x != nil {
			switch p := x.(type) {
			case abortTask:
				res.Incomplete[p.why]++
			case unsupportedErr:
				res.Incomplete[p.why]++
			default:
				res.Incomplete[fmt.Sprintf("engine failure: %v", x)]++
				if r.verbose {
					debug.PrintStack()
				}
			}
		}
	}()
	e.onAssert = func(st *State, cond *Term, label string) bool {
		pc := append(st.pc[:len(st.pc):len(st.pc)], e.c.Not(cond))
		rr, m := e.s.Check(pc, st.inputs)
		switch rr {
		case Unsat:
			e.Discharged++
			return true
		case Unknown:
			res.Incomplete["solver gave no answer for assertion "+label]++
			return true
		}
		if seen[label] {
			return true
		}
		v := r.confirm(e, t, st, pc, m, label)
		if v == nil {
			res.Unreplayed = append(res.Unreplayed, label)
			return true
		}
		seen[label] = true
		res.Violations = append(res.Violations, v)
		if r.known[v.Label] == "" {
			r.halt()
		}
		return true
	}
	// a path the engine cannot follow to its end still has models to run
	cut := 0
	e.onCut = func(st *State) {
		if cut < 60 {
			cut++
			r.witnesses(e, t, res, seen, st, 3)
		}
	}
	e.checkTime()
	fn := r.hpkg.Func(t.Fn)
	if fn == nil {
		panic(abortTask{"no harness function " + t.Fn})
	}
	outs := e.callFn(e.newState(), fn, nil, nil)
	e.Paths = len(outs)
	for _, o := range outs {
		if o.pan != nil {
			rr, m := e.s.Check(o.st.pc, o.st.inputs)
			label := "panic"
			switch rr {
			case Unsat:
				continue
			case Unknown:
				res.Incomplete["solver gave no answer for a panicking path"]++
				continue
			}
			if seen[label] {
				continue
			}
			v := r.confirm(e, t, o.st, o.st.pc, m, label)
			if v == nil {
				res.Unreplayed = append(res.Unreplayed, "panic: "+o.pan.msg+" at "+shortPos(o.pan.pos))
				continue
			}
			seen[label] = true
			res.Violations = append(res.Violations, v)
			continue
		}
		// witnesses: models of the path must behave on the compiled code; the
		// following ones take other cases of the choices when there are any
		if !r.witnesses(e, t, res, seen, o.st, 1+15/len(outs)) {
			res.Incomplete["no witness for a completed path"]++
		}
	}
	return res
}

// witnesses runs up to n models of a path on the compiled code; it is false
// when the solver gives none.
func (r *Runner) witnesses(e *Exec, t *Task, res *Result, seen map[string]bool, st *State, n int) bool {
	pc := st.pc[:len(st.pc):len(st.pc)]
	for k := 0; k < n; k++ {
		t0 := time.Now()
		rr, m := e.s.Check(pc, st.inputs)
		if time.Since(t0) > 5*time.Second {
			n = 0
		}
		if rr != Sat {
			return rr == Unsat || k > 0
		}
		r.witness(t, res, seen, r.roundInputs(st.inputs, m))
		var dis []*Term
		for _, v := range st.inputs {
			if q, ok := new(big.Rat).SetString(m[v.str]); ok && (v.sort == SInt || v.sort == SReal) {
				dis = append(dis, e.c.Not(e.c.Eq(v, e.c.Num(v.sort, q))))
			} else if v.sort == SBool {
				dis = append(dis, e.c.Not(e.c.Eq(v, e.c.Bool(m[v.str] == "true"))))
			}
		}
		if len(dis) == 0 {
			break
		}
		// ask for a model in which at least two thirds of the inputs change
		sum := e.c.Int(0)
		for _, d := range dis {
			sum = e.c.Add(sum, e.c.Ite(d, e.c.Int(1), e.c.Int(0)))
		}
		pc = append(pc, e.c.Le(e.c.Int(int64((len(dis)+2)/3)), sum))
	}
	return true
}

// witness runs a model of a completed path on the compiled code.
func (r *Runner) witness(t *Task, res *Result, seen map[string]bool, in map[string]string) {
	a := r.run(Request{t.Fn, t.Params, in})
	switch a.Result {
	case "ok":
		res.Validated++
		for _, l := range a.Labels {
			res.NatLabels[l] = true
		}
		res.Witness = in
	case "skip":
		res.Skipped++
	case "fail", "panic":
		label := a.Label
		if a.Result == "panic" {
			label = "panic"
		}
		if seen[label] {
			return
		}
		seen[label] = true
		res.Violations = append(res.Violations, &Violation{Property: t.Prop, Label: label, Task: t.Name(), Fn: t.Fn, Params: t.Params, Inputs: in, Native: a, Found: "path witness"})
		if r.known[label] == "" {
			r.halt()
		}
	default:
		res.Incomplete["native run: "+a.Label]++
	}
}

// roundInputs turns solver values into values a float can hold.
func (r *Runner) roundInputs(vars []*Term, m map[string]string) map[string]string {
	out := map[string]string{}
	for _, v := range vars {
		s, ok := m[v.str]
		if !ok {
			continue
		}
		// the solver leaves values it does not need outside their ranges
		if v.sort == SReal || v.sort == SInt {
			if q, ok := new(big.Rat).SetString(s); ok {
				if v.lo != nil && q.Cmp(v.lo) < 0 {
					s = v.lo.RatString()
				} else if v.hi != nil && q.Cmp(v.hi) > 0 {
					s = v.hi.RatString()
				}
			}
		}
		if v.sort == SReal && s != "?" {
			q, ok := new(big.Rat).SetString(s)
			if ok {
				if v.grid >= 0 {
					k := pow2(v.grid)
					q = new(big.Rat).Quo(floorRat(new(big.Rat).Add(new(big.Rat).Mul(q, k), big.NewRat(1, 2))), k)
				}
				f, _ := q.Float64()
				if !math.IsInf(f, 0) {
					s = ratF(f).RatString()
				}
			}
		}
		out[v.str] = s
	}
	return out
}

// confirm replays a counterexample; when rounding the model to floats loses
// the violation, further models on coarser grids are asked for.
func (r *Runner) confirm(e *Exec, t *Task, st *State, pc []*Term, m map[string]string, label string) *Violation {
	try := func(m map[string]string, how string) *Violation {
		in := r.roundInputs(st.inputs, m)
		a := r.run(Request{t.Fn, t.Params, in})
		if a.Result != "fail" && a.Result != "panic" {
			return nil
		}
		l := a.Label
		if a.Result == "panic" {
			l = "panic"
		}
		if l != label && r.known[l] != "" {
			return nil
		}
		return &Violation{Property: t.Prop, Label: l, Task: t.Name(), Fn: t.Fn, Params: t.Params, Inputs: in, Native: a, Found: how}
	}
	if v := try(m, "solver model"); v != nil {
		return v
	}
	c := e.c
	for _, g := range []int64{1, 4, 1024} {
		for _, exact := range []bool{true, false} {
			extra := append([]*Term(nil), pc...)
			for _, v := range st.inputs {
				if v.sort == SReal {
					k := c.Var(v.str+"!grid"+strconv.FormatInt(g, 10), SInt, nil, nil, 0)
					extra = append(extra, c.Eq(c.Scale(v, new(big.Rat).SetInt64(g)), c.ToReal(k)))
				}
			}
			if exact {
				for _, d := range e.rndEqs(pc) {
					extra = append(extra, d)
				}
			}
			rr, m2 := e.s.Check(extra, st.inputs)
			if rr != Sat {
				continue
			}
			if v := try(m2, fmt.Sprintf("solver model on grid 1/%d", g)); v != nil {
				return v
			}
		}
	}
	// a few more unconstrained models
	extra := append([]*Term(nil), pc...)
	for i := 0; i < 4; i++ {
		var dis []*Term
		for _, v := range st.inputs {
			s := m[v.str]
			if v.sort == SReal || v.sort == SInt {
				if q, ok := new(big.Rat).SetString(s); ok {
					dis = append(dis, c.Not(c.Eq(v, c.Num(v.sort, q))))
				}
			}
		}
		extra = append(extra, c.Or(dis...))
		rr, m2 := e.s.Check(extra, st.inputs)
		if rr != Sat {
			break
		}
		if v := try(m2, "further solver model"); v != nil {
			return v
		}
		m = m2
	}
	return nil
}

// ---- known findings ----------------------------------------------------------

// readKnown reads "known: property=ID label=LABEL text" lines.
func readKnown(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "label=") {
			continue
		}
		m[strings.TrimPrefix(f[2], "label=")] = strings.Join(f[3:], " ")
	}
	return m
}

func main() {
	prop := flag.String("property", "", "property to check")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	verbose := flag.Bool("v", false, "trace")
	replay := flag.String("replay", "", "replay a counterexample file")
	only := flag.String("only", "", "run only tasks whose name contains this text")
	flag.Parse()
	os.Exit(realMain(*prop, *repo, *verif, *replay, *only, *verbose))
}

func realMain(prop, repo, verif, replay, only string, verbose bool) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var rv *Violation
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		rv = &Violation{}
		if err := json.Unmarshal(b, rv); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		prop = rv.Property
	}
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	h, err := readHarness(filepath.Join(verif, "harness"), repo, prop, tmp)
	if err == nil && len(h.Tasks) == 0 {
		err = fmt.Errorf("no harness for property %q", prop)
	}
	if err == nil {
		err = h.prepare(repo)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var bin string
	var berr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		bin, berr = h.buildNative(repo)
	}()
	var prog *ssa.Program
	var hpkg *ssa.Package
	if rv == nil {
		prog, hpkg, err = h.load(repo)
	}
	wg.Wait()
	if err == nil {
		err = berr
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := &Runner{prop: prop, tier: tier, seed: seed, prog: prog, hpkg: hpkg, verbose: verbose,
		known: readKnown(filepath.Join(verif, "known-findings.txt"), prop), quit: make(chan struct{})}
	if tier != "thorough" {
		r.deadline = t0.Add(720 * time.Second)
	}
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	for i := 0; i < par; i++ {
		n := &Native{bin: bin, tmp: filepath.Join(tmp, "n"+itoa(i))}
		r.native = append(r.native, n)
		defer n.Close()
	}
	if rv != nil {
		a := r.run(Request{rv.Fn, rv.Params, rv.Inputs})
		b, _ := json.MarshalIndent(a, "", " ")
		fmt.Println(string(b))
		if a.Result == "fail" || a.Result == "panic" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
			return 1
		}
		return 0
	}
	var tasks []*Task
	for _, t := range h.Tasks {
		if t.Thorough && tier != "thorough" {
			continue
		}
		if only != "" && !strings.Contains(t.Name(), only) {
			continue
		}
		if tier == "thorough" {
			t.Seconds *= 3
		}
		tasks = append(tasks, t)
	}
	results := make([]*Result, len(tasks))
	sem := make(chan bool, par)
	for i := range tasks {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			results[i] = r.execTask(tasks[i])
			if verbose {
				x := results[i]
				fmt.Fprintf(os.Stderr, "%-40s %6.1fs paths=%d asserts=%d queries=%d viol=%d unrep=%v incomplete=%v\n", tasks[i].Name(), x.Seconds, x.Paths, x.Asserts, x.Stats.Queries, len(x.Violations), x.Unreplayed, x.Incomplete)
			}
		}(i)
	}
	wg.Wait()
	return r.report(h, verif, tasks, results, t0)
}

func (r *Runner) report(h *Harness, verif string, tasks []*Task, results []*Result, t0 time.Time) int {
	type taskEv struct {
		Task, Bounds                                              string
		Seconds                                                   float64
		Paths, Forks, Merges, BlocksExecuted                      int
		AssertionsChecked, AssertionsDischarged, AssertionsFolded int
		Queries, Sat, Unsat, Unknown                              int
		SolverSeconds                                             float64
		WitnessesRunOnCode, WitnessesSkipped, FloatRoundings      int
		Incomplete                                                map[string]int `json:",omitempty"`
		Unconfirmed                                               []string       `json:",omitempty"`
	}
	var evs []taskEv
	notes, stubs, fns, labels, nat := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]int{}, map[string]bool{}
	incomplete := map[string]int{}
	var unconf []string
	var viols, knowns []*Violation
	var samples []interface{}
	states, trans, valid, asserts, queries, discharged := 0, 0, 0, 0, 0, 0
	ssec := 0.0
	seen := map[string]bool{}
	for i, x := range results {
		var b []string
		for k, v := range tasks[i].Params {
			b = append(b, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(b)
		evs = append(evs, taskEv{tasks[i].Name(), strings.Join(b, " "), round3(x.Seconds), x.Paths, x.Forks, x.Merges, x.Blocks, x.Asserts, x.Discharged, x.Trivial,
			x.Stats.Queries, x.Stats.SatN, x.Stats.UnsatN, x.Stats.UnknownN, round3(x.Stats.SolverSec), x.Validated, x.Skipped, x.Rounded, x.Incomplete, x.Unreplayed})
		for k := range x.Notes {
			notes[k] = true
		}
		for k := range x.Stubs {
			stubs[k] = true
		}
		for k := range x.Fns {
			if !strings.Contains(k, "/zzverif/") {
				fns[k] = true
			}
		}
		for k, v := range x.Reached {
			labels[k] += v
		}
		for k := range x.NatLabels {
			nat[k] = true
		}
		for k, v := range x.Incomplete {
			incomplete[tasks[i].Name()+": "+k] += v
		}
		for _, u := range x.Unreplayed {
			unconf = append(unconf, tasks[i].Name()+": "+u)
		}
		for _, v := range x.Violations {
			if seen[v.Label] {
				continue
			}
			seen[v.Label] = true
			if t := r.known[v.Label]; t != "" {
				v.Known = t
				knowns = append(knowns, v)
			} else {
				viols = append(viols, v)
			}
		}
		if x.Witness != nil && len(samples) < 4 {
			samples = append(samples, map[string]interface{}{"task": tasks[i].Name(), "inputs": x.Witness, "outcome": "all assertions hold on the compiled code"})
		}
		states += x.Blocks
		trans += x.Forks + x.Merges + x.Asserts
		valid += x.Validated
		asserts += x.Asserts
		queries += x.Stats.Queries
		discharged += x.Discharged
		ssec += x.Stats.SolverSec
	}
	// vacuity: every assertion in the harness sources must have been reached
	var vacuous []string
	done := map[string]bool{}
	for _, t := range tasks {
		if done[t.Fn] {
			continue
		}
		done[t.Fn] = true
		for _, l := range h.Labels[t.Fn] {
			if labels["assert:"+l] == 0 {
				vacuous = append(vacuous, t.Fn+":"+l)
			}
		}
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(filepath.Join(evdir, "replay"), 0755)
	for i, v := range viols {
		p := filepath.Join(evdir, "replay", fmt.Sprintf("%s-%d.json", r.prop, i+1))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, append(b, '\n'), 0644)
		fmt.Printf("%s fails in %s with inputs %s\n", v.Label, v.Task, compact(v.Inputs))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, p)
	}
	for _, v := range knowns {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, v.Known)
	}
	var reduced []string
	for k, v := range incomplete {
		reduced = append(reduced, fmt.Sprintf("%s (x%d)", k, v))
	}
	for _, u := range unconf {
		reduced = append(reduced, "counterexample not confirmed on the compiled code, not counted: "+u)
	}
	for _, v := range vacuous {
		reduced = append(reduced, "assertion never reached: "+v)
	}
	sort.Strings(reduced)
	for _, x := range reduced {
		fmt.Println("REDUCED-BOUND:", x)
	}
	assumptions := sortedKeys(notes)
	for _, s := range sortedKeys(stubs) {
		assumptions = append(assumptions, "modelled library function: "+s)
	}
	assumptions = append(assumptions, "inputs are bounded as stated per task; floating-point inputs range over all reals of their interval (a superset of the floats)")
	var known []string
	for _, v := range knowns {
		known = append(known, v.Known)
	}
	wall := time.Since(t0).Seconds()
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples,
			"functions_encoded": sortedKeys(fns), "tasks": evs, "assertions_checked": asserts, "assertions_discharged_by_solver": discharged,
			"queries": queries, "solver_seconds": round3(ssec), "assertion_labels_reached": labels,
			"labels_witnessed_on_compiled_code": sortedKeys(nat), "reduced_bounds": append([]string{}, reduced...),
			"explanation": "states are symbolic block executions, transitions are path forks, merges and assertion checks; every assertion is decided by the SMT solver for all inputs within the bounds",
		},
		"assumptions": assumptions, "wall_s": round3(wall), "violations": len(viols), "known_findings": known,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, r.prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d tasks, %d paths' witnesses run on the code, %d assertions, %d queries, %.1fs solver, %.1fs wall, %d violations\n", r.prop, len(tasks), valid, asserts, queries, ssec, wall, len(viols))
	if len(viols) > 0 {
		return 1
	}
	return 0
}

func round3(f float64) float64 { return math.Round(f*1000) / 1000 }

func compact(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for i, k := range ks {
		if i > 0 {
			sb.WriteByte(' ')
		}
		v := m[k]
		if q, ok := new(big.Rat).SetString(v); ok && !q.IsInt() {
			f, _ := q.Float64()
			v = strconv.FormatFloat(f, 'g', -1, 64)
		}
		sb.WriteString(k + "=" + v)
	}
	return sb.String()
}

// rndEqs states that every rounding error occurring in pc is zero.
func (e *Exec) rndEqs(pc []*Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		for _, v := range e.s.vars(t) {
			if seen[v.id] {
				continue
			}
			seen[v.id] = true
			if strings.HasPrefix(v.str, "rnd") {
				out = append(out, e.c.Eq(v, e.c.Real(0)))
			}
			for _, s := range v.side {
				visit(s)
			}
		}
	}
	for _, t := range pc {
		visit(t)
	}
	return out
}
