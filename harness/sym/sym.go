// Package sym is the vocabulary of the harnesses. The symbolic engine
// intercepts these functions; the bodies below are the native meaning used
// when a solver model is replayed against the compiled code.
package sym

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

// Run is the state of one native execution.
type Run struct {
	Inputs map[string]string
	Params map[string]int
	Labels []string
	Dir    string
}

// Cur is the execution in progress.
var Cur = &Run{}

// Failed is thrown by a failing assertion, Skipped by a failing assumption.
type Failed struct{ Label string }
type Skipped struct{}

func rat(name string) (*big.Rat, bool) {
	s, ok := Cur.Inputs[name]
	if !ok || s == "?" {
		return nil, false
	}
	return new(big.Rat).SetString(s)
}

// F64 is any float in [lo, hi].
func F64(name string, lo, hi float64) float64 {
	r, ok := rat(name)
	if !ok {
		return lo
	}
	f, _ := r.Float64()
	return math.Max(lo, math.Min(hi, f))
}

// Grid is any multiple of 2^-g in [lo, hi].
func Grid(name string, lo, hi float64, g int) float64 {
	f := F64(name, lo, hi)
	k := math.Ldexp(1, g)
	return math.Max(lo, math.Min(hi, math.Round(f*k)/k))
}

// I64 is any integer in [lo, hi].
func I64(name string, lo, hi int64) int64 {
	r, ok := rat(name)
	if !ok || !r.IsInt() {
		return lo
	}
	v := r.Num().Int64()
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// Int is any integer in [lo, hi].
func Int(name string, lo, hi int) int { return int(I64(name, int64(lo), int64(hi))) }

// Choose is an integer in [0, n) explored case by case.
func Choose(name string, n int) int { return Int(name, 0, n-1) }

// Bool is any boolean.
func Bool(name string) bool { return Cur.Inputs[name] == "true" }

// Str is any string.
func Str(name string) string { return Cur.Inputs[name] }

// Text is any string of n bytes each in [lo, hi].
func Text(name string, n int, lo, hi int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(Int(name+"."+strconv.Itoa(i), lo, hi))
	}
	return string(b)
}

// N appends an index to a name.
func N(name string, i int) string { return name + strconv.Itoa(i) }

// Param is a bound of the task.
func Param(name string, def int) int {
	if v, ok := Cur.Params[name]; ok {
		return v
	}
	return def
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(Skipped{})
	}
}

// Assert is the property.
func Assert(c bool, label string) {
	Cur.Labels = append(Cur.Labels, label)
	if !c {
		panic(Failed{label})
	}
}

// Reach marks a situation that must be reachable.
func Reach(label string) { Cur.Labels = append(Cur.Labels, "reach:"+label) }

// And, Or, Imp, Iff and the Ite family do not fork the path.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Imp(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool { return a == b }

func IteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

func IteI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Add, Sub and Mul are exact in the symbolic engine.
func Add(a, b float64) float64 { return a + b }
func Sub(a, b float64) float64 { return a - b }
func Mul(a, b float64) float64 { return a * b }

// Near reports |a-b| <= tol.
func Near(a, b, tol float64) bool {
	if math.IsNaN(a) || math.IsInf(a, 0) || math.IsNaN(b) || math.IsInf(b, 0) {
		return math.IsNaN(a) && math.IsNaN(b) || a == b
	}
	return math.Abs(a-b) <= tol
}

// IsFinite reports whether a is neither infinite nor NaN.
func IsFinite(a float64) bool { return !math.IsNaN(a) && !math.IsInf(a, 0) }

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Failed, Skipped:
				panic(r)
			}
			panicked = true
			Cur.Labels = append(Cur.Labels, fmt.Sprint("caught:", r))
		}
	}()
	f()
	return false
}

// Capture runs f and returns what it writes to standard output.
func Capture(f func()) string {
	was := os.Stdout
	file, err := os.Create(filepath.Join(Cur.Dir, "stdout"))
	if err != nil {
		panic(err)
	}
	defer func() { os.Stdout = was }()
	os.Stdout = file
	f()
	file.Close()
	b, err := os.ReadFile(file.Name())
	if err != nil {
		panic(err)
	}
	return string(b)
}

// SetLocalOffset sets the local time zone to a fixed offset from UTC.
func SetLocalOffset(sec int) { time.Local = time.FixedZone("verif", sec) }

// Path is a file of this execution. "!nodir/x" lies in a missing directory,
// "!full" accepts no data, "!dir" is a directory.
func Path(name string) string {
	switch name {
	case "!full":
		return "/dev/full"
	case "!dir":
		return Cur.Dir
	}
	return filepath.Join(Cur.Dir, name)
}

// Cleanup removes the files of an execution.
func (r *Run) Cleanup() {
	es, _ := os.ReadDir(r.Dir)
	for _, e := range es {
		os.Remove(filepath.Join(r.Dir, e.Name()))
	}
}
