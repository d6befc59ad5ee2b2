// Command srv runs harness functions on concrete inputs: one JSON request per
// line on standard input, one JSON answer per line on standard output.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"github.com/vanclief/finmod/zzverif/h"
	"github.com/vanclief/finmod/zzverif/sym"
)

type request struct {
	Fn     string
	Params map[string]int
	Inputs map[string]string
}

type answer struct {
	Result string // ok, skip, fail, panic
	Label  string
	Stack  string
	Labels []string
}

func one(rq request, dir string) (a answer) {
	sym.Cur = &sym.Run{Inputs: rq.Inputs, Params: rq.Params, Dir: dir}
	local := time.Local
	defer func() {
		time.Local = local
		sym.Cur.Cleanup()
		a.Labels = sym.Cur.Labels
		if r := recover(); r != nil {
			switch x := r.(type) {
			case sym.Failed:
				a.Result, a.Label = "fail", x.Label
			case sym.Skipped:
				a.Result = "skip"
			default:
				a.Result, a.Label, a.Stack = "panic", fmt.Sprint(r), string(debug.Stack())
			}
		}
	}()
	f := h.Registry[rq.Fn]
	if f == nil {
		a.Result = "nofunc"
		return
	}
	f()
	a.Result = "ok"
	return
}

func main() {
	dir := os.Args[1]
	out := bufio.NewWriter(os.NewFile(3, "answers"))
	go func() {
		for {
			time.Sleep(30 * time.Millisecond)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 3<<30 {
				os.Exit(77)
			}
		}
	}()
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var rq request
		if err := json.Unmarshal(sc.Bytes(), &rq); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		b, _ := json.Marshal(one(rq, dir))
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
