package main

import (
	"bufio"
	"encoding/json"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"time"
)

type Request struct {
	Fn     string
	Params map[string]int
	Inputs map[string]string
}

type Answer struct {
	Result string
	Label  string
	Stack  string
	Labels []string
}

// Native runs concrete inputs on the compiled harness.
type Native struct {
	mu    sync.Mutex
	bin   string
	tmp   string
	n     int
	cmd   *exec.Cmd
	in    io.WriteCloser
	lines chan []byte
	Runs  int
}

func (n *Native) start() error {
	n.n++
	dir := filepath.Join(n.tmp, "run", "d"+itoa(n.n))
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return err
	}
	n.cmd = exec.Command(n.bin, dir)
	n.cmd.Dir = dir
	n.cmd.ExtraFiles = []*os.File{w}
	n.cmd.Env = append(os.Environ(), "TZ=UTC", "GOMEMLIMIT=2GiB")
	n.in, err = n.cmd.StdinPipe()
	if err != nil {
		return err
	}
	if err := n.cmd.Start(); err != nil {
		return err
	}
	w.Close()
	lines := make(chan []byte, 16)
	n.lines = lines
	go func() {
		rd := bufio.NewReaderSize(r, 1<<16)
		for {
			l, err := rd.ReadBytes('\n')
			if err != nil {
				close(lines)
				r.Close()
				return
			}
			lines <- l
		}
	}()
	return nil
}

func (n *Native) stop() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func (n *Native) Close() {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.stop()
}

// Run executes one request; a crash or a hang is an answer too.
func (n *Native) Run(rq Request) Answer {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.Runs++
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return Answer{Result: "error", Label: err.Error()}
		}
	}
	b, _ := json.Marshal(rq)
	n.in.Write(append(b, '\n'))
	select {
	case l, ok := <-n.lines:
		if !ok {
			n.stop()
			return Answer{Result: "panic", Label: "crash"}
		}
		var a Answer
		if json.Unmarshal(l, &a) != nil {
			n.stop()
			return Answer{Result: "error", Label: "bad answer"}
		}
		return a
	case <-time.After(20 * time.Second):
		n.stop()
		return Answer{Result: "panic", Label: "hang"}
	}
}
