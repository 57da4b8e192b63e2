package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Programs are executed in worker processes, one after another: what brings a process down, or does not end, is seen.

// watchMemory ends the process when the code under test takes all of the memory.
func watchMemory() {
	var m runtime.MemStats
	for {
		time.Sleep(300 * time.Millisecond)
		runtime.ReadMemStats(&m)
		if m.Sys > 2500<<20 {
			fmt.Fprintln(os.Stderr, "fatal error: out of memory")
			os.Exit(4)
		}
	}
}

// result is what a worker says of one program.
type result struct {
	Trace *Trace `json:"trace,omitempty"`
	Msg   string `json:"msg"`
}

// step is called before each operation and each rendering.
var step = func(h int) {}

func work(in io.Reader, out io.Writer, progress bool) {
	go watchMemory()
	if progress {
		step = func(h int) { fmt.Fprintf(os.Stderr, "@step %d\n", h) }
	}
	r := json.NewDecoder(bufio.NewReaderSize(in, 1<<20))
	w := bufio.NewWriterSize(out, 1<<16)
	e := json.NewEncoder(w)
	for {
		var p Program
		if err := r.Decode(&p); err == io.EOF {
			return
		} else if err != nil {
			die("%v", err)
		}
		var tr Trace
		msg := guarded(func() { tr = Run(p) })
		if err := e.Encode(result{&tr, msg}); err != nil {
			die("%v", err)
		}
		w.Flush()
	}
}

// runSome executes programs in one process until it ends; done is how many ended, why is why the next one did not.
func runSome(ps []Program, limit time.Duration, progress bool, put func(int, result)) (done int, why, log string) {
	args := []string{"worker"}
	if progress {
		args = append(args, "-progress")
	}
	c := exec.Command("/proc/self/exe", args...)
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	var errs tail
	c.Stderr = &errs
	if err := c.Start(); err != nil {
		die("%v", err)
	}
	go func() {
		w := bufio.NewWriterSize(in, 1<<16)
		e := json.NewEncoder(w)
		for _, p := range ps {
			if e.Encode(p) != nil {
				break
			}
			w.Flush()
		}
		w.Flush()
		in.Close()
	}()
	hung := false
	timer := time.AfterFunc(limit, func() { hung = true; c.Process.Kill() })
	r := json.NewDecoder(bufio.NewReaderSize(out, 1<<20))
	for done < len(ps) {
		var x result
		if err := r.Decode(&x); err != nil {
			break
		}
		timer.Reset(limit)
		put(done, x)
		done++
	}
	timer.Stop()
	io.Copy(io.Discard, out)
	c.Wait()
	why = "panic"
	if hung {
		why = "hang"
	}
	return done, why, string(errs.first) + "\n" + string(errs.last)
}

// tail keeps the beginning and the end of what is written.
type tail struct {
	first, last []byte
}

func (t *tail) Write(p []byte) (int, error) {
	if n := 4096 - len(t.first); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		t.first = append(t.first, p[:n]...)
	}
	t.last = append(t.last, p...)
	if len(t.last) > 8192 {
		t.last = append([]byte{}, t.last[len(t.last)-4096:]...)
	}
	return len(p), nil
}

// crashed is the trace of a program that ended its process or did not end.
func crashed(p Program, limit time.Duration, why, log string) Trace {
	h := len(p.Ops)
	n, _, steps := runSome([]Program{p}, limit, true, func(int, result) {})
	if n == 0 {
		if i := strings.LastIndex(steps, "@step "); i >= 0 {
			fmt.Sscanf(steps[i:], "@step %d", &h)
		}
	}
	msg := why
	for _, l := range strings.Split(log, "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "panic") {
			msg = l
			break
		}
	}
	tr := Trace{ID: p.ID, Ops: p.Ops, Outs: []Out{{h, []Obs{{X: why, O: []string{msg}}}}}}
	return tr
}

// runAll executes programs in some processes.
func runAll(ps []Program, limit time.Duration, parallel int) ([]Trace, []string) {
	traces := make([]Trace, len(ps))
	msgs := make([]string, len(ps))
	for i := range ps {
		traces[i] = Trace{ID: ps[i].ID, Ops: []Op{}, Outs: []Out{}, Skip: true}
	}
	var wg sync.WaitGroup
	size := (len(ps) + parallel - 1) / parallel
	for from := 0; from < len(ps); from += size {
		to := from + size
		if to > len(ps) {
			to = len(ps)
		}
		wg.Add(1)
		go func(from, to int) {
			defer wg.Done()
			budget := 20
			for from < to && budget > 0 { // enough of them: the others are not executed
				n, why, log := runSome(ps[from:to], limit, false, func(i int, r result) {
					if msgs[from+i] = r.Msg; r.Msg == "" {
						traces[from+i] = *r.Trace
					}
				})
				from += n
				if from < to {
					traces[from] = crashed(ps[from], limit, why, log)
					from++
					budget--
					if why == "hang" {
						budget -= 8
					}
				}
			}
		}(from, to)
	}
	wg.Wait()
	return traces, msgs
}
