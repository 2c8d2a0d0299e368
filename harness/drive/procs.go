package main

// Clients that are processes of their own, under the same scheduler: a worker is this program again,
// which stops in front of every system call of the code under test and asks its parent to go on.

import (
	"bufio"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"syscall"
	"time"
	"unsafe"
)

type worker struct {
	cmd *exec.Cmd
	in  *os.File
	out *bufio.Reader
	bad bool
}

var workers = map[int]*worker{}

func startWorker() *worker {
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), "VERIF_WORKER=1")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	ir, iw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	or, ow, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	cmd.Stdin, cmd.Stdout, cmd.Stderr = ir, ow, os.Stderr
	runtime.LockOSThread() // the thread which starts a child must live as long as the child
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	ir.Close()
	ow.Close()
	return &worker{cmd: cmd, in: iw, out: bufio.NewReaderSize(or, 1<<16)}
}

func workerFor(k int) *worker {
	w := workers[k]
	if w == nil || w.bad {
		w = startWorker()
		workers[k] = w
	}
	return w
}

func stopWorkers() {
	for _, w := range workers {
		if !w.bad {
			w.kill()
		}
	}
}

func (w *worker) kill() {
	w.bad = true
	w.cmd.Process.Kill()
	w.in.Close()
	w.cmd.Wait()
}

func (w *worker) send(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	w.in.Write(append(b, '\n'))
}

func (w *worker) recv() M {
	line, err := w.out.ReadBytes('\n')
	if err != nil {
		return M{"k": "gone"}
	}
	m := M{}
	if err := json.Unmarshal(line, &m); err != nil {
		panic(err)
	}
	return m
}

// open tells the worker about a new world, in which the handles are opened as here
func (w *worker) open(e *Env, pre []Call) {
	opens := []Call{}
	for _, c := range pre {
		if c.s("op") == "open" {
			opens = append(opens, c)
		}
	}
	w.send(M{"root": e.root, "pre": opens})
	for w.recv()["k"] == "park" {
		w.send(M{"go": 1})
	}
}

// remote is what client is for a client in this process
func (s *sched) remote(e *Env, c *client) {
	defer func() {
		s.mu.Lock()
		c.fin = true
		s.cond.Broadcast()
		s.mu.Unlock()
	}()
	park := func() bool {
		s.mu.Lock()
		c.parked = true
		s.cond.Broadcast()
		s.mu.Unlock()
		return <-c.turn
	}
	for _, call := range c.calls {
		if !park() {
			return
		}
		ev := M{}
		for k, v := range call {
			ev[k] = v
		}
		s.mu.Lock()
		c.cur = ev
		s.evs = append(s.evs, M{"k": "call", "c": c.id, "e": ev})
		s.mu.Unlock()
		c.w.send(M{"call": call})
		for {
			m := c.w.recv()
			if m["k"] == "park" {
				if !park() {
					c.w.kill()
					return
				}
				c.w.send(M{"go": 1})
				continue
			}
			s.mu.Lock()
			if m["k"] == "gone" {
				ev["r"] = "exit"
				c.w.bad = true
			} else {
				for k, v := range m["e"].(map[string]interface{}) {
					ev[k] = v
				}
			}
			c.cur = nil
			s.evs = append(s.evs, M{"k": "ret", "c": c.id})
			s.mu.Unlock()
			if c.w.bad {
				return
			}
			break
		}
	}
}

// workerMain is the life of a worker
func workerMain() {
	outFd, err := syscall.Dup(1)
	if err != nil {
		panic(err)
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	put := func(v interface{}) {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		b = append(b, '\n')
		for len(b) > 0 {
			n, _, en := syscall.RawSyscall(syscall.SYS_WRITE, uintptr(outFd), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
			if en == syscall.EINTR {
				continue
			}
			if en != 0 {
				mainExit(0)
			}
			b = b[n:]
		}
	}
	get := func() M {
		line, err := in.ReadBytes('\n')
		if err != nil {
			mainExit(0)
		}
		m := M{}
		if err := json.Unmarshal(line, &m); err != nil {
			panic(err)
		}
		return m
	}
	mainID := goid()
	os.VerifExit = func(code int) {
		if goid() != mainID {
			panic(verifExit(code))
		}
	}
	var e *Env
	n := 0
	for {
		m := get()
		if root, ok := m["root"].(string); ok {
			if n++; n%200 == 0 {
				runtime.GC()
				time.Sleep(2 * time.Millisecond)
			}
			if e != nil {
				e.tr.remove()
			}
			e = newEnvAt(filepath.Clean(root))
			e.tr = newTracker(e.root)
			e.tr.install()
			for _, x := range m["pre"].([]interface{}) {
				e.do(Call(x.(map[string]interface{})))
			}
			e.tr.mu.Lock()
			e.tr.inject = func(c *syscall.VerifCall, path string, written bool, real func()) {
				put(M{"k": "park"})
				get()
				real()
			}
			e.tr.mu.Unlock()
			put(M{"k": "ready"})
			continue
		}
		done := make(chan M)
		go func() { done <- e.doHere(Call(m["call"].(map[string]interface{}))) }()
		put(M{"k": "ret", "e": <-done})
	}
}
