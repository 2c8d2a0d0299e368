package main

// Concurrent clients under a scheduler, crashes and failing system calls.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---------------------------------------------------------------------------------------- scheduler

type client struct {
	id     int
	calls  []Call
	turn   chan bool // true: go on, false: you are killed
	parked bool
	fin    bool
	dead   bool
	cur    M
	w      *worker // the process in which the client lives, if it is not this one
}

type sched struct {
	mu      sync.Mutex
	cond    *sync.Cond
	clients []*client
	byGo    map[int64]*client
	evs     []M
	// the schedule
	choices []int // what to choose at step k
	taken   []int // what was chosen
	width   []int // out of how many
	rng     *rand.Rand
	killAt  int // step at which the chosen client is killed, -1: never
	steps   int
}

// yield is called by a client in front of something others can observe
func (s *sched) yield(c *client) {
	s.mu.Lock()
	c.parked = true
	s.cond.Broadcast()
	s.mu.Unlock()
	if !<-c.turn {
		s.mu.Lock()
		c.dead = true
		s.mu.Unlock()
		runtime.Goexit()
	}
}

func (s *sched) inject(c *syscall.VerifCall, path string, written bool, real func()) {
	s.mu.Lock()
	cl := s.byGo[goid()]
	dead := cl != nil && cl.dead
	s.mu.Unlock()
	if cl == nil {
		real()
		return
	}
	if dead { // after its death a client does nothing any more; files are closed as the kernel would
		if c.Op == "close" {
			real()
		} else {
			c.N, c.Err = -1, syscall.EIO
		}
		return
	}
	s.yield(cl)
	real()
}

func (s *sched) log(ev M) {
	s.mu.Lock()
	s.evs = append(s.evs, ev)
	s.mu.Unlock()
}

// run performs the clients' calls under one schedule
func (s *sched) run(e *Env) {
	s.cond = sync.NewCond(&s.mu)
	s.byGo = map[int64]*client{}
	for _, c := range s.clients {
		if c.w != nil {
			go s.remote(e, c)
		} else {
			go s.client(e, c)
		}
	}
	for {
		s.mu.Lock()
		deadline := time.Now().Add(15 * time.Millisecond)
		for !s.settled() && time.Now().Before(deadline) {
			// a client that waits for a lock which another one holds does not park
			t := time.AfterFunc(time.Until(deadline)+time.Millisecond, s.cond.Broadcast)
			s.cond.Wait()
			t.Stop()
		}
		ready := []*client{}
		left := 0
		for _, c := range s.clients {
			if c.parked {
				ready = append(ready, c)
			}
			if !c.fin {
				left++
			}
		}
		if left == 0 {
			s.mu.Unlock()
			return
		}
		if len(ready) == 0 {
			s.mu.Unlock()
			s.steps++
			if s.steps > 200000 {
				hung = true
				return
			}
			continue
		}
		k := 0
		if len(s.taken) < len(s.choices) {
			k = s.choices[len(s.taken)]
		} else if s.rng != nil {
			k = s.rng.Intn(len(ready))
		}
		if k >= len(ready) {
			k = len(ready) - 1
		}
		s.taken = append(s.taken, k)
		s.width = append(s.width, len(ready))
		c := ready[k]
		c.parked = false
		alive := s.killAt != len(s.taken)-1
		if !alive {
			if c.cur == nil {
				alive = true // between two operations: nothing to interrupt
			} else {
				c.cur["r"] = "killed"
				s.evs = append(s.evs, M{"k": "kill", "c": c.id})
			}
		}
		s.mu.Unlock()
		c.turn <- alive
		if len(s.taken) > 100000 {
			hung = true
			return
		}
	}
}

func (s *sched) settled() bool {
	for _, c := range s.clients {
		if !c.parked && !c.fin {
			return false
		}
	}
	return true
}

func (s *sched) client(e *Env, c *client) {
	defer func() {
		s.mu.Lock()
		c.fin = true
		s.cond.Broadcast()
		s.mu.Unlock()
	}()
	for _, call := range c.calls {
		done := make(chan bool)
		go func() {
			defer close(done)
			g := goid()
			s.mu.Lock()
			s.byGo[g] = c
			s.mu.Unlock()
			defer func() {
				s.mu.Lock()
				delete(s.byGo, g)
				s.mu.Unlock()
			}()
			s.yield(c) // the moment at which the call begins
			ev := M{}
			for k, v := range call {
				ev[k] = v
			}
			s.mu.Lock()
			c.cur = ev
			s.evs = append(s.evs, M{"k": "call", "c": c.id, "e": ev})
			s.mu.Unlock()
			r := e.doHere(call)
			s.mu.Lock()
			for k, v := range r {
				ev[k] = v
			}
			c.cur = nil
			s.evs = append(s.evs, M{"k": "ret", "c": c.id})
			s.mu.Unlock()
		}()
		<-done
		s.mu.Lock()
		dead := c.dead
		s.mu.Unlock()
		if dead {
			return
		}
	}
}

// doHere performs one call in the calling goroutine
func (e *Env) doHere(c Call) M {
	f, ok := ops[c.s("op")]
	if !ok {
		panic("harness: unknown op " + c.s("op"))
	}
	out := M{}
	res := opResult{r: "killed"}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if x, ok := p.(verifExit); ok {
					res = opResult{r: "exit", msg: fmt.Sprint(x)}
				} else {
					res = opResult{r: "panic", msg: fmt.Sprint(p) + "\n" + firstFrames(string(debug.Stack()))}
				}
			}
		}()
		if err := f(e, c, out); err != nil {
			res = opResult{r: "err", msg: err.Error()}
		} else {
			res = opResult{r: "ok"}
		}
	}()
	out["r"] = res.r
	if res.msg != "" {
		out["msg"] = strings.ReplaceAll(res.msg, e.root, "@")
	}
	return out
}

// prepared returns a fresh world in which the calls of pre have been made
func prepared(pre []Call) (*Env, []M) {
	e := newEnv()
	e.tr = newTracker(e.root)
	e.tr.install()
	evs := []M{}
	for _, c := range pre {
		evs = append(evs, e.do(c))
	}
	return e, evs
}

func oneSchedule(s *script, choices []int, rng *rand.Rand, killAt int) (*sched, []M) {
	e, evs := prepared(s.Pre)
	defer e.close()
	sc := &sched{choices: choices, rng: rng, killAt: killAt}
	for k, cs := range s.Clients {
		sc.clients = append(sc.clients, &client{id: k + 1, calls: cs, turn: make(chan bool)})
		if s.Opt.i("procs") == 1 {
			sc.clients[k].w = workerFor(k)
			sc.clients[k].w.open(e, s.Pre)
		}
	}
	e.tr.mu.Lock()
	e.tr.inject = sc.inject
	e.tr.mu.Unlock()
	done := make(chan bool)
	go func() {
		sc.run(e)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		hung = true
	}
	e.tr.mu.Lock()
	e.tr.inject = nil
	e.tr.mu.Unlock()
	sc.mu.Lock()
	evs = append(evs, sc.evs...)
	sc.mu.Unlock()
	if hung {
		evs = append(evs, M{"op": "hang", "r": "hang"})
		return sc, evs
	}
	for _, c := range s.Post {
		evs = append(evs, e.do(c))
	}
	return sc, evs
}

type dedup struct {
	seen map[string]bool
	n    int
	id   string
	emit func(interface{})
}

func (d *dedup) add(evs []M, extra M) {
	b, err := json.Marshal(evs)
	if err != nil {
		panic(err)
	}
	if d.seen[string(b)] {
		return
	}
	d.seen[string(b)] = true
	d.n++
	m := M{"id": fmt.Sprintf("%s#%d", d.id, d.n), "ev": evs}
	for k, v := range extra {
		m[k] = v
	}
	d.emit(m)
}

// runConc: every schedule up to Max, then as many random ones
func runConc(s *script, emit func(interface{})) {
	d := &dedup{seen: map[string]bool{}, id: s.ID, emit: emit}
	rng := rand.New(rand.NewSource(s.Seed))
	max := s.Max
	if max == 0 {
		max = 100
	}
	kills := s.Opt.i("kill") == 1
	var choices []int
	total, exhausted, longest := 0, false, 0
	for ; total < max; total++ {
		kill := -1
		if kills && longest > 0 {
			kill = rng.Intn(longest)
		}
		var r *rand.Rand
		if s.Opt.i("random") == 1 {
			r = rng
			choices = nil
		}
		sc, evs := oneSchedule(s, choices, r, kill)
		d.add(evs, M{"sched": sc.taken})
		if hung {
			return
		}
		if len(sc.taken) > longest {
			longest = len(sc.taken)
		}
		if r != nil || kills {
			if kills && r == nil {
				choices = randomChoices(rng, longest)
			}
			continue
		}
		// next schedule in depth-first order
		k := len(sc.taken) - 1
		for k >= 0 && sc.taken[k]+1 >= sc.width[k] {
			k--
		}
		if k < 0 {
			exhausted = true
			total++
			break
		}
		choices = append(append([]int{}, sc.taken[:k]...), sc.taken[k]+1)
	}
	if !exhausted && s.Opt.i("random") == 0 && !kills {
		for j := 0; j < max; j++ {
			sc, evs := oneSchedule(s, nil, rng, -1)
			d.add(evs, M{"sched": sc.taken})
			if hung {
				return
			}
			total++
		}
	}
	emit(M{"id": s.ID, "stat": M{"schedules": total, "histories": d.n, "exhausted": exhausted, "steps": longest}})
}

func randomChoices(rng *rand.Rand, n int) []int {
	out := make([]int, n)
	// stay with one client for a while, then change
	cur := rng.Intn(4)
	for i := range out {
		if rng.Intn(3) == 0 {
			cur = rng.Intn(4)
		}
		out[i] = cur
	}
	return out
}

// ---------------------------------------------------------------------------------------- faults

var errnos = map[string]syscall.Errno{"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES,
	"EMFILE": syscall.EMFILE, "EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS, "EFBIG": syscall.EFBIG}

// which error can a call give, and must it be reported?
func faultOf(c *syscall.VerifCall, written bool, errno string) (syscall.Errno, bool, bool) {
	strict := true
	e := errnos[errno]
	switch c.Op {
	case "openat":
		if errno == "ENOSPC" && c.Flags&syscall.O_CREAT == 0 {
			return 0, false, false
		}
	case "read", "pread":
		if errno != "EIO" {
			return 0, false, false
		}
	case "write", "pwrite":
		if errno == "EACCES" || errno == "EMFILE" {
			return 0, false, false
		}
	case "seek", "ftruncate", "fsync", "fdatasync":
		if errno != "EIO" {
			return 0, false, false
		}
		if c.Op == "seek" {
			e = syscall.EINVAL
		}
	case "truncate", "unlinkat", "renameat", "linkat", "mkdirat", "symlinkat":
		if errno != "EIO" && errno != "EACCES" {
			return 0, false, false
		}
	case "close":
		if errno != "EIO" {
			return 0, false, false
		}
		strict = written
	default: // looking at a file's attributes and the like may be done without
		if errno != "EIO" {
			return 0, false, false
		}
		strict = false
	}
	return e, strict, true
}

// runFault: the last call of Calls is made once for every system call it makes, and that one fails
func runFault(s *script, emit func(interface{})) {
	d := &dedup{seen: map[string]bool{}, id: s.ID, emit: emit}
	list := s.Opt.strs("errnos")
	short := s.Opt.i("short") == 1
	persist := s.Opt.i("persist") == 1
	points := 0
	for _, errno := range list {
		for k := 1; k < 400; k++ {
			e, evs := prepared(s.Pre)
			n, hit, skipped, strict, shortAt := 0, false, false, true, false
			what := ""
			tgt := s.Calls[0]
			inject := func(c *syscall.VerifCall, path string, written bool, real func()) {
				n++
				if shortAt { // the second half of a short write
					shortAt = false
					c.N, c.Err = -1, errnos[errno]
					return
				}
				if n != k && !(n > k && persist && c.Op == "openat") {
					real()
					return
				}
				en, st, ok := faultOf(c, written, errno)
				if !ok {
					skipped = true
					real()
					return
				}
				hit, strict, what = true, st, c.Op
				if short {
					if (c.Op != "write" && c.Op != "pwrite") || len(c.P) < 2 {
						hit, skipped = false, true
						real()
						return
					}
					c.P = c.P[:len(c.P)/2]
					real()
					shortAt = true
					return
				}
				if c.Op == "close" { // the file is closed nevertheless
					real()
				}
				c.N, c.Err = -1, en
			}
			n0 := numFDs()
			e.tr.mu.Lock()
			e.tr.inject = inject
			e.tr.mu.Unlock()
			ev := e.do(tgt)
			e.tr.mu.Lock()
			e.tr.inject = nil
			e.tr.mu.Unlock()
			ev["fds"] = numFDs() - n0
			if tgt.s("op") == "create" {
				e.findNew(tgt, ev)
				strict = false
			}
			if hit && ev["r"] != "hang" {
				points++
				mode := what
				if short {
					mode = "short-write"
				}
				evs = append(evs, M{"k": "fail", "call": mode, "errno": errno, "at": k, "strict": b2i(strict), "e": ev})
				for _, c := range s.Post {
					evs = append(evs, e.do(c))
				}
				d.add(evs, M{"fault": fmt.Sprintf("%s %s at call %d", mode, errno, k)})
			} else if ev["r"] == "hang" {
				evs = append(evs, ev)
				d.add(evs, nil)
				e.close()
				return
			}
			e.close()
			if n < k && !skipped {
				break
			}
		}
	}
	emit(M{"id": s.ID, "stat": M{"faults": points, "histories": d.n}})
}

// ---------------------------------------------------------------------------------------- crashes

// runCrash: the process stops in front of every single system call of the last call
func runCrash(s *script, emit func(interface{})) {
	d := &dedup{seen: map[string]bool{}, id: s.ID, emit: emit}
	points := 0
	for k := 1; k < 400; k++ {
		e, evs := prepared(s.Pre)
		for _, c := range s.Calls[:len(s.Calls)-1] {
			evs = append(evs, e.do(c))
		}
		tgt := s.Calls[len(s.Calls)-1]
		n, crashed := 0, false
		at := ""
		inject := func(c *syscall.VerifCall, path string, written bool, real func()) {
			if crashed {
				if c.Op == "close" {
					real()
				} else {
					c.N, c.Err = -1, syscall.EIO
				}
				return
			}
			n++
			if n == k {
				crashed, at = true, c.Op
				if c.Op == "close" {
					real()
				}
				runtime.Goexit()
			}
			real()
		}
		e.tr.mu.Lock()
		e.tr.inject = inject
		e.tr.mu.Unlock()
		ev := e.do(tgt)
		e.tr.mu.Lock()
		e.tr.inject = nil
		e.tr.mu.Unlock()
		if !crashed {
			e.close()
			break
		}
		points++
		if tgt.s("op") == "create" {
			e.findNew(tgt, ev)
		}
		delete(ev, "ls")
		delete(ev, "sz")
		evs = append(evs, M{"k": "crash", "at": k, "call": at, "e": ev})
		for _, c := range s.Post {
			evs = append(evs, e.do(c))
		}
		d.add(evs, M{"crash": fmt.Sprintf("before %s (call %d)", at, k)})
		e.close()
	}
	emit(M{"id": s.ID, "stat": M{"crashes": points, "histories": d.n}})
}

// findNew sets the name and content of the file which an interrupted creation has left
func (e *Env) findNew(c Call, ev M) {
	if ev["r"] == "ok" {
		return
	}
	ev["fn"], ev["c"] = "", ""
	if c.s("b") == "" {
		return
	}
	dir := filepath.Join(e.homes[c.i("h")], "boards", c.s("b")[:1], c.s("b"))
	ents, _ := os.ReadDir(dir)
	names := []string{}
	for _, x := range ents {
		if strings.HasPrefix(x.Name(), "M.") && !e.known[x.Name()] {
			names = append(names, x.Name())
		}
	}
	sort.Strings(names)
	if len(names) > 0 {
		ev["fn"] = hx(names[0])
	}
	ev["new"] = len(names)
}
