package main

// The adapter between the specification and the implementation: it reads histories of calls (one JSON
// object per line), performs them on the real code inside a scratch directory, and writes what
// happened, one JSON object per line.  It judges nothing.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync"
	"syscall"
	"time"
)

type script struct {
	ID      string   `json:"id"`
	Kind    string   `json:"kind"`
	Pre     []Call   `json:"pre"`
	Calls   []Call   `json:"calls"`
	Clients [][]Call `json:"clients"`
	Post    []Call   `json:"post"`
	Max     int      `json:"max"`
	Seed    int64    `json:"seed"`
	Opt     Call     `json:"opt"`
}

func main() {
	debug.SetGCPercent(-1) // finalisers would close files that were left open
	log.SetOutput(io.Discard)
	loadBig5(os.Getenv("VERIF_BIG5"))
	scratch = os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		panic("VERIF_SCRATCH not set")
	}
	// what the code under test prints must not mix with the protocol
	outFd, err := syscall.Dup(1)
	if err != nil {
		panic(err)
	}
	out := bufio.NewWriterSize(os.NewFile(uintptr(outFd), "out"), 1<<20)
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null

	if os.Getenv("VERIF_WORKER") != "" {
		workerMain()
	}
	mainID := goid()
	os.VerifExit = func(code int) {
		if goid() != mainID {
			panic(verifExit(code))
		}
	}

	emit := func(v interface{}) {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteByte('\n')
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var s script
			if e := json.Unmarshal(line, &s); e != nil {
				fmt.Fprintln(os.Stderr, "harness: bad script:", e)
				os.Exit(3)
			}
			emit(M{"start": s.ID})
			out.Flush()
			runScript(&s, emit)
			out.Flush()
			if hung {
				mainExit(9)
			}
		}
		if err != nil {
			break
		}
	}
	emit(M{"end": 1})
	out.Flush()
	stopWorkers()
}

func mainExit(code int) {
	stopWorkers()
	os.VerifExit = nil
	os.Exit(code)
}

func runScript(s *script, emit func(interface{})) {
	switch s.Kind {
	case "seq", "":
		runSeq(s, emit)
	case "conc":
		runConc(s, emit)
	case "fault":
		runFault(s, emit)
	case "crash":
		runCrash(s, emit)
	default:
		panic("harness: unknown kind " + s.Kind)
	}
}

// parallel performs operations which only read, each again and again in a goroutine of its own, all at
// once; it returns the distinct events.  Each must be what it is when nothing else happens.
func (e *Env) parallel(c Call) []M {
	calls := c.list("calls")
	evs := make([][]M, len(calls))
	var wg sync.WaitGroup
	start := make(chan bool)
	until := time.Now().Add(3 * time.Second)
	for i := range calls {
		sub := Call(calls[i].(map[string]interface{}))
		w := newEnvAt(filepath.Join(e.root, fmt.Sprintf("p%d", i)))
		if err := os.MkdirAll(w.root, 0755); err != nil {
			panic("harness: " + err.Error())
		}
		w.dbs, w.conns, w.homes, w.timeout = e.dbs, e.conns, e.homes, e.timeout
		for k, v := range e.vars {
			w.vars[k] = v
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			seen := map[string]bool{}
			for k := 0; k < c.i("reps") && len(seen) < 6 && time.Now().Before(until); k++ {
				ev := w.do(sub)
				delete(ev, "nfd")
				b, err := json.Marshal(ev)
				if err != nil {
					panic("harness: " + err.Error())
				}
				if !seen[string(b)] {
					seen[string(b)] = true
					var m M
					json.Unmarshal(b, &m)
					evs[i] = append(evs[i], m)
				}
				if ev["r"] == "hang" {
					return
				}
			}
		}(i)
	}
	close(start)
	wg.Wait()
	out := []M{}
	for _, x := range evs {
		out = append(out, x...)
	}
	return out
}

func runSeq(s *script, emit func(interface{})) {
	e := newEnv()
	defer e.close()
	e.tr = newTracker(e.root)
	e.tr.install()
	evs := []M{}
	snap := s.Opt.i("snap") == 1
	fds := s.Opt.i("fds") == 1
	if t := s.Opt.i("timeout_ms"); t > 0 {
		e.timeout = ms(t)
	}
	if snap {
		e.last = e.snapshot()
	}
	for _, c := range s.Calls {
		if c.s("op") == "parallel" {
			evs = append(evs, e.parallel(c)...)
			continue
		}
		n0 := 0
		if fds {
			n0 = numFDs()
		}
		ev := e.do(c)
		if fds {
			ev["fds"] = numFDs() - n0
		}
		if snap && c.i("nosnap") == 0 {
			now := e.snapshot()
			ev["chg"] = diff(e.last, now)
			e.last = now
			ev["rd"], ev["wr"] = e.sysPaths()
		}
		evs = append(evs, ev)
		if ev["r"] == "hang" {
			break
		}
	}
	emit(M{"id": s.ID, "ev": evs})
}
