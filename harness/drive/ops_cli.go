package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The command line tool, run as it is in its own process.

var cliMu sync.Mutex

// tool runs it once: out is what it prints after the lines with which it repeats its arguments
func (e *Env) tool(c Call) M {
	out := M{"out": "", "hdr": 1, "code": 0, "secs": []string{}}
	home := filepath.Join(e.root, c.s("home"))
	if c.s("form") == "rel" {
		home = c.s("home")
	}
	driver := "pttbbs"
	args := []string{}
	if c.has("driver") {
		driver = c.s("driver")
		args = append(args, "--driver", driver)
	}
	switch c.s("form") {
	case "one":
		args = append(args, "-bbshome", home)
	case "two":
		args = append(args, "--bbshome", home)
	default:
		args = append(args, "--bbshome="+home)
	}
	rest := []string{}
	for _, a := range c.strs("a") {
		rest = append(rest, b5text(a))
	}
	cmd := exec.Command(os.Getenv("VERIF_BBSTOOL"), append(args, rest...)...)
	cmd.Dir = e.root
	cmd.Env = append(os.Environ(), "TZ="+c.s("tz"))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var so bytes.Buffer
	cmd.Stdout = &so
	t0 := time.Now().Unix()
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	if err := cmd.Wait(); err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic("harness: " + err.Error())
		}
		out["code"] = x.ExitCode()
	}
	secs := []string{}
	for t, t1 := t0, time.Now().Unix(); t <= t1; t++ {
		secs = append(secs, strconv.FormatInt(t, 10))
	}
	out["secs"] = secs
	s := so.String()
	head := fmt.Sprintf("driver name: %v\nbbshome: %v\nargs: %v\n", driver, home, rest)
	if strings.HasPrefix(s, head) {
		s = s[len(head):]
	} else {
		out["hdr"] = 0
	}
	out["out"] = b5hex(strings.ReplaceAll(s, e.root, "@"))
	if i := strings.LastIndex(s, "new filename: "); i >= 0 {
		for k := 0; k+1 < len(c.strs("a")); k++ {
			if c.strs("a")[k] == hx("--board") {
				cliMu.Lock()
				e.vars["cli:"+c.s("home")+":"+c.strs("a")[k+1]] = hx(strings.TrimSuffix(s[i+14:], "\n"))
				cliMu.Unlock()
			}
		}
	}
	return out
}

func init() {
	// cfile puts a text into a file, as UTF-8
	ops["cfile"] = func(e *Env, c Call, out M) error {
		var err error
		e.quiet(func() { err = os.WriteFile(filepath.Join(e.root, c.s("path")), []byte(b5text(c.s("c"))), 0644) })
		return err
	}
	ops["cli"] = func(e *Env, c Call, out M) error {
		for k, v := range e.tool(c) {
			out[k] = v
		}
		return nil
	}
	// clilast shows the article whose name the tool has reported last for the board
	ops["clilast"] = func(e *Env, c Call, out M) error {
		fn, ok := e.vars["cli:"+c.s("home")+":"+c.s("b")].(string)
		if !ok {
			fn = hx("none")
		}
		out["op"], out["tz"] = "cli", ""
		one := Call{}
		for k, v := range c {
			one[k] = v
		}
		one["a"] = []interface{}{hx("show_board_article"), hx("--board"), c.s("b"), hx("--filename"), fn}
		out["a"] = one["a"]
		for k, v := range e.tool(one) {
			out[k] = v
		}
		return nil
	}
	// clis runs several at once
	ops["clis"] = func(e *Env, c Call, out M) error {
		l := c.list("es")
		es := make([]M, len(l))
		var wg sync.WaitGroup
		for i := range l {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				one := Call(l[i].(map[string]interface{}))
				es[i] = e.tool(one)
				for k, v := range one {
					es[i][k] = v
				}
			}(i)
		}
		wg.Wait()
		out["es"] = es
		return nil
	}
}
