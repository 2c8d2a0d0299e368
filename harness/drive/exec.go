package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// Call is one call of a script; which fields count depends on Op.
type Call map[string]interface{}

func (c Call) s(k string) string {
	v, _ := c[k].(string)
	return v
}
func (c Call) i(k string) int {
	switch v := c[k].(type) {
	case float64:
		return int(v)
	case int:
		return v
	}
	return 0
}
func (c Call) has(k string) bool { _, ok := c[k]; return ok }
func (c Call) list(k string) []interface{} {
	v, _ := c[k].([]interface{})
	return v
}
func (c Call) sub(k string) Call {
	switch v := c[k].(type) {
	case map[string]interface{}:
		return Call(v)
	case Call:
		return v
	}
	return Call{}
}
func (c Call) ints(k string) []int {
	out := []int{}
	for _, x := range c.list(k) {
		if f, ok := x.(float64); ok {
			out = append(out, int(f))
		}
	}
	return out
}
func (c Call) strs(k string) []string {
	out := []string{}
	for _, x := range c.list(k) {
		if f, ok := x.(string); ok {
			out = append(out, f)
		}
	}
	return out
}

// Env is the world of one history: a scratch directory holding BBS homes, and open handles on them.
type Env struct {
	root    string
	dbs     map[int]*bbs.DB
	conns   map[int]*pttbbs.Connector
	homes   map[int]string
	vars    map[string]interface{}
	tr      *tracker
	timeout time.Duration
	snapOff bool
	last    map[string]string
	known   map[string]bool // article files which were there before
	filled  []string        // those which fill has made
	atClose []func()
	hands   hands
	drv     *drvWorld
	drvName string
}

var scratch string
var seqNo int

// hung is set when an operation did not end; the process is then given up
var hung bool

func newEnv() *Env {
	if seqNo++; seqNo%200 == 0 {
		runtime.GC()
		time.Sleep(2 * time.Millisecond)
	}
	root := filepath.Join(scratch, fmt.Sprintf("e%d", seqNo))
	if err := os.MkdirAll(root, 0755); err != nil {
		panic(err)
	}
	return newEnvAt(root)
}

func newEnvAt(root string) *Env {
	return &Env{root: root, dbs: map[int]*bbs.DB{}, conns: map[int]*pttbbs.Connector{}, homes: map[int]string{},
		vars: map[string]interface{}{}, timeout: 20 * time.Second, last: map[string]string{}, known: map[string]bool{}}
}

func (e *Env) close() {
	for _, f := range e.atClose {
		f()
	}
	if e.tr != nil {
		e.tr.remove()
	}
	filepath.WalkDir(e.root, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	if strings.HasPrefix(e.root, scratch+"/") {
		os.RemoveAll(e.root)
	}
}

func (e *Env) home(h int) string { return filepath.Join(e.root, fmt.Sprintf("h%d", h)) }

// snapshot returns path (relative to root) -> digest of what is there
func (e *Env) snapshot() map[string]string {
	m := map[string]string{}
	filepath.WalkDir(e.root, func(p string, d fs.DirEntry, err error) error {
		rel := strings.TrimPrefix(p, e.root+"/")
		if err != nil {
			m[rel] = "error"
			return nil
		}
		if d.IsDir() {
			m[rel+"/"] = "dir"
			return nil
		}
		if d.Type()&fs.ModeSymlink != 0 {
			m[rel] = "link"
			return nil
		}
		if !d.Type().IsRegular() {
			m[rel] = "other"
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			m[rel] = "unreadable"
			return nil
		}
		s := sha1.Sum(b)
		m[rel] = hex.EncodeToString(s[:8])
		return nil
	})
	delete(m, e.root+"/")
	return m
}

func diff(a, b map[string]string) []string {
	out := []string{}
	for k, v := range b {
		if a[k] != v {
			out = append(out, k)
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// chunks returns the digests of the consecutive n-byte pieces of a file, and its size
func chunks(path string, n int) ([]string, int) {
	b, err := os.ReadFile(path)
	if err != nil {
		return []string{}, -1
	}
	out := []string{}
	for i := 0; i < len(b); i += n {
		j := i + n
		if j > len(b) {
			j = len(b)
		}
		s := sha1.Sum(b[i:j])
		out = append(out, hex.EncodeToString(s[:4]))
	}
	return out, len(b)
}

type opResult struct {
	r   string // ok, err, panic, exit, hang
	msg string
	out M
}

// verifExit is what os.Exit becomes inside an operation, see lib/stdoverlay.py
type verifExit int

// guard runs one operation of the code under test in its own goroutine.
func (e *Env) guard(f func(out M) error) opResult {
	ch := make(chan opResult, 1)
	go func() {
		out := M{}
		res := opResult{r: "died"}
		defer func() {
			if p := recover(); p != nil {
				if x, ok := p.(verifExit); ok {
					res = opResult{r: "exit", msg: fmt.Sprint(x)}
				} else {
					res = opResult{r: "panic", msg: fmt.Sprint(p) + "\n" + firstFrames(string(debug.Stack()))}
				}
			}
			res.out = out
			ch <- res
		}()
		err := f(out)
		if err != nil {
			res = opResult{r: "err", msg: err.Error()}
		} else {
			res = opResult{r: "ok"}
		}
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(e.timeout):
		hung = true
		return opResult{r: "hang", out: M{}}
	}
}

func firstFrames(s string) string {
	out := []string{}
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "go-bbs") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func numFDs() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(d)
}

// copyVal protects a value that is handed to the code under test
func copyBytes(b []byte) []byte { return append([]byte(nil), b...) }

var _ = runtime.GC
var _ = strconv.Itoa

type opFunc func(e *Env, c Call, out M) error

var ops = map[string]opFunc{}

// do runs one call and returns its event
func (e *Env) do(c Call) M {
	ev := M{}
	for k, v := range c {
		ev[k] = v
	}
	f, ok := ops[c.s("op")]
	if !ok {
		panic("harness: unknown op " + c.s("op"))
	}
	if e.tr != nil {
		e.tr.reset()
	}
	res := e.guard(func(out M) error { return f(e, c, out) })
	ev["r"] = res.r
	if res.msg != "" {
		ev["msg"] = strings.ReplaceAll(res.msg, e.root, "@")
	}
	for k, v := range res.out {
		ev[k] = v
	}
	if len(e.hands.kept) > 0 {
		ev["kept"] = e.changed()
	}
	return ev
}

// opsPaths summarises the recorded system calls: which files were opened for reading, which were written
func (e *Env) sysPaths() (rd, wr []string) {
	rs, ws := map[string]bool{}, map[string]bool{}
	for _, r := range e.tr.calls() {
		if r.Fail {
			continue
		}
		switch r.Op {
		case "openat":
			if r.Flags&3 != 0 || r.Flags&(0x40|0x200) != 0 {
				ws[r.Path] = true
			} else {
				rs[r.Path] = true
			}
		case "fstatat":
			rs[r.Path] = true
		case "truncate", "unlinkat", "renameat", "linkat", "symlinkat", "mkdirat":
			ws[r.Path] = true
		}
	}
	for p := range rs {
		rd = append(rd, p)
	}
	for p := range ws {
		wr = append(wr, p)
	}
	sort.Strings(rd)
	sort.Strings(wr)
	if rd == nil {
		rd = []string{}
	}
	if wr == nil {
		wr = []string{}
	}
	return
}

// what the harness itself does in the goroutine of an operation is not the operation's doing
func (e *Env) quietOn() {
	if e.tr != nil {
		e.tr.mu.Lock()
		e.tr.harness[goid()] = true
		e.tr.mu.Unlock()
	}
}

func (e *Env) quietOff() {
	if e.tr != nil {
		e.tr.mu.Lock()
		delete(e.tr.harness, goid())
		e.tr.mu.Unlock()
	}
}

func (e *Env) quiet(f func()) {
	e.quietOn()
	defer e.quietOff()
	f()
}
