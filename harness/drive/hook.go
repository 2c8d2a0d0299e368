package main

// The harness' view of the system calls which the code under test makes, see lib/stdoverlay.py.

import (
	"bytes"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
)

// goid of the calling goroutine
func goid() int64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := bytes.Fields(buf[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

// sysRec is one recorded system call on a file below root.
type sysRec struct {
	Op    string `json:"op"`
	Path  string `json:"path"`
	Flags int    `json:"flags"`
	Fail  bool   `json:"fail"`
}

var workDir, _ = os.Getwd()

type tracker struct {
	mu      sync.Mutex
	root    string
	fds     map[int]string
	wfds    map[int]bool
	rec     []sysRec
	harness map[int64]bool // goroutines of the harness itself
	// inject, when set, sees every call below root made by the code under test
	inject func(c *syscall.VerifCall, path string, written bool, real func())
}

func newTracker(root string) *tracker {
	return &tracker{root: root, fds: map[int]string{}, wfds: map[int]bool{}, harness: map[int64]bool{goid(): true}}
}

func (t *tracker) below(p string) bool {
	return p == t.root || strings.HasPrefix(p, t.root+"/")
}

func (t *tracker) install() { syscall.VerifHook = t.hook }
func (t *tracker) remove()  { syscall.VerifHook = nil }

func (t *tracker) reset() {
	t.mu.Lock()
	t.rec = nil
	t.mu.Unlock()
}

func (t *tracker) calls() []sysRec {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]sysRec(nil), t.rec...)
}

func (t *tracker) hook(c *syscall.VerifCall, real func()) {
	g := goid()
	t.mu.Lock()
	own := t.harness[g]
	path := ""
	if c.Fd >= 0 {
		path = t.fds[c.Fd]
	} else if c.Path != "" {
		p := c.Path
		if !strings.HasPrefix(p, "/") {
			p = workDir + "/" + p
		}
		p = filepath.Clean(p)
		if t.below(p) {
			path = p
		}
	}
	written := t.wfds[c.Fd] && c.Fd >= 0
	inject := t.inject
	t.mu.Unlock()
	if own || path == "" {
		real()
		return
	}
	fd := c.Fd
	if c.Op == "close" {
		t.mu.Lock()
		delete(t.fds, fd)
		delete(t.wfds, fd)
		t.mu.Unlock()
	}
	if inject != nil {
		inject(c, path, written, real)
	} else {
		real()
	}
	t.mu.Lock()
	rel := strings.TrimPrefix(path, t.root+"/")
	t.rec = append(t.rec, sysRec{Op: c.Op, Path: rel, Flags: c.Flags, Fail: c.Err != nil})
	if c.Path2 != "" {
		t.rec = append(t.rec, sysRec{Op: c.Op, Path: strings.TrimPrefix(filepath.Clean(c.Path2), t.root+"/"), Fail: c.Err != nil})
	}
	if c.Op == "openat" && c.Err == nil {
		t.fds[int(c.N)] = path
		if c.Flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
			t.wfds[int(c.N)] = true
		}
	}
	t.mu.Unlock()
}
