package main

import (
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"time"

	"github.com/Ptt-official-app/go-bbs/cache"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

type shmHandle struct {
	c cache.Cache
	p *pttbbs.Cache
}

type shmWorld struct {
	hs   map[string]*shmHandle
	kept map[string]*pttbbs.UserInfoCache
	keys map[int]bool
	fd0  int
}

func (e *Env) shm() *shmWorld {
	w, ok := e.vars["shm"].(*shmWorld)
	if !ok {
		w = &shmWorld{hs: map[string]*shmHandle{}, kept: map[string]*pttbbs.UserInfoCache{}, keys: map[int]bool{}, fd0: numFDs()}
		e.vars["shm"] = w
		e.atClose = append(e.atClose, func() {
			for k := range w.keys {
				cache.RemoveKey(k)
			}
			for _, h := range w.hs {
				h.c.Close()
			}
		})
	}
	return w
}

// key of a name: each process has its own
func (w *shmWorld) key(n string) int {
	k := 0x56000000 + (os.Getpid()&0xfffff)*16 + int(n[0]-'0')
	if !w.keys[k] {
		w.keys[k] = true
		cache.RemoveKey(k) // of a process of that number which was ended
	}
	return k
}

func (e *Env) shmFile(c Call) string {
	if c.s("where") == "nodir" {
		return filepath.Join(e.root, "nodir", c.s("n"))
	}
	return filepath.Join(e.root, c.s("n"))
}

func shmCfg(c Call) *pttbbs.MemoryMappingSetting {
	g := c.sub("cfg")
	return &pttbbs.MemoryMappingSetting{AlignmentBytes: g.i("align"), MaxUsers: g.i("users"), IDLen: g.i("idlen"), UseCoolDown: g.i("cool") == 1, HashBits: g.i("bits")}
}

func init() {
	shmOp := func(name string, f func(e *Env, w *shmWorld, c Call, out M) error) {
		ops[name] = func(e *Env, c Call, out M) (err error) {
			debug.SetPanicOnFault(true)
			w := e.shm()
			defer func() { out["nfd"] = numFDs() - w.fd0 }()
			return f(e, w, c, out)
		}
	}
	shmOp("shmcreate", func(e *Env, w *shmWorld, c Call, out M) error {
		out["len"] = 0
		h := &shmHandle{}
		if c.s("kind") == "file" {
			m, err := cache.CreateMmap(e.shmFile(c), int64(c.i("size")))
			if err != nil {
				return err
			}
			h.c = m
		} else {
			if c.s("where") == "nodir" {
				return fmt.Errorf("no such key")
			}
			m, err := cache.CreateKey(w.key(c.s("n")), c.i("size"))
			if err != nil {
				return err
			}
			h.c = m
		}
		w.hs[c.s("hd")] = h
		out["len"] = len(h.c.Bytes())
		return nil
	})
	shmOp("shmopen", func(e *Env, w *shmWorld, c Call, out M) error {
		out["len"] = 0
		h := &shmHandle{}
		p, conn := e.shmFile(c), ""
		if c.s("kind") == "file" {
			conn = "file:" + p
			if c.s("via") == "plain" {
				conn = p
			}
		} else {
			conn = fmt.Sprintf("shmkey:%d", w.key(c.s("n")))
		}
		if c.s("via") == "bad" {
			conn = c.s("conn")
		}
		var err error
		switch {
		case c.has("cfg"):
			h.p, err = pttbbs.NewCache(conn, shmCfg(c))
			if err == nil {
				h.c = h.p
			}
		case c.s("via") == "open" && c.s("kind") == "file":
			var m *cache.Mmap
			m, err = cache.OpenMmap(p)
			h.c = m
		case c.s("via") == "open":
			var m *cache.SHM
			m, err = cache.OpenKey(w.key(c.s("n")))
			h.c = m
		default:
			h.c, err = cache.NewCache(conn)
		}
		if err != nil {
			return err
		}
		w.hs[c.s("hd")] = h
		out["len"] = len(h.c.Bytes())
		return nil
	})
	// shmput fills a segment from elsewhere
	shmOp("shmput", func(e *Env, w *shmWorld, c Call, out M) error {
		b := make([]byte, c.i("size"))
		for _, x := range c.list("ps") {
			p := Call(x.(map[string]interface{}))
			copy(b[p.i("at"):], unhex(p.s("x")))
		}
		if c.s("kind") == "file" {
			e.quiet(func() {
				f, err := os.OpenFile(e.shmFile(c), os.O_RDWR|os.O_CREATE, 0644)
				if err != nil {
					panic("harness: " + err.Error())
				}
				f.Truncate(int64(len(b)))
				f.WriteAt(b, 0)
				f.Close()
			})
			return nil
		}
		m, err := cache.CreateKey(w.key(c.s("n")), len(b))
		if err != nil {
			return err
		}
		copy(m.Bytes(), b)
		return m.Close()
	})
	shmOp("shmwrite", func(e *Env, w *shmWorld, c Call, out M) error {
		copy(w.hs[c.s("hd")].c.Bytes()[c.i("at"):], unhex(c.s("x")))
		return nil
	})
	shmOp("shmread", func(e *Env, w *shmWorld, c Call, out M) error {
		out["c"] = hex.EncodeToString(append([]byte(nil), w.hs[c.s("hd")].c.Bytes()...))
		return nil
	})
	shmOp("shmlook", func(e *Env, w *shmWorld, c Call, out M) error {
		e.quiet(func() {
			b, err := os.ReadFile(e.shmFile(c))
			out["c"] = hex.EncodeToString(b)
			if err != nil {
				out["c"] = "none"
			}
		})
		return nil
	})
	shmOp("shmclose", func(e *Env, w *shmWorld, c Call, out M) error { return w.hs[c.s("hd")].c.Close() })
	shmOp("shmremove", func(e *Env, w *shmWorld, c Call, out M) error {
		if c.s("kind") == "file" {
			return cache.RemoveMmap(e.shmFile(c))
		}
		return cache.RemoveKey(w.key(c.s("n")))
	})
	shmOp("shmget", func(e *Env, w *shmWorld, c Call, out M) error {
		p := w.hs[c.s("hd")].p
		switch c.s("what") {
		case "version":
			out["v"] = pair(p.Version())
		case "userid":
			out["v"] = hx(p.UserID(c.i("u")))
		case "money":
			m := p.Money(c.i("u"))
			out["v"] = []int{int(m >> 16), int(uint32(m) & 0xffff)}
		case "info":
			v := p.UserInfo(c.i("u"))
			out["v"] = recView("info", v)
			if c.has("slot") {
				w.kept[c.s("slot")] = v
			}
		}
		return nil
	})
	shmOp("shmkept", func(e *Env, w *shmWorld, c Call, out M) error {
		out["v"] = recView("info", w.kept[c.s("slot")])
		return nil
	})
	shmOp("shmgc", func(e *Env, w *shmWorld, c Call, out M) error {
		for k := 0; k < 2; k++ {
			runtime.GC()
			time.Sleep(2 * time.Millisecond)
		}
		return nil
	})
	shmOp("shmdrop", func(e *Env, w *shmWorld, c Call, out M) error {
		delete(w.hs, c.s("hd"))
		return nil
	})
}
