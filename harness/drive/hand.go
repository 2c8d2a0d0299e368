package main

// What an operation has handed out belongs to the caller: it may be changed without any effect on the
// store, and it does not change by itself when other operations are performed.

import (
	"fmt"
	"reflect"
	"sync"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

type handed struct {
	proj func() string
	was  string
}

type hands struct {
	mu   sync.Mutex
	n    int
	kept []handed
}

// hand takes note of a value that an operation has returned: every other one is kept, to be looked at
// again after the next operations; the rest are changed at once
func (e *Env) hand(v interface{}, proj func() interface{}) {
	h := &e.hands
	h.mu.Lock()
	defer h.mu.Unlock()
	h.n++
	if h.n%2 == 0 {
		scribble(reflect.ValueOf(v), 0)
		return
	}
	p := func() string { return fmt.Sprint(proj()) }
	was := p()
	if len(was) > 20000 {
		return
	}
	h.kept = append(h.kept, handed{p, was})
	if len(h.kept) > 4 {
		h.kept = h.kept[1:]
	}
}

// changed says how many of the kept values are not any more what they were
func (e *Env) changed() int {
	h := &e.hands
	h.mu.Lock()
	defer h.mu.Unlock()
	n := 0
	for _, k := range h.kept {
		if k.proj() != k.was {
			n++
		}
	}
	return n
}

func scribble(v reflect.Value, depth int) {
	if depth > 6 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		scribble(v.Elem(), depth)
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if f, ok := v.Interface().(*pttbbs.FileHeader); ok {
			f.SetTitle("scribble")
			f.SetOwner("nobody")
			f.SetFilename("M.0.A.000")
			f.SetDate("0/00")
			f.AddRecommend(7)
		}
		scribble(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		n := v.Len()
		if n > 2000 && v.Type().Elem().Kind() != reflect.Uint8 {
			n = 2000
		}
		for i := 0; i < n; i++ {
			scribble(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i), depth+1)
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribble")
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(^v.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(^v.Uint())
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}
