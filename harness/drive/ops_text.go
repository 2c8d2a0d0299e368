package main

import (
	"bytes"
	"encoding/hex"
	"reflect"
	"sync"
	"unicode/utf8"

	bbs "github.com/Ptt-official-app/go-bbs"
)

// ---- conversions of texts

func runesOf(s string) []int {
	t := []int{}
	for _, r := range s {
		t = append(t, int(r))
	}
	return t
}

func isUtf8(s string) int {
	if utf8.ValidString(s) {
		return 1
	}
	return 0
}

// convert does what one item asks for; mod tells whether its argument has been changed
func convert(c Call) (m M, mod bool) {
	b := unhex(c.s("b"))
	kept := append([]byte{}, b...)
	switch c.s("k") {
	case "dec":
		s := bbs.Big5ToUtf8(b)
		m = M{"t": runesOf(s), "u": isUtf8(s)}
	case "enc":
		t := []rune{}
		for _, x := range c.list("t") {
			t = append(t, rune(x.(float64)))
		}
		e := bbs.Utf8ToBig5(string(t))
		s := bbs.Big5ToUtf8(e)
		m = M{"b": hex.EncodeToString(e), "t": runesOf(s), "u": isUtf8(s)}
	case "cstr":
		m = M{"b": hex.EncodeToString(bbs.CstrToBytes(b)), "s": hx(bbs.CstrToString(b))}
	case "ansi":
		m = M{"b": hx(bbs.FilterStringANSI(string(b)))}
	}
	return m, !bytes.Equal(b, kept)
}

func init() {
	ops["conv"] = func(e *Env, c Call, out M) error {
		items := c.list("items")
		rs := make([][]M, len(items))
		var mu sync.Mutex
		out["mod"] = 0
		work := func(from int) {
			for k := range items {
				k = (k + from) % len(items)
				m, mod := convert(Call(items[k].(map[string]interface{})))
				mu.Lock()
				if mod {
					out["mod"] = 1
				}
				known := false
				for _, x := range rs[k] {
					known = known || reflect.DeepEqual(x, m)
				}
				if !known {
					rs[k] = append(rs[k], m)
				}
				mu.Unlock()
			}
		}
		n := c.i("n")
		if n <= 1 {
			work(0)
		} else {
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					for j := 0; j < 20; j++ {
						work(i + j)
					}
				}(i)
			}
			wg.Wait()
		}
		out["rs"] = rs
		return nil
	}
}
