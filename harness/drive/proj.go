package main

// Projections between the values of the API and the values of the specification.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// M is a JSON object
type M = map[string]interface{}

var b5ToRune = map[uint16]rune{}
var runeToB5 = map[rune]uint16{}

func loadBig5(path string) {
	data, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var t [][2]int
	if err := json.Unmarshal(data, &t); err != nil {
		panic(err)
	}
	for _, e := range t {
		b5ToRune[uint16(e[0])] = rune(e[1])
		runeToB5[rune(e[1])] = uint16(e[0])
	}
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("harness: bad hex " + s)
	}
	return b
}

func hx(s string) string { return hex.EncodeToString([]byte(s)) }

// b5text returns the text whose Big5 code is given in hexadecimal
func b5text(h string) string {
	b := unhex(h)
	var sb strings.Builder
	for i := 0; i < len(b); i++ {
		if b[i] < 0x80 || i+1 == len(b) {
			sb.WriteByte(b[i])
			continue
		}
		r, ok := b5ToRune[uint16(b[i])<<8|uint16(b[i+1])]
		if !ok {
			panic(fmt.Sprintf("harness: no Big5 character %x", b[i:i+2]))
		}
		sb.WriteRune(r)
		i++
	}
	return sb.String()
}

// b5hex is the inverse of b5text; what is not a Big5 character becomes {code point}
func b5hex(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r < 0x80 {
			fmt.Fprintf(&sb, "%02x", r)
		} else if c, ok := runeToB5[r]; ok {
			fmt.Fprintf(&sb, "%04x", c)
		} else {
			fmt.Fprintf(&sb, "{%x}", r)
		}
	}
	return sb.String()
}

func pair(v uint32) []int { return []int{int(v >> 16), int(v & 0xffff)} }

func pairInt(v int) []int {
	if v < 0 || v > 0xffffffff {
		return []int{-1, -1}
	}
	return pair(uint32(v))
}

func secs(t time.Time) string { return strconv.FormatInt(t.Unix(), 10) }

func entryOf(r bbs.ArticleRecord) M {
	m := M{"fn": hx(r.Filename()), "own": hx(r.Owner()), "date": hx(r.Date()), "title": b5hex(r.Title()),
		"rec": r.Recommend(), "mod": secs(r.Modified()), "mon": pairInt(r.Money()),
		"anno": []int{0, 0}, "vl": []int{0, 0, 0, 0}, "mode": 0, "vote": 0}
	if f, ok := r.(*pttbbs.FileHeader); ok {
		m["mode"] = int(f.Filemode)
		m["anno"] = pairInt(f.AnnoUID)
		m["vl"] = []int{int(f.VoteLimits.Posts), int(f.VoteLimits.Logins), int(f.VoteLimits.Regtime), int(f.VoteLimits.Badpost)}
		if f.IsVotePost() {
			m["vote"] = 1
		}
	}
	return m
}

func entriesOf(rs []bbs.ArticleRecord) []M {
	out := []M{}
	for _, r := range rs {
		out = append(out, entryOf(r))
	}
	return out
}

func boardOf(r bbs.BoardRecord) M {
	bm := []string{}
	for _, s := range r.BM() {
		bm = append(bm, hx(s))
	}
	m := M{"id": b5hex(r.BoardID()), "title": b5hex(r.Title()), "bm": bm, "cls": b2i(r.IsClass()), "cid": r.ClassID(),
		"attr": []int{0, 0}, "gid": "0", "lvl": []int{0, 0}}
	if b, ok := r.(*pttbbs.BoardHeader); ok {
		m["attr"] = pair(b.Brdattr)
		m["gid"] = strconv.Itoa(int(b.Gid))
		m["lvl"] = pair(b.Level)
	}
	return m
}

func boardsOf(rs []bbs.BoardRecord) []M {
	out := []M{}
	for _, r := range rs {
		out = append(out, boardOf(r))
	}
	return out
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func commentOf(c bbs.UserCommentRecord) M {
	t := c.CommentTime()
	return M{"n": strconv.FormatUint(uint64(c.CommentOrder()), 10), "own": hx(c.Owner()),
		"t":   []int{int(t.Month()), t.Day(), t.Hour(), t.Minute()},
		"txt": hx(c.Comment()), "b": c.BoardID(), "fn": hx(c.Filename())}
}

func commentsOf(cs []bbs.UserCommentRecord) []M {
	out := []M{}
	for _, c := range cs {
		out = append(out, commentOf(c))
	}
	return out
}
