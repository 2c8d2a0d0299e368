package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"strconv"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// ---- lists of very many records, most of them zero (sparse files)

// dataRecords are the numbers and bytes of the records of size rec that are not zero
func dataRecords(p string, rec int64) (n int64, rest int64, ix []int64, raw [][]byte) {
	f, err := os.Open(p)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer f.Close()
	st, _ := f.Stat()
	n, rest = st.Size()/rec, st.Size()%rec
	buf := make([]byte, rec*512)
	for off := int64(0); off < st.Size(); {
		d, err := f.Seek(off, 3) // SEEK_DATA
		if err != nil {
			break
		}
		off = d / rec * rec
		h, err := f.Seek(d, 4) // SEEK_HOLE
		if err != nil {
			h = st.Size()
		}
		for off < h {
			k, _ := f.ReadAt(buf, off)
			for a := 0; a < k; a += int(rec) {
				b := a + int(rec)
				if b > k {
					b = k
				}
				for _, x := range buf[a:b] {
					if x != 0 {
						r := make([]byte, rec)
						copy(r, buf[a:b])
						ix, raw = append(ix, (off+int64(a))/rec), append(raw, r)
						break
					}
				}
			}
			if k == 0 {
				return
			}
			off += int64(len(buf))
		}
	}
	return
}

func init() {
	ops["sparse"] = func(e *Env, c Call, out M) (err error) {
		out["n2"], out["rest"], out["recs"] = 0, 0, []M{}
		p := filepath.Join(e.root, "sparse")
		size := int64(128)
		if c.s("kind") == "brd" {
			size = 256
		}
		if c.s("kind") == "pwd" {
			size = 512
		}
		e.quiet(func() {
			os.Remove(p)
			f, err := os.Create(p)
			if err != nil {
				panic("harness: " + err.Error())
			}
			if err := f.Truncate(int64(c.i("n")) * size); err != nil {
				panic("harness: " + err.Error())
			}
			for _, x := range c.list("pre") {
				y := Call(x.(map[string]interface{}))
				f.WriteAt(unhex(y.s("raw")), int64(y.i("i"))*size)
			}
			f.Close()
		})
		e.conns[0] = &pttbbs.Connector{}
		c["h"] = float64(0)
		rs := []M{}
		if c.s("act") == "list" {
			defer e.quiet(func() { os.Remove(p) })
			if size == 512 {
				v, err := pttbbs.OpenUserecFile(p)
				if err != nil {
					return err
				}
				for i, x := range v {
					if x.UserID() != "" {
						rs = append(rs, M{"i": i, "e": M{"id": hx(x.UserID()), "posts": strconv.FormatUint(uint64(x.NumPosts()), 10)}})
					}
				}
				out["n2"] = len(v)
			} else if size == 128 {
				v, err := pttbbs.OpenFileHeaderFile(p)
				if err != nil {
					return err
				}
				for i, x := range v {
					if m := entryOf(x); m["fn"] != "" {
						rs = append(rs, M{"i": i, "e": m})
					}
				}
				out["n2"] = len(v)
			} else {
				v, err := pttbbs.OpenBoardHeaderFile(p)
				if err != nil {
					return err
				}
				for i, x := range v {
					if m := boardOf(x); m["id"] != "" {
						rs = append(rs, M{"i": i, "e": m})
					}
				}
				out["n2"] = len(v)
			}
			out["recs"] = rs
			return nil
		}
		defer e.quiet(func() {
			n, rest, ix, raw := dataRecords(p, size)
			for k, i := range ix {
				var m M
				if size == 128 {
					x, err := pttbbs.NewFileHeaderWithByte(raw[k])
					if err != nil {
						panic("harness: " + err.Error())
					}
					m = entryOf(x)
				} else {
					x, err := pttbbs.UnmarshalBoardHeader(raw[k])
					if err != nil {
						panic("harness: " + err.Error())
					}
					m = boardOf(x)
				}
				rs = append(rs, M{"i": i, "e": m})
			}
			out["n2"], out["rest"], out["recs"] = n, rest, rs
			os.Remove(p)
		})
		switch c.s("act") {
		case "upd":
			idx, err := strconv.ParseUint(c.s("at"), 10, 64)
			if err != nil {
				panic("harness: bad index")
			}
			rec, err := e.newRecord(c, c.sub("rec"))
			if err != nil {
				return err
			}
			return pttbbs.UpdateFileHeaderFileRecord(p, uint(idx), rec.(*pttbbs.FileHeader))
		case "add":
			rec, err := e.newRecord(c, c.sub("rec"))
			if err != nil {
				return err
			}
			return pttbbs.AppendFileHeaderFileRecord(p, rec.(*pttbbs.FileHeader))
		case "rm":
			return pttbbs.RemoveBoardHeaderFileRecord(p, c.i("ix"))
		}
		return fmt.Errorf("harness: act")
	}

	// a long article made of lines that are repeated, and its comments
	ops["bigcomments"] = func(e *Env, c Call, out M) (err error) {
		out["v"] = []M{}
		_, db := e.smallHome()
		p := filepath.Join(e.root, "small", "boards/t/test", "M.1500000000.A.0BC")
		e.quiet(func() {
			f, err := os.Create(p)
			if err != nil {
				panic("harness: " + err.Error())
			}
			w := bufio.NewWriter(f)
			for _, x := range c.list("segs") {
				y := Call(x.(map[string]interface{}))
				b := unhex(y.s("c"))
				for i := 0; i < y.i("rep"); i++ {
					w.Write(b)
				}
			}
			w.Flush()
			f.Close()
		})
		defer e.quiet(func() { os.Remove(p) })
		rec := pttbbs.NewFileHeader()
		rec.SetFilename("M.1500000000.A.0BC")
		cs, err := db.GetBoardArticleCommentRecords("test", rec)
		if err != nil {
			return err
		}
		out["v"] = commentsOf(cs)
		return nil
	}
}
