package main

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// ---- favourites

func favView(rs []bbs.FavoriteRecord) []M {
	out := []M{}
	for _, r := range rs {
		t := "?"
		switch r.Type() {
		case bbs.FavoriteTypeBoard:
			t = "board"
		case bbs.FavoriteTypeFolder:
			t = "folder"
		case bbs.FavoriteTypeLine:
			t = "line"
		}
		out = append(out, M{"t": t, "title": b5hex(r.Title()), "b": b5hex(r.BoardID()), "items": favView(r.Records())})
	}
	return out
}

func favTree(f *pttbbs.FavFolder) []M {
	out := []M{}
	if f == nil {
		return []M{{"t": -1}}
	}
	for _, x := range f.FavItems {
		m := M{"t": int(x.FavType), "attr": int(x.FavAttr)}
		if b := x.GetBoard(); b != nil {
			m["id"], m["battr"] = pair(b.BoardID), pair(b.Attr)
			m["visit"] = timePair(b.LastVisit)
		}
		if d := x.GetFolder(); d != nil {
			m["id"], m["title"] = int(d.FolderID), b5hex(d.Title)
			m["items"] = favTree(d.ThisFolder)
		}
		if l := x.GetLine(); l != nil {
			m["id"] = int(l.LineID)
		}
		out = append(out, m)
	}
	return out
}

// timePair is a time as the 32-bit number that the formats hold
func timePair(t time.Time) []int {
	if t.IsZero() {
		return []int{0, 0}
	}
	u := t.Unix()
	if u < 0 || u > 0xffffffff {
		return []int{-1, -1}
	}
	return pair(uint32(u))
}

func pairTime(p []int) time.Time { return time.Unix(int64(p[0])<<16|int64(p[1]), 0) }
func pairU32(p []int) uint32     { return uint32(p[0])<<16 | uint32(p[1]) }

func buildFav(items []interface{}) *pttbbs.FavFolder {
	f := &pttbbs.FavFolder{}
	for _, it := range items {
		c := Call(it.(map[string]interface{}))
		x := &pttbbs.FavItem{FavType: pttbbs.FavItemType(c.i("t")), FavAttr: uint8(c.i("attr"))}
		switch x.FavType {
		case pttbbs.FavItemTypeBoard:
			f.NBoards++
			x.Item = &pttbbs.FavBoardItem{BoardID: pairU32(c.ints("id")), LastVisit: pairTime(c.ints("visit")), Attr: pairU32(c.ints("battr"))}
		case pttbbs.FavItemTypeFolder:
			f.NFolders++
			x.Item = &pttbbs.FavFolderItem{FolderID: uint8(c.i("id")), Title: b5text(c.s("title")), ThisFolder: buildFav(c.list("items"))}
		case pttbbs.FavItemTypeLine:
			f.NLines++
			x.Item = &pttbbs.FavLineItem{LineID: uint8(c.i("id"))}
		}
		f.FavItems = append(f.FavItems, x)
	}
	return f
}

// fileOf writes c to a fresh file and returns its path
func (e *Env) fileOf(name string, b []byte) string {
	p := filepath.Join(e.root, name)
	e.quiet(func() {
		if err := os.WriteFile(p, b, 0644); err != nil {
			panic("harness: " + err.Error())
		}
	})
	return p
}

// given makes a copy of b in a buffer with known bytes behind it, and a check that nothing was changed
func given(b []byte) ([]byte, func() int) {
	buf := make([]byte, len(b)+16)
	copy(buf, b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = 0xa5
	}
	want := append([]byte(nil), b...)
	return buf[:len(b):len(buf)], func() int { return b2i(!intact(buf, want)) }
}

func init() {
	ops["fav"] = func(e *Env, c Call, out M) error {
		out["v"] = []M{}
		rs, err := e.db(c).ReadUserFavoriteRecords(c.s("u"))
		if err != nil {
			return err
		}
		out["v"] = favView(rs)
		e.hand(rs, func() interface{} { return favView(rs) })
		return nil
	}
	// pw checks a password against a record whose password field is given; via the decoder or the account list;
	// with "times" the check is made by several goroutines at once
	ops["pw"] = func(e *Env, c Call, out M) error {
		out["argmod"] = 0
		raw := make([]byte, 512)
		for i := range raw {
			raw[i] = byte(c.i("fill"))
		}
		copy(raw[61:75], unhex(c.s("field")))
		copy(raw[4:17], append([]byte("someone"), 0, 0, 0, 0, 0, 0))
		var u *pttbbs.Userec
		var err error
		switch c.s("via") {
		case "file":
			var us []*pttbbs.Userec
			us, err = pttbbs.OpenUserecFile(e.fileOf("pw", append(make([]byte, 512), raw...)))
			if err == nil && len(us) == 2 {
				u = us[1]
			}
		default:
			b, chk := given(raw)
			defer func() { out["argmod"] = chk() }()
			u, err = pttbbs.UnmarshalUserec(b)
		}
		if err != nil {
			return err
		}
		if u == nil {
			return fmt.Errorf("the account list has lost a record")
		}
		pw := string(unhex(c.s("pw")))
		n := c.i("times")
		if n <= 1 {
			return u.VerifyPassword(pw)
		}
		errs := make(chan error, n)
		for i := 0; i < n; i++ {
			other := i%2 == 1
			go func() {
				if other {
					u.VerifyPassword("other" + pw) // somebody else logs in meanwhile
				}
				errs <- u.VerifyPassword(pw)
			}()
		}
		bad := 0
		for i := 0; i < n; i++ {
			if err = <-errs; err != nil {
				bad++
			}
		}
		if bad != 0 && bad != n {
			out["mixed"] = bad
		}
		if bad == 0 {
			return nil
		}
		return fmt.Errorf("refused")
	}
	ops["favraw"] = func(e *Env, c Call, out M) error {
		out["v"], out["out"], out["argmod"] = M{}, "", 0
		var f *pttbbs.FavFile
		var err error
		if c.s("via") == "file" {
			f, err = pttbbs.OpenFavFile(e.fileOf("fav", unhex(c.s("c"))))
		} else {
			b, chk := given(unhex(c.s("c")))
			defer func() { out["argmod"] = chk() }()
			f, err = pttbbs.UnmarshalFavFile(b)
		}
		if err != nil {
			return err
		}
		v := M{"ver": int(f.Version), "items": favTree(f.Folder)}
		o, err := f.MarshalBinary()
		if err != nil {
			return err
		}
		out["v"], out["out"] = v, fmt.Sprintf("%x", o)
		return nil
	}
	ops["favtree"] = func(e *Env, c Call, out M) error {
		out["out"], out["v"] = "", M{}
		f := &pttbbs.FavFile{Version: uint16(c.i("ver")), Folder: buildFav(c.list("items"))}
		o, err := f.MarshalBinary()
		if err != nil {
			return err
		}
		out["out"] = fmt.Sprintf("%x", o)
		g, err := pttbbs.UnmarshalFavFile(o)
		if err != nil {
			return err
		}
		out["v"] = M{"ver": int(g.Version), "items": favTree(g.Folder)}
		return nil
	}
}
