package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	bbs "github.com/Ptt-official-app/go-bbs"
	formosabbs "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// Readers of whatever there is: an object is put in the place of a file of a small home, and what
// reads that file is called.

type reader func(e *Env, db *bbs.DB, path string) (int, error)

// places of a home, and what reads the file there; the first reader of each is the one that returns
// what is in the file, the others use it on the way
var places = map[string]struct {
	path    string
	readers []reader
}{
	"brd": {".BRD", []reader{
		func(e *Env, db *bbs.DB, p string) (int, error) {
			rs, err := db.ReadBoardRecords()
			for _, r := range rs {
				boardOf(r)
			}
			return len(rs), err
		},
		func(e *Env, db *bbs.DB, p string) (int, error) {
			rs, err := pttbbs.OpenBoardHeaderFile(p)
			for _, r := range rs {
				recView("board", r)
				r.MarshalBinary()
			}
			return len(rs), err
		}, favRead, uartsRead, ucommentsRead}},
	"pwd": {".PASSWDS", []reader{
		func(e *Env, db *bbs.DB, p string) (int, error) {
			rs, err := db.ReadUserRecords()
			for _, r := range rs {
				userRecView(r)
				r.VerifyPassword("123123")
				r.VerifyPassword("")
			}
			return len(rs), err
		},
		func(e *Env, db *bbs.DB, p string) (int, error) {
			rs, err := pttbbs.OpenUserecFile(p)
			for _, r := range rs {
				recView("user", r)
				r.MarshalBinary()
			}
			return len(rs), err
		}}},
	"dir": {"boards/t/test/.DIR", []reader{
		func(e *Env, db *bbs.DB, p string) (int, error) {
			rs, err := db.ReadBoardArticleRecordsFile("test")
			entriesOf(rs)
			return len(rs), err
		},
		func(e *Env, db *bbs.DB, p string) (int, error) {
			rs, err := pttbbs.OpenFileHeaderFile(p)
			for _, r := range rs {
				recView("file", r)
				r.MarshalToByte()
			}
			return len(rs), err
		}, bcommentsRead, uartsRead, ucommentsRead}},
	"tdir": {"man/boards/t/test/D1/.DIR", []reader{
		func(e *Env, db *bbs.DB, p string) (int, error) {
			rs, err := db.ReadBoardTreasureRecordsFile("test", []string{"D1"})
			entriesOf(rs)
			return len(rs), err
		}}},
	"text": {"boards/t/test/M.1400000000.A.001", []reader{
		func(e *Env, db *bbs.DB, p string) (int, error) {
			b, err := db.ReadBoardArticleFile("test", "M.1400000000.A.001")
			return len(b), err
		},
		func(e *Env, db *bbs.DB, p string) (int, error) {
			rec := pttbbs.NewFileHeader()
			rec.SetFilename("M.1400000000.A.001")
			cs, err := db.GetBoardArticleCommentRecords("test", rec)
			for _, c := range cs {
				commentOf(c)
				_ = fmt.Sprint(c, c.IP())
			}
			return len(cs), err
		}, bcommentsRead, ucommentsRead}},
	"ttext": {"man/boards/t/test/D1/M.1400000000.A.002", []reader{
		func(e *Env, db *bbs.DB, p string) (int, error) {
			b, err := db.ReadBoardTreasureFile("test", []string{"D1"}, "M.1400000000.A.002")
			return len(b), err
		}}},
	"draft": {"home/a/alice/buf.1", []reader{
		func(e *Env, db *bbs.DB, p string) (int, error) {
			d, err := db.GetUserDrafts("alice", "1")
			if err != nil {
				return 0, err
			}
			return len(d.Raw()), err
		}}},
	"fav": {"home/a/alice/.fav", []reader{favRead,
		func(e *Env, db *bbs.DB, p string) (int, error) {
			f, err := pttbbs.OpenFavFile(p)
			if err != nil {
				return 0, err
			}
			favTree(f.Folder)
			f.MarshalBinary()
			return favCount(f.Folder), nil
		}}},
	"recent": {"home/a/alice/logins.recent", []reader{
		func(e *Env, db *bbs.DB, p string) (int, error) {
			rs, err := pttbbs.OpenLoginRecentFile(p)
			return len(rs), err
		}}},
	"bad":     {"home/a/alice/logins.bad", []reader{badRead}},
	"sitebad": {"logins.bad", []reader{badRead}},
	"sess": {"sessions", []reader{
		func(e *Env, db *bbs.DB, p string) (int, error) {
			rs, err := pttbbs.OpenUserInfoCache(p)
			for _, r := range rs {
				recView("info", r)
				r.MarshalBinary()
			}
			return len(rs), err
		}}},
	"formosa": {"boards/t/test/.DIR2", []reader{
		func(e *Env, db *bbs.DB, p string) (int, error) {
			rs, err := formosabbs.OpenFormosaBBSFileHeaderFile(p)
			for _, r := range rs {
				recView("formosa", r)
			}
			return len(rs), err
		}}},
}

func favCount(f *pttbbs.FavFolder) int {
	n := 0
	for _, x := range f.FavItems {
		n++
		if d := x.GetFolder(); d != nil && d.ThisFolder != nil {
			n += favCount(d.ThisFolder)
		}
	}
	return n
}

func favViewCount(v []M) int {
	n := len(v)
	for _, x := range v {
		n += favViewCount(x["items"].([]M))
	}
	return n
}

func favRead(e *Env, db *bbs.DB, p string) (int, error) {
	rs, err := db.ReadUserFavoriteRecords("alice")
	if err != nil {
		return 0, err
	}
	return favViewCount(favView(rs)), nil
}

func badRead(e *Env, db *bbs.DB, p string) (int, error) {
	rs, err := pttbbs.OpenBadLoginFile(p)
	for _, r := range rs {
		r.MarshalText()
		r.IsUnderBbsHome()
	}
	return len(rs), err
}

func uartsRead(e *Env, db *bbs.DB, p string) (int, error) {
	rs, err := db.GetUserArticleRecordFile("alice")
	return len(rs), err
}
func ucommentsRead(e *Env, db *bbs.DB, p string) (int, error) {
	rs, err := db.GetUserCommentRecordFile("alice")
	return len(rs), err
}
func bcommentsRead(e *Env, db *bbs.DB, p string) (int, error) {
	rs, err := db.GetBoardUserCommentRecord("test", "alice")
	return len(rs), err
}

// the small home: one board with one article, in which alice has commented, one account
func (e *Env) smallHome() (string, *bbs.DB) {
	home := filepath.Join(e.root, "small")
	if db, ok := e.vars["small"].(*bbs.DB); ok {
		return home, db
	}
	var db *bbs.DB
	e.quiet(func() {
		must := func(err error) {
			if err != nil {
				panic("harness: " + err.Error())
			}
		}
		for _, d := range []string{"boards/t/test", "man/boards/t/test/D1", "home/a/alice"} {
			must(os.MkdirAll(filepath.Join(home, d), 0755))
		}
		b := make([]byte, 256)
		copy(b, "test")
		must(os.WriteFile(filepath.Join(home, ".BRD"), b, 0644))
		u := make([]byte, 512)
		copy(u[4:], "alice")
		must(os.WriteFile(filepath.Join(home, ".PASSWDS"), u, 0644))
		a := make([]byte, 128)
		copy(a, "M.1400000000.A.001")
		copy(a[34:], "alice")
		must(os.WriteFile(filepath.Join(home, "boards/t/test/.DIR"), a, 0644))
		must(os.WriteFile(filepath.Join(home, "boards/t/test/M.1400000000.A.001"),
			[]byte("\x1b[1;37m\xb1\xc0 \x1b[33malice\x1b[m\x1b[33m: hello\x1b[m 10/12 13:45\n"), 0644))
		var err error
		db, err = bbs.Open("pttbbs", "file://"+home)
		must(err)
	})
	e.vars["small"] = db
	return home, db
}

// place puts an object at a path and returns what removes it again
func place(path, obj string, content []byte) func() {
	must := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	old, had := []byte(nil), false
	if b, err := os.ReadFile(path); err == nil {
		old, had = b, true
		must(os.Remove(path))
	}
	parent := filepath.Dir(path)
	undo := func() { os.RemoveAll(path) }
	switch obj {
	case "file":
		must(os.WriteFile(path, content, 0644))
	case "none":
	case "dir":
		must(os.Mkdir(path, 0755))
	case "dirfull":
		must(os.Mkdir(path, 0755))
		must(os.WriteFile(filepath.Join(path, "x"), content, 0644))
	case "loop":
		must(os.Symlink(path, path))
	case "dangling":
		must(os.Symlink(path+"-nowhere", path))
	case "noparent", "underfile":
		aside := parent + "-aside"
		must(os.Rename(parent, aside))
		if obj == "underfile" {
			must(os.WriteFile(parent, content, 0644))
		}
		undo = func() {
			os.Remove(parent)
			must(os.Rename(aside, parent))
		}
	default:
		panic("harness: no such object " + obj)
	}
	return func() {
		undo()
		if had {
			must(os.WriteFile(path, old, 0644))
		}
	}
}

func init() {
	// probe: rs and ns are what each reader said, and how many things it returned; with "only" it is one
	// reader, and its error that of the operation
	ops["probe"] = func(e *Env, c Call, out M) (err error) {
		home, db := e.smallHome()
		pl := places[c.s("rd")]
		content := unhex(c.s("c"))
		if n := c.i("rep"); n > 1 {
			content = bytes.Repeat(content, n)
		}
		content = append(unhex(c.s("pre")), append(content, unhex(c.s("post"))...)...)
		out["size"] = len(content)
		if c.s("obj") != "file" {
			out["size"] = 0
		}
		path := filepath.Join(home, pl.path)
		var undo func()
		e.quiet(func() { undo = place(path, c.s("obj"), content) })
		defer e.quiet(undo)
		rs, ns := []string{}, []int{}
		out["rs"], out["ns"], out["same"] = rs, ns, 1
		for k, f := range pl.readers {
			if c.has("only") && c.i("only") != k {
				continue
			}
			n, err := f(e, db, path)
			if err != nil {
				rs, ns = append(rs, "err"), append(ns, 0)
				if c.has("only") {
					return err
				}
			} else {
				rs, ns = append(rs, "ok"), append(ns, n)
			}
			out["rs"], out["ns"] = rs, ns
		}
		if c.s("obj") == "file" {
			e.quiet(func() {
				if b, err := os.ReadFile(path); err != nil || !bytes.Equal(b, content) {
					out["same"] = 0
				}
			})
		}
		return nil
	}

	// names: an operation that is given any names
	ops["names"] = func(e *Env, c Call, out M) error {
		home, db := e.smallHome()
		cn := &pttbbs.Connector{}
		e.quiet(func() { cn.Open("file://" + home) })
		a := []string{}
		for _, x := range c.strs("a") {
			a = append(a, string(unhex(x)))
		}
		t := []string{}
		for _, x := range c.strs("t") {
			t = append(t, string(unhex(x)))
		}
		f, ok := namedOps[c.s("f")]
		if !ok {
			panic("harness: no operation " + c.s("f"))
		}
		for len(a) < 3 {
			a = append(a, "")
		}
		return f(home, db, cn, a, t)
	}
}

type namedOp func(home string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error

func only(_ interface{}, err error) error { return err }

var namedOps = map[string]namedOp{
	"p.passwds": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(pttbbs.GetPasswdsPath(a[0]))
	},
	"p.board": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(pttbbs.GetBoardPath(a[0]))
	},
	"p.fav": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(pttbbs.GetUserFavoritePath(h, a[0]))
	},
	"p.draft": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(pttbbs.GetUserDraftPath(h, a[0], a[1]))
	},
	"p.mail": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(pttbbs.GetUserMailPath(h, a[0], a[1]))
	},
	"p.recent": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(pttbbs.GetLoginRecentPath(h, a[0]))
	},
	"p.dir": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(pttbbs.GetBoardArticlesDirectoryPath(h, a[0]))
	},
	"p.article": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(pttbbs.GetBoardArticleFilePath(h, a[0], a[1]))
	},
	"p.treasures": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(pttbbs.GetBoardTreasuresDirectoryPath(h, a[0], t))
	},
	"p.treasure": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(pttbbs.GetBoardTreasureFilePath(h, a[0], t, a[1]))
	},
	"p.name": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(pttbbs.GetBoardNameFilePath(h, a[0]))
	},
	"c.draft": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(cn.GetUserDraftPath(a[0], a[1]))
	},
	"c.fav": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(cn.GetUserFavoriteRecordsPath(a[0]))
	},
	"c.dir": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(cn.GetBoardArticleRecordsPath(a[0]))
	},
	"c.article": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(cn.GetBoardArticleFilePath(a[0], a[1]))
	},
	"c.treasures": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(cn.GetBoardTreasureRecordsPath(a[0], t))
	},
	"c.treasure": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(cn.GetBoardTreasureFilePath(a[0], t, a[1]))
	},
	"f.users": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(cn.ReadUserRecordsFile(a[0]))
	},
	"f.fav": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(cn.ReadUserFavoriteRecordsFile(a[0]))
	},
	"f.boards": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(cn.ReadBoardRecordsFile(a[0]))
	},
	"f.articles": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(cn.ReadArticleRecordsFile(a[0]))
	},
	"f.article": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(cn.ReadBoardArticleFile(a[0]))
	},
	"f.draft": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(cn.ReadUserDraft(a[0]))
	},
	"f.bad": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(pttbbs.OpenBadLoginFile(a[0]))
	},
	"f.recent": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(pttbbs.OpenLoginRecentFile(a[0]))
	},
	"f.sess": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(pttbbs.OpenUserInfoCache(a[0]))
	},
	"f.formosa": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(formosabbs.OpenFormosaBBSFileHeaderFile(a[0]))
	},
	"d.fav": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(db.ReadUserFavoriteRecords(a[0]))
	},
	"d.articles": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(db.ReadBoardArticleRecordsFile(a[0]))
	},
	"d.treasures": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(db.ReadBoardTreasureRecordsFile(a[0], t))
	},
	"d.article": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(db.ReadBoardArticleFile(a[0], a[1]))
	},
	"d.treasure": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(db.ReadBoardTreasureFile(a[0], t, a[1]))
	},
	"d.uarts": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(db.GetUserArticleRecordFile(a[0]))
	},
	"d.ucomments": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(db.GetUserCommentRecordFile(a[0]))
	},
	"d.bcomments": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(db.GetBoardUserCommentRecord(a[0], a[1]))
	},
	"d.comments": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		rec := pttbbs.NewFileHeader()
		rec.SetFilename(a[1])
		return only(db.GetBoardArticleCommentRecords(a[0], rec))
	},
	"d.draft": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		return only(db.GetUserDrafts(a[0], a[1]))
	},
	"open": func(h string, db *bbs.DB, cn *pttbbs.Connector, a, t []string) error {
		db, err := bbs.Open(a[0], a[1])
		if err != nil {
			return err
		}
		db.ReadUserRecords()
		db.ReadBoardRecords()
		db.ReadBoardArticleRecordsFile("test")
		db.ReadUserFavoriteRecords("alice")
		return only(db.GetUserDrafts("alice", "1"))
	},
}
