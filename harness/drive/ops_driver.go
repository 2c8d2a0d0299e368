package main

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
)

// ---- data bases opened under the names of drivers of our own, which hold what the script says and note
// what they are asked to change

// plan is what all connectors of one driver share
type plan struct {
	mu   sync.Mutex
	id   string
	caps string
	data Call
	fail Call
	log  []interface{}
}

func (p *plan) note(a ...interface{}) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.log = append(p.log, a)
}

func (p *plan) err(key string) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	switch p.fail.s(key) {
	case "":
		return nil
	case "noent":
		return &os.PathError{Op: "open", Path: key, Err: syscall.ENOENT}
	}
	return errors.New("driver: " + p.fail.s(key))
}

// drv is the part which every connector has; its own state is the source it was opened with
type drv struct {
	p   *plan
	src string
}

func (d *drv) who() string { return d.p.id + ":" + d.src }

// mark tells in a text whose it is
func (d *drv) mark(s string) string { return s + "@" + d.who() }

func (d *drv) path(m string, args ...string) (string, error) {
	key := m + "(" + strings.Join(args, ",") + ")"
	// a driver that fails may return anything else as well
	return d.mark(key), d.p.err(key)
}

// at is what a path means: the key of the path call, and the error of reading it with m
func (d *drv) at(m, path string) (string, error) {
	k := strings.SplitN(path, "@", 2)
	if len(k) != 2 || k[1] != d.who() {
		return "", errors.New("driver: not a path of this driver: " + path)
	}
	if err := d.p.err(m + "|" + k[0]); err != nil {
		return k[0], err
	}
	return k[0], nil
}

func (d *drv) Open(src string) error {
	if err := d.p.err("Open(" + src + ")"); err != nil {
		return err
	}
	d.src = src
	return nil
}

func (d *drv) GetUserRecordsPath() (string, error) { return d.path("users") }
func (d *drv) GetUserFavoriteRecordsPath(u string) (string, error) {
	return d.path("favs", u)
}
func (d *drv) GetBoardRecordsPath() (string, error) { return d.path("boards") }
func (d *drv) GetBoardArticleRecordsPath(b string) (string, error) {
	return d.path("arts", b)
}
func (d *drv) GetBoardTreasureRecordsPath(b string, t []string) (string, error) {
	return d.path("treas", append([]string{b}, t...)...)
}
func (d *drv) GetBoardArticleFilePath(b, fn string) (string, error) { return d.path("file", b, fn) }
func (d *drv) GetBoardTreasureFilePath(b string, t []string, fn string) (string, error) {
	return d.path("tfile", append(append([]string{b}, t...), fn)...)
}

type fakeUser struct {
	bbs.UserRecord
	id string
}

func (u fakeUser) UserID() string { return u.id }

type fakeFav struct {
	bbs.FavoriteRecord
	title string
}

func (f fakeFav) Title() string { return f.title }

type fakeBoard struct {
	bbs.BoardRecord
	id, title string
}

func (b fakeBoard) BoardID() string { return b.id }
func (b fakeBoard) Title() string   { return b.title }
func (b fakeBoard) IsClass() bool   { return false }
func (b fakeBoard) ClassID() string { return "" }
func (b fakeBoard) BM() []string    { return nil }

type fakeArt struct {
	bbs.ArticleRecord
	fn, own, date, title string
}

func (a fakeArt) Filename() string { return a.fn }
func (a fakeArt) Owner() string    { return a.own }
func (a fakeArt) Date() string     { return a.date }
func (a fakeArt) Title() string    { return a.title }

func (a fakeArt) Modified() time.Time     { return time.Time{} }
func (a fakeArt) SetModified(t time.Time) {}
func (a fakeArt) Recommend() int          { return 0 }
func (a fakeArt) Money() int              { return 0 }

type fakeUserArt struct{ b, title, own, fn string }

func (a fakeUserArt) BoardID() string   { return a.b }
func (a fakeUserArt) Title() string     { return a.title }
func (a fakeUserArt) Owner() string     { return a.own }
func (a fakeUserArt) ArticleID() string { return a.fn }

type fakeCmt struct {
	bbs.UserCommentRecord
	own, text string
}

func (c fakeCmt) Owner() string          { return c.own }
func (c fakeCmt) Comment() string        { return c.text }
func (c fakeCmt) CommentOrder() uint32   { return 0 }
func (c fakeCmt) CommentTime() time.Time { return time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC) }
func (c fakeCmt) BoardID() string        { return "" }
func (c fakeCmt) Filename() string       { return "" }

// list is what the data hold at a key; nothing is as a file that is not there
func (d *drv) list(key string, err error) ([]interface{}, error) {
	d.p.mu.Lock()
	defer d.p.mu.Unlock()
	if !d.p.data.has(key) {
		if err == nil {
			err = fmt.Errorf("driver: open error: %w", &os.PathError{Op: "open", Path: key, Err: syscall.ENOENT})
		}
		return nil, err
	}
	return d.p.data.list(key), err
}

func sub(v interface{}) Call { return Call(v.(map[string]interface{})) }

// records are given out together with the error, if there is one: nobody may take them for the answer
func (d *drv) ReadUserRecordsFile(name string) (r []bbs.UserRecord, err error) {
	vs, err := d.list(d.at("users", name))
	for _, v := range vs {
		r = append(r, fakeUser{id: d.mark(v.(string))})
	}
	return r, err
}
func (d *drv) ReadUserFavoriteRecordsFile(name string) (r []bbs.FavoriteRecord, err error) {
	vs, err := d.list(d.at("favs", name))
	for _, v := range vs {
		r = append(r, fakeFav{title: d.mark(v.(string))})
	}
	return r, err
}
func (d *drv) ReadBoardRecordsFile(name string) (r []bbs.BoardRecord, err error) {
	vs, err := d.list(d.at("boards", name))
	for _, v := range vs {
		r = append(r, fakeBoard{id: v.(string), title: d.mark(v.(string))})
	}
	return r, err
}
func (d *drv) ReadArticleRecordsFile(name string) (r []bbs.ArticleRecord, err error) {
	vs, err := d.list(d.at("arts", name))
	for _, v := range vs {
		c := sub(v)
		r = append(r, fakeArt{fn: c.s("fn"), own: c.s("own"), title: d.mark(c.s("title"))})
	}
	return r, err
}
func (d *drv) ReadBoardArticleFile(name string) ([]byte, error) {
	return d.bytes(d.at("file", name))
}
func (d *drv) bytes(key string, err error) ([]byte, error) {
	vs, err := d.list(key, err)
	if len(vs) == 0 {
		return nil, err
	}
	return unhex(vs[0].(string)), err
}

// ---- what a driver may support besides

type partN struct{ d *drv }

func (x partN) NewConnector() bbs.Connector { return connector(&drv{p: x.d.p}) }

type partB struct{ d *drv }

func (x partB) NewBoardRecord(args map[string]interface{}) (bbs.BoardRecord, error) {
	x.d.p.note("newboard", x.d.who(), args["id"], args["title"])
	return fakeBoard{id: fmt.Sprint(args["id"]), title: x.d.mark(fmt.Sprint(args["title"]))}, x.d.p.err("newboard")
}
func (x partB) AddBoardRecordFileRecord(name string, b bbs.BoardRecord) error {
	x.d.p.note("addboard", name, b.BoardID(), b.Title())
	return x.d.p.err("addboard")
}
func (x partB) UpdateBoardRecordFileRecord(name string, i uint, b bbs.BoardRecord) error {
	x.d.p.note("updboard", name, int(i), b.Title())
	return nil
}
func (x partB) ReadBoardRecordFileRecord(name string, i uint) (bbs.BoardRecord, error) {
	return fakeBoard{}, nil
}
func (x partB) RemoveBoardRecordFileRecord(name string, i uint) error {
	x.d.p.note("rmboard", name, int(i))
	return nil
}

type partA struct{ d *drv }

func (x partA) CreateBoardArticleFilename(b string) (string, error) {
	x.d.p.note("fname", x.d.who(), b)
	return "M." + b, x.d.p.err("fname")
}
func (x partA) NewArticleRecord(fn, own, date, title string) (bbs.ArticleRecord, error) {
	x.d.p.note("newart", x.d.who(), fn, own, date, title)
	return fakeArt{fn: fn, own: own, date: date, title: x.d.mark(title)}, x.d.p.err("newart")
}
func (x partA) AddArticleRecordFileRecord(name string, a bbs.ArticleRecord) error {
	x.d.p.note("addart", name, a.Filename(), a.Title())
	return x.d.p.err("addart")
}
func (x partA) UpdateArticleRecordFileRecord(name string, i uint, a bbs.ArticleRecord) error {
	x.d.p.note("updart", name, int(i), a.Title())
	return x.d.p.err("updart")
}
func (x partA) WriteBoardArticleFile(name string, c []byte) error {
	x.d.p.note("write", name, hx(string(c)))
	return x.d.p.err("write")
}
func (x partA) AppendBoardArticleFile(name string, c []byte) error {
	x.d.p.note("append", name, hx(string(c)))
	return x.d.p.err("append")
}

type partU struct{ d *drv }

func (x partU) GetUserArticleRecordsPath(u string) (string, error) { return x.d.path("uarts", u) }
func (x partU) ReadUserArticleRecordFile(name string) (r []bbs.UserArticleRecord, err error) {
	vs, err := x.d.list(x.d.at("uarts", name))
	for _, v := range vs {
		c := sub(v)
		r = append(r, fakeUserArt{b: c.s("b"), fn: c.s("fn"), own: c.s("own"), title: x.d.mark(c.s("title"))})
	}
	return r, err
}
func (x partU) WriteUserArticleRecordFile(name string, r []bbs.UserArticleRecord) error {
	x.d.p.note("wuarts", name)
	return nil
}
func (x partU) AppendUserArticleRecordFile(name string, r bbs.UserArticleRecord) error {
	x.d.p.note("auarts", name)
	return nil
}

type partC struct{ d *drv }

func (x partC) GetUserCommentRecordsPath(u string) (string, error) { return x.d.path("ucmts", u) }
func (x partC) ReadUserCommentRecordFile(name string) (r []bbs.UserCommentRecord, err error) {
	vs, err := x.d.list(x.d.at("ucmts", name))
	for _, v := range vs {
		r = append(r, fakeCmt{own: string(unhex(sub(v).s("own"))), text: x.d.mark(sub(v).s("txt"))})
	}
	return r, err
}

type partD struct{ d *drv }

func (x partD) GetUserDraftPath(u, i string) (string, error) { return x.d.path("draft", u, i) }
func (x partD) ReadUserDraft(name string) ([]byte, error)    { return x.d.bytes(x.d.at("draft", name)) }
func (x partD) DeleteUserDraft(name string) error {
	x.d.p.note("deldraft", name)
	return x.d.p.err("deldraft")
}
func (x partD) WriteUserDraft(name string, c []byte) error {
	x.d.p.note("writedraft", name, hx(string(c)))
	return x.d.p.err("writedraft")
}

// ---- operations

type drvWorld struct {
	plans map[string]*plan
	dbs   map[string]*bbs.DB
}

func (e *Env) drvs() *drvWorld {
	if e.drv == nil {
		e.drv = &drvWorld{plans: map[string]*plan{}, dbs: map[string]*bbs.DB{}}
	}
	return e.drv
}

var drvWorlds int

func drvComments(cs []bbs.UserCommentRecord) []M {
	out := []M{}
	for _, c := range cs {
		if f, ok := c.(fakeCmt); ok {
			out = append(out, M{"own": hx(f.own), "txt": f.text})
			continue
		}
		m := commentOf(c)
		m["fn"] = c.Filename()
		out = append(out, m)
	}
	return out
}

func drvAsk(db *bbs.DB, c Call, out M) error {
	b, u, fn, ts := c.s("b"), c.s("u"), c.s("fn"), c.strs("t")
	switch c.s("q") {
	case "users":
		rs, err := db.ReadUserRecords()
		v := []string{}
		for _, r := range rs {
			v = append(v, r.UserID())
		}
		out["v"] = v
		return err
	case "favs":
		rs, err := db.ReadUserFavoriteRecords(u)
		v := []string{}
		for _, r := range rs {
			v = append(v, r.Title())
		}
		out["v"] = v
		return err
	case "boards":
		rs, err := db.ReadBoardRecords()
		v := []string{}
		for _, r := range rs {
			v = append(v, r.Title())
		}
		out["v"] = v
		return err
	case "arts", "treas":
		var rs []bbs.ArticleRecord
		var err error
		if c.s("q") == "arts" {
			rs, err = db.ReadBoardArticleRecordsFile(b)
		} else {
			rs, err = db.ReadBoardTreasureRecordsFile(b, ts)
		}
		v := []M{}
		for _, r := range rs {
			v = append(v, M{"fn": r.Filename(), "own": r.Owner(), "title": r.Title()})
		}
		out["v"] = v
		return err
	case "file":
		x, err := db.ReadBoardArticleFile(b, fn)
		out["v"] = hx(string(x))
		return err
	case "tfile":
		x, err := db.ReadBoardTreasureFile(b, ts, fn)
		out["v"] = hx(string(x))
		return err
	case "uarts":
		rs, err := db.GetUserArticleRecordFile(u)
		v := []M{}
		for _, r := range rs {
			v = append(v, M{"b": r.BoardID(), "fn": r.ArticleID(), "own": r.Owner(), "title": r.Title()})
		}
		out["v"] = v
		return err
	case "ucmts":
		rs, err := db.GetUserCommentRecordFile(u)
		out["v"] = drvComments(rs)
		return err
	case "bcmts":
		rs, err := db.GetBoardUserCommentRecord(b, u)
		out["v"] = drvComments(rs)
		return err
	case "cmts":
		rs, err := db.GetBoardArticleCommentRecords(b, fakeArt{fn: fn})
		out["v"] = drvComments(rs)
		return err
	case "draft":
		d, err := db.GetUserDrafts(u, fn)
		out["v"] = ""
		if d != nil {
			out["v"] = hx(string(d.Raw()))
		}
		return err
	case "deldraft":
		return db.DeleteUserDraft(u, fn)
	case "writedraft":
		return db.WriteUserDraft(u, fn, bbs.NewUserDraft(unhex(c.s("c"))))
	case "newboard":
		r, err := db.NewBoardRecord(map[string]interface{}{"id": b, "title": c.s("title")})
		out["v"] = ""
		if r != nil && err == nil {
			out["v"] = r.Title()
		}
		return err
	case "addboard":
		return db.AddBoardRecord(fakeBoard{id: b, title: c.s("title")})
	case "updboard":
		return db.UpdateBoardRecord(0, nil)
	case "getboard":
		_, err := db.ReadBoardRecord(0)
		return err
	case "rmboard":
		return db.RemoveBoardRecord(0)
	case "newart":
		r, err := db.CreateArticleRecord(b, u, c.s("date"), c.s("title"))
		out["v"] = M{"fn": "", "title": ""}
		if r != nil && err == nil {
			out["v"] = M{"fn": r.Filename(), "title": r.Title()}
		}
		return err
	case "addart":
		return db.AddArticleRecordFileRecord(b, fakeArt{fn: fn, title: c.s("title")})
	case "write":
		return db.WriteBoardArticleFile(b, fn, unhex(c.s("c")))
	case "append":
		return db.AppendBoardArticleFile(b, fn, unhex(c.s("c")))
	}
	panic("harness: unknown question " + c.s("q"))
}

func init() {
	var mu sync.Mutex
	prefix := func(e *Env) string {
		mu.Lock()
		defer mu.Unlock()
		if e.drvName == "" {
			drvWorlds++
			e.drvName = fmt.Sprintf("driver%d-", drvWorlds)
		}
		return e.drvName
	}
	ops["drvreg"] = func(e *Env, c Call, out M) error {
		p := &plan{id: c.s("d"), caps: c.s("caps"), data: c.sub("data"), fail: c.sub("fail")}
		e.drvs().plans[p.id] = p
		bbs.Register(prefix(e)+c.s("n"), connector(&drv{p: p}))
		return nil
	}
	ops["drvfail"] = func(e *Env, c Call, out M) error {
		p := e.drvs().plans[c.s("d")]
		p.mu.Lock()
		defer p.mu.Unlock()
		p.fail = c.sub("fail")
		return nil
	}
	ops["drvopen"] = func(e *Env, c Call, out M) error {
		db, err := bbs.Open(prefix(e)+c.s("n"), c.s("src"))
		if err == nil {
			e.drvs().dbs[c.s("h")] = db
		}
		return err
	}
	ops["drvask"] = func(e *Env, c Call, out M) error {
		w := e.drvs()
		for _, p := range w.plans {
			p.log = nil
		}
		err := drvAsk(w.dbs[c.s("h")], c, out)
		log := []interface{}{}
		for _, p := range w.plans {
			p.mu.Lock()
			log = append(log, p.log...)
			p.mu.Unlock()
		}
		out["log"] = log
		return err
	}
	// many readers at once, of any handles
	ops["drvpar"] = func(e *Env, c Call, out M) error {
		w := e.drvs()
		qs := c.list("qs")
		rs := make([]M, len(qs))
		var wg sync.WaitGroup
		for i := range qs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				q := sub(qs[i])
				m := M{"r": "died"}
				defer func() {
					if recover() != nil {
						m["r"] = "panic"
					}
					rs[i] = m
				}()
				err := drvAsk(w.dbs[q.s("h")], q, m)
				m["r"] = "ok"
				if err != nil {
					m["r"] = "err"
				}
			}(i)
		}
		wg.Wait()
		out["rs"] = rs
		return nil
	}
}
