package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"time"

	bbs "github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

func (e *Env) db(c Call) *bbs.DB             { return e.dbs[c.i("h")] }
func (e *Env) conn(c Call) *pttbbs.Connector { return e.conns[c.i("h")] }

func parseMod(s string) time.Time {
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic("harness: bad time " + s)
	}
	return time.Unix(v, 0)
}

// applyEdits applies the setters of an article record
func applyEdits(f *pttbbs.FileHeader, c Call) {
	if c.has("fn") {
		f.SetFilename(string(unhex(c.s("fn"))))
	}
	if c.has("own") {
		f.SetOwner(string(unhex(c.s("own"))))
	}
	if c.has("date") {
		f.SetDate(string(unhex(c.s("date"))))
	}
	if c.has("title") {
		f.SetTitle(b5text(c.s("title")))
	}
	if c.has("setmod") {
		f.SetModified(parseMod(c.s("setmod")))
	}
	if c.has("addrec") {
		f.AddRecommend(int8(c.i("addrec")))
	}
	if c.has("mode") {
		f.Filemode = uint8(c.i("mode"))
	}
	if c.has("anno") {
		p := c.ints("anno")
		f.AnnoUID = p[0]<<16 | p[1]
	}
	if c.has("vl") {
		v := c.ints("vl")
		f.VoteLimits = pttbbs.VoteLimits{Posts: uint8(v[0]), Logins: uint8(v[1]), Regtime: uint8(v[2]), Badpost: uint8(v[3])}
	}
}

func (e *Env) newRecord(c Call, r Call) (bbs.ArticleRecord, error) {
	rec, err := e.conn(c).NewArticleRecord(string(unhex(r.s("fn"))), string(unhex(r.s("own"))),
		string(unhex(r.s("date"))), b5text(r.s("title")))
	if err != nil {
		return nil, err
	}
	rest := Call{}
	for k, v := range r {
		if k != "fn" && k != "own" && k != "date" && k != "title" {
			rest[k] = v
		}
	}
	if f, ok := rec.(*pttbbs.FileHeader); ok {
		applyEdits(f, rest)
	}
	return rec, nil
}

func (e *Env) listPath(c Call, b string) string {
	p, err := e.conn(c).GetBoardArticleRecordsPath(b)
	if err != nil {
		return ""
	}
	return p
}

func (e *Env) obsList(c Call, b string, out M) {
	out["ls"], out["sz"] = []string{}, -1
	if b != "" {
		e.quiet(func() {
			out["ls"], out["sz"] = chunks(filepath.Join(e.homes[c.i("h")], "boards", b[:1], b, ".DIR"), 128)
		})
	}
}

func (e *Env) obsBoards(c Call, out M) {
	e.quiet(func() { out["ls"], out["sz"] = chunks(filepath.Join(e.homes[c.i("h")], ".BRD"), 256) })
}

func init() {
	// the world around the code under test: made by the harness itself
	ops["mkdir"] = func(e *Env, c Call, out M) (err error) {
		e.quietOn()
		defer e.quietOff()
		return os.MkdirAll(filepath.Join(e.root, c.s("path")), 0755)
	}
	ops["put"] = func(e *Env, c Call, out M) (err error) {
		e.quietOn()
		defer e.quietOff()
		p := filepath.Join(e.root, c.s("path"))
		os.MkdirAll(filepath.Dir(p), 0755)
		e.known[filepath.Base(p)] = true
		if err := os.WriteFile(p, unhex(c.s("c")), 0644); err != nil {
			return err
		}
		switch c.s("kind") {
		case "list":
			out["ls"], out["sz"] = chunks(p, 128)
		case "brd":
			out["ls"], out["sz"] = chunks(p, 256)
		}
		return nil
	}
	ops["symlink"] = func(e *Env, c Call, out M) (err error) {
		e.quietOn()
		defer e.quietOff()
		p := filepath.Join(e.root, c.s("path"))
		os.MkdirAll(filepath.Dir(p), 0755)
		return os.Symlink(c.s("to"), p)
	}
	ops["rmall"] = func(e *Env, c Call, out M) (err error) {
		e.quietOn()
		defer e.quietOff()
		return os.RemoveAll(filepath.Join(e.root, c.s("path")))
	}
	// the names M.<second>.A.xxx of the next seconds are taken, all except a few
	ops["fill"] = func(e *Env, c Call, out M) (err error) {
		e.quietOn()
		defer e.quietOff()
		dir := filepath.Join(e.root, c.s("dir"))
		free := map[string]bool{}
		for _, f := range c.strs("free") {
			free[f] = true
		}
		from := time.Now().Unix() + int64(c.i("ahead"))
		list := []string{}
		for t := from; t < from+int64(c.i("secs")); t++ {
			list = append(list, fmt.Sprintf("%s/M.%d.A.", c.s("dir"), t))
			for k := 0; k < 4096; k++ {
				if x := fmt.Sprintf("%03X", k); !free[x] {
					name := fmt.Sprintf("M.%d.A.%s", t, x)
					e.known[name] = true
					e.filled = append(e.filled, name)
					f, err := os.OpenFile(filepath.Join(dir, name), os.O_CREATE|os.O_WRONLY|os.O_EXCL, 0644)
					if err != nil {
						return err
					}
					f.Write([]byte("taken"))
					f.Close()
				}
			}
		}
		out["list"] = list
		if c.has("ahead") {
			time.Sleep(time.Until(time.Unix(from, 0)))
		}
		return nil
	}
	// are the files which were made by fill as they were?
	ops["checkfill"] = func(e *Env, c Call, out M) (err error) {
		e.quietOn()
		defer e.quietOff()
		bad := 0
		for _, name := range e.filled {
			b, err := os.ReadFile(filepath.Join(e.root, c.s("dir"), name))
			if err != nil || string(b) != "taken" {
				bad++
			}
		}
		out["bad"] = bad
		return nil
	}
	ops["peek"] = func(e *Env, c Call, out M) (err error) {
		e.quietOn()
		defer e.quietOff()
		b, err := os.ReadFile(filepath.Join(e.root, c.s("path")))
		if err != nil {
			return err
		}
		out["c"] = fmt.Sprintf("%x", b)
		e.hand(b, func() interface{} { return string(b) })
		return nil
	}

	ops["open"] = func(e *Env, c Call, out M) error {
		h := c.i("h")
		home := e.home(h)
		if c.has("home") { // open handle h on the home of this name
			home = e.root + "/" + c.s("home")
		}
		dsn := home
		switch c.s("form") {
		case "file":
			dsn = "file://" + home
		case "query":
			dsn = "file://" + home + "?UTMP=1993"
		case "slash":
			dsn = "file://" + home + "/"
		}
		db, err := bbs.Open("pttbbs", dsn)
		if err != nil {
			return err
		}
		cn := &pttbbs.Connector{}
		if err := cn.Open(dsn); err != nil {
			return err
		}
		e.dbs[h], e.conns[h], e.homes[h] = db, cn, home
		return nil
	}
	ops["openbad"] = func(e *Env, c Call, out M) error {
		_, err := bbs.Open(c.s("driver"), "file://"+e.home(9))
		return err
	}

	ops["add"] = func(e *Env, c Call, out M) error {
		rec, err := e.newRecord(c, c.sub("rec"))
		if err != nil {
			return err
		}
		before := fmt.Sprintf("%v", entryOf(rec))
		defer func() {
			out["argmod"] = b2i(before != fmt.Sprintf("%v", entryOf(rec)))
			scribble(reflect.ValueOf(rec), 0) // the caller uses its record again
			e.obsList(c, c.s("b"), out)
		}()
		if c.s("via") == "conn" {
			return e.conn(c).AddArticleRecordFileRecord(e.listPath(c, c.s("b")), rec)
		}
		return e.db(c).AddArticleRecordFileRecord(c.s("b"), rec)
	}
	// add an entry which was read from a list (possibly of another board)
	ops["addcopy"] = func(e *Env, c Call, out M) error {
		defer e.obsList(c, c.s("b"), out)
		e.quietOn()
		rs, err := e.db(c).ReadBoardArticleRecordsFile(c.s("b2"))
		e.quietOff()
		if err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		if c.i("i") >= len(rs) {
			return fmt.Errorf("harness: no entry")
		}
		return e.db(c).AddArticleRecordFileRecord(c.s("b"), rs[c.i("i")])
	}
	ops["list"] = func(e *Env, c Call, out M) error {
		var rs []bbs.ArticleRecord
		var err error
		out["v"] = []M{}
		if c.s("via") == "conn" {
			rs, err = e.conn(c).ReadArticleRecordsFile(e.listPath(c, c.s("b")))
		} else {
			rs, err = e.db(c).ReadBoardArticleRecordsFile(c.s("b"))
		}
		if err != nil {
			return err
		}
		out["v"] = entriesOf(rs)
		e.hand(rs, func() interface{} { return entriesOf(rs) })
		return nil
	}
	// upd: read the list, edit the entry at i, write it back at i (or at "at")
	ops["upd"] = func(e *Env, c Call, out M) error {
		defer e.obsList(c, c.s("b"), out)
		out["argmod"] = 0
		idx, err := strconv.ParseUint(c.s("at"), 10, 64)
		if err != nil {
			panic("harness: bad index")
		}
		path := e.listPath(c, c.s("b"))
		var rec bbs.ArticleRecord
		if c.has("from") {
			e.quietOn()
			rs, err := e.conn(c).ReadArticleRecordsFile(path)
			e.quietOff()
			if err != nil {
				return fmt.Errorf("harness: %v", err)
			}
			if c.i("from") >= len(rs) {
				return fmt.Errorf("harness: no entry")
			}
			rec = rs[c.i("from")]
			applyEdits(rec.(*pttbbs.FileHeader), c.sub("rec"))
		} else {
			rec, err = e.newRecord(c, c.sub("rec"))
			if err != nil {
				return err
			}
		}
		before := fmt.Sprintf("%v", entryOf(rec))
		defer func() {
			out["argmod"] = b2i(before != fmt.Sprintf("%v", entryOf(rec)))
			scribble(reflect.ValueOf(rec), 0)
		}()
		return e.conn(c).UpdateArticleRecordFileRecord(path, uint(idx), rec)
	}

	ops["create"] = func(e *Env, c Call, out M) error {
		var rec bbs.ArticleRecord
		var err error
		out["fn"], out["c"], out["secs"] = "", "", []string{}
		t0 := time.Now().Unix()
		switch c.s("via") {
		case "name":
			var fn string
			fn, err = e.conn(c).CreateBoardArticleFilename(c.s("b"))
			out["fn"] = hx(fn)
		case "map":
			args := map[string]interface{}{"board_id": c.s("b"), "owner": string(unhex(c.s("own"))),
				"date": string(unhex(c.s("date"))), "title": b5text(c.s("title"))}
			rec, err = e.conn(c).NewArticleRecordWithMap(args)
		default:
			rec, err = e.db(c).CreateArticleRecord(c.s("b"), string(unhex(c.s("own"))), string(unhex(c.s("date"))), b5text(c.s("title")))
		}
		secs := []string{}
		for t, t1 := t0, time.Now().Unix(); t <= t1; t++ {
			secs = append(secs, strconv.FormatInt(t, 10))
		}
		out["secs"] = secs
		if err != nil {
			return err
		}
		if rec != nil {
			m := entryOf(rec)
			out["fn"] = m["fn"]
			out["e"] = m
			if c.has("var") {
				e.vars[c.s("var")] = rec
			}
		}
		e.quiet(func() {
			b, e2 := os.ReadFile(filepath.Join(e.homes[c.i("h")], "boards", c.s("b")[:1], c.s("b"), string(unhex(out["fn"].(string)))))
			out["c"] = fmt.Sprintf("%x", b)
			if e2 != nil {
				out["c"] = "missing"
			}
		})
		return nil
	}
	// addnew: create an article and add the record to the list, as the command line tool does
	ops["addvar"] = func(e *Env, c Call, out M) error {
		defer e.obsList(c, c.s("b"), out)
		rec, ok := e.vars[c.s("var")].(bbs.ArticleRecord)
		if !ok {
			return fmt.Errorf("harness: no record")
		}
		return e.db(c).AddArticleRecordFileRecord(c.s("b"), rec)
	}

	ops["write"] = func(e *Env, c Call, out M) error {
		b := unhex(c.s("c"))
		buf := make([]byte, len(b)+16)
		copy(buf, b)
		for i := len(b); i < len(buf); i++ {
			buf[i] = 0xa5
		}
		defer func() {
			out["argmod"] = b2i(!intact(buf, b))
			for i := range buf { // the caller uses its buffer again
				buf[i] ^= 0xff
			}
		}()
		if c.s("via") == "conn" {
			p, err := e.conn(c).GetBoardArticleFilePath(c.s("b"), c.s("f"))
			if err != nil {
				return err
			}
			return e.conn(c).WriteBoardArticleFile(p, buf[:len(b)])
		}
		return e.db(c).WriteBoardArticleFile(c.s("b"), c.s("f"), buf[:len(b)])
	}
	ops["append"] = func(e *Env, c Call, out M) error {
		b := unhex(c.s("c"))
		buf := make([]byte, len(b)+16)
		copy(buf, b)
		for i := len(b); i < len(buf); i++ {
			buf[i] = 0xa5
		}
		defer func() {
			out["argmod"] = b2i(!intact(buf, b))
			for i := range buf { // the caller uses its buffer again
				buf[i] ^= 0xff
			}
		}()
		if c.s("via") == "conn" {
			p, err := e.conn(c).GetBoardArticleFilePath(c.s("b"), c.s("f"))
			if err != nil {
				return err
			}
			return e.conn(c).AppendBoardArticleFile(p, buf[:len(b)])
		}
		return e.db(c).AppendBoardArticleFile(c.s("b"), c.s("f"), buf[:len(b)])
	}
	ops["read"] = func(e *Env, c Call, out M) error {
		out["c"] = ""
		b, err := e.db(c).ReadBoardArticleFile(c.s("b"), c.s("f"))
		if err != nil {
			return err
		}
		out["c"] = fmt.Sprintf("%x", b)
		e.hand(b, func() interface{} { return string(b) })
		return nil
	}

	ops["tlist"] = func(e *Env, c Call, out M) error {
		out["v"], out["argmod"] = []M{}, 0
		t, check := spare(c.strs("t"))
		defer func() { out["argmod"] = b2i(!check()) }()
		rs, err := e.db(c).ReadBoardTreasureRecordsFile(c.s("b"), t)
		if err != nil {
			return err
		}
		out["v"] = entriesOf(rs)
		e.hand(rs, func() interface{} { return entriesOf(rs) })
		return nil
	}
	ops["tread"] = func(e *Env, c Call, out M) error {
		out["c"], out["argmod"] = "", 0
		t, check := spare(c.strs("t"))
		defer func() { out["argmod"] = b2i(!check()) }()
		b, err := e.db(c).ReadBoardTreasureFile(c.s("b"), t, c.s("f"))
		if err != nil {
			return err
		}
		out["c"] = fmt.Sprintf("%x", b)
		e.hand(b, func() interface{} { return string(b) })
		return nil
	}

	ops["wdraft"] = func(e *Env, c Call, out M) error {
		b := unhex(c.s("c"))
		buf := make([]byte, len(b)+16)
		copy(buf, b)
		for i := len(b); i < len(buf); i++ {
			buf[i] = 0xa5
		}
		defer func() {
			out["argmod"] = b2i(!intact(buf, b))
			for i := range buf { // the caller uses its buffer again
				buf[i] ^= 0xff
			}
		}()
		return e.db(c).WriteUserDraft(c.s("u"), c.s("d"), bbs.NewUserDraft(buf[:len(b)]))
	}
	ops["rdraft"] = func(e *Env, c Call, out M) error {
		out["c"] = ""
		d, err := e.db(c).GetUserDrafts(c.s("u"), c.s("d"))
		if err != nil {
			return err
		}
		out["c"] = fmt.Sprintf("%x", d.Raw())
		e.hand(d.Raw(), func() interface{} { return string(d.Raw()) })
		return nil
	}
	ops["ddraft"] = func(e *Env, c Call, out M) error {
		return e.db(c).DeleteUserDraft(c.s("u"), c.s("d"))
	}

	ops["boards"] = func(e *Env, c Call, out M) error {
		out["v"] = []M{}
		rs, err := e.db(c).ReadBoardRecords()
		if err != nil {
			return err
		}
		out["v"] = boardsOf(rs)
		e.hand(rs, func() interface{} { return boardsOf(rs) })
		return nil
	}
	ops["addboard"] = func(e *Env, c Call, out M) error {
		out["argmod"] = 0
		r := c.sub("rec")
		args := map[string]interface{}{"board_id": b5text(r.s("id")), "title": b5text(r.s("title"))}
		nargs := len(args)
		b, err := e.db(c).NewBoardRecord(args)
		if err != nil {
			return err
		}
		if h, ok := b.(*pttbbs.BoardHeader); ok {
			if r.has("attr") {
				p := r.ints("attr")
				h.Brdattr = uint32(p[0])<<16 | uint32(p[1])
			}
			if r.has("gid") {
				v, _ := strconv.Atoi(r.s("gid"))
				h.Gid = int32(v)
			}
			if r.has("lvl") {
				p := r.ints("lvl")
				h.Level = uint32(p[0])<<16 | uint32(p[1])
			}
		}
		before := fmt.Sprintf("%v", boardOf(b))
		defer func() {
			out["argmod"] = b2i(before != fmt.Sprintf("%v", boardOf(b)) || len(args) != nargs)
			scribble(reflect.ValueOf(b), 0)
			e.obsBoards(c, out)
		}()
		if c.s("via") == "conn" {
			p, err := e.conn(c).GetBoardRecordsPath()
			if err != nil {
				return err
			}
			return e.conn(c).AddBoardRecordFileRecord(p, b)
		}
		return e.db(c).AddBoardRecord(b)
	}
	ops["rmboard"] = func(e *Env, c Call, out M) error {
		defer e.obsBoards(c, out)
		p, err := e.conn(c).GetBoardRecordsPath()
		if err != nil {
			return err
		}
		idx, err := strconv.ParseInt(c.s("at"), 10, 64)
		if err != nil {
			panic("harness: bad index")
		}
		return pttbbs.RemoveBoardHeaderFileRecord(p, int(idx))
	}

	ops["comments"] = func(e *Env, c Call, out M) error {
		out["v"] = []M{}
		rec, err := e.conn(c).NewArticleRecord(c.s("f"), "someone", "1/01", "title")
		if err != nil {
			return err
		}
		cs, err := e.db(c).GetBoardArticleCommentRecords(c.s("b"), rec)
		if err != nil {
			return err
		}
		out["v"] = commentsOf(cs)
		e.hand(cs, func() interface{} { return commentsOf(cs) })
		return nil
	}
	ops["bcomments"] = func(e *Env, c Call, out M) error {
		out["v"] = []M{}
		cs, err := e.db(c).GetBoardUserCommentRecord(c.s("b"), string(unhex(c.s("u"))))
		if err != nil {
			return err
		}
		out["v"] = commentsOf(cs)
		e.hand(cs, func() interface{} { return commentsOf(cs) })
		return nil
	}
	ops["ucomments"] = func(e *Env, c Call, out M) error {
		out["v"] = []M{}
		cs, err := e.db(c).GetUserCommentRecordFile(string(unhex(c.s("u"))))
		if err != nil {
			return err
		}
		out["v"] = commentsOf(cs)
		e.hand(cs, func() interface{} { return commentsOf(cs) })
		return nil
	}
	ops["uarts"] = func(e *Env, c Call, out M) error {
		out["v"] = []M{}
		rs, err := e.db(c).GetUserArticleRecordFile(string(unhex(c.s("u"))))
		if err != nil {
			return err
		}
		v := []M{}
		for _, r := range rs {
			v = append(v, M{"b": r.BoardID(), "title": b5hex(r.Title()), "own": hx(r.Owner()), "fn": hx(r.ArticleID())})
		}
		out["v"] = v
		return nil
	}
}

func intact(buf, want []byte) bool {
	if string(buf[:len(want)]) != string(want) {
		return false
	}
	for _, x := range buf[len(want):] {
		if x != 0xa5 {
			return false
		}
	}
	return true
}

// spare gives the list some spare capacity with known content, and a check that nothing was changed
func spare(t []string) ([]string, func() bool) {
	full := make([]string, len(t)+3)
	copy(full, t)
	for i := len(t); i < len(full); i++ {
		full[i] = "spare"
	}
	return full[:len(t)], func() bool {
		for i, x := range full {
			if i < len(t) && x != t[i] || i >= len(t) && x != "spare" {
				return false
			}
		}
		return true
	}
}
