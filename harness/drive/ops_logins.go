package main

import (
	"fmt"
	"time"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

func clock(t time.Time) []int {
	y, m, d := t.Date()
	if t.Nanosecond() != 0 {
		d += 1000
	}
	return []int{y, int(m), d, t.Hour(), t.Minute(), t.Second()}
}

func attemptView(a *pttbbs.LoginAttempt) M {
	return M{"s": b2i(a.Success), "id": hx(a.UserID), "t": clock(a.LoginStartTime), "host": hx(a.FromHost)}
}

func recentView(a *pttbbs.LoginRecentRecord) M {
	return M{"s": 0, "id": "", "t": clock(a.LoginStartTime), "host": hx(a.FromHost)}
}

func init() {
	// logins reads a log, given as a file or as one line; each record is written again, and read
	ops["logins"] = func(e *Env, c Call, out M) error {
		out["v"], out["out"], out["argmod"] = []M{}, []string{}, 0
		raw := unhex(c.s("c"))
		vs, outs := []M{}, []string{}
		var as []*pttbbs.LoginAttempt
		switch c.s("kind") + c.s("via") {
		case "badfile":
			var err error
			if as, err = pttbbs.OpenBadLoginFile(e.fileOf("log", raw)); err != nil {
				return err
			}
		case "badline":
			a := &pttbbs.LoginAttempt{}
			if c.i("used") == 1 { // the receiver may have been used before
				a = &pttbbs.LoginAttempt{Success: true, UserID: "somebody", FromHost: "elsewhere", LoginStartTime: time.Unix(1, 5)}
			}
			b, chk := given(raw)
			defer func() { out["argmod"] = chk() }()
			if err := a.UnmarshalText(b); err != nil {
				return err
			}
			as = append(as, a)
		case "recentfile":
			rs, err := pttbbs.OpenLoginRecentFile(e.fileOf("log", raw))
			if err != nil {
				return err
			}
			for _, r := range rs {
				vs = append(vs, recentView(r))
			}
		case "recentline":
			r, err := pttbbs.NewLoginRecentRecord(string(raw))
			if err != nil {
				return err
			}
			vs = append(vs, recentView(r))
		}
		for _, a := range as {
			vs = append(vs, attemptView(a))
		}
		for i, a := range as {
			b, err := a.MarshalText()
			if err != nil {
				return err
			}
			outs = append(outs, fmt.Sprintf("%x", b))
			if v := attemptView(a); fmt.Sprint(v) != fmt.Sprint(vs[i]) {
				vs[i] = v // writing must not change the record
			}
		}
		out["v"], out["out"] = vs, outs
		return nil
	}
	// loginw writes a record
	ops["loginw"] = func(e *Env, c Call, out M) error {
		out["out"], out["home"], out["v"] = "", 0, M{}
		t := c.ints("t")
		a := &pttbbs.LoginAttempt{Success: c.i("s") == 1, UserID: string(unhex(c.s("id"))), FromHost: string(unhex(c.s("host"))),
			LoginStartTime: time.Date(t[0], time.Month(t[1]), t[2], t[3], t[4], t[5], 0, time.UTC)}
		b, err := a.MarshalText()
		if err != nil {
			return err
		}
		out["out"], out["home"] = fmt.Sprintf("%x", b), b2i(a.IsUnderBbsHome())
		g := &pttbbs.LoginAttempt{}
		if err := g.UnmarshalText(b); err != nil {
			return err
		}
		out["v"] = attemptView(g)
		return nil
	}
}
