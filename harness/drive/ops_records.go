package main

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
	"time"
	"unsafe"

	bbs "github.com/Ptt-official-app/go-bbs"
	formosabbs "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// A record is shown as its fields.  What the package offers is used: methods first, then exported
// fields; the other fields are reached by name, and left out if there is no field of that name.

type field struct{ name, kind, path, method string }

func fieldsOf(s string) []field {
	var r []field
	for _, l := range strings.Fields(s) {
		p := strings.Split(l, ",")
		f := field{name: p[0], kind: p[1], path: p[2]}
		if len(p) > 3 {
			f.method = p[3]
		}
		r = append(r, f)
	}
	return r
}

var recFields = map[string][]field{
	"user": fieldsOf(`version,u32,Version userid,str,userID,UserID realname,b5,realName,RealName nickname,b5,nickname,Nickname
 password,str,password,HashedPassword userflag,u32,userFlag,UserFlag level,u32,UserLevel logindays,u32,numLoginDays,NumLoginDays
 posts,u32,numPosts,NumPosts firstlogin,time,firstLogin lastlogin,time,lastLogin,LastLogin lasthost,str,lastHost,LastHost
 money,i32,money,Money email,b5,Email address,b5,Address justify,b5,Justify over18,bool,Over18 pagerui,u8,PagerUIType
 pager,u8,Pager invisible,bool,Invisible exmailbox,u32,ExMailBox career,b5,Career role,u32,Role lastseen,time,LastSeen
 setangel,time,TimeSetAngel playangel,time,TimePlayAngel lastsong,time,LastSong loginview,u32,LoginView violatelaw,u16,ViolateLaw
 fivew,u16,Five.Win fivel,u16,Five.Lose fivet,u16,Five.Tie chcw,u16,ChineseChess.Win chcl,u16,ChineseChess.Lose
 chct,u16,ChineseChess.Tie conn6w,u16,Conn6.Win conn6l,u16,Conn6.Lose conn6t,u16,Conn6.Tie gow,u16,GoChess.Win
 gol,u16,GoChess.Lose got,u16,GoChess.Tie darkw,u16,DarkChess.Win darkl,u16,DarkChess.Lose darkt,u16,DarkChess.Tie
 uaversion,u8,UaVersion signature,u8,Signature badpost,u8,BadPost myangel,str,MyAngel elo,u16,ChessEloRating withme,u32,WithMe
 rmbadpost,time,TimeRemoveBadPost lawtime,time,TimeViolateLaw`),
	"info": fieldsOf(`uid,i32,uid pid,i32,pid sockaddr,i32,SockAddr level,u32,UserLevel userid,str,userID nickname,b5,nickname
 from,str,from fromip,u32,fromIP darkw,u16,DarkChess.Win darkl,u16,DarkChess.Lose darkt,u16,DarkChess.Tie
 angelpause,u8,AngelPause friendtotal,i32,FriendTotal numfriends,i16,NumFriends myfriend,arr,MyFriend
 friendonline,arr,FriendOnline reject,arr,Reject msgcount,u8,MsgCount msgs,arr,Msgs birth,bool,Birth active,bool,Active
 invisible,bool,Invisible mode,u8,Mode pager,bool,Pager conn6w,u16,Conn6.Win conn6l,u16,Conn6.Lose conn6t,u16,Conn6.Tie
 lastact,time,LastAct alerts,u8,Alerts signature,u8,Signature destuid,i32,DestUID destuip,i32,DestUIP
 sockactive,u8,SockActive inchat,u8,InChat chatid,str,ChatID lockmode,u8,LockMode turn,bool,Turn mateid,b5,MateID
 color,u8,Color fivew,u16,Five.Win fivel,u16,Five.Lose fivet,u16,Five.Tie chcw,u16,ChineseChess.Win
 chcl,u16,ChineseChess.Lose chct,u16,ChineseChess.Tie elo,u16,ChessEloRating gow,u16,GoChess.Win gol,u16,GoChess.Lose
 got,u16,GoChess.Tie withme,u32,WithMe brcid,u32,brcID wbtime,time,wbTime`),
	"file": fieldsOf(`filename,str,filename,Filename modified,time,modified,Modified recommend,i8,recommend,Recommend
 owner,str,owner,Owner date,str,date,Date title,b5,title,Title money,u32,money,Money anno,u32,AnnoUID vl,arr,VoteLimits
 filemode,u8,Filemode`),
	"board": fieldsOf(`brdname,b5,BrdName,BoardID title,b5,title,Title bm,str,bm brdattr,u32,Brdattr chesscountry,str,ChessCountry
 votelimitposts,u8,VoteLimitPosts votelimitlogins,u8,VoteLimitLogins bupdate,time,BUpdate
 postlimitposts,u8,PostLimitPosts,GetPostLimitPosts postlimitlogins,u8,PostLimitLogins,GetPostLimitLogins bvote,u8,BVote
 vtime,time,VTime level,u32,Level permreload,time,PermReload gid,i32,Gid next,arr,Next firstchild,arr,FirstChild
 parent,i32,Parent childcount,i32,ChildCount nuser,i32,Nuser postexpire,i32,PostExpire endgamble,time,EndGamble
 posttype,b5,PostType posttypef,str,PostTypeF fastpause,u8,FastRecommendPause votelimitbad,u8,VoteLimitBadPost
 postlimitbad,u8,PostLimitBadPost,GetPostLimitBadPost srexpire,time,SRexpire`),
	"formosa": fieldsOf(`filename,str,Filename postno,i32,Postno owner,str,Owner modified,time,Modified title,b5,Title`),
}

// at is the field at path of the record behind p, writable
func at(p interface{}, path string) (reflect.Value, bool) {
	v := reflect.ValueOf(p).Elem()
	for _, n := range strings.Split(path, ".") {
		if v.Kind() != reflect.Struct {
			return v, false
		}
		v = v.FieldByName(n)
		if !v.IsValid() {
			return v, false
		}
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem(), true
}

func toInt(v reflect.Value) (int64, bool) {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int(), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(v.Uint()), true
	case reflect.Bool:
		if v.Bool() {
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

// arrHex is the bytes of an array, or of a struct of numbers
func arrHex(v reflect.Value) string {
	var sb strings.Builder
	switch v.Kind() {
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			sb.WriteString(arrHex(v.Index(i)))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			sb.WriteString(arrHex(v.Field(i)))
		}
	default:
		n, _ := toInt(v)
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, uint64(n))
		return fmt.Sprintf("%x", b[:v.Type().Size()])
	}
	return sb.String()
}

// fillArr is the inverse
func fillArr(v reflect.Value, b []byte) []byte {
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			b = fillArr(v.Index(i), b)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b = fillArr(v.Index(i), b)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			b = fillArr(v.Field(i), b)
		}
	default:
		n := int(v.Type().Size())
		var u uint64
		for k := n - 1; k >= 0; k-- {
			u = u<<8 | uint64(b[k])
		}
		switch v.Kind() {
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
			sh := uint(64 - 8*n)
			v.SetInt(int64(u<<sh) >> sh)
		default:
			v.SetUint(u)
		}
		b = b[n:]
	}
	return b
}

// show is the value as the specification writes it
func show(kind string, v reflect.Value) (interface{}, bool) {
	switch kind {
	case "str", "b5":
		if v.Kind() != reflect.String {
			return nil, false
		}
		if kind == "b5" {
			return b5hex(v.String()), true
		}
		return hx(v.String()), true
	case "time":
		t, ok := v.Interface().(time.Time)
		return timePair(t), ok
	case "arr":
		return arrHex(v), true
	}
	n, ok := toInt(v)
	if !ok {
		return nil, false
	}
	if kind == "u32" || kind == "i32" {
		if n < -1<<31 || n > 1<<32-1 || kind == "i32" && n > 1<<31-1 || kind == "u32" && n < 0 {
			return []int{int(n >> 40), -1}, true // not a number of this field
		}
		return []int{int(n >> 16), int(n & 0xffff)}, true
	}
	return int(n), true
}

func set(kind string, v reflect.Value, x interface{}) bool {
	switch kind {
	case "str", "b5":
		if v.Kind() != reflect.String {
			return false
		}
		s := string(unhex(x.(string)))
		if kind == "b5" {
			s = b5text(x.(string))
		}
		v.SetString(s)
		return true
	case "time":
		p := x.([]interface{})
		t := pairTime([]int{int(p[0].(float64)), int(p[1].(float64))})
		if t.Unix() == 0 {
			t = time.Time{} // not set
		}
		v.Set(reflect.ValueOf(t))
		return true
	case "arr":
		fillArr(v, unhex(x.(string)))
		return true
	}
	var n int64
	if p, ok := x.([]interface{}); ok {
		n = int64(p[0].(float64))<<16 | int64(p[1].(float64))
	} else {
		n = int64(x.(float64))
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(n != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(n))
	default:
		return false
	}
	return true
}

func recView(lay string, p interface{}) M {
	out := M{}
	for _, f := range recFields[lay] {
		var v reflect.Value
		if f.method != "" {
			v = reflect.ValueOf(p).MethodByName(f.method).Call(nil)[0]
		} else {
			var ok bool
			if v, ok = at(p, f.path); !ok {
				continue
			}
		}
		if x, ok := show(f.kind, v); ok {
			out[f.name] = x
		}
	}
	if b, ok := p.(*pttbbs.BoardHeader); ok {
		out["bm"] = hx(strings.Join(b.BM(), "/"))
	}
	switch p.(type) {
	case *pttbbs.BoardHeader, *pttbbs.FileHeader:
		out["asked"], out["on"] = settings(p)
	}
	return out
}

// settings are the methods Is... and those for which the answer is true
func settings(p interface{}) (asked, on []string) {
	asked, on = []string{}, []string{}
	v := reflect.ValueOf(p)
	for i := 0; i < v.NumMethod(); i++ {
		name := v.Type().Method(i).Name
		if f, ok := v.Method(i).Interface().(func() bool); ok && strings.HasPrefix(name, "Is") {
			asked = append(asked, name)
			if f() {
				on = append(on, name)
			}
		}
	}
	return
}

// the public setters, where there are some
func setField(lay string, p interface{}, f field, x interface{}) bool {
	text := func() string {
		if f.kind == "b5" {
			return b5text(x.(string))
		}
		return string(unhex(x.(string)))
	}
	switch h := p.(type) {
	case *pttbbs.FileHeader:
		switch f.name {
		case "filename":
			h.SetFilename(text())
			return true
		case "owner":
			h.SetOwner(text())
			return true
		case "date":
			h.SetDate(text())
			return true
		case "title":
			h.SetTitle(text())
			return true
		}
	case *pttbbs.BoardHeader:
		switch f.name {
		case "brdname":
			h.SetBoardID(text())
			return true
		case "title":
			h.SetTitle(text())
			return true
		case "next", "firstchild":
			if v, ok := at(p, f.path); ok && v.Kind() == reflect.Slice && v.Len() == 0 {
				v.Set(reflect.MakeSlice(v.Type(), 2, 2))
			}
		}
	}
	v, ok := at(p, f.path)
	return ok && set(f.kind, v, x)
}

func recRead(e *Env, lay, via string, raw []byte, out M) (ps []interface{}, err error) {
	out["argmod"] = 0
	if via == "file" {
		name := e.fileOf("rec", raw)
		switch lay {
		case "user":
			us, err := pttbbs.OpenUserecFile(name)
			for _, u := range us {
				ps = append(ps, u)
			}
			return ps, err
		case "info":
			us, err := pttbbs.OpenUserInfoCache(name)
			for _, u := range us {
				ps = append(ps, u)
			}
			return ps, err
		case "file":
			us, err := pttbbs.OpenFileHeaderFile(name)
			for _, u := range us {
				ps = append(ps, u)
			}
			return ps, err
		case "board":
			us, err := pttbbs.OpenBoardHeaderFile(name)
			for _, u := range us {
				ps = append(ps, u)
			}
			return ps, err
		case "formosa":
			us, err := formosabbs.OpenFormosaBBSFileHeaderFile(name)
			for _, u := range us {
				ps = append(ps, u)
			}
			return ps, err
		}
	}
	b, chk := given(raw)
	defer func() { out["argmod"] = chk() }()
	var p interface{}
	switch lay {
	case "user":
		p, err = pttbbs.UnmarshalUserec(b)
	case "info":
		p = pttbbs.UnmarshalUserInfo(b)
	case "file":
		p, err = pttbbs.NewFileHeaderWithByte(b)
	case "board":
		p, err = pttbbs.UnmarshalBoardHeader(b)
	case "formosa":
		p, err = formosabbs.NewFomosaBBSFileHeaderWithByte(b)
	}
	return []interface{}{p}, err
}

func recWrite(lay string, p interface{}) ([]byte, error) {
	switch x := p.(type) {
	case *pttbbs.Userec:
		return x.MarshalBinary()
	case *pttbbs.UserInfoCache:
		return x.MarshalBinary(), nil
	case *pttbbs.FileHeader:
		return x.MarshalToByte()
	case *pttbbs.BoardHeader:
		return x.MarshalBinary()
	}
	return nil, nil
}

func init() {
	// codec reads records, shows them, writes them again; then changes fields of one, writes and reads it
	ops["codec"] = func(e *Env, c Call, out M) error {
		lay := c.s("lay")
		out["v"], out["out"], out["applied"], out["out2"], out["v2"] = []M{}, []string{}, []string{}, "", M{}
		ps, err := recRead(e, lay, c.s("via"), unhex(c.s("c")), out)
		if err != nil {
			return err
		}
		vs, outs := []M{}, []string{}
		for _, p := range ps {
			vs = append(vs, recView(lay, p))
			b, err := recWrite(lay, p)
			if err != nil {
				return err
			}
			outs = append(outs, fmt.Sprintf("%x", b))
		}
		out["v"], out["out"] = vs, outs
		k := c.i("k")
		if len(c.list("set")) == 0 || k >= len(ps) || lay == "formosa" {
			return nil
		}
		applied := []string{}
		for _, it := range c.list("set") {
			s := Call(it.(map[string]interface{}))
			for _, f := range recFields[lay] {
				if f.name == s.s("f") && setField(lay, ps[k], f, s["v"]) {
					applied = append(applied, f.name)
				}
			}
		}
		out["applied"] = applied
		b, err := recWrite(lay, ps[k])
		if err != nil {
			return err
		}
		out["out2"] = fmt.Sprintf("%x", b)
		am := M{}
		qs, err := recRead(e, lay, "", b, am)
		if err != nil {
			return err
		}
		out["v2"] = recView(lay, qs[0])
		if am["argmod"] != 0 {
			out["argmod"] = 1
		}
		return nil
	}
	ops["users"] = func(e *Env, c Call, out M) error {
		out["v"] = []M{}
		rs, err := e.db(c).ReadUserRecords()
		if err != nil {
			return err
		}
		vs := []M{}
		for _, r := range rs {
			vs = append(vs, userRecView(r))
		}
		out["v"] = vs
		e.hand(rs, func() interface{} {
			w := []M{}
			for _, r := range rs {
				w = append(w, userRecView(r))
			}
			return w
		})
		return nil
	}
}

// userRecView is what every kind of BBS tells about an account
func userRecView(r bbs.UserRecord) M {
	return M{"userid": hx(r.UserID()), "password": hx(r.HashedPassword()), "nickname": b5hex(r.Nickname()),
		"realname": b5hex(r.RealName()), "logindays": pairInt(r.NumLoginDays()), "posts": pairInt(r.NumPosts()),
		"money": []int{r.Money() >> 16, r.Money() & 0xffff}, "lastlogin": timePair(r.LastLogin()),
		"lasthost": hx(r.LastHost()), "userflag": pair(r.UserFlag())}
}
