package main

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"mime/multipart"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// The sample server, run as it is: its own program in a folder next to a home.

const serverAddr = "127.0.0.1:8083"

const serverKey = `-----BEGIN PUBLIC KEY-----
MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEV8qJS5x98i0eM+UUiV5qB2JZhT67
Ojl6/rZ4xKcHM/NLpUJP3wDpeFQfMaMiAKQHoGs6rk5z1l/tUUVjJWrw0A==
-----END PUBLIC KEY-----`

func init() {
	ops["srv"] = func(e *Env, c Call, out M) error {
		lastToken.Store("none")
		home := filepath.Join(e.root, "home", "bbs")
		cwd := filepath.Join(e.root, "serverlet")
		for _, d := range []string{home, cwd} {
			if err := os.MkdirAll(d, 0755); err != nil {
				return err
			}
		}
		put := func(name, kind, list, tail string) error {
			p := filepath.Join(home, name)
			switch kind {
			case "missing":
				return nil
			case "dir":
				return os.MkdirAll(p, 0755)
			}
			var all []byte
			for _, r := range c.strs(list) {
				all = append(all, unhex(r)...)
			}
			return os.WriteFile(p, append(all, unhex(c.s(tail))...), 0644)
		}
		if err := put(".PASSWDS", c.s("pwkind"), "recs", "pwtail"); err != nil {
			return err
		}
		if err := put(".BRD", c.s("brdkind"), "brds", "brdtail"); err != nil {
			return err
		}
		if l, err := net.Listen("tcp", ":8083"); err != nil {
			panic("harness: port 8083 is in use: " + err.Error())
		} else {
			l.Close()
		}
		cmd := exec.Command(os.Getenv("VERIF_SERVERLET"))
		cmd.Dir = cwd
		cmd.Env = append(os.Environ(), "TZ=UTC")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			return err
		}
		gone := make(chan bool)
		go func() { cmd.Wait(); close(gone) }()
		e.atClose = append(e.atClose, func() { cmd.Process.Kill(); <-gone })
		out["up"] = 0
		for k := 0; k < 3000; k++ {
			conn, err := net.DialTimeout("tcp", serverAddr, time.Second)
			if err == nil {
				conn.Close()
				out["up"] = 1
				return nil
			}
			select {
			case <-gone:
				return fmt.Errorf("the server has ended")
			case <-time.After(5 * time.Millisecond):
			}
		}
		return fmt.Errorf("the server does not answer")
	}

	ops["reqs"] = func(e *Env, c Call, out M) error {
		qs := c.list("reqs")
		time.Sleep(time.Duration(c.i("wait")) * time.Millisecond)
		rs := make([]M, len(qs))
		one := func(i int) {
			q := Call(qs[i].(map[string]interface{}))
			rs[i] = ask(q)
		}
		if c.i("conc") == 1 {
			var wg sync.WaitGroup
			for i := range qs {
				wg.Add(1)
				go func(i int) { defer wg.Done(); one(i) }(i)
			}
			wg.Wait()
		} else {
			for i := range qs {
				one(i)
			}
		}
		out["rs"] = rs
		return nil
	}

	// hammer: requests which only read, each again and again, all at once; what it recorded is a list of
	// requests and their distinct answers
	ops["hammer"] = func(e *Env, c Call, out M) error {
		qs := c.list("reqs")
		answers := make([][]M, len(qs))
		until := time.Now().Add(2 * time.Second)
		start := make(chan bool)
		var wg sync.WaitGroup
		for i := range qs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				q := Call(qs[i].(map[string]interface{}))
				client := &http.Client{Timeout: 15 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 1},
					CheckRedirect: serverClient.CheckRedirect}
				defer client.CloseIdleConnections()
				<-start
				seen := map[string]bool{}
				for k := 0; k < c.i("reps") && len(seen) < 3 && (k == 0 || time.Now().Before(until)); k++ {
					a := askBy(client, q)
					b, err := json.Marshal(a)
					if err != nil {
						panic("harness: " + err.Error())
					}
					if !seen[string(b)] {
						seen[string(b)] = true
						answers[i] = append(answers[i], a)
					}
				}
			}(i)
		}
		close(start)
		wg.Wait()
		reqs, rs := []interface{}{}, []M{}
		for i, as := range answers {
			for _, a := range as {
				reqs, rs = append(reqs, qs[i]), append(rs, a)
			}
		}
		out["op"], out["reqs"], out["rs"] = "reqs", reqs, rs
		return nil
	}
}

var serverClient = &http.Client{Timeout: 15 * time.Second, Transport: &http.Transport{DisableKeepAlives: true},
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

// lastToken is the token which the server granted last
var lastToken atomic.Value

func percent(b []byte) string {
	var sb strings.Builder
	for _, x := range b {
		if x >= '0' && x <= '9' || x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' {
			sb.WriteByte(x)
		} else {
			fmt.Fprintf(&sb, "%%%02X", x)
		}
	}
	return sb.String()
}

// ask performs one request; k is token, info, error, none (an answer which says nothing) or lost
func ask(q Call) M { return askBy(serverClient, q) }

func askBy(client *http.Client, q Call) M {
	url := "http://" + serverAddr
	var body io.Reader
	ct := ""
	if q.s("what") == "token" {
		url += "/v1/token"
		u, p := percent(unhex(q.s("u"))), percent(unhex(q.s("p")))
		ct = "application/x-www-form-urlencoded"
		switch q.s("via") {
		case "query":
			url += "?username=" + u + "&password=" + p
			ct = ""
		case "split":
			url += "?username=" + u
			body = strings.NewReader("password=" + p)
		case "nouser":
			body = strings.NewReader("password=" + p)
		case "nopw":
			body = strings.NewReader("username=" + u)
		case "multi":
			var b bytes.Buffer
			w := multipart.NewWriter(&b)
			w.WriteField("username", string(unhex(q.s("u"))))
			w.WriteField("password", string(unhex(q.s("p"))))
			w.Close()
			body, ct = &b, w.FormDataContentType()
		case "both": // one user in the body, another in the query
			url += "?username=" + percent(unhex(q.s("u2"))) + "&password=" + percent(unhex(q.s("p2")))
			body = strings.NewReader("username=" + u + "&password=" + p)
		case "two": // a user twice
			body = strings.NewReader("username=" + u + "&password=" + p + "&username=" + percent(unhex(q.s("u2"))) + "&password=" + percent(unhex(q.s("p2"))))
		default:
			body = strings.NewReader("grant_type=password&username=" + u + "&password=" + p)
		}
	} else if q.s("what") == "raw" {
		return askRaw(q)
	} else if q.has("path") {
		url += q.s("path")
	} else {
		url += "/v1/users/" + percent(unhex(q.s("u"))) + "/information"
	}
	req, err := http.NewRequest(q.s("m"), url, body)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if ct != "" {
		req.Header.Set("Content-Type", ct)
	}
	if q.has("auth") {
		last, _ := lastToken.Load().(string)
		req.Header.Set("Authorization", strings.Replace(q.s("auth"), "last", last, 1))
	}
	t0 := time.Now().Unix()
	resp, err := client.Do(req)
	if err != nil {
		return M{"k": "lost", "msg": err.Error()}
	}
	defer resp.Body.Close()
	text, err := io.ReadAll(resp.Body)
	t1 := time.Now().Unix()
	if err != nil {
		return M{"k": "lost", "msg": err.Error()}
	}
	return answer(resp.StatusCode, text, t0, t1)
}

func answer(status int, text []byte, t0, t1 int64) M {
	var v map[string]interface{}
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	d.Decode(&v)
	a := M{"k": "none", "status": status}
	if tok, ok := v["access_token"]; ok {
		a["k"] = "token"
		lastToken.Store(fmt.Sprint(tok))
		readToken(a, fmt.Sprint(tok), t0, t1)
	} else if data, ok := v["data"].(map[string]interface{}); ok {
		a["k"] = "info"
		a["v"] = readInfo(data)
	} else if list, ok := v["data"].([]interface{}); ok {
		a["k"] = "boards"
		bs := []M{}
		for _, x := range list {
			m, _ := x.(map[string]interface{})
			bs = append(bs, readBoard(m))
		}
		a["bs"] = bs
	} else if x, ok := v["error"].(string); ok && x != "" || status >= 400 {
		a["k"] = "error"
	}
	return a
}

// askRaw sends the bytes of a request as they are
func askRaw(q Call) M {
	t0 := time.Now().Unix()
	conn, err := net.DialTimeout("tcp", serverAddr, 10*time.Second)
	if err != nil {
		return M{"k": "lost", "msg": err.Error()}
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(15 * time.Second))
	if _, err := conn.Write(unhex(q.s("req"))); err != nil {
		return M{"k": "lost", "msg": err.Error()}
	}
	resp, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: q.s("m")})
	if err != nil {
		return M{"k": "lost", "msg": err.Error()}
	}
	defer resp.Body.Close()
	text, err := io.ReadAll(resp.Body)
	if err != nil {
		return M{"k": "lost", "msg": err.Error()}
	}
	return answer(resp.StatusCode, text, t0, time.Now().Unix())
}

// readBoard: the fields of a board as the program shows them, by the kind of their values
func readBoard(d map[string]interface{}) M {
	m := M{}
	for k, v := range d {
		switch x := v.(type) {
		case json.Number:
			n, err := x.Int64()
			if err != nil {
				continue
			}
			switch k {
			case "VoteLimitPosts", "VoteLimitLogins", "PostLimitPosts", "PostLimitLogins", "BVote", "FastRecommendPause", "VoteLimitBadPost", "PostLimitBadPost":
				m[k] = n
			default:
				m[k] = []int{int(n >> 16), int(n & 0xffff)}
			}
		case string:
			if k == "BrdName" {
				m[k] = b5hex(x)
			} else if t, err := time.Parse(time.RFC3339, x); err == nil {
				n := t.Unix()
				m[k] = []int{int(n >> 16), int(n & 0xffff)}
			}
		case []interface{}:
			var b []byte
			for _, y := range x {
				if n, ok := y.(json.Number); ok {
					i, _ := n.Int64()
					b = append(b, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
				}
			}
			m[k] = hx(string(b))
		}
	}
	return m
}

func readToken(a M, tok string, t0, t1 int64) {
	a["alg"], a["sig"], a["sub"], a["from"], a["to"] = "", 0, "", -1, -100000
	p := strings.Split(tok, ".")
	if len(p) != 3 {
		return
	}
	dec := func(s string) []byte { b, _ := base64.RawURLEncoding.DecodeString(s); return b }
	var head, claims map[string]interface{}
	json.Unmarshal(dec(p[0]), &head)
	d := json.NewDecoder(bytes.NewReader(dec(p[1])))
	d.UseNumber()
	d.Decode(&claims)
	a["alg"] = fmt.Sprint(head["alg"])
	a["sub"] = hx(fmt.Sprint(claims["sub"]))
	if n, ok := claims["exp"].(json.Number); ok {
		if x, err := n.Int64(); err == nil {
			a["from"], a["to"] = x-t0, t1-x
		}
	}
	blk, _ := pem.Decode([]byte(serverKey))
	k, err := x509.ParsePKIXPublicKey(blk.Bytes)
	if err != nil {
		panic("harness: " + err.Error())
	}
	sig := dec(p[2])
	if len(sig) == 64 {
		h := sha256.Sum256([]byte(p[0] + "." + p[1]))
		if ecdsa.Verify(k.(*ecdsa.PublicKey), h[:], new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])) {
			a["sig"] = 1
		}
	}
}

func readInfo(d map[string]interface{}) M {
	m := M{}
	for k, v := range d {
		s, ok := v.(string)
		if !ok {
			continue
		}
		switch k {
		case "number_of_login_days", "number_of_posts", "money":
			if n, err := strconv.ParseInt(s, 10, 64); err == nil {
				m[k] = []int{int(n >> 16), int(n & 0xffff)}
			}
		case "last_login_time":
			if t, err := time.Parse(time.RFC3339, s); err == nil {
				n := t.Unix()
				m[k] = []int{int(n >> 16), int(n & 0xffff)}
			}
		case "nickname", "realname":
			m[k] = b5hex(s)
		default:
			m[k] = hx(s)
		}
	}
	return m
}
