package pttbbs

// Compiled into the package by an overlay (see lib/p_settings.py): plays histories of account files and
// questions for a user's settings, and records what the code answers.

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/Ptt-official-app/go-bbs"
)

type verifCall struct {
	Op  string   `json:"op"`
	C   string   `json:"c"`
	ID  string   `json:"id"`
	Ids []string `json:"ids"`
}

func verifAsk(idhex string) (m map[string]interface{}) {
	m = map[string]interface{}{"op": "ask", "id": idhex, "r": "ok", "asked": []string{}, "on": []string{}}
	defer func() {
		if x := recover(); x != nil {
			m["r"] = fmt.Sprint("panic: ", x)
		}
	}()
	id, _ := hex.DecodeString(idhex)
	f, err := getUserFlagAllByID(string(id))
	if err != nil || f == nil {
		m["r"] = "err"
		if err == nil {
			m["r"] = "nil without an error"
		}
		return
	}
	asked, on := []string{}, []string{}
	v := reflect.ValueOf(f).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Kind() == reflect.Bool {
			asked = append(asked, v.Type().Field(i).Name)
			if v.Field(i).Bool() {
				on = append(on, v.Type().Field(i).Name)
			}
		}
	}
	m["asked"], m["on"] = asked, on
	return
}

func TestVerifSettings(t *testing.T) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	dir := t.TempDir()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var s struct {
			ID    string      `json:"id"`
			Calls []verifCall `json:"calls"`
		}
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			t.Fatal(err)
		}
		home := filepath.Join(dir, "h")
		os.RemoveAll(home)
		os.MkdirAll(home, 0755)
		userRecs = nil
		ev := []interface{}{}
		for _, c := range s.Calls {
			switch c.Op {
			case "load":
				b, _ := hex.DecodeString(c.C)
				if err := os.WriteFile(filepath.Join(home, ".PASSWDS"), b, 0644); err != nil {
					t.Fatal(err)
				}
				m := map[string]interface{}{"op": "load", "c": c.C, "r": "ok", "flags": [][]uint32{}}
				db, err := bbs.Open("pttbbs", "file://"+home)
				if err != nil {
					t.Fatal(err)
				}
				rs, err := db.ReadUserRecords()
				if err != nil {
					m["r"] = "err"
					rs = nil
				}
				fl := [][]uint32{}
				for _, r := range rs {
					fl = append(fl, []uint32{r.UserFlag() >> 16, r.UserFlag() & 0xffff})
				}
				m["flags"] = fl
				userRecs = rs
				ev = append(ev, m)
			case "ask":
				ev = append(ev, verifAsk(c.ID))
			case "par": // several at once
				ms := make([]map[string]interface{}, len(c.Ids))
				var wg sync.WaitGroup
				for i := range c.Ids {
					wg.Add(1)
					go func(i int) { defer wg.Done(); ms[i] = verifAsk(c.Ids[i]) }(i)
				}
				wg.Wait()
				for _, m := range ms {
					ev = append(ev, m)
				}
			}
		}
		b, err := json.Marshal(map[string]interface{}{"id": s.ID, "ev": ev})
		if err != nil {
			t.Fatal(err)
		}
		if strings.Contains(string(b), "\n") {
			t.Fatal("newline")
		}
		out.Write(append(b, '\n'))
	}
}
