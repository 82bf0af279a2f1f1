// C30: requests at the same time are answered as they are alone.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/Ptt-official-app/go-bbs/serverlet"
	"github.com/Ptt-official-app/go-bbs/verifmcshim/vhttp"
	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"

	"verifmc/des"
	"verifmc/kit"
	"verifmc/pb"
	"verifmc/vx"
)

func main() {
	if os.Getenv("GORACE") == "" {
		// a data race ends the process, which is a violation
		self, err := os.Executable()
		must(err)
		panic(syscall.Exec(self, os.Args, append(os.Environ(), "GORACE=history_size=7 halt_on_error=1 exitcode=66 atexit_sleep_ms=0")))
	}
	if p := os.Getenv("C30_GROUP"); p != "" {
		fresh(p)
		return
	}
	kit.Main(kit.Config{
		ID: "C30", Level: kit.ModelChecking,
		Rule:        "every pair of the requests in the notes (and, in the thorough tier, every triple, and every pair after every other request), each group to a server of its own, with every schedule of the stated number of preemptions, under the race detector, twice in a row; the answers are compared with those to the requests alone; a state is what all threads have done so far",
		Assumptions: []string{"net/http gives each request a goroutine and is right; the handler of the server is called without the network", "two requests without synchronisation and without data race do not see the order in which their memory accesses take place"},
		CaseTimeout: 10 * time.Minute,
		Body:        body,
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type request struct{ Method, Path, Type, Body, Auth string }

func (q request) String() string {
	return strings.TrimSpace(fmt.Sprintf("%s %s %s %s%s", q.Method, q.Path, q.Body, q.Type, q.Auth))
}

type member struct {
	id, pw, nick string
	n            uint32
}

var members = []member{{"SYSOP", "secret", "站長", 1}, {"pichu", "pika", "皮丘", 2}, {"guest", "", "訪客", 3}, {"Zebra12chars", "longpass", "斑馬", 4}}

func setup(dir string) {
	home := filepath.Join(dir, "home", "bbs")
	must(os.MkdirAll(home, 0755))
	must(os.MkdirAll(filepath.Join(dir, "serverlet"), 0755))
	var us, bs []byte
	for i, m := range members {
		b := make([]byte, 512)
		le := binary.LittleEndian
		le.PutUint32(b, 4194)
		copy(b[4:17], m.id)
		copy(b[17:37], pb.Big5("本名"+m.nick))
		copy(b[37:61], pb.Big5(m.nick))
		h, ok := des.Crypt([]byte(m.pw), "a"+strconv.Itoa(i))
		if !ok {
			panic("salt")
		}
		copy(b[61:75], h)
		le.PutUint32(b[88:], 100+m.n)
		le.PutUint32(b[92:], 200+m.n)
		le.PutUint32(b[100:], 1500000000+m.n)
		copy(b[104:120], "10.0.0."+strconv.Itoa(i))
		le.PutUint32(b[120:], 300+m.n)
		us = append(us, b...)
		bs = append(bs, pb.BoardBytes(i)...)
	}
	us = append(us, make([]byte, 512)...)
	must(os.WriteFile(filepath.Join(home, ".PASSWDS"), us, 0644))
	must(os.WriteFile(filepath.Join(home, ".BRD"), bs, 0644))
}

func requests() (l []request) {
	const form = "application/x-www-form-urlencoded"
	post := func(id, pw string) {
		l = append(l, request{"POST", "/v1/token", form, url.Values{"username": {id}, "password": {pw}}.Encode(), ""})
	}
	post(members[0].id, members[0].pw)
	post(members[1].id, members[1].pw)
	post(members[3].id, members[3].pw)
	post(members[0].id, members[1].pw)
	post(members[1].id, members[0].pw)
	post(members[1].id, "wrong")
	post(members[2].id, "")
	post("nobody", "wrong")
	post("", "")
	l = append(l,
		request{"POST", "/v1/token", form, "", ""},
		request{"POST", "/v1/token", form, "username=%zz&password=%", ""},
		request{"POST", "/v1/token", "application/json", `{"username":"SYSOP","password":"secret"}`, ""},
		request{"GET", "/v1/token", "", "", ""},
		request{"GET", "/v1/boards", "", "", ""},
		request{"POST", "/v1/boards", form, "a=b", ""},
		request{"GET", "/v1/classes/1", "", "", ""},
	)
	for _, m := range members[:3] {
		l = append(l, request{"GET", "/v1/users/" + m.id + "/information", "", "", ""})
	}
	l = append(l,
		request{"GET", "/v1/users/SYSOP/information", "", "", "Bearer x.y.z"},
		request{"GET", "/v1/users/nobody/information", "", "", ""},
		request{"GET", "/v1/users/pichu/favorites", "", "", ""},
		request{"GET", "/v1/users/pichu", "", "", ""},
		request{"GET", "/nothing", "", "", ""},
	)
	return
}

// ---------------------------------------------------------------- answers

const publicKey = `-----BEGIN PUBLIC KEY-----
MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEV8qJS5x98i0eM+UUiV5qB2JZhT67
Ojl6/rZ4xKcHM/NLpUJP3wDpeFQfMaMiAKQHoGs6rk5z1l/tUUVjJWrw0A==
-----END PUBLIC KEY-----`

// render describes an answer, with the signature of a token replaced by whether it is right.
func render(w *httptest.ResponseRecorder) string {
	if w == nil {
		return "no answer"
	}
	b := w.Body.String()
	var m map[string]interface{}
	if json.Unmarshal([]byte(b), &m) == nil {
		if t, ok := m["access_token"].(string); ok {
			b = strings.Replace(b, t, token(t), 1)
		}
	}
	var hs []string
	for k, v := range w.Header() {
		hs = append(hs, k+"="+strings.Join(v, ","))
	}
	sort.Strings(hs)
	return fmt.Sprintf("%d %v %s", w.Code, hs, b)
}

func token(t string) string {
	p := strings.Split(t, ".")
	if len(p) != 3 {
		return "no token: " + t
	}
	head, err := base64.RawURLEncoding.DecodeString(p[0])
	if err != nil {
		return "damaged head: " + t
	}
	claims, err := base64.RawURLEncoding.DecodeString(p[1])
	if err != nil {
		return "damaged claims: " + t
	}
	s, err := base64.RawURLEncoding.DecodeString(p[2])
	if err != nil || len(s) != 64 {
		return "damaged signature: " + t
	}
	blk, _ := pem.Decode([]byte(publicKey))
	k, err := x509.ParsePKIXPublicKey(blk.Bytes)
	must(err)
	h := sha256.Sum256([]byte(p[0] + "." + p[1]))
	good := ecdsa.Verify(k.(*ecdsa.PublicKey), h[:], new(big.Int).SetBytes(s[:32]), new(big.Int).SetBytes(s[32:]))
	return fmt.Sprintf("token %s %s signed %v", head, claims, good)
}

// ---------------------------------------------------------------- a group in a process of its own

type group struct {
	First    []request // one after another, before
	Requests []request
	Bound    int
	Times    int // the requests behind the first are made, while that one is made once
	Dir      string
	Alone    []string
}

type report struct {
	Err                  string
	Got                  []string
	Evals, Trans, Traces int64
	States               int
}

func clock(o vsched.Op) vsched.Act {
	switch o.Kind {
	case "time":
		return vsched.Act{Do: vsched.Value, N: 0}
	case "rand", "seed":
		return vsched.Act{Do: vsched.Value, N: 7}
	}
	return vsched.Act{}
}

func fresh(arg string) {
	var g group
	in, err := os.ReadFile(arg)
	must(err)
	must(json.Unmarshal(in, &g))
	r := kit.Bare(g.Dir)
	must(os.Chdir(filepath.Join(g.Dir, "serverlet")))
	os.Stdout, _ = os.Open(os.DevNull)
	var rep report
	ended := make(chan struct{})
	go func() { serverlet.VerifMain(); close(ended) }()
	var h http.Handler
	select {
	case h = <-vhttp.Handlers:
	case <-ended:
		rep.Err = "the server ended"
	case <-time.After(time.Minute):
		rep.Err = "the server did not start"
	}
	if h != nil {
		err = kit.Guard(func() error { return together(r, h, g, &rep) })
		if err != nil {
			rep.Err = err.Error()
		}
	}
	rep.Evals, rep.Trans, rep.Traces, rep.States = r.Counts()
	b, err := json.Marshal(rep)
	must(err)
	must(os.WriteFile(filepath.Join(g.Dir, "report"), b, 0644))
}

func (q request) build() *http.Request {
	req := httptest.NewRequest(q.Method, q.Path, strings.NewReader(q.Body))
	if q.Type != "" {
		req.Header.Set("Content-Type", q.Type)
	}
	if q.Auth != "" {
		req.Header.Set("Authorization", q.Auth)
	}
	return req
}

func together(r *kit.Run, h http.Handler, g group, rep *report) error {
	for _, q := range g.First {
		h.ServeHTTP(httptest.NewRecorder(), q.build())
	}
	// the second time what is made at first use is there
	for round := 0; round < 2; round++ {
		err := vx.Explore(r, 0, func(e *vx.Exec) error {
			got := make([]*httptest.ResponseRecorder, len(g.Requests))
			var bodies []func()
			for k, q := range g.Requests {
				k, req := k, q.build()
				got[k] = httptest.NewRecorder()
				q := q
				bodies = append(bodies, func() {
					for n := 1; k > 0 && n < g.Times; n++ {
						h.ServeHTTP(httptest.NewRecorder(), q.build())
					}
					h.ServeHTTP(got[k], req)
				})
			}
			vsched.Env = clock
			var out vsched.Outcome
			var tr *vx.Trace
			if g.Times > 0 {
				vsched.MaxSteps = 20000 * g.Times
				out, tr = vx.Interrupted(r, e, bodies...)
			} else {
				out, tr = vx.Threads(r, e, g.Bound, bodies...)
			}
			vsched.Env = nil
			vsched.Reset()
			if tr.Redundant {
				return nil
			}
			if err := vx.Failure(out); err != nil {
				return fmt.Errorf("%v\n    %v", err, tr)
			}
			r.Trace()
			rep.Got = nil
			for k, q := range g.Requests {
				x := render(got[k])
				rep.Got = append(rep.Got, x)
				if g.Alone != nil && x != g.Alone[k] {
					return fmt.Errorf("%v is answered %.900s\nalone it is answered %.900s\n    %v", q, x, g.Alone[k], tr)
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	return nil
}

func start(g group) (rep report, err error) {
	self, err := os.Executable()
	must(err)
	setup(g.Dir)
	b, err := json.Marshal(g)
	must(err)
	must(os.WriteFile(filepath.Join(g.Dir, "group"), b, 0644))
	c := exec.Command(self)
	var stderr bytes.Buffer
	c.Stderr = &stderr
	c.Dir = g.Dir
	c.Env = append(os.Environ(), "C30_GROUP="+filepath.Join(g.Dir, "group"), "GOMAXPROCS=2")
	if err := c.Run(); err != nil {
		s := stderr.String()
		if len(s) > 4000 {
			s = s[:4000]
		}
		return rep, fmt.Errorf("%v\n%s", err, s)
	}
	b, err = os.ReadFile(filepath.Join(g.Dir, "report"))
	must(err)
	must(json.Unmarshal(b, &rep))
	if rep.Err != "" {
		return rep, fmt.Errorf("%s", rep.Err)
	}
	return rep, nil
}

func body(r *kit.Run) {
	all := requests()
	r.Note("requests", len(all))
	alone := map[int]string{}
	one := func(i int) (string, error) {
		if s, ok := alone[i]; ok {
			return s, nil
		}
		rep, err := start(group{Requests: all[i : i+1], Dir: r.Dir("alone")})
		if err != nil {
			return "", fmt.Errorf("%v alone: %v", all[i], err)
		}
		alone[i] = rep.Got[0]
		return rep.Got[0], nil
	}
	times := 0
	run := func(bound int, first []int, l ...int) {
		name := ""
		g := group{Bound: bound, Times: times}
		if times > 0 {
			name = fmt.Sprintf("%d times during the first: ", times)
		}
		for _, i := range first {
			if len(first) == 1 {
				name += fmt.Sprintf("after %v: ", all[i])
			}
			g.First = append(g.First, all[i])
		}
		if len(first) > 1 {
			name += fmt.Sprintf("after %d times %v: ", len(first), all[first[0]])
		}
		for _, i := range l {
			name += all[i].String() + " | "
			g.Requests = append(g.Requests, all[i])
		}
		r.Check(fmt.Sprintf("%s%d preemptions", name, bound), func() error {
			g.Dir, g.Alone = r.Dir("g"), nil
			for _, i := range l {
				s, err := one(i)
				if err != nil {
					return err
				}
				g.Alone = append(g.Alone, s)
			}
			rep, err := start(g)
			r.Eval(int(rep.Evals))
			r.Trans(int(rep.Trans))
			for i := int64(0); i < rep.Traces; i++ {
				r.Trace()
			}
			for i := 0; i < rep.States; i++ {
				r.State(kit.Hash(name, strconv.Itoa(i)))
			}
			return err
		})
	}
	r.Section("pairs")
	bound := kit.Pick(r, 2, 3)
	r.Note("preemptions", bound)
	for i := range all {
		for j := 0; j <= i; j++ {
			run(bound, nil, i, j)
		}
	}
	r.Section("a request many times during another")
	times = kit.Pick(r, 100, 1000)
	for i := range all {
		for j := range all {
			run(1, nil, i, j)
		}
	}
	times = 0
	r.Section("pairs after many requests")
	for f := range all {
		var first []int
		for i := 0; i < kit.Pick(r, 100, 1000); i++ {
			first = append(first, f)
		}
		for i := range all {
			if i == f || r.Thorough {
				run(1, first, i, f)
			}
		}
	}
	if r.Thorough {
		r.Section("triples")
		for i := range all {
			for j := 0; j <= i; j++ {
				for k := 0; k <= j; k++ {
					run(1, nil, i, j, k)
				}
			}
		}
		r.Section("pairs after a request")
		for f := range all {
			for i := range all {
				for j := 0; j <= i; j++ {
					run(1, []int{f}, i, j)
				}
			}
		}
	}
}
