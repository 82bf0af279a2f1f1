// C22: the HTTP sample grants tokens only for the right password.
package main

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifmc/des"
	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	if os.Getenv("KIT_CHILD") != "" && os.Getenv("C22_NS") == "" {
		// an own network, for the port is fixed
		if u, err := exec.LookPath("unshare"); err == nil && exec.Command(u, "-Urn", "true").Run() == nil {
			self, _ := os.Executable()
			syscall.Exec(u, []string{u, "-Urn", "--", self}, append(os.Environ(), "C22_NS=own"))
		}
	}
	kit.Main(kit.Config{
		ID: "C22", Level: kit.Exploration,
		Rule:        "the server built from the tree, run on homes with all kinds of password files; every user with every password of the list (right, near and wrong), every sequence of three kinds of requests, the information of every user with all stored values of the listed shapes; distinct by request and home",
		Assumptions: []string{"the signing key is the one whose public half is in the source", "a token lives for up to a day", "credentials are sent as an urlencoded form", "net/http is right; in the section about times the handler of the server is called without the network, and the clock is a shim"},
		CaseTimeout: 120 * time.Second,
		Body:        body,
	})
}

const publicKey = `-----BEGIN PUBLIC KEY-----
MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEV8qJS5x98i0eM+UUiV5qB2JZhT67
Ojl6/rZ4xKcHM/NLpUJP3wDpeFQfMaMiAKQHoGs6rk5z1l/tUUVjJWrw0A==
-----END PUBLIC KEY-----`

var key *ecdsa.PublicKey

const addr = "127.0.0.1:8083"

var client = &http.Client{
	Timeout:       20 * time.Second,
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
}

// serve runs the server on home while f runs.
func serve(r *kit.Run, home map[string][]byte, f func() error) error {
	if os.Getenv("C22_NS") == "own" {
		exec.Command("ip", "link", "set", "lo", "up").Run()
		up()
	} else {
		lock, err := os.OpenFile(filepath.Join(os.Getenv("KIT_DIR"), "port"), os.O_CREATE|os.O_RDWR, 0644)
		if err != nil {
			return err
		}
		defer lock.Close()
		if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
			return err
		}
	}
	dir := r.Dir("srv")
	bbs := filepath.Join(dir, "home", "bbs")
	for _, d := range []string{bbs, filepath.Join(dir, "serverlet")} {
		if err := os.MkdirAll(d, 0755); err != nil {
			return err
		}
	}
	for n, b := range home {
		if err := os.WriteFile(filepath.Join(bbs, n), b, 0644); err != nil {
			return err
		}
	}
	var out bytes.Buffer
	for try := 0; ; try++ {
		for i := 0; i < 300; i++ { // nobody else has the port
			c, err := net.Dial("tcp", addr)
			if err != nil {
				break
			}
			c.Close()
			time.Sleep(100 * time.Millisecond)
		}
		out.Reset()
		cmd := exec.Command(filepath.Join(os.Getenv("VERIF_SCRATCH"), "out", "serverlet"))
		cmd.Dir = filepath.Join(dir, "serverlet")
		logf, err := os.Create(filepath.Join(dir, "log"))
		if err != nil {
			return err
		}
		cmd.Stdout, cmd.Stderr = logf, logf
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			return err
		}
		logf.Close()
		gone := make(chan error, 1)
		go func() { gone <- cmd.Wait() }()
		ok := false
		for i := 0; i < 3000 && !ok; i++ {
			select {
			case err := <-gone:
				gone <- err
				i = 1 << 20
			default:
				if c, err := net.Dial("tcp", addr); err == nil {
					c.Close()
					ok = true
				} else {
					time.Sleep(3 * time.Millisecond)
				}
			}
		}
		if !ok {
			cmd.Process.Kill()
			<-gone
			if try < 3 {
				time.Sleep(time.Second)
				continue
			}
			b, _ := os.ReadFile(filepath.Join(dir, "log"))
			return fmt.Errorf("the server does not answer: %.500s", b)
		}
		err = f()
		client.CloseIdleConnections()
		dead := false
		select {
		case e := <-gone:
			dead = true
			gone <- e
		default:
		}
		cmd.Process.Kill()
		<-gone
		b, _ := os.ReadFile(filepath.Join(dir, "log"))
		if dead {
			return fmt.Errorf("the server ended: %.1000s (%v)", tail(b), err)
		}
		if err == nil && bytes.Contains(b, []byte("http: panic serving")) {
			i := bytes.Index(b, []byte("http: panic serving"))
			err = fmt.Errorf("a request made the server panic: %.600s", b[i:])
		}
		return err
	}
}

// up sets the loopback interface up where there is no ip command.
func up() {
	s, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return
	}
	defer syscall.Close(s)
	ifup(s)
}

func tail(b []byte) []byte {
	if len(b) > 1000 {
		return b[len(b)-1000:]
	}
	return b
}

// user is one slot of the password file.
type user struct {
	id, real, nick, host string
	hash                 string
	days, posts, money   uint32
	last                 uint32
}

func (u user) bytes() []byte {
	b := make([]byte, 512)
	le := binary.LittleEndian
	le.PutUint32(b, 4194)
	copy(b[4:17], u.id)
	copy(b[17:37], pb.Big5(u.real))
	copy(b[37:61], pb.Big5(u.nick))
	copy(b[61:75], u.hash)
	le.PutUint32(b[76:], 0x55)
	le.PutUint32(b[84:], 7)
	le.PutUint32(b[88:], u.days)
	le.PutUint32(b[92:], u.posts)
	le.PutUint32(b[96:], 1000000007)
	le.PutUint32(b[100:], u.last)
	copy(b[104:120], u.host)
	le.PutUint32(b[120:], u.money)
	return b
}

func passwds(us []user) []byte {
	var b []byte
	for _, u := range us {
		b = append(b, u.bytes()...)
	}
	return b
}

func hash(pw, salt string) string {
	h, ok := des.Crypt([]byte(pw), salt)
	if !ok {
		panic("salt " + salt)
	}
	return h
}

// right says whether pw is the password of u.
func (u user) right(pw string) bool {
	if u.id == "" || len(u.hash) != 13 {
		return false
	}
	h, ok := des.Crypt([]byte(pw), u.hash[:2])
	return ok && h == u.hash
}

type answer struct {
	status int
	body   []byte
}

func do(method, path, ctype, body string) (answer, error) {
	req, err := http.NewRequest(method, "http://"+addr+path, strings.NewReader(body))
	if err != nil {
		return answer{}, err
	}
	if ctype != "" {
		req.Header.Set("Content-Type", ctype)
	}
	resp, err := client.Do(req)
	if err != nil {
		return answer{}, fmt.Errorf("%s %s: %v", method, path, err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return answer{resp.StatusCode, b}, err
}

const form = "application/x-www-form-urlencoded"

func token(u, pw string) (answer, error) {
	return do("POST", "/v1/token", form, url.Values{"username": {u}, "password": {pw}}.Encode())
}

// granted checks an answer which must hold a token for the user.
func granted(a answer, id string) error { return grantedAt(a, id, time.Now().Unix()) }

func grantedAt(a answer, id string, at int64) error {
	var m map[string]interface{}
	if err := json.Unmarshal(a.body, &m); err != nil {
		return fmt.Errorf("answer %d %.200q: %v", a.status, a.body, err)
	}
	t, ok := m["access_token"].(string)
	if !ok || a.status != 200 {
		return fmt.Errorf("no token for the right password of %q: %d %.200q", id, a.status, a.body)
	}
	if _, ok := m["error"]; ok {
		return fmt.Errorf("a token with an error: %.200q", a.body)
	}
	p := strings.Split(t, ".")
	if len(p) != 3 {
		return fmt.Errorf("token %q", t)
	}
	var head struct{ Alg string }
	var claims struct {
		Sub string
		Exp float64
		Nbf float64
	}
	for i, v := range []interface{}{&head, &claims} {
		b, err := base64.RawURLEncoding.DecodeString(p[i])
		if err != nil {
			return err
		}
		if err := json.Unmarshal(b, v); err != nil {
			return err
		}
	}
	sig, err := base64.RawURLEncoding.DecodeString(p[2])
	if err != nil || len(sig) != 64 || head.Alg != "ES256" {
		return fmt.Errorf("token %q is signed with %q", t, head.Alg)
	}
	h := sha256.Sum256([]byte(p[0] + "." + p[1]))
	if !ecdsa.Verify(key, h[:], new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])) {
		return fmt.Errorf("the signature of token %q is wrong", t)
	}
	if claims.Sub != id {
		return fmt.Errorf("the token of %q names %q", id, claims.Sub)
	}
	now := float64(at)
	if claims.Exp <= now || claims.Exp > now+86400 || claims.Nbf > now {
		return fmt.Errorf("the token of %q expires in %v seconds", id, claims.Exp-now)
	}
	return nil
}

// refused checks an answer which must hold an error and no token.
func refused(a answer) error {
	var m map[string]interface{}
	if err := json.Unmarshal(a.body, &m); err != nil && len(a.body) > 0 && a.status < 400 {
		return fmt.Errorf("answer %d %.200q: %v", a.status, a.body, err)
	}
	if err := noToken(a); err != nil {
		return err
	}
	if e, _ := m["error"].(string); e == "" && a.status < 400 {
		return fmt.Errorf("no error in %d %.200q", a.status, a.body)
	}
	return nil
}

func noToken(a answer) error {
	if bytes.Contains(a.body, []byte("access_token")) || bytes.Contains(a.body, []byte("eyJ")) {
		return fmt.Errorf("a token: %d %.300q", a.status, a.body)
	}
	return nil
}

// info checks the information of u.
func info(u user) error {
	a, err := do("GET", "/v1/users/"+url.PathEscape(u.id)+"/information", "", "")
	if err != nil {
		return err
	}
	return u.same(a)
}

func (u user) same(a answer) error {
	var m struct{ Data map[string]interface{} }
	if err := json.Unmarshal(a.body, &m); err != nil || a.status != 200 {
		return fmt.Errorf("information of %q: %d %.300q %v", u.id, a.status, a.body, err)
	}
	want := map[string]string{"user_id": u.id, "nickname": u.nick, "realname": u.real, "number_of_login_days": fmt.Sprint(u.days), "number_of_posts": fmt.Sprint(u.posts), "money": fmt.Sprint(int32(u.money)), "last_login_ipv4": u.host, "last_login_ip": u.host}
	for k, w := range want {
		if g := fmt.Sprint(m.Data[k]); g != w {
			return fmt.Errorf("information of %q: %s is %q, want %q", u.id, k, g, w)
		}
	}
	t, err := time.Parse(time.RFC3339, fmt.Sprint(m.Data["last_login_time"]))
	if err != nil || t.Unix() != int64(u.last) {
		return fmt.Errorf("information of %q: last login is %v, want %v", u.id, m.Data["last_login_time"], u.last)
	}
	return noToken(a)
}

func noInfo(id string) error {
	a, err := do("GET", "/v1/users/"+url.PathEscape(id)+"/information", "", "")
	if err != nil {
		return err
	}
	if a.status < 300 {
		return fmt.Errorf("information of %q, who does not exist: %d %.200q", id, a.status, a.body)
	}
	return nil
}

var passwords = []string{"secret", "secre", "secrets", "Secret", "secret ", " secret", "", "longpassword", "longpass", "longpas", "longpassWORD", "longpasX", "12345678", "123456789", "12345", "p&w=1%+", "p&w=1%", "p+w", "p w", "密碼", "密碼碼碼", "密碼碼", "\x01\x02", "a", "aa", "aaaaaaaa", "aaaaaaab", "aaaaaaaaa", "éé", "ii", "x\x00y", "x", "SYSOP", "guest", "00000000", "\"quote'", "<a>", "tab\t", "{}", "null"}

func users() (us []user) {
	salts := []string{"ab", "..", "//", "zz", "Z9", "a.", "/a", "0A", "k9"}
	for i, pw := range passwords {
		if strings.Contains(pw, "\x00") {
			continue
		}
		us = append(us, user{id: fmt.Sprintf("user%02d", i), real: fmt.Sprintf("真名%d", i), nick: fmt.Sprintf("暱稱 %d", i), host: fmt.Sprintf("10.0.0.%d", i), hash: hash(pw, salts[i%len(salts)]), days: uint32(i * 3), posts: uint32(i * 1000), money: uint32(i * 77777), last: uint32(1600000000 + i)})
	}
	for i, id := range []string{"SYSOP", "sysop", "abcdefghijkl", "abcdefghijk", "user0", "user000", "USER00", "ab", "A1"} {
		us = append(us, user{id: id, nick: "n" + id, hash: hash("pw-of-"+id, salts[i]), last: 1234567890})
	}
	good := hash("damaged", "d1")
	us = append(us,
		user{id: "blankhash", last: 1},
		user{id: "onechar", hash: "d", last: 2},
		user{id: "saltonly", hash: "d1", last: 3},
		user{id: "cuthash", hash: good[:12], last: 4},
		user{id: "longhash", hash: good + "x", last: 5},
		user{id: "badsalt", hash: "\x01\xff" + good[2:], last: 6},
		user{id: "otherhash", hash: good[:12] + string(good[12]^1), last: 7},
		user{}, // a free slot
		user{id: "afterfree", hash: hash("after", "af"), last: 8},
	)
	return
}

func body(r *kit.Run) {
	blk, _ := pem.Decode([]byte(publicKey))
	k, err := x509.ParsePKIXPublicKey(blk.Bytes)
	if err != nil {
		panic(err)
	}
	key = k.(*ecdsa.PublicKey)
	us := users()
	home := func(us []user) map[string][]byte {
		var brd []byte
		for i := 0; i < 3; i++ {
			brd = append(brd, pb.BoardBytes(i)...)
		}
		return map[string][]byte{".PASSWDS": passwds(us), ".BRD": brd}
	}
	all := append(append([]string{}, passwords...), "pw-of-SYSOP", "pw-of-sysop", "pw-of-ab", "damaged", "after", "d", "d1", hash("secret", "ab"), strings.Repeat("longpass", 20), strings.Repeat("longpass", 2000), strings.Repeat("12345678", 9000), strings.Repeat("x", 5000))
	r.Section("every user with every password")
	const group = 4
	for i := 0; i < len(us); i += group {
		part := us[i:min(i+group, len(us))]
		r.Check(fmt.Sprintf("users from %d", i), func() error {
			return serve(r, home(us), func() error {
				for _, u := range part {
					if u.id == "" {
						continue
					}
					for _, pw := range all {
						a, err := token(u.id, pw)
						if err != nil {
							return err
						}
						r.Eval(1)
						if u.right(pw) {
							err = granted(a, u.id)
						} else {
							err = refused(a)
						}
						if err != nil {
							return fmt.Errorf("user %q, password %q: %v", u.id, pw, err)
						}
					}
					if err := info(u); err != nil {
						return err
					}
				}
				return nil
			})
		})
	}
	r.Section("logins of users with related names and passwords")
	{
		var l []user
		for i, c := range [][2]string{{"guest", "1abc"}, {"guest1", "abc"}, {"guest1a", "bc"}, {"guest1ab", "x"}, {"uest", "g1abc"}, {"abcguest", "1"}, {"bcguest", "1a"}, {"Guest", "1abc"}, {"gues", "t1abc"}, {"guest2", "1abc"}, {"g", "uest1abc"}, {"g1", ""}} {
			l = append(l, user{id: c[0], hash: hash(c[1], []string{"ab", "ab", "Zz"}[i%3]), last: 1})
		}
		type attempt struct {
			u  user
			pw string
		}
		var as []attempt
		for _, u := range l {
			for _, pw := range []string{"1abc", "abc", "bc", "c", "t1abc", "1", "1a", "uest1abc", "g1abc", "abcg", "", "x"} {
				as = append(as, attempt{u, pw})
			}
		}
		seq := deBruijn(len(as), 2)
		r.Note("attempts of related users", len(as))
		const parts = 32
		for p := 0; p < parts; p++ {
			from, to := p*len(seq)/parts, (p+1)*len(seq)/parts+1
			r.Check(fmt.Sprintf("related logins from %d", from), func() error {
				return serve(r, home(l), func() error {
					for i := from; i < to; i++ {
						x := as[seq[i%len(seq)]]
						a, err := token(x.u.id, x.pw)
						if err != nil {
							return err
						}
						r.Eval(1)
						if x.u.right(x.pw) {
							err = granted(a, x.u.id)
						} else {
							err = refused(a)
						}
						if err != nil {
							b := as[seq[(i+len(seq)-1)%len(seq)]]
							return fmt.Errorf("user %q, password %q, just after %q with %q: %v", x.u.id, x.pw, b.u.id, b.pw, err)
						}
					}
					return nil
				})
			})
		}
	}
	r.Section("names which are no user")
	r.Check("names", func() error {
		return serve(r, home(us), func() error {
			names := []string{"", "nobody", "user", "user0 ", " user00", "User00", "user00\x00", "user00\n", "abcdefghijklm", "abcdefghij", "SYSOP ", "sYSOP", "%", "*", "?", ".", "..", "../user00", "user00/..", "使用者", "blankhas", "user00,user01", "'user00'", strings.Repeat("x", 5000)}
			for _, u := range names {
				for _, pw := range all {
					a, err := token(u, pw)
					if err != nil {
						return err
					}
					r.Eval(1)
					if err := refused(a); err != nil {
						return fmt.Errorf("name %q, password %q: %v", u, pw, err)
					}
				}
				if strings.Trim(u, ".") != "" && !strings.Contains(u, "..") {
					if err := noInfo(u); err != nil {
						return err
					}
				}
			}
			return nil
		})
	})
	mixed(r, home)
	r.Section("passwords of every byte")
	for hi := 0; hi < 256; hi += 32 {
		hi := hi
		r.Check(fmt.Sprintf("bytes from %d", hi), func() error {
			var l []user
			for c := hi; c < hi+32; c++ {
				l = append(l, user{id: fmt.Sprintf("byte%d", c), hash: hash("a"+string([]byte{byte(c)})+"b", "by"), last: 9})
			}
			return serve(r, home(l), func() error {
				for i, u := range l {
					for c := 0; c < 256; c++ {
						if c&0x7f != (hi+i)&0x7f && c%16 != i%16 {
							continue
						}
						pw := "a" + string([]byte{byte(c)}) + "b"
						a, err := token(u.id, pw)
						if err != nil {
							return err
						}
						r.Eval(1)
						if u.right(pw) {
							err = granted(a, u.id)
						} else {
							err = refused(a)
						}
						if err != nil {
							return fmt.Errorf("user %q, password %q: %v", u.id, pw, err)
						}
					}
				}
				return nil
			})
		})
	}
	r.Section("information")
	for g := 0; g < 8; g++ {
		g := g
		r.Check(fmt.Sprintf("information %d", g), func() error {
			var l []user
			vals := []uint32{0, 1, 9, 255, 256, 65535, 65536, 99999, 1000000, 0x7fffffff, 0x80000000, 0xffffffff}
			money := append(vals[:len(vals):len(vals)], 0xfffffff6, 0x80000001, 0xff676980)
			text := []string{"", "a", "中", "中文 字", "\"<>&'\\", "x\ty", "0123456789abcdefghi", "一二三四五六七八九", "{}[]:,", "ends "}
			for i, v := range vals {
				for j, t := range text {
					u := user{id: fmt.Sprintf("u%dx%dx%d", g, i, j), real: t, nick: text[(j+g)%len(text)], host: []string{"", "1.2.3.4", "255.255.255.255", "::1"}[(i+j)%4], days: v, posts: vals[(i+g)%len(vals)], money: money[(i+3*j+2*g)%len(money)], last: vals[(i+j)%len(vals)]}
					if u.last == 0 || g%2 == 0 {
						u.last = uint32(1<<uint((i*10+j)%31)) + uint32(g)
					}
					l = append(l, u)
				}
			}
			return serve(r, home(l), func() error {
				for _, u := range l {
					r.Eval(1)
					if err := info(u); err != nil {
						return err
					}
				}
				return nil
			})
		})
	}
	r.Section("information of special values")
	hosts := []string{"", "-", "0", "0.0.0.0", "127.0.0.1", "localhost", "unknown", "::", "::1", "::ffff:1.2.3.4", "::FFFF:10.0.0.1", "fe80::1%eth0", "2001:db8::1", "host.example", "01.02.03.04", "1.2.3.4:23", "[::1]:23", "?1.2.3.4", "a@1.2.3.4", " 1.2.3.4", "1.2.3.4.", "1.2.3.4,5.6.7.8", "10.0.0.1", "192.168.100.100", "255.255.255.255", "1.2.3", "16909060"}
	texts := []string{"", " ", "-", "0", "null", "guest", "SYSOP", "%s%d", "<b>&", "\x1b[1;31mred", "\\u0041", "a  b", " lead", "\"", "[已刪除]", "　"}
	nums := []uint32{0, 1, 0x80000000, 0xffffffff}
	for i, real := range texts {
		i, real := i, real
		r.Check(fmt.Sprintf("special values with real name number %d", i), func() error {
			var l []user
			for j, nick := range texts {
				for k, host := range hosts {
					for n := 0; n < kit.Pick(r, 16, 64); n++ {
						m := n | (n*7+i*7+j*5+k*3)*kit.Pick(r, 16, 64) // the first numbers in every combination, the others differing from user to user
						l = append(l, user{id: fmt.Sprintf("s%dx%dx%dx%d", i, j, k, n), real: real, nick: nick, host: host, days: nums[m&3], posts: nums[m>>2&3], money: nums[m>>4&3], last: nums[m>>6&3]})
					}
				}
			}
			return serve(r, home(l), func() error {
				for _, u := range l {
					if err := info(u); err != nil {
						return fmt.Errorf("%v; of %+v", err, u)
					}
				}
				r.Eval(len(l) - 1)
				return nil
			})
		})
	}
	r.Section("password files")
	files := map[string][]byte{"empty": {}, "one byte": {1}, "no user": make([]byte, 5120), "511": us[0].bytes()[:511], "513": append(us[0].bytes(), 1), "garbage": bytes.Repeat([]byte{0xff, 0xa4, 0x40, 0}, 4096), "missing": nil}
	for n := 1; n <= 5; n++ {
		files[fmt.Sprintf("%d users", n)] = passwds(us[:n])
	}
	for _, n := range []int{100, 1000, 70000} {
		var l []user
		for i := 0; i < n; i++ {
			u := us[0]
			u.id = fmt.Sprintf("many%d", i)
			l = append(l, u)
		}
		files[fmt.Sprintf("%d users", n)] = passwds(l)
	}
	var fnames []string
	for n := range files {
		fnames = append(fnames, n)
	}
	sortStrings(fnames)
	for _, n := range fnames {
		n, file := n, files[n]
		for _, brd := range []string{"none", "empty", "cut"} {
			brd := brd
			r.Check("file "+n+", boards "+brd, func() error {
				h := map[string][]byte{}
				if file != nil {
					h[".PASSWDS"] = file
				}
				switch brd {
				case "empty":
					h[".BRD"] = nil
				case "cut":
					h[".BRD"] = append(pb.BoardBytes(1), 1, 2, 3)
				}
				return serve(r, h, func() error {
					r.Eval(1)
					for i := 0; i+512 <= len(file) && n != "garbage"; i += 512 {
						id := string(bytes.SplitN(file[i+4:i+17], []byte{0}, 2)[0])
						if i > 512*20 && i < len(file)-512*3 || id == "" {
							continue
						}
						u := user{id: id, hash: string(bytes.SplitN(file[i+61:i+75], []byte{0}, 2)[0])}
						if len(file)%512 != 0 { // the whole file may be an error
							continue
						}
						for _, pw := range passwords[:8] {
							a, err := token(id, pw)
							if err != nil {
								return err
							}
							if u.right(pw) {
								err = granted(a, id)
							} else {
								err = refused(a)
							}
							if err != nil {
								return fmt.Errorf("user %q, password %q: %v", id, pw, err)
							}
						}
					}
					for _, u := range []string{"", "nobody", "\xff"} {
						a, err := token(u, "secret")
						if err != nil {
							return err
						}
						if err := refused(a); err != nil {
							return fmt.Errorf("user %q: %v", u, err)
						}
					}
					for _, p := range []string{"/v1/boards", "/v1/classes/", "/v1/users/nobody/information", "/v1/users/", "/v1/users/x", "/v1/users/x/favorites"} {
						a, err := do("GET", p, "", "")
						if err != nil {
							return err
						}
						if err := noToken(a); err != nil {
							return err
						}
					}
					return nil
				})
			})
		}
	}
	r.Section("sequences of requests")
	ks := kinds(us)
	r.Note("kinds of requests", len(ks))
	seq := deBruijn(len(ks), 3)
	const parts = 64
	for p := 0; p < parts; p++ {
		from, to := p*len(seq)/parts, (p+1)*len(seq)/parts+2
		r.Check(fmt.Sprintf("sequence from %d", from), func() error {
			return serve(r, home(us), func() error {
				for i := from; i < to; i++ {
					k := ks[seq[i%len(seq)]]
					r.Eval(1)
					if err := k.f(); err != nil {
						var before []string
						for j := max(from, i-3); j < i; j++ {
							before = append(before, ks[seq[j%len(seq)]].name)
						}
						return fmt.Errorf("%s after %v: %v", k.name, before, err)
					}
				}
				return nil
			})
		})
	}
	clockSection(r)
	r.Section("parallel requests")
	for p := 0; p < 8; p++ {
		r.Check(fmt.Sprintf("parallel %d", p), func() error {
			return serve(r, home(us), func() error {
				var wg sync.WaitGroup
				errs := make(chan error, 16)
				for g := 0; g < 8; g++ {
					g := g
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < 60; i++ {
							if err := ks[(i*7+g*5)%len(ks)].f(); err != nil {
								select {
								case errs <- fmt.Errorf("%s in parallel with others: %v", ks[(i*7+g*5)%len(ks)].name, err):
								default:
								}
								return
							}
						}
					}()
				}
				wg.Wait()
				r.Eval(480)
				select {
				case err := <-errs:
					return err
				default:
					return nil
				}
			})
		})
	}
}

// timed runs requests at the given seconds after the start of a server.
func timed(r *kit.Run, us []user, steps []step) error {
	dir := r.Dir("srv")
	bbs := filepath.Join(dir, "home", "bbs")
	for _, d := range []string{bbs, filepath.Join(dir, "serverlet")} {
		if err := os.MkdirAll(d, 0755); err != nil {
			return err
		}
	}
	if err := os.WriteFile(filepath.Join(bbs, ".PASSWDS"), passwds(us), 0644); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(bbs, ".BRD"), pb.BoardBytes(1), 0644); err != nil {
		return err
	}
	type request struct {
		At                       int64
		Method, Path, Type, Body string
	}
	var qs []request
	for _, s := range steps {
		q := request{s.at, "POST", "/v1/token", form, url.Values{"username": {us[s.user].id}, "password": {s.pw}}.Encode()}
		if s.info {
			q = request{s.at, "GET", "/v1/users/" + us[s.user].id + "/information", "", ""}
		}
		qs = append(qs, q)
	}
	in, err := json.Marshal(qs)
	if err != nil {
		return err
	}
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_SCRATCH"), "out", "c22clock"))
	cmd.Dir = filepath.Join(dir, "serverlet")
	cmd.Stdin = bytes.NewReader(in)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("the server: %v %.600s", err, tail(stderr.Bytes()))
	}
	var as []struct {
		Now    int64
		Status int
		Body   []byte
	}
	if err := json.Unmarshal(out, &as); err != nil || len(as) != len(steps) {
		return fmt.Errorf("%d answers: %v", len(as), err)
	}
	for i, s := range steps {
		u, a := us[s.user], answer{as[i].Status, as[i].Body}
		switch {
		case s.info:
			err = u.same(a)
		case u.right(s.pw):
			err = grantedAt(a, u.id, as[i].Now)
		default:
			err = refused(a)
		}
		if err != nil {
			return fmt.Errorf("request %d: %v", i, err)
		}
		r.Trans(1)
	}
	r.Trace()
	return nil
}

type step struct {
	at   int64
	user int
	pw   string
	info bool
}

func (s step) String() string { return fmt.Sprintf("%d s: user %d %q %v", s.at, s.user, s.pw, s.info) }

func clockSection(r *kit.Run) {
	r.Section("sequences of requests at all kinds of times after the start")
	if _, err := os.Stat(filepath.Join(os.Getenv("VERIF_SCRATCH"), "out", "c22clock")); err != nil {
		r.Note("clock", "the server could not be built with a clock which can be set")
		return
	}
	us := []user{
		{id: "SYSOP", nick: "n", hash: hash("secret", "ab"), last: 1234567890, host: "10.0.0.1"},
		{id: "pichu", nick: "m", hash: hash("pika", "cd"), last: 1234567891, days: 3, host: "10.0.0.2"},
	}
	acts := []step{{user: 0, pw: "secret"}, {user: 0, pw: "wrong"}, {user: 1, pw: "pika"}, {user: 0, info: true}, {user: 1, pw: "secret"}}
	const day = 86400
	gaps := []int64{0, 29 * 60, 1800, 31 * 60, day, 400 * day, 20 * 365 * day, 90 * 365 * day}
	if !r.Thorough {
		gaps = []int64{0, 1799, 31 * 60, day, 20 * 365 * day}
	}
	depth := kit.Pick(r, 3, 4)
	var seqs func(l []step, at int64)
	seqs = func(l []step, at int64) {
		if len(l) == depth {
			l := append([]step{}, l...)
			r.Check(fmt.Sprint(l), func() error { return timed(r, us, l) })
			return
		}
		for _, a := range acts {
			if r.Thorough && len(l) == 3 && a.pw != "secret" {
				continue // the last ones are logins
			}
			for _, g := range gaps {
				a.at = at + g
				seqs(append(l[:len(l):len(l)], a), a.at)
			}
		}
	}
	seqs(nil, 0)
	// one after another for a long time, also many wrong ones before a right one
	for _, n := range []int{10, 100, 1000} {
		for _, g := range []int64{0, 1, 60, 1000, day} {
			for _, wrong := range []bool{false, true} {
				var l []step
				for i := 0; i < n; i++ {
					s := acts[i%3]
					if wrong {
						s = acts[1]
					}
					s.at = int64(i) * g
					l = append(l, s)
				}
				s := acts[0]
				s.at = int64(n) * g
				l = append(l, s)
				r.Check(fmt.Sprintf("%d requests every %d s, only wrong ones %v", n, g, wrong), func() error { return timed(r, us, l) })
			}
		}
	}
}

type kind struct {
	name string
	f    func() error
}

// kinds are the requests the sequences are made of, each with its check.
func kinds(us []user) []kind {
	var ks []kind
	add := func(name string, f func() error) { ks = append(ks, kind{name, f}) }
	grant := func(u user, pw string) func() error {
		return func() error {
			a, err := token(u.id, pw)
			if err != nil {
				return err
			}
			return granted(a, u.id)
		}
	}
	refuse := func(method, path, ctype, body string) func() error {
		return func() error {
			a, err := do(method, path, ctype, body)
			if err != nil {
				return err
			}
			return refused(a)
		}
	}
	quiet := func(method, path, ctype, body string) func() error {
		return func() error {
			a, err := do(method, path, ctype, body)
			if err != nil {
				return err
			}
			return noToken(a)
		}
	}
	right := url.Values{"username": {us[0].id}, "password": {passwords[0]}}.Encode()
	add("right password", grant(us[0], passwords[0]))
	add("right password of another", grant(us[7], passwords[7]))
	add("wrong password", refuse("POST", "/v1/token", form, "username="+us[0].id+"&password=wrong"))
	add("password of another", refuse("POST", "/v1/token", form, "username="+us[0].id+"&password="+passwords[7]))
	add("unknown user", refuse("POST", "/v1/token", form, "username=nobody&password="+passwords[0]))
	add("no parameters", refuse("POST", "/v1/token", form, ""))
	add("no password", refuse("POST", "/v1/token", form, "username="+us[0].id))
	add("no user", refuse("POST", "/v1/token", form, "password="+passwords[0]))
	add("other names", refuse("POST", "/v1/token", form, "user="+us[0].id+"&pass="+passwords[0]))
	add("malformed form", refuse("POST", "/v1/token", form, "username=%zz&password=%"))
	add("JSON", refuse("POST", "/v1/token", "application/json", `{"username":"`+us[0].id+`","password":"`+passwords[0]+`"}`))
	add("no type", refuse("POST", "/v1/token", "", right))
	add("blank hash", refuse("POST", "/v1/token", form, "username=blankhash&password="))
	add("damaged hash", refuse("POST", "/v1/token", form, "username=cuthash&password=damaged"))
	add("free slot", refuse("POST", "/v1/token", form, "username=&password="))
	add("GET token", quiet("GET", "/v1/token", "", ""))
	add("PUT token", quiet("PUT", "/v1/token", form, "username=nobody"))
	add("information", func() error { return info(us[0]) })
	add("information of another", func() error { return info(us[7]) })
	add("information of nobody", func() error { return noInfo("nobody") })
	add("user without item", quiet("GET", "/v1/users/"+us[0].id, "", ""))
	add("users", quiet("GET", "/v1/users/", "", ""))
	add("odd user paths", func() error {
		for _, p := range []string{"/v1/users/" + us[0].id + "/", "/v1/users/a/b", "/v1/users/a/b/c/d", "/v1/users/%2f/%2f", "/v1/users/%00/information", "/v1/users", "/v1/users/x/favorites"} {
			if err := quiet("GET", p, "", "")(); err != nil {
				return err
			}
		}
		return nil
	})
	add("boards", func() error {
		a, err := do("GET", "/v1/boards", "", "")
		if err != nil {
			return err
		}
		var m struct{ Data []interface{} }
		if err := json.Unmarshal(a.body, &m); err != nil || len(m.Data) != 3 {
			return fmt.Errorf("%d boards are listed, want 3: %v", len(m.Data), err)
		}
		return nil
	})
	add("other paths", func() error {
		for _, p := range []string{"/", "/v1/classes/", "/v1/classes/1", "/v1/classes", "/v2/token", "/v1/token/", "/v1//token", "/../etc/passwd"} {
			if err := quiet("GET", p, "", "")(); err != nil {
				return err
			}
		}
		for _, m := range []string{"POST", "DELETE", "HEAD", "OPTIONS"} {
			for _, p := range []string{"/v1/boards", "/v1/users/x/information", "/v1/classes/"} {
				if err := quiet(m, p, "", "")(); err != nil {
					return err
				}
			}
		}
		return nil
	})
	add("no HTTP", func() error {
		c, err := net.DialTimeout("tcp", addr, 5*time.Second)
		if err != nil {
			return err
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(5 * time.Second))
		fmt.Fprintf(c, "POST /v1/token HTTP/1.1\r\nHost: x\r\nContent-Length: banana\r\n\r\n\x00\xff")
		l, _ := bufio.NewReader(c).ReadString('\n')
		if strings.Contains(l, " 200 ") {
			return fmt.Errorf("%q", l)
		}
		return nil
	})
	add("cut request", func() error {
		c, err := net.DialTimeout("tcp", addr, 5*time.Second)
		if err != nil {
			return err
		}
		fmt.Fprintf(c, "POST /v1/token HTTP/1.1\r\nHost: x\r\nContent-Type: %s\r\nContent-Length: 1000\r\n\r\n%s", form, "username=nobody")
		c.Close()
		return nil
	})
	return ks
}

// deBruijn is a cyclic sequence over k symbols which has every word of length n.
func deBruijn(k, n int) []int {
	a := make([]int, k*n)
	var out []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				out = append(out, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	return out
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// mixed sends several names and passwords in one request, in all places. Which of them counts is up to the
// server, but a token must name a user one of whose passwords is there.
func mixed(r *kit.Run, home func([]user) map[string][]byte) {
	r.Section("several names and passwords in one request")
	us := []user{
		{id: "SYSOP", hash: hash("secret", "ab"), last: 1},
		{id: "alice", hash: hash("alice-pw", "cd"), last: 2},
		{id: "blank", last: 3},
	}
	// up to two values in a place, "-" is none
	names := [][]string{nil, {"alice"}, {"SYSOP"}, {"nobody"}, {""}, {"alice", "SYSOP"}, {"SYSOP", "alice"}, {"blank", "alice"}}
	pws := [][]string{nil, {"alice-pw"}, {"wrong"}, {""}, {"alice-pw", "wrong"}, {"wrong", "alice-pw"}}
	encode := func(ns, ps []string) url.Values {
		v := url.Values{}
		for _, n := range ns {
			v.Add("username", n)
		}
		for _, p := range ps {
			v.Add("password", p)
		}
		return v
	}
	for i := range names {
		for j := range names {
			qn, bn := names[i], names[j]
			r.Check(fmt.Sprintf("names %q in the query, %q in the body", qn, bn), func() error {
				return serve(r, home(us), func() error {
					for _, qp := range pws {
						for _, bp := range pws {
							for _, method := range []string{"POST", "GET", "PUT", "HEAD"} {
								for k, ctype := range []string{form, "multipart/form-data; boundary=b", "", "application/json", "text/plain"} {
									if k > 1 && method != "POST" {
										continue
									}
									path := "/v1/token"
									if v := encode(qn, qp); len(v) > 0 {
										path += "?" + v.Encode()
									}
									body := encode(bn, bp).Encode()
									switch k {
									case 1:
										body = ""
										for key, l := range encode(bn, bp) {
											for _, x := range l {
												body += "--b\r\nContent-Disposition: form-data; name=\"" + key + "\"\r\n\r\n" + x + "\r\n"
											}
										}
										body += "--b--\r\n"
									case 3:
										b, _ := json.Marshal(encode(bn, bp))
										body = string(b)
									}
									a, err := do(method, path, ctype, body)
									if err != nil {
										return err
									}
									r.Eval(1)
									if err := proper(a, us, append(append([]string{}, qn...), bn...), append(append([]string{}, qp...), bp...)); err != nil {
										return fmt.Errorf("%s %s, %s %q: %v", method, path, ctype, body, err)
									}
								}
							}
						}
					}
					return nil
				})
			})
		}
	}
}

// proper checks that a token, if there is one, names a user who is named and whose password is there.
func proper(a answer, us []user, names, pws []string) error {
	if noToken(a) == nil {
		return nil
	}
	bad := fmt.Errorf("a token: %.300q", a.body)
	for _, u := range us {
		for _, n := range names {
			for _, pw := range pws {
				if n == u.id && u.right(pw) {
					if bad = granted(a, u.id); bad == nil {
						return nil
					}
				}
			}
		}
	}
	return bad
}
