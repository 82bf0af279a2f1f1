// C08: login logs parse to exactly the attempts they record.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	kit.Main(kit.Config{
		ID: "C08", Level: kit.Exploration,
		Rule:        "every day of 2000..2037 and every second of a day, every id length and id character, every host byte, both kinds of log and the recent log; every truncation and every value of every byte of a line; a damaged line at every position of files; files of every length; distinct by line or case key",
		Assumptions: []string{"reference: the line formats of mbbsd (in the package comments), times are UTC", "lines which only a lenient parser accepts (one digit hours, more than one space, a wrong week day, no host) may be accepted or reported", "ids have at least 2 characters, hosts do not start with ? or @ and have no space"},
		Body:        body,
	})
}

// An entry of the reference.
type entry struct {
	kind byte // ' ' or '-' system-wide, '[' user
	id   string
	t    time.Time
	host string
}

func (e entry) line() string {
	s := e.t.Format("[01/02/2006 15:04:05 Mon] ")
	if e.kind == '[' {
		return s + e.host
	}
	return string(e.kind) + e.id + strings.Repeat(" ", 12-len(e.id)) + s + "?@" + e.host
}

func (e entry) recent() string { return e.t.Format("01/02/2006 15:04:05 ") + e.host + " " }

func (e entry) same(g *pttbbs.LoginAttempt) error {
	if g.UserID != e.id || g.Success != (e.kind == ' ') || g.FromHost != e.host || !g.LoginStartTime.Equal(e.t) {
		return fmt.Errorf("line %q gives %+v", e.line(), *g)
	}
	return nil
}

func (e entry) sameRecent(g *pttbbs.LoginRecentRecord) error {
	if g.FromHost != e.host || !g.LoginStartTime.Equal(e.t) {
		return fmt.Errorf("line %q gives %+v", e.recent(), *g)
	}
	return nil
}

// check parses one line alone and formats it again.
func (e entry) check() error {
	in := []byte(e.line())
	g := &pttbbs.LoginAttempt{}
	if err := g.UnmarshalText(in); err != nil {
		return fmt.Errorf("line %q: %v", e.line(), err)
	}
	if string(in) != e.line() {
		return fmt.Errorf("parsing changed the line %q", e.line())
	}
	for i := range in {
		in[i] = 'x' // the entry must not alias its input
	}
	if err := e.same(g); err != nil {
		return err
	}
	out, err := g.MarshalText()
	if err != nil {
		return fmt.Errorf("line %q: format: %v", e.line(), err)
	}
	if string(out) != e.line() {
		return fmt.Errorf("line %q is formatted as %q", e.line(), out)
	}
	return e.same(g)
}

func (e entry) checkRecent() error {
	for _, l := range []string{e.recent(), strings.TrimRight(e.recent(), " ")} {
		g, err := pttbbs.NewLoginRecentRecord(l)
		if err != nil {
			return fmt.Errorf("line %q: %v", l, err)
		}
		if err := e.sameRecent(g); err != nil {
			return err
		}
	}
	return nil
}

// n returns entry number n.
func n(i int) entry {
	e := entry{t: time.Unix(1600000000+int64(i)*86413, 0).UTC(), kind: " -["[i%3], host: fmt.Sprintf("10.%d.%d.%d", i>>16&255, i>>8&255, i&255)}
	if i%5 == 4 {
		e.host = fmt.Sprintf("host-%d.example.com", i)
	}
	if i%7 == 6 {
		e.host = fmt.Sprintf("2001:db8::%x", i)
	}
	if e.kind != '[' {
		e.id = fmt.Sprintf("u%0*d", 1+i%11, i%10)
		if len(e.id) > 12 {
			e.id = e.id[:12]
		}
	}
	return e
}

func write(r *kit.Run, b []byte) (string, error) {
	p := filepath.Join(r.Dir("d"), "log")
	return p, os.WriteFile(p, b, 0644)
}

// checkFile compares a file; entries with nil want are lines which may be left out.
func checkFile(r *kit.Run, es []entry, end string) error {
	var bad, rec []byte
	for i, e := range es {
		nl := "\n"
		if i == len(es)-1 {
			nl = end
		}
		bad, rec = append(bad, e.line()+nl...), append(rec, e.recent()+nl...)
	}
	p, err := write(r, bad)
	if err != nil {
		return err
	}
	got, err := pttbbs.OpenBadLoginFile(p)
	if err != nil {
		return err
	}
	if len(got) != len(es) {
		return fmt.Errorf("%d attempts are listed, want %d", len(got), len(es))
	}
	for i, g := range got {
		if err := es[i].same(g); err != nil {
			return fmt.Errorf("attempt %d: %v", i, err)
		}
	}
	if !bytes.Equal(pb.Read(p), bad) {
		return fmt.Errorf("reading changed the file")
	}
	if p, err = write(r, rec); err != nil {
		return err
	}
	gr, err := pttbbs.OpenLoginRecentFile(p)
	if err != nil {
		return err
	}
	if len(gr) != len(es) {
		return fmt.Errorf("%d logins are listed, want %d", len(gr), len(es))
	}
	for i, g := range gr {
		if err := es[i].sameRecent(g); err != nil {
			return fmt.Errorf("login %d: %v", i, err)
		}
	}
	if !bytes.Equal(pb.Read(p), rec) {
		return fmt.Errorf("reading changed the file")
	}
	return nil
}

const layout = "[01/02/2006 15:04:05 Mon]"

// strict parses a system-wide or user line; bad is true when it is malformed beyond doubt.
func strict(l []byte) (e entry, ok, bad bool) {
	if len(l) == 0 {
		return e, false, true
	}
	e.kind = l[0]
	rest := l
	switch l[0] {
	case ' ', '-':
		if len(l) < 13 {
			return e, false, true
		}
		e.id = strings.TrimRight(string(l[1:13]), " ")
		for _, c := range []byte(e.id) {
			if c <= ' ' || c >= 0x7f {
				return e, false, false
			}
		}
		if len(e.id) < 2 {
			return e, false, false
		}
		rest = l[13:]
	case '[':
	default:
		return e, false, true
	}
	if len(rest) < len(layout) {
		return e, false, true
	}
	t, err := time.Parse(layout, string(rest[:len(layout)]))
	if err != nil {
		return e, false, true
	}
	if t.Format(layout) != string(rest[:len(layout)]) {
		return e, false, false
	}
	e.t = t
	rest = rest[len(layout):]
	pre := " ?@"
	if e.kind == '[' {
		pre = " "
	}
	if !bytes.HasPrefix(rest, []byte(pre)) || len(rest) == len(pre) {
		return e, false, false
	}
	e.host = string(rest[len(pre):])
	for i, c := range []byte(e.host) {
		if c == '\n' || c == '\r' || c == ' ' || i == 0 && (c == '?' || c == '@') {
			return e, false, false
		}
	}
	return e, true, false
}

func strictRecent(l []byte) (e entry, ok, bad bool) {
	if len(l) < 19 {
		return e, false, true
	}
	seg := strings.Split(string(l), " ")
	if len(seg) < 2 {
		return e, false, true
	}
	t, err := time.Parse("01/02/2006 15:04:05", seg[0]+" "+seg[1])
	if err != nil {
		return e, false, true
	}
	if len(seg) < 3 || seg[2] == "" || t.Format("01/02/2006 15:04:05") != seg[0]+" "+seg[1] || len(seg) > 3 && (seg[3] != "" || len(seg) > 4) {
		return e, false, len(seg) < 3
	}
	return entry{t: t, host: seg[2]}, !strings.ContainsAny(seg[2], "\r\n"), false
}

// checkLine compares any bytes with the reference.
func checkLine(l []byte) error {
	e, ok, bad := strict(l)
	g := &pttbbs.LoginAttempt{}
	err := g.UnmarshalText(append([]byte{}, l...))
	if bad && err == nil {
		return fmt.Errorf("no error for %q: %+v", l, *g)
	}
	if ok {
		if err != nil {
			return fmt.Errorf("line %q: %v", l, err)
		}
		return e.check()
	}
	return nil
}

func checkRecentLine(l []byte) error {
	e, ok, bad := strictRecent(l)
	g, err := pttbbs.NewLoginRecentRecord(string(l))
	if bad && err == nil {
		return fmt.Errorf("no error for recent login %q: %+v", l, g)
	}
	if ok {
		if err != nil {
			return fmt.Errorf("recent login %q: %v", l, err)
		}
		return e.sameRecent(g)
	}
	return nil
}

// damaged checks that a file with one damaged line among good ones is an error.
func damaged(r *kit.Run, es []entry, at int, l []byte, end string) error {
	if bytes.ContainsAny(l, "\n\r") {
		return nil
	}
	for _, recent := range []bool{false, true} {
		var b []byte
		for i, e := range es {
			s := e.line()
			if recent {
				s = e.recent()
			}
			if i == at {
				s = string(l)
			}
			if b = append(b, s...); i < len(es)-1 {
				b = append(b, '\n')
			} else {
				b = append(b, end...)
			}
		}
		_, _, bad := strict(l)
		if recent {
			_, _, bad = strictRecent(l)
		}
		if !bad || len(l) == 0 {
			continue
		}
		p, err := write(r, b)
		if err != nil {
			return err
		}
		cnt := 0
		if recent {
			g, e := pttbbs.OpenLoginRecentFile(p)
			cnt, err = len(g), e
		} else {
			g, e := pttbbs.OpenBadLoginFile(p)
			cnt, err = len(g), e
		}
		if err == nil {
			return fmt.Errorf("line %d of %d is %q: no error, %d entries", at, len(es), l, cnt)
		}
		r.Eval(1)
	}
	return nil
}

func body(r *kit.Run) {
	hosts := []string{"172.22.0.1", "2001:db8::1", "a", "255.255.255.255", "host.example.com"}
	r.Section("every day")
	for y := 2000; y <= 2037; y++ {
		for m := 1; m <= 12; m++ {
			y, m := y, m
			r.Check(fmt.Sprintf("days of %d/%d", y, m), func() error {
				for t := time.Date(y, time.Month(m), 1, 23, 59, 59, 0, time.UTC); t.Month() == time.Month(m); t = t.AddDate(0, 0, 1) {
					for i, k := range []byte(" -[") {
						e := entry{kind: k, id: "SYSOP", t: t, host: hosts[i]}
						if k == '[' {
							e.id = ""
						}
						r.Eval(2)
						r.Distinct(kit.Hash(e.line()))
						if err := e.check(); err != nil {
							return err
						}
						if err := e.checkRecent(); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	r.Section("every second")
	for h := 0; h < 24; h++ {
		h := h
		r.Check(fmt.Sprintf("seconds of hour %d", h), func() error {
			for s := 0; s < 3600; s++ {
				e := n(s)
				e.t = time.Date(2021, 2, 28, h, s/60, s%60, 0, time.UTC)
				r.Eval(2)
				r.Distinct(kit.Hash(e.line()))
				if err := e.check(); err != nil {
					return err
				}
				if err := e.checkRecent(); err != nil {
					return err
				}
			}
			return nil
		})
	}
	if r.Thorough {
		for day := 0; day < 366*4; day++ {
			day := day
			r.Check(fmt.Sprintf("minutes of day %d", day), func() error {
				for m := 0; m < 1440; m++ {
					e := n(day + m)
					e.t = time.Date(2020, 1, 1, 0, m, m%60, 0, time.UTC).AddDate(0, 0, day)
					if err := e.check(); err != nil {
						return err
					}
					if err := e.checkRecent(); err != nil {
						return err
					}
				}
				r.Eval(2880)
				return nil
			})
		}
	}
	const idChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	r.Section("ids")
	for l := 2; l <= 12; l++ {
		for p := 0; p < l; p++ {
			l, p := l, p
			r.Check(fmt.Sprintf("id of %d, character %d", l, p), func() error {
				for _, c := range []byte(idChars) {
					for _, k := range []byte(" -") {
						id := []byte("guestaccount"[:l])
						id[p] = c
						e := entry{kind: k, id: string(id), t: n(p).t, host: hosts[l%5]}
						r.Eval(1)
						r.Distinct(kit.Hash(e.line()))
						if err := e.check(); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	r.Section("hosts")
	for l := 1; l <= 80; l++ {
		for _, k := range []byte(" -[") {
			l, k := l, k
			r.Check(fmt.Sprintf("host of %d in %q", l, k), func() error {
				for p := 0; p < l; p++ {
					for c := 0x21; c < 0x100; c++ {
						h := []byte(strings.Repeat("192.168.", 10)[:l])
						h[p] = byte(c)
						if p == 0 && (c == '?' || c == '@') || c == 0x7f || c == 0x85 || c == 0xa0 {
							continue
						}
						if c >= 0x80 && !(l < 20 || r.Thorough) {
							break
						}
						e := entry{kind: k, id: "test01", t: n(l).t, host: string(h)}
						if k == '[' {
							e.id = ""
						}
						r.Eval(2)
						if err := e.check(); err != nil {
							return err
						}
						if err := e.checkRecent(); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	base := []entry{n(0), n(1), n(2), n(4), n(6), {kind: ' ', id: "abc123456789", t: n(9).t, host: "172.22.0.1"}}
	r.Section("every truncation and every value of every byte")
	for bi, e := range base {
		e := e
		for _, s := range []string{e.line(), e.recent()} {
			s := s
			for p := 0; p <= len(s); p++ {
				p := p
				r.Check(fmt.Sprintf("base %d %q byte %d", bi, s[:1], p), func() error {
					for _, c := range []func([]byte) error{checkLine, checkRecentLine} {
						if err := c([]byte(s[:p])); err != nil {
							return err
						}
						for v := 0; v < 256; v++ {
							r.Eval(3)
							if err := c(append([]byte(s[:p]), byte(v))); err != nil {
								return err
							}
							// inserted, and replaced
							if err := c([]byte(s[:p] + string([]byte{byte(v)}) + s[p:])); err != nil {
								return err
							}
							if p < len(s) {
								if err := c([]byte(s[:p] + string([]byte{byte(v)}) + s[p+1:])); err != nil {
									return err
								}
							}
						}
						if p < len(s) {
							if err := c([]byte(s[:p] + s[p+1:])); err != nil {
								return err
							}
						}
					}
					return nil
				})
			}
		}
	}
	if r.Thorough {
		r.Section("every pair of characters of the time")
		const cs = " 0123456789/:[]-.+MonTueWdhrFiSatxZ"
		s := base[0].line()
		for p := 0; p < 39; p++ {
			for q := p + 1; q < 39; q++ {
				p, q := p, q
				r.Check(fmt.Sprintf("bytes %d and %d", p, q), func() error {
					for i := 0; i < len(cs); i++ {
						for j := 0; j < len(cs); j++ {
							b := []byte(s)
							b[p], b[q] = cs[i], cs[j]
							if err := checkLine(b); err != nil {
								return err
							}
						}
					}
					r.Eval(len(cs) * len(cs))
					return nil
				})
			}
		}
	}
	r.Section("one value of a date which does not exist")
	for v := 0; v < 100; v++ {
		v := v
		r.Check(fmt.Sprintf("value %d", v), func() error {
			for _, f := range []string{"[%02d/01/2021 10:08:56 Fri] 1.2.3.4", "[02/%02d/2021 10:08:56 Fri] 1.2.3.4", "[04/%02d/2021 10:08:56 Fri] 1.2.3.4", "[01/01/2021 %02d:08:56 Fri] 1.2.3.4", "[01/01/2021 10:%02d:56 Fri] 1.2.3.4", "[01/01/2021 10:08:%02d Fri] 1.2.3.4"} {
				l := fmt.Sprintf(f, v)
				for _, pre := range []string{"", " SYSOP       ", "-SYSOP       "} {
					if err := checkLine([]byte(pre + l)); err != nil {
						return err
					}
				}
				if err := checkRecentLine([]byte(l[1:20] + " 1.2.3.4 ")); err != nil {
					return err
				}
				r.Eval(4)
			}
			return nil
		})
	}
	r.Section("files of every length")
	max := kit.Pick(r, 500, 2500)
	for l := 0; l <= max; l++ {
		l := l
		r.Check(fmt.Sprintf("%d lines", l), func() error {
			var es []entry
			for i := 0; i < l; i++ {
				es = append(es, n(i+l))
			}
			if err := checkFile(r, es, ""); err != nil {
				return err
			}
			return checkFile(r, es, "\n")
		})
	}
	for _, l := range []int{20000, 32768, 65537, 70001} {
		l := l
		r.Check(fmt.Sprintf("%d lines", l), func() error {
			var es []entry
			for i := 0; i < l; i++ {
				es = append(es, n(i))
			}
			return checkFile(r, es, "\n")
		})
	}
	r.Section("every sequence of kinds of lines")
	var seq func(d int, es []entry)
	seq = func(d int, es []entry) {
		key := "sequence "
		for _, e := range es {
			key += string(e.kind) + e.id + ";"
		}
		cp := append([]entry{}, es...)
		r.Check(key, func() error { return checkFile(r, cp, "\n") })
		if d == 0 {
			return
		}
		for i, k := range []byte(" -[- ") {
			e := n(d*5 + i)
			e.kind, e.id = k, []string{"SYSOP", "SYSOP", "", "guest", "abc123456789"}[i]
			seq(d-1, append(es, e))
		}
	}
	seq(kit.Pick(r, 4, 5), nil)
	// somebody logs in twice in a second, from two hosts at a time, fails and then gets in
	r.Section("every sequence of entries which are equal or nearly")
	for _, kind := range []byte(" -[") {
		for v := 0; v < 3; v++ {
			e := n(4 + v)
			e.kind, e.id = kind, "SYSOP"
			if kind == '[' {
				e.id = ""
			}
			near := []entry{e, e, e, e, e}
			near[1].host = "1.2.3.4"
			near[2].t = near[2].t.Add(time.Second)
			if kind != '[' {
				near[3].id = "SYSO"
				near[4].kind = " -"[kind/'-']
			} else {
				near[3].t = near[3].t.Add(24 * time.Hour)
				near[4].host += "0"
			}
			var walk func(es []entry, key string)
			walk = func(es []entry, key string) {
				if len(es) > 0 {
					cp := append([]entry{}, es...)
					r.Check(key, func() error { return checkFile(r, cp, "\n") })
				}
				if len(es) == kit.Pick(r, 4, 5) {
					return
				}
				for i, x := range near {
					walk(append(es[:len(es):len(es)], x), key+fmt.Sprint(i))
				}
			}
			walk(nil, fmt.Sprintf("near entries %c %d ", kind, v))
		}
	}
	r.Section("a damaged line at every position")
	good := []entry{n(0), n(1), n(3), n(4), n(6)}
	for cnt := 1; cnt <= 5; cnt++ {
		for at := 0; at < cnt; at++ {
			for bi, b := range good {
				for _, s := range []string{b.line(), b.recent()} {
					cnt, at, s := cnt, at, s
					r.Check(fmt.Sprintf("%d lines, line %d damaged, %d %q", cnt, at, bi, s[:1]), func() error {
						for p := 0; p < len(s); p++ {
							for _, end := range []string{"", "\n"} {
								if err := damaged(r, good[:cnt], at, []byte(s[:p]), end); err != nil {
									return err
								}
								if err := damaged(r, good[:cnt], at, []byte(s[p:]), end); err != nil {
									return err
								}
								if err := damaged(r, good[:cnt], at, []byte(s[:p]+"\xff"+s[p+1:]), end); err != nil {
									return err
								}
							}
						}
						return nil
					})
				}
			}
		}
	}
	r.Section("lines of any length")
	sizes := []int{}
	for _, c := range []int{512, 4096, 8192, 16384, 32768, 65536, 131072} {
		for d := -30; d <= 3; d++ {
			sizes = append(sizes, c+d)
		}
	}
	for _, l := range append(sizes, 1<<20, 3<<20) {
		for at := 0; at < 3; at++ {
			l, at := l, at
			r.Check(fmt.Sprintf("line of %d bytes at %d", l, at), func() error {
				es := []entry{n(0), n(1), n(2)}
				es[at].host = strings.Repeat("h", l-38)
				bad, rec := "", ""
				for _, e := range es {
					bad, rec = bad+e.line()+"\n", rec+e.recent()+"\n"
				}
				p, err := write(r, []byte(bad))
				if err != nil {
					return err
				}
				if g, err := pttbbs.OpenBadLoginFile(p); err == nil && len(g) != 3 {
					return fmt.Errorf("%d attempts of 3 and no error", len(g))
				} else if err == nil {
					for i := range g {
						if err := es[i].same(g[i]); err != nil {
							return fmt.Errorf("attempt %d differs", i)
						}
					}
				} else if l < 60000 {
					return err
				}
				if p, err = write(r, []byte(rec)); err != nil {
					return err
				}
				if g, err := pttbbs.OpenLoginRecentFile(p); err == nil && len(g) != 3 {
					return fmt.Errorf("%d logins of 3 and no error", len(g))
				} else if err == nil {
					for i := range g {
						if err := es[i].sameRecent(g[i]); err != nil {
							return fmt.Errorf("login %d differs", i)
						}
					}
				} else if l < 60000 {
					return err
				}
				return nil
			})
		}
	}
	r.Section("every line of one or two bytes")
	for a := 0; a < 256; a++ {
		a := a
		r.Check(fmt.Sprintf("bytes %d", a), func() error {
			for b := 0; b < 256; b++ {
				for _, l := range [][]byte{{}, {byte(a)}, {byte(a), byte(b)}} {
					if err := checkLine(l); err != nil {
						return err
					}
					if err := checkRecentLine(l); err != nil {
						return err
					}
				}
			}
			r.Eval(6 * 256)
			return nil
		})
	}
	r.Section("files which can not be read")
	r.Check("missing file and directory", func() error {
		d := r.Dir("d")
		for _, p := range []string{filepath.Join(d, "none"), d} {
			if g, err := pttbbs.OpenBadLoginFile(p); err == nil {
				return fmt.Errorf("no error, %d attempts", len(g))
			}
			if g, err := pttbbs.OpenLoginRecentFile(p); err == nil {
				return fmt.Errorf("no error, %d logins", len(g))
			}
		}
		return nil
	})
}
