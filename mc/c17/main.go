// C17: comment lines are recognised exactly.
package main

import (
	"fmt"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/Ptt-official-app/go-bbs"

	"verifmc/kit"
)

func main() {
	kit.Main(kit.Config{
		ID: "C17", Level: kit.Exploration,
		Rule:        "all sequences of tokens (authors, colons, dates, times, spaces, Chinese characters) up to the listed length, all texts over an alphabet of colons, digits and slashes up to the listed length, all days and minutes, all author characters, all Big5 codes, all colour sequences with up to 4 parameters, and those with up to 24 of which at most one differs, between all kinds of neighbours, against a hand written scanner; distinct by line",
		Assumptions: []string{"authors have at least 2 characters, start with a letter and do not follow a letter or digit; text after the time, other white space than spaces and tabs between, and dates which do not exist may go either way", "colour sequences have parameters of at most 3 digits and the text has no BEL"},
		Body:        body,
	})
}

type art struct{ name string }

func (a art) Filename() string        { return a.name }
func (a art) Modified() time.Time     { return time.Time{} }
func (a art) SetModified(t time.Time) {}
func (a art) Recommend() int          { return 0 }
func (a art) Date() string            { return "" }
func (a art) Title() string           { return "" }
func (a art) Money() int              { return 0 }
func (a art) Owner() string           { return "other" }

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func digit(c byte) bool  { return c >= '0' && c <= '9' }

// isTime says whether s starts with dd/dd dd:dd; ok is false for an impossible one or another separator.
func isTime(s string) (found, ok bool, t time.Time) {
	if len(s) < 11 {
		return
	}
	for i, c := range []byte(s[:11]) {
		switch i {
		case 2:
			if c != '/' {
				return
			}
		case 5:
			if !strings.ContainsRune(" \t\v\f\r\u0085\u00a0", rune(c)) {
				return
			}
		case 8:
			if c != ':' {
				return
			}
		default:
			if !digit(c) {
				return
			}
		}
	}
	n := func(i int) int { return int(s[i]-'0')*10 + int(s[i+1]-'0') }
	t = time.Date(0, time.Month(n(0)), n(3), n(6), n(9), 0, 0, time.UTC)
	ok = s[5] == ' ' && n(0) >= 1 && n(0) <= 12 && n(3) >= 1 && n(6) < 24 && n(9) < 60 && t.Month() == time.Month(n(0))
	return true, ok, t
}

type comment struct {
	owner, text string
	t           time.Time
}

const (
	no = iota
	yes
	open // may go either way
)

// parse is the reference scanner.
func parse(s string) (c comment, verdict int) {
	verdict = no
	maybe := false
	for i := 0; i < len(s); i++ {
		if !letter(s[i]) || i > 0 && letter(s[i-1]) {
			continue
		}
		j := i
		for j < len(s) && (letter(s[j]) || digit(s[j])) {
			j++
		}
		if j == len(s) || s[j] != ':' {
			continue
		}
		if i > 0 && digit(s[i-1]) {
			maybe = true
			continue
		}
		// an author; the last time after it
		k := -1
		var ok bool
		for p := len(s) - 11; p > j; p-- {
			f, o, t := isTime(s[p:])
			if f {
				k, ok, c.t = p, o, t
				break
			}
		}
		if k < 0 {
			break
		}
		if j-i < 2 {
			maybe = true
			continue
		}
		c.owner, c.text = s[i:j], strings.Trim(s[j+1:k], " ")
		if maybe || !ok || strings.Trim(s[k+11:], " ") != "" || strings.ContainsAny(s, "\n\r\v\f\t") {
			return c, open
		}
		return c, yes
	}
	if maybe {
		return c, open
	}
	// an author which follows a digit
	for i := 1; i+1 < len(s); i++ {
		if s[i] == ':' && (letter(s[i-1]) || digit(s[i-1])) {
			for p := i + 1; p+11 <= len(s); p++ {
				if f, _, _ := isTime(s[p:]); f {
					return c, open
				}
			}
		}
	}
	return c, no
}

func check(s string) error {
	want, v := parse(s)
	return compare(s, want, v)
}

func compare(s string, want comment, v int) error {
	got, err := bbs.NewUserCommentRecord(7, s, "SomeBoard", art{"M.1.A.001"})
	switch v {
	case open:
		return nil
	case no:
		if err == nil {
			return fmt.Errorf("%q is not a comment but gives %v with text %q", s, got, got.Comment())
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%q: %v", s, err)
	}
	if got.Owner() != want.owner || got.Comment() != want.text || !got.CommentTime().Equal(want.t) {
		return fmt.Errorf("%q gives %q, %q, %v, want %q, %q, %v", s, got.Owner(), got.Comment(), got.CommentTime(), want.owner, want.text, want.t)
	}
	if got.CommentOrder() != 7 || got.BoardID() != "SomeBoard" || got.Filename() != "M.1.A.001" {
		return fmt.Errorf("%q gives order %d, board %q, article %q", s, got.CommentOrder(), got.BoardID(), got.Filename())
	}
	if w := fmt.Sprintf("order: 7, owner: %s, time: %s", want.owner, want.t.Format("01/02 15:04")); got.String() != w {
		return fmt.Errorf("%q prints %q, want %q", s, got.String(), w)
	}
	return nil
}

func body(r *kit.Run) {
	r.Section("token sequences")
	tokens := []string{"ab", "Xy12", ":", " ", "05/15", "01:06", "05/15 01:06", "推", "/", "12/31 23:59"}
	depth := kit.Pick(r, 7, 8)
	r.Note("tokens per line", depth)
	var yesN, noN int
	for i := range tokens {
		for j := range tokens {
			pre := tokens[i] + tokens[j]
			r.Check("tokens "+pre, func() error {
				var rec func(s string, d int) error
				rec = func(s string, d int) error {
					r.Eval(1)
					c, v := parse(s)
					switch v {
					case yes:
						yesN++
					case no:
						noN++
					}
					if err := compare(s, c, v); err != nil {
						return err
					}
					if d == 0 {
						return nil
					}
					for _, t := range tokens {
						if err := rec(s+t, d-1); err != nil {
							return err
						}
					}
					return nil
				}
				return rec(pre, depth-2)
			})
		}
	}
	r.Check("short token sequences", func() error {
		if err := check(""); err != nil {
			return err
		}
		for _, t := range tokens {
			if err := check(t); err != nil {
				return err
			}
		}
		return nil
	})
	r.MaxNote("comments among the token sequences of one worker", yesN)
	r.MaxNote("other lines among the token sequences of one worker", noN)
	r.Section("texts")
	alpha := []string{" ", ":", "0", "5", "/", "a", "中", "."}
	tdepth := kit.Pick(r, 7, 8)
	for i := range alpha {
		for j := range alpha {
			pre := alpha[i] + alpha[j]
			r.Check("text "+pre, func() error {
				var rec func(s string, d int) error
				rec = func(s string, d int) error {
					for _, form := range [][2]string{{"推 ab:", " 05/15 01:06"}, {"→ Zz9: ", "12/31 23:59"}} {
						l := form[0] + s + form[1]
						r.Eval(1)
						c, v := parse(l)
						if v == yes && c.owner == strings.TrimRight(form[0][strings.Index(form[0], " ")+1:], ": ") {
							c.text = strings.Trim(s, " ")
						} else {
							return fmt.Errorf("harness: %q is not taken for a comment (%d, %q)", l, v, c.owner)
						}
						if err := compare(l, c, v); err != nil {
							return err
						}
					}
					if d == 0 {
						return nil
					}
					for _, t := range alpha {
						if err := rec(s+t, d-1); err != nil {
							return err
						}
					}
					return nil
				}
				return rec(pre, tdepth-2)
			})
		}
	}
	r.Section("every day and minute")
	for m := 1; m <= 12; m++ {
		for d := 1; d <= 31; d++ {
			m, d := m, d
			r.Check(fmt.Sprintf("day %d/%d", m, d), func() error {
				t := time.Date(0, time.Month(m), d, 0, 0, 0, 0, time.UTC)
				if t.Month() != time.Month(m) {
					return nil
				}
				step := kit.Pick(r, 7, 1)
				if d == 15 || d == 1 {
					step = 1
				}
				for x := 0; x < 1440; x += step {
					l := fmt.Sprintf("噓 Author9: 文字 %02d/%02d %02d:%02d", m, d, x/60, x%60)
					r.Eval(1)
					c := comment{"Author9", "文字", t.Add(time.Duration(x) * time.Minute)}
					if err := compare(l, c, yes); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	r.Section("every two digits at every place of the time")
	for p := 0; p < 4; p++ {
		for v := 0; v < 100; v++ {
			p, v := p, v
			r.Check(fmt.Sprintf("time %d %d", p, v), func() error {
				f := []int{2, 28, 10, 30}
				f[p] = v
				for _, m := range []int{1, 2, 4, 12} {
					if p != 0 {
						f[0] = m
					}
					if err := check(fmt.Sprintf("推 user1: x %02d/%02d %02d:%02d", f[0], f[1], f[2], f[3])); err != nil {
						return err
					}
					r.Eval(1)
				}
				return nil
			})
		}
	}
	const alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	prefixes := []string{"推 ", "噓 ", "→ ", "\xb1\xc0 ", "\xbc\x4e ", "\xa1\xf7 ", "", " ", "   ", "※ ", "- ", "(1) "}
	r.Section("authors")
	for n := 2; n <= 12; n++ {
		for p := 0; p < n; p++ {
			n, p := n, p
			r.Check(fmt.Sprintf("author of %d, character %d", n, p), func() error {
				for c := 0; c < 128; c++ {
					a := []byte("Abcdefghijkl"[:n])
					a[p] = byte(c)
					for _, pre := range prefixes {
						for _, sp := range []string{"", " ", "    "} {
							l := pre + string(a) + ":" + sp + "some text" + sp + " 03/04 05:06"
							r.Eval(1)
							if letter(byte(c)) || digit(byte(c)) && p > 0 {
								if err := compare(l, comment{string(a), "some text", time.Date(0, 3, 4, 5, 6, 0, 0, time.UTC)}, yes); err != nil {
									return err
								}
							} else if err := check(l); err != nil {
								return err
							}
						}
					}
				}
				return nil
			})
		}
	}
	r.Section("Big5 text")
	for h := 0x81; h < 0xff; h++ {
		h := h
		r.Check(fmt.Sprintf("Big5 %02x", h), func() error {
			for l := 0x40; l < 0xff; l++ {
				if l == 0x7f {
					l = 0xa1
				}
				ch := string([]byte{byte(h), byte(l)})
				for _, txt := range []string{ch, ch + "a" + ch, "x " + ch, ch + " x", ch + ch + ch} {
					line := "\xb1\xc0 user: " + txt + " 03/04 05:06"
					r.Eval(1)
					if err := compare(line, comment{"user", txt, time.Date(0, 3, 4, 5, 6, 0, 0, time.UTC)}, yes); err != nil {
						return err
					}
					if g := bbs.FilterStringANSI(txt); g != txt {
						return fmt.Errorf("filtering %q without colours gives %q", txt, g)
					}
					col := "\x1b[1;31m" + txt + "\x1b[m\x1b[33m" + txt
					if g := bbs.FilterStringANSI(col); g != txt+txt {
						return fmt.Errorf("filtering %q gives %q", col, g)
					}
					half := ch[:1] + "\x1b[1;32m" + ch[1:] + txt
					if g := bbs.FilterStringANSI(half); g != ch+txt {
						return fmt.Errorf("filtering %q gives %q", half, g)
					}
				}
			}
			return nil
		})
	}
	r.Section("every code point in text")
	for blk := 0; blk < 0x30000; blk += 256 {
		blk := blk
		r.Check(fmt.Sprintf("U+%04X", blk), func() error {
			for c := blk; c < blk+256; c++ {
				if c >= 0xd800 && c < 0xe000 || c == '\n' {
					continue
				}
				u := string(rune(c))
				if c != 0x1b && c != 0x9b {
					for _, s := range []string{u, "a" + u + "b", u + u, "[31m" + u, u + "[31m"} {
						if g := bbs.FilterStringANSI(s); g != s {
							return fmt.Errorf("filtering %q, which has no colours, gives %q", s, g)
						}
						if c == 7 {
							continue
						}
						if g := bbs.FilterStringANSI(u + "\x1b[0;37;44m" + s); g != u+s {
							return fmt.Errorf("filtering %q with a colour in front gives %q", s, g)
						}
					}
				}
				r.Eval(10)
				if c == '\r' || c == '\t' || c == '\v' || c == '\f' || c == 0x1b {
					continue
				}
				// inside of a text, spaces of all kinds are kept
				txt := "x" + u + "y"
				if err := compare("推 user: "+txt+" 03/04 05:06", comment{"user", txt, time.Date(0, 3, 4, 5, 6, 0, 0, time.UTC)}, yes); err != nil {
					return err
				}
			}
			return nil
		})
	}
	r.Section("colour sequences")
	params := []string{"", "0", "1", "7", "31", "44", "107", "255"}
	around := []string{"", "a", "m", "1", "[", ";", "中", "\xa4\xa4", " ", "]", "31m", "K", ":", "\x00", "~"}
	for n := 0; n <= kit.Pick(r, 3, 4); n++ {
		for i := range params {
			if n == 0 && i > 0 {
				break
			}
			n, i := n, i
			r.Check(fmt.Sprintf("%d parameters, first %q", n, params[i]), func() error {
				var rec func(p []string) error
				rec = func(p []string) error {
					if len(p) < n {
						for _, x := range params {
							if err := rec(append(append([]string{}, p...), x)); err != nil {
								return err
							}
						}
						return nil
					}
					seq := "\x1b[" + strings.Join(p, ";") + "m"
					for _, a := range around {
						for _, b := range around {
							s := a + seq + b
							r.Eval(1)
							if g := bbs.FilterStringANSI(s); g != a+b {
								return fmt.Errorf("filtering %q gives %q, want %q", s, g, a+b)
							}
							s = a + seq + seq + b + seq
							if g := bbs.FilterStringANSI(s); g != a+b {
								return fmt.Errorf("filtering %q gives %q, want %q", s, g, a+b)
							}
						}
					}
					return nil
				}
				if n == 0 {
					return rec(nil)
				}
				return rec([]string{params[i]})
			})
		}
	}
	r.Section("long colour sequences")
	for n := 1; n <= 24; n++ {
		n := n
		r.Check(fmt.Sprintf("%d parameters", n), func() error {
			for _, x := range params {
				for k := 0; k <= n; k++ {
					for _, y := range params {
						// one parameter is another than the rest
						p := make([]string, n)
						for i := range p {
							p[i] = x
						}
						if k < n {
							p[k] = y
						}
						for _, a := range around {
							s := a + "\x1b[" + strings.Join(p, ";") + "m" + a
							r.Eval(1)
							if g := bbs.FilterStringANSI(s); g != a+a {
								return fmt.Errorf("filtering %q gives %q, want %q", s, g, a+a)
							}
						}
					}
				}
			}
			return nil
		})
	}
	r.Section("coloured comment lines")
	for i, p := range []string{"推 ", "噓 ", "→ ", "\xb1\xc0 ", "\xbc\x4e "} {
		for n := 2; n <= 12; n++ {
			i, p, n := i, p, n
			r.Check(fmt.Sprintf("coloured %d %d", i, n), func() error {
				a := "Abcdefghijkl"[:n]
				for w := 0; w <= 60; w++ {
					txt := strings.Repeat("中", w/2) + strings.Repeat("x", w%2)
					l := "\x1b[1;37m" + p + "\x1b[33m" + a + "\x1b[m\x1b[33m: " + txt + strings.Repeat(" ", 60-w) + "\x1b[m 03/04 05:06"
					r.Eval(1)
					if err := compare(bbs.FilterStringANSI(l), comment{a, txt, time.Date(0, 3, 4, 5, 6, 0, 0, time.UTC)}, yes); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	r.Section("any bytes")
	reps := []byte{0, '\n', '\r', '\t', 0x1b, '[', ';', '3', 'm', 'a', ':', ' ', '/', 7, 0x80, 0x9b, 0xc2, 0xff}
	bdepth := kit.Pick(r, 5, 6)
	for i := range reps {
		for j := range reps {
			i, j := i, j
			r.Check(fmt.Sprintf("bytes %d %d", i, j), func() error {
				var rec func(b []byte, d int) error
				rec = func(b []byte, d int) error {
					r.Eval(1)
					s := string(b)
					g := bbs.FilterStringANSI(s)
					if !subsequence(g, s) {
						return fmt.Errorf("filtering %q gives %q", s, g)
					}
					if !strings.ContainsAny(s, "\x1b\u009b") && g != s {
						return fmt.Errorf("filtering %q gives %q", s, g)
					}
					bbs.NewUserCommentRecord(1, s, "b", art{})
					bbs.NewUserCommentRecord(1, "ab:"+s+"05/06 07:08", "b", art{})
					if d == 0 {
						return nil
					}
					for _, c := range reps {
						if err := rec(append(append([]byte{}, b...), c), d-1); err != nil {
							return err
						}
					}
					return nil
				}
				return rec([]byte{reps[i], reps[j]}, bdepth-2)
			})
		}
	}
	r.Section("every two bytes")
	for a := 0; a < 256; a++ {
		a := a
		r.Check(fmt.Sprintf("two bytes %d", a), func() error {
			for b := 0; b < 256; b++ {
				s := string([]byte{byte(a), byte(b)})
				for _, l := range []string{s, "ab: " + s + " 05/06 07:08", s + "ab:05/06 07:08"} {
					r.Eval(2)
					if g := bbs.FilterStringANSI(l); !strings.ContainsAny(l, "\x1b\u009b") && g != l {
						return fmt.Errorf("filtering %q gives %q", l, g)
					}
					bbs.NewUserCommentRecord(1, l, "b", art{})
				}
				if a < 0x80 && b < 0x80 {
					if err := check("推 ab: " + s + " 05/06 07:08"); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	r.Section("long lines")
	for _, n := range []int{100, 1000, 4096, 65535, 65536, 1 << 20} {
		n := n
		r.Check(fmt.Sprintf("line of %d", n), func() error {
			for _, u := range []string{"x", "中", ": ", "ab:", "05/06 07:08 ", "/"} {
				txt := strings.TrimSpace(strings.Repeat(u, n/len(u)))
				if err := compare("推 user: "+txt+" 05/06 07:08", comment{"user", txt, time.Date(0, 5, 6, 7, 8, 0, 0, time.UTC)}, yes); err != nil {
					return fmt.Errorf("a line of %d x %q: %.200v", n/len(u), u, err)
				}
				if g := bbs.FilterStringANSI(strings.Repeat("\x1b[1;33m"+u, 100)); g != strings.Repeat(u, 100) {
					return fmt.Errorf("filtering coloured %q gives %.100q", u, g)
				}
			}
			return nil
		})
	}
	_ = utf8.RuneError
}

// subsequence says whether a can be got from b by removing characters (invalid bytes may be kept or replaced).
func subsequence(a, b string) bool {
	i := 0
	for j := 0; i < len(a) && j < len(b); j++ {
		if a[i] == b[j] {
			i++
		}
	}
	return i == len(a)
}
