// C09: Big5 and C-string conversion is total and lossless where possible.
package main

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/Ptt-official-app/go-bbs"
	"golang.org/x/text/encoding/traditionalchinese"

	"verifmc/kit"
)

func main() {
	kit.Main(kit.Config{
		ID: "C09", Level: kit.Exploration,
		Rule:        "all one and two byte inputs, all Unicode code points in several contexts, pairs of neighbouring characters, all short sequences of representatives of every class of bytes, texts of every length around the buffer sizes, all NUL placements in short buffers; distinct by input",
		Assumptions: []string{"the table is the one of golang.org/x/text, read one code at a time", "where the table has two codes of one character, the one in standard Big5 (A140 to C67E, C940 to F9D5) is right, and any of them when none or several are standard", "the replacement of a character is any text without U+FFFD"},
		Body:        body,
	})
}

// table of the single codes
var (
	codes   []string                // every valid two byte code
	decoded = map[string]string{}   // code to text
	back    = map[string][]string{} // text to codes
)

func standard(c string) bool {
	v := int(c[0])<<8 | int(c[1])
	return v >= 0xa140 && v <= 0xc67e || v >= 0xc940 && v <= 0xf9d5
}

// encodings returns the codes which are right for the character.
func encodings(r string) []string {
	cs := back[r]
	var st []string
	for _, c := range cs {
		if standard(c) {
			st = append(st, c)
		}
	}
	// ═ ╞ ╪ ╡ belong to both halves of the box characters
	if len(st) == 1 && !strings.Contains("═╞╪╡", r) {
		return st
	}
	return cs
}

func table() {
	for h := 0x80; h < 256; h++ {
		for l := 0; l < 256; l++ {
			b := []byte{byte(h), byte(l)}
			u, err := traditionalchinese.Big5.NewDecoder().Bytes(b)
			if err != nil || bytes.ContainsRune(u, utf8.RuneError) || utf8.RuneCount(u) > 1 && l < 0x80 && u[len(u)-1] == byte(l) {
				continue
			}
			codes = append(codes, string(b))
			decoded[string(b)] = string(u)
			back[string(u)] = append(back[string(u)], string(b))
		}
	}
}

func rightCode(r string, got []byte) bool {
	for _, c := range encodings(r) {
		if string(got) == c {
			return true
		}
	}
	return false
}

func dec(b []byte) string {
	in := append([]byte{}, b...)
	s := bbs.Big5ToUtf8(in)
	if !bytes.Equal(in, b) {
		panic("decoding changed its input")
	}
	return s
}

func enc(s string) []byte { return bbs.Utf8ToBig5(s) }

// text is a list of characters of the table (or ASCII) and its code.
func both(u string, b []byte) error {
	if g := dec(b); g != u {
		return fmt.Errorf("% x decodes to %q, want %q", clip(b), clips(g), clips(u))
	}
	if g := enc(u); !bytes.Equal(g, b) {
		return fmt.Errorf("%q encodes to % x, want % x", clips(u), clip(g), clip(b))
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 80 {
		return b[:80]
	}
	return b
}

func clips(s string) string {
	if len(s) > 120 {
		return s[:120]
	}
	return s
}

func body(r *kit.Run) {
	table()
	r.Note("codes in the table", len(codes))
	// the codes which are right for their own character
	var canon []string
	for _, c := range codes {
		if rightCode(decoded[c], []byte(c)) && len(encodings(decoded[c])) == 1 && utf8.RuneCountInString(decoded[c]) == 1 {
			canon = append(canon, c)
		}
	}
	r.Note("codes which convert back to themselves", len(canon))
	r.Section("every one and two byte input")
	for h := 0; h < 256; h++ {
		h := h
		r.Check(fmt.Sprintf("first byte %02x", h), func() error {
			one := dec([]byte{byte(h)})
			if h < 0x80 && one != string(rune(h)) {
				return fmt.Errorf("%02x decodes to %q", h, one)
			}
			if !utf8.ValidString(one) {
				return fmt.Errorf("%02x decodes to %q", h, one)
			}
			for l := 0; l < 256; l++ {
				b := []byte{byte(h), byte(l)}
				r.Eval(4)
				r.Distinct(kit.HashB(b))
				got := dec(b)
				if !utf8.ValidString(got) {
					return fmt.Errorf("% x decodes to %q", b, got)
				}
				want, ok := decoded[string(b)]
				if h < 0x80 && l < 0x80 {
					want, ok = string(b), true
				}
				if ok && got != want {
					return fmt.Errorf("% x decodes to %q, want %q", b, got, want)
				}
				if h < 0x80 && !strings.HasPrefix(got, string(rune(h))) {
					return fmt.Errorf("% x decodes to %q", b, got)
				}
				for _, pre := range []string{"", "A", "中A", "中"} {
					s := dec([]byte(big5(pre) + string(b) + "  " + big5("文") + "z"))
					if !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, " 文z") || ok && s != pre+want+"  文z" {
						return fmt.Errorf("%q, % x and %q decodes to %q", pre, b, "  文z", s)
					}
				}
			}
			return nil
		})
	}
	r.Section("every code point")
	for blk := 0; blk < 0x110000; blk += 256 {
		blk := blk
		r.Check(fmt.Sprintf("U+%04X", blk), func() error {
			for c := blk; c < blk+256; c++ {
				u := string(rune(c))
				if c >= 0xd800 && c < 0xe000 {
					// as in CESU-8, not valid
					u = string([]byte{0xe0 | byte(c>>12), 0x80 | byte(c>>6&0x3f), 0x80 | byte(c&0x3f)})
				}
				r.Eval(3)
				for _, ctx := range [][2]string{{"", ""}, {"中", "文a"}, {"a", "z"}} {
					got := enc(ctx[0] + u + ctx[1])
					p, s := big5(ctx[0]), big5(ctx[1])
					if !strings.HasPrefix(string(got), p) || !strings.HasSuffix(string(got), s) || len(got) <= len(p)+len(s) {
						return fmt.Errorf("%q encodes to % x", ctx[0]+u+ctx[1], got)
					}
					mid := got[len(p) : len(got)-len(s)]
					switch {
					case c < 0x80:
						if string(mid) != u {
							return fmt.Errorf("%q encodes to % x", u, mid)
						}
					case len(back[u]) > 0:
						if !rightCode(u, mid) {
							return fmt.Errorf("%q encodes to % x, want % x", u, mid, encodings(u)[0])
						}
						if d := dec(mid); d != u {
							return fmt.Errorf("%q comes back as %q", u, d)
						}
					default:
						if d := dec(mid); strings.ContainsRune(d, utf8.RuneError) || !utf8.ValidString(d) {
							return fmt.Errorf("U+%04X, which is not in Big5, is replaced by % x", c, mid)
						}
					}
				}
			}
			return nil
		})
	}
	r.Section("every character alone and with ASCII around it")
	for i := 0; i < len(canon); i += 100 {
		i := i
		r.Check(fmt.Sprintf("characters from % x", canon[i]), func() error {
			for j := i; j < i+100 && j < len(canon); j++ {
				c := canon[j]
				if err := both(decoded[c], []byte(c)); err != nil {
					return err
				}
				for a := 0; a < 0x80; a++ {
					x := string(rune(a))
					if err := both(x+decoded[c]+x+decoded[c]+decoded[c]+x+x, []byte(x+c+x+c+c+x+x)); err != nil {
						return err
					}
				}
				r.Eval(129)
			}
			return nil
		})
	}
	r.Section("every pair of ASCII characters")
	r.Check("ascii pairs", func() error {
		for a := 0; a < 0x80; a++ {
			for b := 0; b < 0x80; b++ {
				s := string([]byte{byte(a), byte(b), byte(a)})
				if err := both(s, []byte(s)); err != nil {
					return err
				}
			}
		}
		r.Eval(16384)
		return nil
	})
	r.Section("pairs of neighbouring characters")
	step := kit.Pick(r, 97, 1)
	for i := 0; i < len(canon); i++ {
		if i%10 != 0 {
			continue
		}
		i := i
		r.Check(fmt.Sprintf("pairs with % x", canon[i]), func() error {
			for j := i; j < i+10 && j < len(canon); j++ {
				c := canon[j]
				var u, b strings.Builder
				for k := j % step; k < len(canon); k += step {
					d := canon[k]
					b.WriteString(c)
					b.WriteString(d)
					u.WriteString(decoded[c])
					u.WriteString(decoded[d])
					r.Eval(2)
				}
				if err := both(u.String(), []byte(b.String())); err != nil {
					return fmt.Errorf("around % x: %v", c, err)
				}
			}
			return nil
		})
	}
	r.Section("characters which are in the table twice")
	r.Check("twice", func() error {
		for u, cs := range back {
			if len(cs) < 2 {
				continue
			}
			for _, c := range cs {
				if d := dec([]byte("a" + c + "b")); d != "a"+u+"b" {
					return fmt.Errorf("% x decodes to %q, want %q", c, d, "a"+u+"b")
				}
			}
			for _, pre := range []string{"", "a", "中", u} {
				g := enc(pre + u + "文" + u)
				w := enc(pre)
				rest := g[len(w):]
				if !bytes.HasPrefix(g, w) || len(rest) != 6 || !rightCode(u, rest[:2]) || string(rest[2:4]) != big5("文") || !rightCode(u, rest[4:]) {
					return fmt.Errorf("%q encodes to % x", pre+u+"文"+u, g)
				}
				if d := dec(g); d != pre+u+"文"+u {
					return fmt.Errorf("%q comes back as %q", pre+u+"文"+u, d)
				}
				r.Eval(1)
			}
		}
		return nil
	})
	r.Section("texts of every length")
	max := kit.Pick(r, 1200, 9000)
	for n := 0; n <= max; n++ {
		n := n
		r.Check(fmt.Sprintf("length %d", n), func() error {
			for _, shift := range []int{0, 1} {
				var u, b strings.Builder
				for i := 0; i < shift; i++ {
					u.WriteByte('a')
					b.WriteByte('a')
				}
				for i := 0; i < n; i++ {
					c := canon[(i*131+n)%len(canon)]
					u.WriteString(decoded[c])
					b.WriteString(c)
					if i%(n%7+3) == 2 {
						u.WriteByte('x')
						b.WriteByte('x')
					}
				}
				if err := both(u.String(), []byte(b.String())); err != nil {
					return err
				}
				// a character which is not in Big5 near the end
				g := enc(u.String() + "\U0001F600" + "中z")
				if !strings.HasPrefix(string(g), b.String()) || !strings.HasSuffix(string(g), big5("中")+"z") || len(g) <= b.Len()+3 {
					return fmt.Errorf("an unknown character after %d characters: % x", n, clip(g))
				}
				r.Eval(3)
			}
			return nil
		})
	}
	for _, n := range []int{16384, 32768, 65536, 1 << 20} {
		for d := -3; d <= 3; d++ {
			n := n + d
			r.Check(fmt.Sprintf("%d bytes of ascii", n), func() error {
				s := strings.Repeat("0123456789abcde\n", n/16+1)[:n]
				if err := both(s, []byte(s)); err != nil {
					return err
				}
				return both(s+"中", []byte(s+big5("中")))
			})
		}
	}
	r.Section("every position of an unknown character")
	max = kit.Pick(r, 40, 120)
	for n := 1; n <= max; n++ {
		n := n
		r.Check(fmt.Sprintf("%d characters", n), func() error {
			for p := 0; p < n; p++ {
				for _, bad := range []string{"\U0001F600", "\u00e9", "\u3400\u0301", "\xff", "\xe4\xb8", "\xf0\x9f\x98"} {
					pre, post := strings.Repeat("文b", p), " "+strings.Repeat("字c", n-p)
					g := enc(pre + bad + post)
					wp, ws := strings.Repeat(big5("文")+"b", p), " "+strings.Repeat(big5("字")+"c", n-p)
					if !strings.HasPrefix(string(g), wp) || !strings.HasSuffix(string(g), ws) || len(g) <= len(wp)+len(ws) {
						return fmt.Errorf("%q encodes to % x", pre+bad+post, g)
					}
					r.Eval(1)
				}
			}
			return nil
		})
	}
	r.Section("every short sequence of classes of bytes")
	reps := []byte{0, 'A', '~', 0x7f, 0x80, 0x81, 0x87, 0xa1, 0xa4, 0xc6, 0xfe, 0xff, 0x40}
	ureps := []string{"\x00", "A", "中", "é", "\U0001F600", "\x80", "\xc3", "\xe4", "\xb8", "\xf0", "\xff", "\xed\xa0\x80", "港"}
	depth := kit.Pick(r, 4, 6)
	for i := range reps {
		for j := range reps {
			i, j := i, j
			r.Check(fmt.Sprintf("classes %d %d", i, j), func() error {
				var err error
				var rec func(b []byte, u string, d int)
				rec = func(b []byte, u string, d int) {
					if err != nil {
						return
					}
					r.Eval(2)
					s := dec([]byte("q" + string(b) + "  " + big5("文") + "z"))
					if !utf8.ValidString(s) || s[0] != 'q' || !strings.HasSuffix(s, " 文z") {
						err = fmt.Errorf("% x decodes to %q", b, s)
					}
					g := enc("q" + u + "  文z")
					if g[0] != 'q' || !strings.HasSuffix(string(g), " "+big5("文")+"z") {
						err = fmt.Errorf("%q encodes to % x", u, g)
					}
					enc(u)
					dec(b)
					if d == 0 {
						return
					}
					for k := range reps {
						rec(append(append([]byte{}, b...), reps[k]), u+ureps[k], d-1)
					}
				}
				rec([]byte{reps[i], reps[j]}, ureps[i]+ureps[j], depth-2)
				return err
			})
		}
	}
	if r.Thorough {
		r.Section("every three byte input")
		for h := 0; h < 256; h++ {
			for l := 0; l < 256; l++ {
				h, l := h, l
				r.Check(fmt.Sprintf("bytes %02x %02x", h, l), func() error {
					for m := 0; m < 256; m++ {
						b := []byte{byte(h), byte(l), byte(m)}
						s := dec([]byte("q" + string(b) + "  z"))
						if !utf8.ValidString(s) || s[0] != 'q' || !strings.HasSuffix(s, " z") {
							return fmt.Errorf("% x decodes to %q", b, s)
						}
						if w, ok := decoded[string(b[:2])]; ok && !strings.HasPrefix(s[1:], w) {
							return fmt.Errorf("% x decodes to %q", b, s)
						}
						if w, ok := decoded[string(b[1:])]; ok && h < 0x80 && s != "q"+string(rune(h))+w+"  z" {
							return fmt.Errorf("% x decodes to %q", b, s)
						}
						g := enc("q" + string(b) + "  z")
						if g[0] != 'q' || !strings.HasSuffix(string(g), " z") {
							return fmt.Errorf("%q encodes to % x", b, g)
						}
					}
					r.Eval(512)
					return nil
				})
			}
		}
	}
	r.Section("C strings")
	cstr := func(b []byte) error {
		in := append([]byte{}, b...)
		want := b
		if i := bytes.IndexByte(b, 0); i >= 0 {
			want = b[:i]
		}
		if g := bbs.CstrToBytes(in); !bytes.Equal(g, want) {
			return fmt.Errorf("% x gives % x", b, g)
		}
		if g := bbs.CstrToString(in); g != string(want) {
			return fmt.Errorf("% x gives %q", b, g)
		}
		if !bytes.Equal(in, b) {
			return fmt.Errorf("% x was changed", b)
		}
		r.Eval(1)
		return nil
	}
	r.Check("nil", func() error { return cstr(nil) })
	for h := 0; h < 256; h++ {
		h := h
		r.Check(fmt.Sprintf("C string %d", h), func() error {
			if err := cstr([]byte{byte(h)}); err != nil {
				return err
			}
			for l := 0; l < 256; l++ {
				for _, t := range [][]byte{{}, {0}, {'a'}, {0, 'a'}, {'a', 0}, {0xff, 0, 0xff}} {
					if err := cstr(append([]byte{byte(h), byte(l)}, t...)); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	for n := 1; n <= kit.Pick(r, 130, 600); n++ {
		n := n
		r.Check(fmt.Sprintf("NULs in %d bytes", n), func() error {
			for p := -1; p < n; p++ {
				for q := p; q < n; q++ {
					for _, fill := range []byte{'a', 0xff, '0', 1} {
						b := bytes.Repeat([]byte{fill}, n)
						if p >= 0 {
							b[p] = 0
						}
						if q >= 0 {
							b[q] = 0
						}
						if err := cstr(b); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
	}
	for n := 0; n <= 12; n++ {
		n := n
		r.Check(fmt.Sprintf("NUL sets in %d bytes", n), func() error {
			for m := 0; m < 1<<uint(n); m++ {
				b := bytes.Repeat([]byte{'x'}, n)
				for i := 0; i < n; i++ {
					if m>>uint(i)&1 != 0 {
						b[i] = 0
					}
				}
				if err := cstr(b); err != nil {
					return err
				}
			}
			return nil
		})
	}
}

func big5(s string) string {
	b, err := traditionalchinese.Big5.NewEncoder().Bytes([]byte(s))
	if err != nil {
		panic(err)
	}
	return string(b)
}
