package main

import (
	"bytes"
	"encoding"
	"fmt"

	formosabbs "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/kit"
	"verifmc/show"
)

type codec struct {
	name   string
	size   int
	decode func(b []byte) (interface{}, error)
	encode func(v interface{}) ([]byte, error)
}

func marshal(v interface{}) ([]byte, error) {
	switch m := v.(type) {
	case encoding.BinaryMarshaler:
		return m.MarshalBinary()
	case encoding.TextMarshaler:
		return m.MarshalText()
	case interface{ MarshalBinary() []byte }:
		return m.MarshalBinary(), nil
	case interface{ MarshalToByte() ([]byte, error) }:
		return m.MarshalToByte()
	}
	panic(fmt.Sprintf("%T cannot be encoded", v))
}

func codecs() []codec {
	return []codec{
		{"user", 512, func(b []byte) (interface{}, error) { return pttbbs.UnmarshalUserec(b) }, marshal},
		{"board", 256, func(b []byte) (interface{}, error) { return pttbbs.UnmarshalBoardHeader(b) }, marshal},
		{"article", 128, func(b []byte) (interface{}, error) { return pttbbs.NewFileHeaderWithByte(b) }, marshal},
		{"online user", 3484, func(b []byte) (interface{}, error) { return pttbbs.UnmarshalUserInfo(b), nil }, marshal},
		{"FormosaBBS record", 248, func(b []byte) (interface{}, error) { return formosabbs.NewFomosaBBSFileHeaderWithByte(b) }, nil},
		{"favorites", 0, func(b []byte) (interface{}, error) { return pttbbs.UnmarshalFavFile(b) }, marshal},
		{"login attempt", 0, func(b []byte) (interface{}, error) {
			u := &pttbbs.LoginAttempt{}
			return u, u.UnmarshalText(b)
		}, marshal},
	}
}

// inputs of a codec.
func inputs(c codec, thorough bool) (l [][]byte) {
	if c.size > 0 {
		n := 16
		if thorough {
			n = 256
		}
		for i := 0; i < n; i++ {
			l = append(l, bytes.Repeat([]byte{byte(i * 256 / n)}, c.size), pattern(c.size, i*2+1))
		}
		return append(l, make([]byte, c.size))
	}
	if c.name == "login attempt" {
		for _, s := range []string{"-", " "} {
			for _, id := range []string{"tester      ", "a           ", "abcdefghijkl"} {
				for _, h := range []string{"?@example.org", "user@127.0.0.1", "@"} {
					l = append(l, []byte(s+id+"[01/02/2020 03:04:05 Thu] "+h))
				}
			}
		}
		return l
	}
	// favorites: all forests of up to 3 items
	brd := func(n byte) []byte { return []byte{1, 1, n, 0, 0, 0, 7, 0, 0, 0, 1, 2, 3, 4} }
	line := func(n byte) []byte { return []byte{3, 1, n} }
	fold := func(n byte) []byte {
		b := append([]byte{2, 1, n}, bytes.Repeat([]byte{'a' + n}, 48)...)
		return append(b, 0)
	}
	head := func(b, ln, f int) []byte { return []byte{byte(b), byte(b >> 8), byte(ln), byte(f)} }
	for k := 0; k < 27; k++ {
		items := []int{k % 3, k / 3 % 3, k / 9}
		for n := 0; n <= 3; n++ {
			var nb, nl, nf int
			var out, sub []byte
			for i := 0; i < n; i++ {
				switch items[i] {
				case 0:
					nb++
					out = append(out, brd(byte(nb))...)
				case 1:
					nl++
					out = append(out, line(byte(nl))...)
				case 2:
					nf++
					out = append(out, fold(byte(nf))...)
					sub = append(sub, head(1, 0, 0)...)
					sub = append(sub, brd(byte(40+nf))...)
				}
			}
			b := append([]byte{0x23, 0x0d}, head(nb, nl, nf)...)
			b = append(append(b, out...), sub...)
			l = append(l, b)
		}
	}
	return l
}

func decoders(r *kit.Run) {
	r.Section("decoding and encoding")
	for _, c := range codecs() {
		c := c
		for i, in := range inputs(c, r.Thorough) {
			in := in
			r.Check(fmt.Sprintf("%s, input %d", c.name, i), func() error {
				buf := append(make([]byte, 0, len(in)+64), in...)
				a, err := c.decode(buf)
				if !bytes.Equal(buf, in) {
					return fmt.Errorf("decoding changes the bytes")
				}
				r.Eval(1)
				if err != nil {
					_, again := c.decode(append([]byte{}, in...))
					if again == nil {
						return fmt.Errorf("these bytes are an error (%v) and the next time they are not", err)
					}
					return nil
				}
				was := render("-", a, nil)
				b, err := c.decode(append([]byte{}, in...))
				if err != nil || render("-", b, nil) != was {
					return fmt.Errorf("decoding once more gives %v, %s", err, differ(render("-", b, nil), was))
				}
				all := buf[:cap(buf)]
				for i := range all {
					all[i] ^= 0x5a
				}
				if x := render("-", a, nil); x != was {
					return fmt.Errorf("changing the bytes after they were decoded changed the value: %s", differ(x, was))
				}
				if c.encode != nil {
					e1, err1 := c.encode(a)
					keep := append([]byte{}, e1...)
					e2, err2 := c.encode(b)
					if (err1 == nil) != (err2 == nil) || !bytes.Equal(e1, e2) {
						return fmt.Errorf("equal values are encoded differently")
					}
					if x := render("-", a, nil); x != was {
						return fmt.Errorf("encoding changed the value: %s", differ(x, was))
					}
					for i := range e2[:cap(e2)] {
						e2[:cap(e2)][i] ^= 0x5a
					}
					if !bytes.Equal(e1, keep) {
						return fmt.Errorf("two encodings share bytes")
					}
					if x := render("-", b, nil); x != was {
						return fmt.Errorf("changing the encoding changed the value: %s", differ(x, was))
					}
					e3, err3 := c.encode(b)
					if (err1 == nil) != (err3 == nil) || !bytes.Equal(e3, keep) {
						return fmt.Errorf("encoding again gives something else: %q, not %q", e3, keep)
					}
				}
				scribble(a)
				if x := render("-", b, nil); x != was {
					return fmt.Errorf("changing a value changed another one: %s", differ(x, was))
				}
				d, err := c.decode(append([]byte{}, in...))
				if err != nil || show.Value(d) != show.Value(b) || render("-", d, nil) != was {
					return fmt.Errorf("decoding after a value was changed gives %v, %s", err, differ(render("-", d, nil), was))
				}
				return nil
			})
		}
	}
}
