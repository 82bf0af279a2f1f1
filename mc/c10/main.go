// C10: passwords verify exactly as traditional DES crypt does.
package main

import (
	"bytes"
	cdes "crypto/des"
	"encoding/binary"
	"fmt"

	"github.com/Ptt-official-app/go-bbs/crypt"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/des"
	"verifmc/kit"
)

func main() {
	kit.Main(kit.Config{
		ID: "C10", Level: kit.Exploration,
		Rule:        "all 4096 salts, all passwords of up to 2 bytes, every value of every byte of longer ones, all lengths to 40 with every position of a NUL, every value of every byte of a stored hash and every truncation of it, each compared with a bit by bit DES; distinct by salt and password or case key",
		Assumptions: []string{"reference: FIPS 46 tables and crypt(3), cross checked with crypto/des and with results of libcrypt at start", "salts have the 64 characters of crypt, for others verification must agree with the hash function, without a crash"},
		Body:        body,
	})
}

func selfTest() error {
	for i := 0; i < 200; i++ {
		pw := []byte(fmt.Sprintf("%x", uint64(i)*0x9e3779b97f4a7c15))[:i%9]
		k := des.Key(pw)
		c, err := cdes.NewCipher(k[:])
		if err != nil {
			return err
		}
		blk := make([]byte, 8)
		for j := 0; j < 25; j++ {
			c.Encrypt(blk, blk)
		}
		var got uint64
		for _, b := range des.EncryptN(des.Subkeys(k), [64]byte{}, 0, 25) {
			got = got<<1 | uint64(b)
		}
		if got != binary.BigEndian.Uint64(blk) {
			return fmt.Errorf("reference DES is wrong for %q", pw)
		}
	}
	for _, g := range [][2]string{{"123123", "bhwvOJtfT1TAI"}, {"012345678901", "AA3QBhLWk1BWA"}, {"00000000", "00CfV146ZJdLc"}, {"00000000x", "02v6ADqeCsb12"}} {
		if h, _ := des.Crypt([]byte(g[0]), g[1]); h != g[1] {
			return fmt.Errorf("reference crypt of %q is %q, want %q", g[0], h, g[1])
		}
	}
	return nil
}

// hash checks one crypt result.
func hash(pw []byte, salt string) error {
	want, _ := des.Crypt(pw, salt)
	p, s := append([]byte{}, pw...), []byte(salt)
	got, err := crypt.Fcrypt(p, s)
	if err != nil {
		return fmt.Errorf("crypt of %q with %q: %v", pw, salt, err)
	}
	if !bytes.Equal(p, pw) || string(s) != salt {
		return fmt.Errorf("crypt of %q with %q changed its arguments", pw, salt)
	}
	if g := bytes.TrimRight(got, "\x00"); string(g) != want {
		return fmt.Errorf("crypt of %q with %q is %q, want %q", pw, salt, g, want)
	}
	return nil
}

// user with a stored password field.
func user(stored []byte) (*pttbbs.Userec, error) {
	b := make([]byte, 512)
	binary.LittleEndian.PutUint32(b, 4194)
	copy(b[4:], "tester")
	for i := 17; i < 60; i++ {
		b[i] = 'n'
	}
	for i := 76; i < 512; i++ {
		b[i] = byte(i)
	}
	copy(b[61:75], stored)
	return pttbbs.UnmarshalUserec(b)
}

// verify checks one verification.
func verify(stored []byte, pw string) error {
	u, err := user(stored)
	if err != nil {
		return err
	}
	h := stored
	if i := bytes.IndexByte(h, 0); i >= 0 {
		h = h[:i]
	}
	want := false
	if len(h) >= 2 {
		w, ok := des.Crypt([]byte(pw), string(h[:2]))
		want = ok && w == string(h)
		if !ok {
			// crypt(3) leaves other characters open, fcrypt of pttbbs gives them a value
			if g, err := crypt.Fcrypt([]byte(pw), h[:2]); err == nil {
				want = string(bytes.TrimRight(g, "\x00")) == string(h)
			}
		}
	}
	for i := 0; i < 2; i++ {
		err := u.VerifyPassword(pw)
		if (err == nil) != want {
			return fmt.Errorf("stored %q, password %q: %v, want success %v", stored, pw, err, want)
		}
	}
	return nil
}

func body(r *kit.Run) {
	if err := selfTest(); err != nil {
		panic(err)
	}
	const A = des.Alphabet
	pws := []string{"", "a", "123123", "password", "longer password", "\xa4\xa4\xa4\xe5", "\x7f\x01\xff\x80\x40\x20\x10\x08"}
	r.Section("every salt")
	for i := 0; i < 64; i++ {
		for j := 0; j < 64; j++ {
			salt := string([]byte{A[i], A[j]})
			r.Check("salt "+salt, func() error {
				for _, p := range pws {
					r.Distinct(kit.Hash(salt, p))
					if err := hash([]byte(p), salt); err != nil {
						return err
					}
				}
				for _, tail := range []string{"3QBhLWk1BWA", "\x00", "\xff\xff", "x"} {
					if err := hash([]byte("secret"), salt+tail); err != nil {
						return err
					}
				}
				r.Eval(11)
				h, _ := des.Crypt([]byte("secret"), salt)
				for _, p := range []string{"secret", "secrez", "secre", "secrets", "", "\x73ecret", "\xf3\xe5\xe3\xf2\xe5\xf4", "secret\x00x"} {
					r.Eval(1)
					if err := verify([]byte(h), p); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	salts := []string{"..", "AA", "zz", "./", "a9", "Zb", "bh", "09"}
	r.Section("every password of up to two bytes")
	for hi := 0; hi < 256; hi++ {
		hi := hi
		r.Check(fmt.Sprintf("password %d", hi), func() error {
			for s := 0; s < kit.Pick(r, 2, len(salts)); s++ {
				if err := hash([]byte{byte(hi)}, salts[s+1]); err != nil && s+1 < len(salts) {
					return err
				}
				for lo := 0; lo < 256; lo++ {
					r.Eval(1)
					r.Distinct(kit.Hash(salts[s], string([]byte{byte(hi), byte(lo)})))
					if err := hash([]byte{byte(hi), byte(lo)}, salts[s]); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	r.Section("every value of every byte")
	bases := []string{"\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", "abcdefghij", "ZZZZZZZZZZ", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", "12345678", "\xb4\xfa\xb8\xd5\xb1\x4b\xbd\x58ok"}
	for bi, b := range bases {
		for p := 0; p < len(b); p++ {
			bi, b, p := bi, b, p
			r.Check(fmt.Sprintf("base %d byte %d", bi, p), func() error {
				for v := 0; v < 256; v++ {
					pw := []byte(b)
					pw[p] = byte(v)
					for s := 0; s < kit.Pick(r, 2, len(salts)); s++ {
						r.Eval(1)
						r.Distinct(kit.Hash(salts[s], string(pw)))
						if err := hash(pw, salts[(s+p+bi)%len(salts)]); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
	}
	r.Section("every pair of bits of the password")
	for x := 0; x < 64; x++ {
		x := x
		r.Check(fmt.Sprintf("bit %d", x), func() error {
			for y := x; y < 64; y++ {
				for _, f := range []byte{0, 0xff} {
					pw := bytes.Repeat([]byte{f}, 8)
					pw[x/8] ^= 1 << uint(x%8)
					if y != x {
						pw[y/8] ^= 1 << uint(y%8)
					}
					r.Eval(1)
					if err := hash(pw, salts[(x+y)%len(salts)]); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	r.Section("lengths and NULs")
	var lengths []int
	for n := 0; n <= 300; n++ {
		lengths = append(lengths, n)
	}
	for _, n := range []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20} {
		lengths = append(lengths, n)
	}
	for _, n := range lengths {
		n := n
		r.Check(fmt.Sprintf("password of %d bytes", n), func() error {
			for z := -1; z < n && z < 40; z++ {
				if n > 40 && z >= 10 && !r.Thorough {
					break
				}
				pw := []byte{}
				for i := 0; i < n; i++ {
					pw = append(pw, byte('a'+i%26))
				}
				if z >= 0 {
					pw[z] = 0
				}
				r.Eval(3)
				if err := hash(pw, "q7"); err != nil {
					return err
				}
				h, _ := des.Crypt(pw, "X.")
				if err := verify([]byte(h), string(pw)); err != nil {
					return err
				}
				if err := verify([]byte(h), string(pw)+"x"); err != nil {
					return err
				}
			}
			return nil
		})
	}
	r.Section("every value of every byte of a stored hash")
	h, _ := des.Crypt([]byte("secret"), "k9")
	for p := 0; p < 14; p++ {
		p := p
		r.Check(fmt.Sprintf("byte %d of the hash", p), func() error {
			for v := 0; v < 256; v++ {
				st := make([]byte, 14)
				copy(st, h)
				st[p] = byte(v)
				for _, pw := range []string{"secret", ""} {
					r.Eval(1)
					if err := verify(st, pw); err != nil {
						return err
					}
				}
				if p < 2 && v > 0 {
					// a hash which has no valid salt but is what the code computes must not be guessed
					if _, ok := des.SaltValue(byte(v)); !ok {
						st[2] = 0
						if err := verify(st, "secret"); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
	}
	r.Section("truncated and blank hashes")
	for n := 0; n <= 14; n++ {
		for _, fill := range []byte{0, '.', 'A', 0xff, ' ', 1} {
			n, fill := n, fill
			r.Check(fmt.Sprintf("%d bytes of the hash then %d", n, fill), func() error {
				st := bytes.Repeat([]byte{fill}, 14)
				copy(st, (h + "\x00")[:n])
				for _, pw := range append(pws, "secret", "\x00", h, h[:2], string(st)) {
					r.Eval(1)
					if err := verify(st, pw); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	r.Section("every pair of salt bytes")
	for a := 0; a < 256; a++ {
		a := a
		r.Check(fmt.Sprintf("salt byte %d", a), func() error {
			_, okA := des.SaltValue(byte(a))
			for b := 0; b < 256; b++ {
				_, okB := des.SaltValue(byte(b))
				if okA && okB {
					continue
				}
				// no crash; the user is rejected
				crypt.Fcrypt([]byte("pw"), []byte{byte(a), byte(b)})
				st := append([]byte{byte(a), byte(b)}, h[2:]...)
				r.Eval(1)
				if err := verify(st, "secret"); err != nil {
					return err
				}
			}
			return nil
		})
	}
	r.Section("arguments of any length")
	r.Check("short salts", func() error {
		for _, s := range [][]byte{nil, {}, {'A'}, {0}, {0xff}} {
			for _, pw := range [][]byte{nil, {}, []byte("x")} {
				if g, err := crypt.Fcrypt(pw, s); err == nil {
					return fmt.Errorf("salt %q: no error, %q", s, g)
				}
				r.Eval(1)
			}
		}
		return nil
	})
	r.Section("results are independent of each other")
	for i, p := range pws {
		i, p := i, p
		r.Check(fmt.Sprintf("independent %d", i), func() error {
			for _, q := range pws {
				for _, s := range salts {
					g1, err := crypt.Fcrypt([]byte(p), []byte(s))
					if err != nil {
						return err
					}
					keep := string(g1)
					g2, err := crypt.Fcrypt([]byte(q), []byte("Qx"))
					if err != nil {
						return err
					}
					if string(g1) != keep {
						return fmt.Errorf("the result for %q changed when %q was hashed", p, q)
					}
					for j := range g2 {
						g2[j] = 0
					}
					if err := hash([]byte(p), s); err != nil {
						return err
					}
					if err := hash([]byte(q), "Qx"); err != nil {
						return err
					}
					r.Eval(4)
				}
			}
			return nil
		})
	}
	r.Section("verification of one password against the hash of another")
	for i, p := range pws {
		for s := range salts {
			i, p, s := i, p, s
			r.Check(fmt.Sprintf("cross %d %d", i, s), func() error {
				hp, _ := des.Crypt([]byte(p), salts[s])
				for _, q := range pws {
					for bit := 0; bit < 64 && bit < 8*len(q); bit++ {
						x := []byte(q)
						x[bit/8] ^= 1 << uint(bit%8)
						r.Eval(1)
						if err := verify([]byte(hp), string(x)); err != nil {
							return err
						}
					}
					if err := verify([]byte(hp), q); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
}
