// C25: seeded FNV-1a hashes follow the algorithm for any chunking.
package main

import (
	"bytes"
	"fmt"
	"hash"

	"github.com/Ptt-official-app/go-bbs/pttbbs/verifmcfnv"

	"verifmc/kit"
)

func main() {
	kit.Main(kit.Config{
		ID: "C25", Level: kit.Exploration,
		Rule:        "all byte strings of up to 3 bytes, all seeds of the listed shapes (thorough: all 2^32) with one byte, all splits of inputs into pieces with and without a look at the sum after each piece, all histories of write, sum, reset on two hashes up to the listed length, against the definition of FNV-1a; distinct by case",
		Assumptions: []string{"inputs of more than 1 MB are not tried"},
		Body:        body,
	})
}

const prime = 16777619

// ref is the definition.
func ref(seed uint32, b []byte) uint32 {
	for _, c := range b {
		seed = (seed ^ uint32(c)) * prime
	}
	return seed
}

func same(h hash.Hash32, want uint32, what string) error {
	if g := h.Sum32(); g != want {
		return fmt.Errorf("%s: sum is %08x, want %08x", what, g, want)
	}
	return nil
}

func write(h hash.Hash32, b []byte) error {
	c := append([]byte{}, b...)
	n, err := h.Write(c)
	if err != nil || n != len(b) {
		return fmt.Errorf("writing %d bytes gives %d, %v", len(b), n, err)
	}
	if !bytes.Equal(b, c) {
		return fmt.Errorf("writing changed the input")
	}
	return nil
}

// look reads the sum in every way, which must not change it.
func look(h hash.Hash32, want uint32) error {
	be := []byte{byte(want >> 24), byte(want >> 16), byte(want >> 8), byte(want)}
	if err := same(h, want, "first look"); err != nil {
		return err
	}
	for _, pre := range []string{"", "x", "\x00\x01\x02\x03", "0123456789"} {
		for spare := 0; spare < 6; spare++ {
			buf := make([]byte, len(pre), len(pre)+spare)
			copy(buf, pre)
			if pre == "" && spare == 0 {
				buf = nil
			}
			out := h.Sum(buf)
			if string(buf) != pre {
				return fmt.Errorf("Sum changed what it appends to")
			}
			if string(out) != pre+string(be) {
				return fmt.Errorf("Sum appends %x to %q, want %x", out, pre, be)
			}
		}
	}
	if err := same(h, want, "second look"); err != nil {
		return err
	}
	if h.Size() != 4 || h.BlockSize() < 1 {
		return fmt.Errorf("size is %d, block size is %d", h.Size(), h.BlockSize())
	}
	return nil
}

var seeds = []uint32{0, 1, 0xff, 0x100, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x811c9dc5, 33554467, 0x12345678, 0x01020304, 0xff00ff00, 16777619}

func body(r *kit.Run) {
	r.Section("short inputs")
	for a := 0; a < 256; a++ {
		a := a
		r.Check(fmt.Sprintf("inputs from %02x", a), func() error {
			for _, s := range seeds {
				if err := look(verifmcfnv.New(s), s); err != nil {
					return fmt.Errorf("seed %x, no input: %v", s, err)
				}
				for b := 0; b < 256; b++ {
					h := verifmcfnv.New(s)
					if err := write(h, []byte{byte(a), byte(b)}); err != nil {
						return err
					}
					w := ref(s, []byte{byte(a), byte(b)})
					if err := look(h, w); err != nil {
						return fmt.Errorf("seed %x, input %02x%02x: %v", s, a, b, err)
					}
					if s != 0 && s != 33554467 && !r.Thorough {
						continue
					}
					for c := 0; c < 256; c++ {
						h := verifmcfnv.New(s)
						h.Write([]byte{byte(a), byte(b), byte(c)})
						if err := same(h, ref(w, []byte{byte(c)}), fmt.Sprintf("seed %x, input %02x%02x%02x", s, a, b, c)); err != nil {
							return err
						}
					}
					r.Eval(257)
				}
			}
			return nil
		})
	}
	r.Section("seeds")
	for hi := 0; hi < 1<<16; hi += 64 {
		hi := hi
		r.Check(fmt.Sprintf("seeds from %04x0000", hi), func() error {
			for s := hi; s < hi+64; s++ {
				step := uint32(257)
				if s&0xff == 0 || s < 256 {
					step = 1
				}
				if r.Thorough {
					step = 1
				}
				for lo := uint32(0); lo < 1<<16; lo += step {
					seed := uint32(s)<<16 | lo
					h := verifmcfnv.New(seed)
					if h.Sum32() != seed {
						return fmt.Errorf("seed %08x: sum of nothing is %08x", seed, h.Sum32())
					}
					b := []byte{byte(seed>>13) + byte(seed)}
					h.Write(b)
					if g, w := h.Sum32(), ref(seed, b); g != w {
						return fmt.Errorf("seed %08x, input %02x: sum is %08x, want %08x", seed, b, g, w)
					}
					r.Eval(1)
				}
			}
			return nil
		})
	}
	r.Section("splits")
	maxLen := kit.Pick(r, 9, 11)
	r.Note("longest input with all splits", maxLen)
	for n := 1; n <= maxLen; n++ {
		for si, seed := range seeds {
			n, si, seed := n, si, seed
			r.Check(fmt.Sprintf("splits of %d, seed %d", n, si), func() error {
				in := make([]byte, n)
				for i := range in {
					in[i] = byte(i*71 + si*29)
				}
				// 0: goes on, 1: split, 2: split and look, 3: split, an empty write
				var rec func(h []byte) error
				rec = func(cuts []byte) error {
					if len(cuts) < n-1 {
						for c := byte(0); c < 4; c++ {
							if err := rec(append(cuts, c)); err != nil {
								return err
							}
						}
						return nil
					}
					r.Eval(1)
					h := verifmcfnv.New(seed)
					from := 0
					for i, c := range cuts {
						if c == 0 {
							continue
						}
						h.Write(in[from : i+1])
						from = i + 1
						switch c {
						case 2:
							if s := h.Sum(nil); len(s) != 4 || h.Sum32() != ref(seed, in[:from]) {
								return fmt.Errorf("input %x cut %v: wrong sum %x after %d", in, cuts, s, from)
							}
						case 3:
							h.Write(nil)
						}
					}
					h.Write(in[from:])
					return same(h, ref(seed, in), fmt.Sprintf("seed %x, input %x cut %v", seed, in, cuts))
				}
				return rec(nil)
			})
		}
	}
	r.Section("histories of two hashes")
	depth := kit.Pick(r, 6, 7)
	r.Note("operations per history", depth)
	type op struct {
		h    int
		kind byte
		b    []byte
	}
	var ops []op
	for h := 0; h < 2; h++ {
		ops = append(ops, op{h, 'w', []byte("a")}, op{h, 'w', []byte("\x00\xff longer")}, op{h, 's', nil}, op{h, 'r', nil}, op{h, 'n', nil})
	}
	for i := range ops {
		for j := range ops {
			i, j := i, j
			r.Check(fmt.Sprintf("history %d %d", i, j), func() error {
				for _, pair := range [][2]uint32{{33554467, 0x811c9dc5}, {0, 0xffffffff}} {
					var rec func(seq []int) error
					rec = func(seq []int) error {
						if len(seq) < depth {
							for k := range ops {
								if err := rec(append(seq[:len(seq):len(seq)], k)); err != nil {
									return err
								}
							}
							return nil
						}
						r.Eval(1)
						hs := [2]hash.Hash32{verifmcfnv.New(pair[0]), verifmcfnv.New(pair[1])}
						want, seed := pair, pair
						for n, k := range seq {
							o := ops[k]
							switch o.kind {
							case 'w':
								hs[o.h].Write(o.b)
								want[o.h] = ref(want[o.h], o.b)
							case 's':
								hs[o.h].Sum(make([]byte, 2, 20))
							case 'r':
								hs[o.h].Reset()
								want[o.h] = seed[o.h]
							case 'n': // a new hash takes its place, with the seed of the other
								seed[o.h] = seed[1-o.h] + 1
								hs[o.h] = verifmcfnv.New(seed[o.h])
								want[o.h] = seed[o.h]
							}
							for x := 0; x < 2; x++ {
								if g := hs[x].Sum32(); g != want[x] {
									return fmt.Errorf("seeds %x, operations %v: hash %d is %08x after step %d, want %08x", pair, seq, x, g, n, want[x])
								}
							}
						}
						return nil
					}
					if err := rec([]int{i, j}); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	r.Section("lengths")
	for n := 0; n <= 70000; n += 500 {
		n := n
		r.Check(fmt.Sprintf("lengths from %d", n), func() error {
			in := make([]byte, n+500)
			for i := range in {
				in[i] = byte(i*i>>3 + i)
			}
			w := ref(33554467, in[:n])
			for l := n; l < n+500; l++ {
				if !r.Thorough && n > 2000 && l%10 != 6 && l%10 != 5 {
					w = ref(w, in[l:l+1])
					continue
				}
				h := verifmcfnv.New(33554467)
				if err := write(h, in[:l]); err != nil {
					return err
				}
				if err := same(h, w, fmt.Sprintf("input of %d bytes", l)); err != nil {
					return err
				}
				h.Reset()
				if err := same(h, 33554467, "after reset"); err != nil {
					return err
				}
				r.Eval(1)
				w = ref(w, in[l:l+1])
			}
			return nil
		})
	}
	r.Check("1 MB", func() error {
		in := bytes.Repeat([]byte("0123456789abcde"), 70000)
		h := verifmcfnv.New(7)
		if err := write(h, in); err != nil {
			return err
		}
		return look(h, ref(7, in))
	})
}
