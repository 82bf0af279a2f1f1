// Package codec compares a record codec with a reference layout, for every value of every
// byte and for pairs of fields.
package codec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"golang.org/x/text/encoding/traditionalchinese"

	"verifmc/kit"
)

// Kind of a field.
type Kind int

// Kinds. Raw is text which is not converted, ASCII is text which is only converted when it is
// encoded (so it is compared when it is ASCII), Big5 is converted in both directions, Char is
// one byte of raw text, Time is 4 bytes seconds, Blob are raw bytes.
const (
	U8 Kind = iota
	U16
	U32
	I8
	I16
	I32
	Bool
	Time
	Raw
	ASCII
	Big5
	Char
	Blob
	Custom
)

// Field of a layout.
type Field struct {
	Name string
	Off  int
	Len  int // of text and blobs
	Kind Kind
	// Get reads the field of a decoded record, nil when it can not be read. It returns uint64,
	// int64, bool, time.Time, string or []byte by kind.
	Get func(rec interface{}) interface{}
	// EncLen is the number of bytes which an encoder keeps, when it differs from Len
	EncLen int
	// Applies says whether the field is meaningful in the record b (unions)
	Applies func(b []byte) bool
	NoEnc   bool
}

// Size in bytes.
func (f *Field) Size() int {
	switch f.Kind {
	case U8, I8, Bool, Char:
		return 1
	case U16, I16:
		return 2
	case U32, I32, Time:
		return 4
	}
	return f.Len
}

// Layout of a record.
type Layout struct {
	Size   int
	Fields []Field
	Decode func(b []byte) (interface{}, error)
	Encode func(rec interface{}) ([]byte, error) // nil: decode only
}

func cut(b []byte) []byte {
	if i := bytes.IndexByte(b, 0); i >= 0 {
		return b[:i]
	}
	return b
}

// Text decodes Big5 bytes; ok is false when they are not valid or do not map back.
func Text(b []byte) (s string, decodable, roundtrip bool) {
	ascii := true
	for _, c := range b {
		if c >= 0x80 {
			ascii = false
			break
		}
	}
	if ascii {
		return string(b), true, true
	}
	u, err := traditionalchinese.Big5.NewDecoder().Bytes(b)
	if err != nil || bytes.Contains(u, []byte("\uFFFD")) {
		return "", false, false
	}
	back, err := traditionalchinese.Big5.NewEncoder().Bytes(u)
	return string(u), true, err == nil && bytes.Equal(back, b) && !twice(string(u))
}

var twiceSet map[rune]bool

// twice says whether s has a character for which the table has more than one code: C09 decides
// which of them is right.
func twice(s string) bool {
	if twiceSet == nil {
		n := map[rune]int{}
		twiceSet = map[rune]bool{}
		for h := 0x81; h < 0xff; h++ {
			for l := 0x40; l < 0xff; l++ {
				u, err := traditionalchinese.Big5.NewDecoder().Bytes([]byte{byte(h), byte(l)})
				if err != nil {
					continue
				}
				for _, r := range string(u) {
					if n[r]++; n[r] > 1 {
						twiceSet[r] = true
					}
				}
			}
		}
	}
	for _, r := range s {
		if r >= 0x80 && twiceSet[r] {
			return true
		}
	}
	return false
}

// want returns the expected value of the field, nil when it is not defined.
func (f *Field) want(b []byte) interface{} {
	p := b[f.Off : f.Off+f.Size()]
	le := binary.LittleEndian
	switch f.Kind {
	case U8:
		return uint64(p[0])
	case U16:
		return uint64(le.Uint16(p))
	case U32:
		return uint64(le.Uint32(p))
	case I8:
		return int64(int8(p[0]))
	case I16:
		return int64(int16(le.Uint16(p)))
	case I32:
		return int64(int32(le.Uint32(p)))
	case Bool:
		return p[0] != 0
	case Time:
		return time.Unix(int64(le.Uint32(p)), 0)
	case Raw, ASCII:
		return string(cut(p))
	case Char:
		return string(cut(p))
	case Big5:
		s, ok, _ := Text(cut(p))
		if !ok {
			return nil
		}
		return s
	case Blob:
		return p
	}
	return nil
}

func same(a, b interface{}) bool {
	switch x := a.(type) {
	case time.Time:
		y, ok := b.(time.Time)
		return ok && (x.Unix() == y.Unix() || x.Unix() == 0 && y.IsZero())
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	return a == b
}

// CheckDecoded compares the fields of rec with the bytes b.
func (l *Layout) CheckDecoded(rec interface{}, b []byte) error {
	for i := range l.Fields {
		f := &l.Fields[i]
		if f.Get == nil || f.Applies != nil && !f.Applies(b) {
			continue
		}
		w := f.want(b)
		if w == nil {
			continue
		}
		g := f.Get(rec)
		if !same(w, g) {
			return fmt.Errorf("%s is %v, the bytes at %d say %v", f.Name, show(g), f.Off, show(w))
		}
	}
	return nil
}

func show(v interface{}) string {
	switch x := v.(type) {
	case time.Time:
		return fmt.Sprintf("time %d", x.Unix())
	case string:
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprint(v)
}

// encWant returns the bytes which encoding must give for the field, nil when not defined.
func (f *Field) encWant(b []byte) []byte {
	p := b[f.Off : f.Off+f.Size()]
	switch f.Kind {
	case Bool:
		if p[0] != 0 {
			return []byte{1}
		}
		return []byte{0}
	case Raw, ASCII, Big5, Char:
		t := cut(p)
		if f.EncLen > 0 && len(t) > f.EncLen {
			return nil
		}
		if f.Kind == ASCII {
			for _, c := range t {
				if c >= 0x80 {
					return nil
				}
			}
		}
		if f.Kind == Big5 {
			if _, _, rt := Text(t); !rt {
				return nil
			}
		}
		out := make([]byte, f.Size())
		copy(out, t)
		return out
	}
	return p
}

// CheckEncoded compares the encoded record out with the record b it came from. Fields named in
// except are not compared.
func (l *Layout) CheckEncoded(out, b []byte, except ...string) error {
	if len(out) != l.Size {
		return fmt.Errorf("the encoded record has %d bytes, want %d", len(out), l.Size)
	}
next:
	for i := range l.Fields {
		f := &l.Fields[i]
		if f.NoEnc || f.Applies != nil && !f.Applies(b) {
			continue
		}
		for _, e := range except {
			if e == f.Name {
				continue next
			}
		}
		w := f.encWant(b)
		if w == nil {
			continue
		}
		g := out[f.Off : f.Off+f.Size()]
		switch f.Kind {
		case Raw, ASCII, Big5, Char:
			// what follows the NUL is padding
			if !bytes.Equal(cut(g), cut(w)) {
				return fmt.Errorf("%s (offset %d) is encoded as %q, it was %q", f.Name, f.Off, g, w)
			}
		default:
			if !bytes.Equal(g, w) {
				return fmt.Errorf("%s (offset %d) is encoded as %x, it was %x", f.Name, f.Off, g, w)
			}
		}
	}
	return nil
}

// Check decodes b, compares, encodes again, compares, and decodes the result.
func (l *Layout) Check(b []byte) error {
	in := append([]byte{}, b...)
	rec, err := l.Decode(in)
	if err != nil {
		return fmt.Errorf("decoding failed: %v", err)
	}
	if !bytes.Equal(in, b) {
		return fmt.Errorf("decoding changed its input")
	}
	// a decoded record does not depend on the buffer any more
	for i := range in {
		in[i] ^= 0x55
	}
	if err := l.CheckDecoded(rec, b); err != nil {
		return err
	}
	if l.Encode == nil {
		return nil
	}
	out, err := l.Encode(rec)
	if err != nil {
		return fmt.Errorf("encoding failed: %v", err)
	}
	if err := l.CheckEncoded(out, b); err != nil {
		return err
	}
	// the record itself is not changed by encoding
	if err := l.CheckDecoded(rec, b); err != nil {
		return fmt.Errorf("after encoding: %v", err)
	}
	rec2, err := l.Decode(out)
	if err != nil {
		return fmt.Errorf("decoding the encoded record failed: %v", err)
	}
	out2, err := l.Encode(rec2)
	if err != nil {
		return fmt.Errorf("encoding again failed: %v", err)
	}
	return l.CheckEncoded(out2, b)
}

// Blank is a record of zeros.
func (l *Layout) Blank() []byte { return make([]byte, l.Size) }

// Pattern is a record in which every byte of every field differs from its neighbours; text
// fields are filled to all but one byte.
func (l *Layout) Pattern(seed int) []byte {
	b := make([]byte, l.Size)
	for i := range b {
		b[i] = byte(i*7 + i/256*13 + seed*29 + 1)
	}
	for i := range l.Fields {
		f := &l.Fields[i]
		switch f.Kind {
		case Raw, ASCII, Big5:
			for j := 0; j < f.Len; j++ {
				b[f.Off+j] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"[(i*5+j+seed)%62]
			}
			b[f.Off+f.Len-1] = 0
			if f.EncLen > 0 {
				b[f.Off+f.EncLen-1] = 0
			}
		case Char:
			b[f.Off] = byte('A' + seed%26)
		case Bool:
			b[f.Off] = 1
		}
	}
	return b
}

// Chinese is Pattern with Big5 text in the Big5 fields.
func (l *Layout) Chinese(seed int) []byte {
	b := l.Pattern(seed)
	chars := [][]byte{{0xa4, 0x40}, {0xb3, 0x5c}, {0xa5, 0x5c}, {0xf9, 0xd5}, {0xc6, 0xe7}, {0xa1, 0x40}, {0x41}, {0x7c}}
	for i := range l.Fields {
		f := &l.Fields[i]
		if f.Kind != Big5 {
			continue
		}
		p := b[f.Off : f.Off+f.Len]
		for j := range p {
			p[j] = 0
		}
		n := f.Len - 1
		if f.EncLen > 0 {
			n = f.EncLen - 1
		}
		o := 0
		for k := seed; ; k++ {
			c := chars[k%len(chars)]
			if o+len(c) > n {
				break
			}
			o += copy(p[o:], c)
		}
	}
	return b
}

// Bytes explores every byte position with the given values in the given base records.
func (l *Layout) Bytes(r *kit.Run, bases map[string][]byte, order []string, values []int) {
	for _, name := range order {
		base := bases[name]
		for off := 0; off < l.Size; off++ {
			off := off
			r.Check(fmt.Sprintf("base %s, byte %d", name, off), func() error {
				b := append([]byte{}, base...)
				for _, v := range values {
					b[off] = byte(v)
					if err := l.Check(b); err != nil {
						return fmt.Errorf("byte %d = %#x: %v", off, v, err)
					}
					r.Distinct(kit.HashB(b))
				}
				r.Eval(len(values) - 1)
				return nil
			})
		}
	}
}

// All returns 0..255.
func All() []int {
	var v []int
	for i := 0; i < 256; i++ {
		v = append(v, i)
	}
	return v
}

// extremes are values of a field, as bytes.
func (f *Field) extremes() [][]byte {
	n := f.Size()
	fill := func(c byte) []byte { return bytes.Repeat([]byte{c}, n) }
	switch f.Kind {
	case U8, U16, U32, I8, I16, I32, Time:
		lo, hi, one := fill(0), fill(0xff), fill(0)
		one[0] = 1
		min, max := fill(0), fill(0xff)
		min[n-1] = 0x80
		max[n-1] = 0x7f
		return [][]byte{lo, hi, one, min, max}
	case Bool:
		return [][]byte{{0}, {1}, {2}, {255}}
	case Char:
		return [][]byte{{0}, {'A'}, {0x80}, {0xff}}
	case Raw, ASCII, Big5:
		full := fill('x')
		inner := fill('y')
		inner[n/2] = 0
		short := fill(0)
		short[0] = 'z'
		out := [][]byte{fill(0), full, inner, short}
		if f.Kind == Big5 && n > 2 {
			c := fill(0)
			copy(c, []byte{0xb3, 0x5c})
			out = append(out, c)
		}
		return out
	case Blob:
		return [][]byte{fill(0), fill(0xff), fill('m')}
	}
	return nil
}

// Pairs explores every pair of fields at all their extreme values.
func (l *Layout) Pairs(r *kit.Run, name string, base []byte) {
	for i := range l.Fields {
		for j := i + 1; j < len(l.Fields); j++ {
			f, g := &l.Fields[i], &l.Fields[j]
			r.Check(fmt.Sprintf("base %s, fields %s and %s", name, f.Name, g.Name), func() error {
				n := 0
				for _, x := range f.extremes() {
					for _, y := range g.extremes() {
						b := append([]byte{}, base...)
						copy(b[f.Off:], x)
						copy(b[g.Off:], y)
						if err := l.Check(b); err != nil {
							return fmt.Errorf("%s = %x, %s = %x: %v", f.Name, x, g.Name, y, err)
						}
						r.Distinct(kit.HashB(b))
						n++
					}
				}
				r.Eval(n - 1)
				return nil
			})
		}
	}
}

// Words explores every single bit and pair of bits, set and cleared, of every number field.
func (l *Layout) Words(r *kit.Run, name string, base []byte) {
	for i := range l.Fields {
		f := &l.Fields[i]
		switch f.Kind {
		case U16, U32, I16, I32, Time, U8, I8:
		default:
			continue
		}
		r.Check("base "+name+", bits of "+f.Name, func() error {
			n := 0
			bits := f.Size() * 8
			for x := 0; x < bits; x++ {
				for y := x; y < bits; y++ {
					for inv := 0; inv < 2; inv++ {
						b := append([]byte{}, base...)
						p := b[f.Off : f.Off+f.Size()]
						for k := range p {
							p[k] = 0
						}
						p[x/8] |= 1 << (x % 8)
						p[y/8] |= 1 << (y % 8)
						if inv == 1 {
							for k := range p {
								p[k] ^= 0xff
							}
						}
						if err := l.Check(b); err != nil {
							return fmt.Errorf("%s bits %d %d (inverted %d): %v", f.Name, x, y, inv, err)
						}
						r.Distinct(kit.HashB(b))
						n++
					}
				}
			}
			r.Eval(n - 1)
			return nil
		})
	}
}

// TextLengths explores every length of every text field, ASCII and (Big5 fields) double byte
// text at both alignments, with text or rubbish behind the NUL.
func (l *Layout) TextLengths(r *kit.Run, name string, base []byte) {
	for i := range l.Fields {
		f := &l.Fields[i]
		switch f.Kind {
		case Raw, ASCII, Big5:
		default:
			continue
		}
		for n := 0; n <= f.Len; n++ {
			n := n
			r.Check(fmt.Sprintf("base %s, %s of length %d", name, f.Name, n), func() error {
				texts := []string{strings.Repeat("q", n), strings.Repeat(" ", n), strings.Repeat("\xa4\x40", n)[:n], ("a" + strings.Repeat("\xb3\x5c", n))[:n],
					strings.Repeat("\x80", n), strings.Repeat("\xff", n), strings.Repeat("/", n), strings.Repeat("\x01", n)}
				e := 0
				for _, t := range texts {
					for _, tail := range []byte{0, 'T', 0xff} {
						b := append([]byte{}, base...)
						p := b[f.Off : f.Off+f.Len]
						for k := range p {
							p[k] = tail
						}
						copy(p, t)
						if n < f.Len {
							p[n] = 0
						}
						if err := l.Check(b); err != nil {
							return fmt.Errorf("%s = %q: %v", f.Name, p, err)
						}
						r.Distinct(kit.HashB(b))
						e++
					}
				}
				r.Eval(e - 1)
				return nil
			})
		}
	}
}

// Characters explores every valid double byte character in every Big5 field.
func (l *Layout) Characters(r *kit.Run, name string, base []byte) {
	for i := range l.Fields {
		f := &l.Fields[i]
		if f.Kind != Big5 {
			continue
		}
		for lead := 0x81; lead <= 0xfe; lead++ {
			lead := lead
			r.Check(fmt.Sprintf("base %s, %s with all characters %02x..", name, f.Name, lead), func() error {
				e := 0
				for trail := 0x40; trail <= 0xfe; trail++ {
					if trail == 0x7f {
						trail = 0xa1
					}
					if _, ok, _ := Text([]byte{byte(lead), byte(trail)}); !ok {
						continue
					}
					b := append([]byte{}, base...)
					p := b[f.Off : f.Off+f.Len]
					for k := range p {
						p[k] = 0
					}
					copy(p, []byte{'a', byte(lead), byte(trail), 'b', byte(lead), byte(trail)})
					if err := l.Check(b); err != nil {
						return fmt.Errorf("%s with %02x%02x: %v", f.Name, lead, trail, err)
					}
					r.Distinct(kit.HashB(b))
					e++
				}
				r.Eval(e)
				return nil
			})
		}
	}
}
