package codec

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"verifmc/kit"
)

// Edit changes one field of a decoded record; Ref does the same to its bytes.
type Edit struct {
	Field, Name string
	Do          func(rec interface{})
	Ref         func(b []byte)
	Spill       bool // the text does not fit: the field itself is not compared
}

// TextEdits are texts of many lengths for a text field.
func (l *Layout) TextEdits(field string, big5 func(string) []byte, set func(rec interface{}, s string), all bool) []Edit {
	var f *Field
	for i := range l.Fields {
		if l.Fields[i].Name == field {
			f = &l.Fields[i]
		}
	}
	if f == nil {
		panic(field)
	}
	size := f.Size()
	fits := size
	if f.EncLen > 0 {
		fits = f.EncLen
	}
	var out []Edit
	add := func(name, t string, enc []byte) {
		out = append(out, Edit{field, name, func(r interface{}) { set(r, t) }, func(b []byte) {
			p := b[f.Off : f.Off+size]
			for i := range p {
				p[i] = 0
			}
			copy(p, enc)
		}, len(enc) > fits})
	}
	lens := []int{0, 1, fits - 1, fits, fits + 1, size, size + 1, size + 100, size + 3000}
	if all {
		lens = nil
		for n := 0; n <= size+140; n++ {
			lens = append(lens, n)
		}
		lens = append(lens, size+300, size+3000)
	} else if f.Kind == Big5 {
		lens = append(lens, fits/2, fits/2+1)
	}
	for _, n := range lens {
		if n < 0 {
			continue
		}
		t := strings.Repeat("abcdefghij", n/10+1)[:n]
		add(fmt.Sprintf("%d letters", n), t, []byte(t))
		if f.Kind == Big5 {
			s := string([]rune(strings.Repeat("許功蓋", n/3+1))[:n])
			add(fmt.Sprintf("%d characters", n), s, big5(s))
			add(fmt.Sprintf("x and %d characters", n), "x"+s, big5("x"+s))
		}
	}
	return out
}

// NumEdits are extreme values of a number field with size bytes.
func (l *Layout) NumEdits(field string, set func(rec interface{}, v uint64)) []Edit {
	var f *Field
	for i := range l.Fields {
		if l.Fields[i].Name == field {
			f = &l.Fields[i]
		}
	}
	if f == nil {
		panic(field)
	}
	n := uint(f.Size() * 8)
	var out []Edit
	for _, v := range []uint64{0, 1, 1<<(n-1) - 1, 1 << (n - 1), 1<<n - 1, 0x5a & (1<<n - 1), 0xa5a5a5a5 & (1<<n - 1)} {
		v := v
		out = append(out, Edit{field, fmt.Sprintf("%#x", v), func(r interface{}) { set(r, v) }, func(b []byte) {
			for i := uint(0); i < n/8; i++ {
				b[f.Off+int(i)] = byte(v >> (8 * i))
			}
		}, false})
	}
	return out
}

// TimeEdits are extreme times.
func (l *Layout) TimeEdits(field string, set func(rec interface{}, t time.Time)) []Edit {
	out := l.NumEdits(field, func(r interface{}, v uint64) { set(r, time.Unix(int64(v), 0)) })
	var off int
	for i := range l.Fields {
		if l.Fields[i].Name == field {
			off = l.Fields[i].Off
		}
	}
	out = append(out, Edit{field, "no time", func(r interface{}) { set(r, time.Time{}) }, func(b []byte) { binary.LittleEndian.PutUint32(b[off:], 0) }, false})
	out = append(out, Edit{field, "other zone", func(r interface{}) {
		set(r, time.Unix(1600000000, 0).In(time.FixedZone("x", -7*3600)))
	}, func(b []byte) { binary.LittleEndian.PutUint32(b[off:], 1600000000) }, false})
	return out
}

// CheckEdits applies the edits to the record base and compares.
func (l *Layout) CheckEdits(rec interface{}, base []byte, es ...Edit) error {
	b := append([]byte{}, base...)
	var except []string
	for _, e := range es {
		e.Do(rec)
		e.Ref(b)
		if e.Spill {
			except = append(except, e.Field)
		}
	}
	if len(except) == 0 {
		if err := l.CheckDecoded(rec, b); err != nil {
			return err
		}
	}
	out, err := l.Encode(rec)
	if err != nil {
		return err
	}
	if err := l.CheckEncoded(out, b, except...); err != nil {
		return err
	}
	rec2, err := l.Decode(out)
	if err != nil {
		return err
	}
	if len(except) == 0 {
		return l.CheckDecoded(rec2, b)
	}
	return nil
}

// Edits explores every edit and every pair of edits of different fields.
func (l *Layout) Edits(r *kit.Run, name string, base []byte, all, small []Edit) {
	dec := func() (interface{}, error) { return l.Decode(append([]byte{}, base...)) }
	for _, e := range all {
		e := e
		r.Check(fmt.Sprintf("%s: %s, %s", name, e.Field, e.Name), func() error {
			rec, err := dec()
			if err != nil {
				return err
			}
			return l.CheckEdits(rec, base, e)
		})
	}
	for i := range small {
		e := small[i]
		r.Check(fmt.Sprintf("%s: %s, %s; and every other edit", name, e.Field, e.Name), func() error {
			for j := range small {
				f := small[j]
				if e.Field == f.Field {
					continue
				}
				rec, err := dec()
				if err != nil {
					return err
				}
				if err := l.CheckEdits(rec, base, e, f); err != nil {
					return fmt.Errorf("and %s, %s: %v", f.Field, f.Name, err)
				}
				r.Distinct(kit.Hash(name, e.Field, e.Name, f.Field, f.Name))
			}
			r.Eval(len(small) - 1)
			return nil
		})
	}
}
