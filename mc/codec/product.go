package codec

import (
	"fmt"

	"verifmc/kit"
)

// Special are values of a field which may have a meaning.
type Special struct {
	Field string
	Text  []string
	Nums  []uint64
}

func (s Special) len() int { return len(s.Text) + len(s.Nums) }

// Products goes through every combination of the values. With list, the records which agree in
// the first two fields are one file, in which each must be listed; without, each record is
// decoded and encoded.
func (l *Layout) Products(r *kit.Run, base []byte, values []Special, list func(file []byte) ([]interface{}, error)) {
	fields := make([]*Field, len(values))
	for i, v := range values {
		for j := range l.Fields {
			if l.Fields[j].Name == v.Field {
				fields[i] = &l.Fields[j]
			}
		}
		if fields[i] == nil {
			panic("no field " + v.Field)
		}
	}
	set := func(b []byte, i, k int) {
		f, v := fields[i], values[i]
		d := b[f.Off : f.Off+f.Size()]
		if len(v.Text) > 0 {
			for j := range d {
				d[j] = 0
			}
			copy(d, v.Text[k])
			return
		}
		n := v.Nums[k]
		for j := range d {
			d[j] = byte(n >> (8 * j))
		}
	}
	for x := 0; x < values[0].len(); x++ {
		for y := 0; y < values[1].len(); y++ {
			x, y := x, y
			r.Check(fmt.Sprintf("combinations of special values, %s number %d, %s number %d", values[0].Field, x, values[1].Field, y), func() error {
				b := append([]byte{}, base...)
				set(b, 0, x)
				set(b, 1, y)
				var file []byte
				n := int64(0)
				var rec func(i int) error
				rec = func(i int) error {
					if i == len(values) {
						n++
						if list != nil {
							file = append(file, b...)
							return nil
						}
						if err := l.Check(b); err != nil {
							return fmt.Errorf("record %x: %v", b, err)
						}
						return nil
					}
					for k := 0; k < values[i].len(); k++ {
						set(b, i, k)
						if err := rec(i + 1); err != nil {
							return err
						}
					}
					return nil
				}
				if err := rec(2); err != nil {
					return err
				}
				r.Eval(int(n) - 1)
				r.Distinct(kit.Hash("product", fmt.Sprint(x, " ", y)))
				if list == nil {
					return nil
				}
				got, err := list(file)
				if err != nil {
					return err
				}
				for i := 0; i < int(n); i++ {
					w := file[i*l.Size : (i+1)*l.Size]
					if i >= len(got) {
						return fmt.Errorf("%d records are listed, want %d", len(got), n)
					}
					if err := l.CheckDecoded(got[i], w); err != nil {
						return fmt.Errorf("%d of %d records are listed; number %d: %v; its bytes are %.140x", len(got), n, i, err, w)
					}
				}
				if len(got) > int(n) {
					return fmt.Errorf("%d records are listed, want %d", len(got), n)
				}
				return nil
			})
		}
	}
}
