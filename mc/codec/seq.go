package codec

import (
	"fmt"

	"verifmc/kit"
)

// Sequences checks the listing of files made of every sequence up to depth of the given records:
// blank slots, records twice and such never end or shift a listing.
func (l *Layout) Sequences(r *kit.Run, kinds [][]byte, depth int, list func(file []byte) ([]interface{}, error)) {
	for a := range kinds {
		for b := range kinds {
			a, b := a, b
			r.Check(fmt.Sprintf("sequences of records which begin with %d %d", a, b), func() error {
				var rec func(seq []int) error
				rec = func(seq []int) error {
					var file []byte
					for _, k := range seq {
						file = append(file, kinds[k]...)
					}
					r.Eval(1)
					r.Distinct(kit.HashB(file))
					got, err := list(file)
					if err != nil {
						return fmt.Errorf("records %v: %v", seq, err)
					}
					if len(got) != len(seq) {
						return fmt.Errorf("records %v: %d are listed", seq, len(got))
					}
					for i, g := range got {
						if err := l.CheckDecoded(g, kinds[seq[i]]); err != nil {
							return fmt.Errorf("records %v, number %d: %v", seq, i, err)
						}
					}
					if len(seq) == depth {
						return nil
					}
					for k := range kinds {
						if err := rec(append(seq[:len(seq):len(seq)], k)); err != nil {
							return err
						}
					}
					return nil
				}
				if b == 0 {
					if err := rec1(l, r, kinds[a], list); err != nil {
						return err
					}
				}
				return rec([]int{a, b})
			})
		}
	}
}

func rec1(l *Layout, r *kit.Run, rec []byte, list func(file []byte) ([]interface{}, error)) error {
	r.Eval(1)
	got, err := list(rec)
	if err != nil || len(got) != 1 {
		return fmt.Errorf("one record: %d are listed, %v", len(got), err)
	}
	return l.CheckDecoded(got[0], rec)
}
