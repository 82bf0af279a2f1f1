// C24: FormosaBBS article indexes are decoded per their C layout.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	formosa "github.com/Ptt-official-app/go-bbs/formosabbs"

	"verifmc/codec"
	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	kit.Main(kit.Config{
		ID: "C24", Level: kit.Exploration,
		Rule:        "all 256 values of all 248 byte positions of the base records, all pairs of fields at extreme values, all bit pairs, all text lengths, all Big5 characters, files of all listed lengths including every torn tail; distinct by record bytes or case key",
		Assumptions: []string{"reference: fileheader of FormosaBBS, 248 bytes, little endian", "text which is not valid Big5 is only required to leave the other fields alone"},
		Body:        body,
	})
}

func h(r interface{}) *formosa.FileHeader { return r.(*formosa.FileHeader) }

func body(r *kit.Run) {
	l := &codec.Layout{Size: 248, Fields: []codec.Field{
		{Name: "file name", Off: 0, Len: 44, Kind: codec.Raw, Get: func(r interface{}) interface{} { return h(r).Filename }},
		{Name: "post number", Off: 72, Kind: codec.I32, Get: func(r interface{}) interface{} { return int64(h(r).Postno) }},
		{Name: "owner", Off: 80, Len: 72, Kind: codec.Raw, Get: func(r interface{}) interface{} { return h(r).Owner }},
		{Name: "modified", Off: 152, Kind: codec.Time, Get: func(r interface{}) interface{} { return h(r).Modified }},
		{Name: "title", Off: 160, Len: 67, Kind: codec.Big5, Get: func(r interface{}) interface{} { return h(r).Title }},
	}, Decode: func(b []byte) (interface{}, error) { return formosa.NewFomosaBBSFileHeaderWithByte(b) }}
	bases := map[string][]byte{"zeros": l.Blank(), "pattern": l.Pattern(0), "chinese": l.Chinese(1), "ones": bytes.Repeat([]byte{0xff}, 248)}
	order := []string{"zeros", "pattern", "chinese", "ones"}
	r.Section("every value of every byte")
	l.Bytes(r, bases, order, codec.All())
	for _, b := range order {
		r.Section("field pairs, bit pairs, text lengths, characters")
		l.Pairs(r, b, bases[b])
		l.Words(r, b, bases[b])
		l.TextLengths(r, b, bases[b])
	}
	l.Characters(r, "pattern", bases["pattern"])
	if r.Thorough {
		r.Section("all values of all pairs of neighbouring bytes")
		for off := 0; off < 247; off++ {
			off := off
			for _, n := range []string{"zeros", "pattern"} {
				n := n
				r.Check(fmt.Sprintf("%s bytes %d %d", n, off, off+1), func() error {
					b := append([]byte{}, bases[n]...)
					for x := 0; x < 65536; x++ {
						b[off], b[off+1] = byte(x), byte(x>>8)
						if err := l.Check(b); err != nil {
							return fmt.Errorf("%x: %v", x, err)
						}
					}
					r.Eval(65535)
					return nil
				})
			}
		}
	}

	record := func(i int) []byte {
		b := l.Chinese(i)
		b[0] = byte('A' + i%26)
		copy(b[1:], fmt.Sprintf("%06d", i))
		return b
	}
	var all []byte
	max := kit.Pick(r, 600, 3000)
	check := func(n, tail int) error {
		for i := len(all) / 248; i <= n; i++ {
			all = append(all, record(i)...)
		}
		dir := r.Dir("d")
		p := filepath.Join(dir, "DIR")
		if err := os.WriteFile(p, all[:n*248+tail], 0644); err != nil {
			return err
		}
		before := pb.Tree(dir)
		got, err := formosa.OpenFormosaBBSFileHeaderFile(p)
		if err != nil {
			return err
		}
		if len(got) != n {
			return fmt.Errorf("%d records are listed, want %d", len(got), n)
		}
		for i, g := range got {
			if err := l.CheckDecoded(g, all[i*248:i*248+248]); err != nil {
				return fmt.Errorf("record %d: %v", i, err)
			}
		}
		return pb.TreeDiff(before, pb.Tree(dir))
	}
	r.Section("files of every length")
	for n := 0; n <= max; n++ {
		n := n
		r.Check(fmt.Sprintf("%d records", n), func() error { return check(n, 0) })
	}
	for _, n := range []int{1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537} {
		n := n
		r.Check(fmt.Sprintf("%d records", n), func() error { return check(n, 0) })
	}
	r.Section("every sequence of odd records")
	noName := record(3)
	copy(noName, make([]byte, 44))
	noOwner := record(3)
	copy(noOwner[80:], make([]byte, 72))
	onlyName := make([]byte, 248)
	copy(onlyName, "M.1.A")
	kinds := [][]byte{make([]byte, 248), record(1), record(2), bytes.Repeat([]byte{0xff}, 248), noName, noOwner, onlyName}
	depth := kit.Pick(r, 5, 6)
	list := func(file []byte) ([]interface{}, error) {
		p := filepath.Join(r.Dir("seq"), "DIR")
		if err := os.WriteFile(p, file, 0644); err != nil {
			return nil, err
		}
		got, err := formosa.OpenFormosaBBSFileHeaderFile(p)
		var l []interface{}
		for _, g := range got {
			l = append(l, g)
		}
		return l, err
	}
	l.Sequences(r, kinds, depth, list)
	r.Section("every combination of special field values")
	l.Products(r, l.Blank(), []codec.Special{
		{Field: "file name", Text: []string{"", ".deleted", ".DIR", "M.1600000000.A", "1600000000", "-", "../x", "D.1"}},
		{Field: "owner", Text: []string{"", "-", "guest", "SYSOP", "userA", "userA.bbs@x", "userA (x)"}},
		{Field: "title", Text: []string{"", "-", "Re: x", "<< x >>", "{\xa4\xbd\xa7i}", "<<\xa5\xbb\xa4\xe5\xb3Q\xa7R\xb0\xa3>>", "(deleted)", "<\xa5\xbb\xa4\xe5\xa4w\xb3Q\xa7R\xb0\xa3>", " "}},
		{Field: "post number", Nums: []uint64{0, 1, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1}},
		{Field: "modified", Nums: []uint64{0, 1, 1600000000, 1<<31 - 1, 1 << 31, 1<<32 - 1}},
	}, list)
	r.Section("every torn tail")
	for _, n := range []int{0, 1, 2, 16, 17} {
		for t := 1; t < 248; t++ {
			n, t := n, t
			r.Check(fmt.Sprintf("%d records and %d bytes", n, t), func() error { return check(n, t) })
		}
	}
	r.Section("missing file")
	r.Check("missing file", func() error {
		got, err := formosa.OpenFormosaBBSFileHeaderFile(filepath.Join(r.Dir("d"), "none"))
		if err == nil {
			return fmt.Errorf("no error, %d records", len(got))
		}
		return nil
	})
}
