// C03: article records are stored faithfully, edits stay isolated.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/codec"
	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	kit.Main(kit.Config{
		ID: "C03", Level: kit.Exploration,
		Rule: "all 256 values of all 128 byte positions of the base records, all pairs of fields at their extreme values, all bit pairs of number fields, all text lengths, all Big5 characters, all edits and pairs of edits, all (score, increment) pairs; a case is distinct when its record bytes or its key differ",
		Assumptions: []string{"reference: fileheader_t of pttbbs pttstruct.h, little endian", "text which is not valid Big5 is only required to leave the other fields alone",
			"the union is compared as the file mode says (vote limits, anonymous id or money)"},
		Body: body,
	})
}

const vote, anon = 0x40, 0x80

func hdr(r interface{}) *pttbbs.FileHeader { return r.(*pttbbs.FileHeader) }

func u(name string, off int, k codec.Kind, get func(h *pttbbs.FileHeader) interface{}) codec.Field {
	return codec.Field{Name: name, Off: off, Kind: k, Get: func(r interface{}) interface{} { return get(hdr(r)) }}
}

func text(name string, off, n int, k codec.Kind, get func(h *pttbbs.FileHeader) string) codec.Field {
	return codec.Field{Name: name, Off: off, Len: n, Kind: k, Get: func(r interface{}) interface{} { return get(hdr(r)) }}
}

func layout() *codec.Layout {
	isVote := func(b []byte) bool { return b[124]&vote != 0 }
	isAnon := func(b []byte) bool { return b[124]&vote == 0 && b[124]&anon != 0 }
	isMoney := func(b []byte) bool { return b[124]&(vote|anon) == 0 }
	l := &codec.Layout{Size: 128, Fields: []codec.Field{
		text("file name", 0, 28, codec.Raw, func(h *pttbbs.FileHeader) string { return h.Filename() }),
		u("modified", 28, codec.Time, func(h *pttbbs.FileHeader) interface{} { return h.Modified() }),
		u("score", 33, codec.I8, func(h *pttbbs.FileHeader) interface{} { return int64(h.Recommend()) }),
		text("owner", 34, 14, codec.Raw, func(h *pttbbs.FileHeader) string { return h.Owner() }),
		text("date", 48, 6, codec.Raw, func(h *pttbbs.FileHeader) string { return h.Date() }),
		text("title", 54, 65, codec.Big5, func(h *pttbbs.FileHeader) string { return h.Title() }),
		u("file mode", 124, codec.U8, func(h *pttbbs.FileHeader) interface{} { return uint64(h.Filemode) }),
	}}
	add := func(f codec.Field, a func([]byte) bool) {
		f.Applies = a
		l.Fields = append(l.Fields, f)
	}
	add(u("money", 120, codec.U32, func(h *pttbbs.FileHeader) interface{} { return uint64(uint32(h.Money())) }), isMoney)
	add(u("anonymous id", 120, codec.U32, func(h *pttbbs.FileHeader) interface{} { return uint64(uint32(h.AnnoUID)) }), isAnon)
	add(u("vote posts", 120, codec.U8, func(h *pttbbs.FileHeader) interface{} { return uint64(h.VoteLimits.Posts) }), isVote)
	add(u("vote logins", 121, codec.U8, func(h *pttbbs.FileHeader) interface{} { return uint64(h.VoteLimits.Logins) }), isVote)
	add(u("vote register time", 122, codec.U8, func(h *pttbbs.FileHeader) interface{} { return uint64(h.VoteLimits.Regtime) }), isVote)
	add(u("vote bad posts", 123, codec.U8, func(h *pttbbs.FileHeader) interface{} { return uint64(h.VoteLimits.Badpost) }), isVote)
	l.Decode = func(b []byte) (interface{}, error) { return pttbbs.NewFileHeaderWithByte(b) }
	l.Encode = func(r interface{}) ([]byte, error) { return hdr(r).MarshalToByte() }
	return l
}

// edit changes one attribute through the API; ref does the same to the bytes.
type edit struct {
	field string
	name  string
	do    func(h *pttbbs.FileHeader)
	ref   func(b []byte)
	spill bool // the text does not fit: the content of the field itself is not compared
}

func setText(b []byte, t string) {
	for i := range b {
		b[i] = 0
	}
	copy(b, t)
}

func texts(field string, size int, set func(h *pttbbs.FileHeader, s string), off int, big5 bool, lens []int) []edit {
	var out []edit
	for _, n := range lens {
		n := n
		t := strings.Repeat("abcdefghij", n/10+1)[:n]
		out = append(out, edit{field: field, name: fmt.Sprintf("%d letters", n), do: func(h *pttbbs.FileHeader) { set(h, t) },
			ref: func(b []byte) { setText(b[off:off+size], t) }, spill: n > size})
		if big5 {
			s := strings.Repeat("許功蓋", n/3+1)
			s = string([]rune(s)[:n])
			out = append(out, edit{field: field, name: fmt.Sprintf("%d characters", n), do: func(h *pttbbs.FileHeader) { set(h, s) },
				ref: func(b []byte) { setText(b[off:off+size], string(pb.Big5(s))) }, spill: 2*n > size})
			m := "x" + s
			out = append(out, edit{field: field, name: fmt.Sprintf("x and %d characters", n), do: func(h *pttbbs.FileHeader) { set(h, m) },
				ref: func(b []byte) { setText(b[off:off+size], string(pb.Big5(m))) }, spill: 2*n+1 > size})
		}
	}
	return out
}

func edits(all bool) []edit {
	var out []edit
	lens := func(size int) []int {
		if !all {
			return []int{0, 1, size - 1, size, size + 1, size + 100}
		}
		var l []int
		for i := 0; i <= size+140; i++ {
			l = append(l, i)
		}
		return l
	}
	out = append(out, texts("file name", 28, (*pttbbs.FileHeader).SetFilename, 0, false, lens(28))...)
	out = append(out, texts("owner", 14, (*pttbbs.FileHeader).SetOwner, 34, false, lens(14))...)
	out = append(out, texts("date", 6, (*pttbbs.FileHeader).SetDate, 48, false, lens(6))...)
	tl := lens(65)
	if !all {
		tl = append(tl, 32, 33)
	}
	out = append(out, texts("title", 65, (*pttbbs.FileHeader).SetTitle, 54, true, tl)...)
	for _, t := range []int64{0, 1, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1234567890} {
		t := t
		out = append(out, edit{field: "modified", name: fmt.Sprint("time ", t), do: func(h *pttbbs.FileHeader) { h.SetModified(time.Unix(t, 999)) },
			ref: func(b []byte) { binary.LittleEndian.PutUint32(b[28:], uint32(t)) }})
	}
	out = append(out, edit{field: "modified", name: "no time", do: func(h *pttbbs.FileHeader) { h.SetModified(time.Time{}) },
		ref: func(b []byte) { binary.LittleEndian.PutUint32(b[28:], 0) }})
	out = append(out, edit{field: "modified", name: "time in another zone", do: func(h *pttbbs.FileHeader) {
		h.SetModified(time.Unix(1600000000, 0).In(time.FixedZone("x", 8*3600)))
	}, ref: func(b []byte) { binary.LittleEndian.PutUint32(b[28:], 1600000000) }})
	for _, d := range []int8{1, -1, 50, -50, 127, -128} {
		d := d
		out = append(out, edit{field: "score", name: fmt.Sprint("add ", d), do: func(h *pttbbs.FileHeader) { h.AddRecommend(d) },
			ref: func(b []byte) { b[33] = byte(clamp(int(int8(b[33])) + int(d))) }})
	}
	// file modes which keep the meaning of the union
	for _, m := range []byte{0x01, 0x02, 0x08, 0x10, 0x20} {
		m := m
		out = append(out, edit{field: "file mode", name: fmt.Sprintf("mode ^ %x", m), do: func(h *pttbbs.FileHeader) { h.Filemode ^= m }, ref: func(b []byte) { b[124] ^= m }})
	}
	return out
}

func clamp(v int) int {
	if v > 100 {
		return 100
	}
	if v < -100 {
		return -100
	}
	return v
}

func body(r *kit.Run) {
	l := layout()
	bases := map[string][]byte{"zeros": l.Blank(), "pattern": l.Pattern(0), "chinese": l.Chinese(1), "vote": l.Pattern(2), "anonymous": l.Chinese(3), "money": l.Pattern(4), "ones": bytes.Repeat([]byte{0xff}, 128)}
	bases["vote"][124] = vote | 1
	bases["anonymous"][124] = anon | 2
	bases["money"][124] = 0x22
	order := []string{"zeros", "pattern", "chinese", "vote", "anonymous", "money", "ones"}

	r.Section("every value of every byte")
	l.Bytes(r, bases, order, codec.All())
	r.Section("all pairs of fields at extreme values")
	for _, b := range []string{"zeros", "vote", "anonymous", "money"} {
		l.Pairs(r, b, bases[b])
	}
	r.Section("all bit pairs")
	for _, b := range []string{"zeros", "vote", "anonymous", "money"} {
		l.Words(r, b, bases[b])
	}
	r.Section("all text lengths")
	for _, b := range order[:6] {
		l.TextLengths(r, b, bases[b])
	}
	r.Section("all Big5 characters")
	l.Characters(r, "pattern", bases["pattern"])

	if r.Thorough {
		r.Section("all values of all pairs of neighbouring bytes")
		for off := 0; off < 127; off++ {
			off := off
			for _, name := range []string{"zeros", "money"} {
				base := bases[name]
				r.Check(fmt.Sprintf("%s bytes %d %d", name, off, off+1), func() error {
					b := append([]byte{}, base...)
					for x := 0; x < 256; x++ {
						for y := 0; y < 256; y++ {
							b[off], b[off+1] = byte(x), byte(y)
							if err := l.Check(b); err != nil {
								return fmt.Errorf("%x %x: %v", x, y, err)
							}
						}
					}
					r.Eval(65535)
					return nil
				})
			}
		}
	}

	// edits through the API
	check := func(base []byte, es ...edit) error {
		b := append([]byte{}, base...)
		h, err := pttbbs.NewFileHeaderWithByte(append([]byte{}, base...))
		if err != nil {
			return err
		}
		var except []string
		for _, e := range es {
			e.do(h)
			e.ref(b)
			if e.spill {
				except = append(except, e.field)
			}
		}
		if len(except) == 0 {
			if err := l.CheckDecoded(h, b); err != nil {
				return err
			}
		}
		out, err := h.MarshalToByte()
		if err != nil {
			return err
		}
		if err := l.CheckEncoded(out, b, except...); err != nil {
			return err
		}
		// text which does not fit is cut: what is stored is a part of the text
		h2, err := pttbbs.NewFileHeaderWithByte(out)
		if err != nil {
			return err
		}
		if len(except) == 0 {
			return l.CheckDecoded(h2, b)
		}
		return nil
	}
	apiBases := []string{"zeros", "vote", "anonymous", "money", "chinese"}
	r.Section("every edit")
	for _, bn := range apiBases {
		for _, e := range edits(true) {
			bn, e := bn, e
			r.Check(fmt.Sprintf("%s: %s, %s", bn, e.field, e.name), func() error { return check(bases[bn], e) })
		}
	}
	r.Section("every pair of edits")
	small := edits(false)
	for _, bn := range apiBases {
		for i := range small {
			for j := range small {
				e, f := small[i], small[j]
				if e.field == f.field && (e.field != "score" || f.field != "score") && e.spill {
					continue
				}
				bn := bn
				r.Check(fmt.Sprintf("%s: %s, %s; %s, %s", bn, e.field, e.name, f.field, f.name), func() error { return check(bases[bn], e, f) })
			}
		}
	}
	r.Section("every combination of special field values")
	deleted := string(pb.Big5("(本文已被刪除) [userA]"))
	l.Products(r, l.Blank(), []codec.Special{
		{Field: "file name", Text: []string{"", ".deleted", ".d12345", "M.1600000000.A.001", "G.1.A.000", "-"}},
		{Field: "owner", Text: []string{"", "-", "userA", "guest", "userA."}},
		{Field: "title", Text: []string{"", deleted, string(pb.Big5("[公告] x")), "Re: x", "-"}},
		{Field: "date", Text: []string{"", " 0/00", " 1/01", "12/31"}},
		{Field: "modified", Nums: []uint64{0, 1600000000, 1<<32 - 1}},
		{Field: "score", Nums: []uint64{0, 1, 100, 127, 128, 156, 255}},
		{Field: "money", Nums: []uint64{0, 1, 1<<32 - 1}},
		{Field: "file mode", Nums: []uint64{0, 1, 2, 4, 8, 16, 32, 64, 128, 192, 255}},
	}, nil)
	r.Section("new records")
	for _, e := range edits(true) {
		e := e
		r.Check(fmt.Sprintf("new record: %s, %s", e.field, e.name), func() error {
			h := pttbbs.NewFileHeader()
			b := make([]byte, 128)
			e.do(h)
			e.ref(b)
			out, err := h.MarshalToByte()
			if err != nil {
				return err
			}
			var ex []string
			if e.spill {
				ex = []string{e.field}
			}
			return l.CheckEncoded(out, b, ex...)
		})
	}
	for _, a := range []uint32{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		a := a
		r.Check(fmt.Sprintf("vote limits, anonymous id %d", a), func() error {
			for _, m := range []byte{vote, anon, vote | anon, 0x7f, 0xff} {
				h := pttbbs.NewFileHeader()
				b := make([]byte, 128)
				h.Filemode = m
				b[124] = m
				binary.LittleEndian.PutUint32(b[120:], a)
				if m&vote != 0 {
					h.VoteLimits = pttbbs.VoteLimits{Posts: b[120], Logins: b[121], Regtime: b[122], Badpost: b[123]}
				} else {
					h.AnnoUID = int(a)
				}
				out, err := h.MarshalToByte()
				if err != nil {
					return err
				}
				if err := l.CheckEncoded(out, b); err != nil {
					return fmt.Errorf("mode %x: %v", m, err)
				}
			}
			return nil
		})
	}

	r.Section("all scores and increments")
	for s := -100; s <= 100; s++ {
		s := s
		r.Check(fmt.Sprintf("score %d and every increment", s), func() error {
			for d := -128; d <= 127; d++ {
				b := append([]byte{}, bases["money"]...)
				b[33] = byte(int8(s))
				h, err := pttbbs.NewFileHeaderWithByte(b)
				if err != nil {
					return err
				}
				h.AddRecommend(int8(d))
				if h.Recommend() != clamp(s+d) {
					return fmt.Errorf("%d + %d is %d, want %d", s, d, h.Recommend(), clamp(s+d))
				}
				out, err := h.MarshalToByte()
				if err != nil {
					return err
				}
				b[33] = byte(int8(clamp(s + d)))
				if err := l.CheckEncoded(out, b); err != nil {
					return fmt.Errorf("%d + %d: %v", s, d, err)
				}
				// and one more step from there
				h.AddRecommend(1)
				if h.Recommend() != clamp(clamp(s+d)+1) {
					return fmt.Errorf("%d + %d + 1 is %d", s, d, h.Recommend())
				}
			}
			r.Eval(255)
			return nil
		})
	}

	// through the driver: what is listed is what the bytes say, and writing a listed record back
	// at its position leaves the file as it was
	r.Section("records through files")
	for _, bn := range append(order, "blank title") {
		for n := 1; n <= 3; n++ {
			bn, n := bn, n
			r.Check(fmt.Sprintf("file with %d records %s", n, bn), func() error {
				home := r.Dir("home")
				if err := pb.MakeBoard(home, "Test"); err != nil {
					return err
				}
				db, c, err := pb.Open(home)
				if err != nil {
					return err
				}
				var file []byte
				for i := 0; i < n; i++ {
					b := append([]byte{}, bases["money"]...)
					if x, ok := bases[bn]; ok {
						b = append([]byte{}, x...)
					} else {
						copy(b[54:], make([]byte, 65))
					}
					b[0] = byte('A' + i)
					file = append(file, b...)
				}
				p := pb.DirPath(home, "Test")
				if err := os.WriteFile(p, file, 0644); err != nil {
					return err
				}
				recs, err := db.ReadBoardArticleRecordsFile("Test")
				if err != nil {
					return err
				}
				if len(recs) != n {
					return fmt.Errorf("%d records are listed, want %d", len(recs), n)
				}
				for i, x := range recs {
					if err := l.CheckDecoded(x, file[i*128:i*128+128]); err != nil {
						return fmt.Errorf("record %d: %v", i, err)
					}
					if err := c.UpdateArticleRecordFileRecord(p, uint(i), x.(bbs.ArticleRecord)); err != nil {
						return err
					}
				}
				after := pb.Read(p)
				if len(after) != len(file) {
					return fmt.Errorf("the file has %d bytes, want %d", len(after), len(file))
				}
				for i := 0; i < n; i++ {
					if err := l.CheckEncoded(after[i*128:i*128+128], file[i*128:i*128+128]); err != nil {
						return fmt.Errorf("record %d written back: %v", i, err)
					}
				}
				return nil
			})
		}
	}
}
