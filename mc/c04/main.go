// C04: board records and all their attributes are stored faithfully.
package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/codec"
	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	kit.Main(kit.Config{
		ID: "C04", Level: kit.Exploration,
		Rule: "all 256 values of all 256 byte positions of the base records, all pairs of fields at extreme values, all bit pairs of number fields, all text lengths, all Big5 characters, every attribute query against every single bit and pair of bits set and cleared, all moderator lists of the alphabet, all edits and pairs of edits; distinct by record bytes or case key",
		Assumptions: []string{"reference: boardheader_t and BRD_* of pttbbs pttstruct.h, little endian",
			"text which is not valid Big5 is only required to leave the other fields alone", "times from 1970 to 2106"},
		Body: body,
	})
}

type H = pttbbs.BoardHeader

func b(r interface{}) *H { return r.(*H) }

type query struct {
	name string
	bit  uint32
	q    func(*H) bool
}

var queries = []query{
	{"IsNoCount", 0x2, (*H).IsNoCount}, {"IsGroupBoard", 0x8, (*H).IsGroupBoard}, {"IsClass", 0x8, (*H).IsClass},
	{"IsHide", 0x10, (*H).IsHide}, {"IsPostMask", 0x20, (*H).IsPostMask}, {"IsAnonymous", 0x40, (*H).IsAnonymous},
	{"IsDefaultAnonymous", 0x80, (*H).IsDefaultAnonymous}, {"IsNoCredit", 0x100, (*H).IsNoCredit}, {"IsVoteBoard", 0x200, (*H).IsVoteBoard},
	{"IsWarnEL", 0x400, (*H).IsWarnEL}, {"IsTop", 0x800, (*H).IsTop}, {"IsNoRecommend", 0x1000, (*H).IsNoRecommend},
	{"IsAngelAnonymous", 0x2000, (*H).IsAngelAnonymous}, {"IsBMCount", 0x4000, (*H).IsBMCount}, {"IsIsSymbolic", 0x8000, (*H).IsIsSymbolic},
	{"IsNoBoo", 0x10000, (*H).IsNoBoo}, {"IsRestrictedPost", 0x40000, (*H).IsRestrictedPost}, {"IsGuestPost", 0x80000, (*H).IsGuestPost},
	{"IsCooldown", 0x100000, (*H).IsCooldown}, {"IsCPLog", 0x200000, (*H).IsCPLog}, {"IsNoFastRecommend", 0x400000, (*H).IsNoFastRecommend},
	{"IsIPLogRecommend", 0x800000, (*H).IsIPLogRecommend}, {"IsOver18", 0x1000000, (*H).IsOver18}, {"IsNoReply", 0x2000000, (*H).IsNoReply},
	{"IsAlignedComment", 0x4000000, (*H).IsAlignedComment}, {"IsNoSelfDeletePost", 0x8000000, (*H).IsNoSelfDeletePost},
	{"IsBMMaskContent", 0x10000000, (*H).IsBMMaskContent},
}

func layout() *codec.Layout {
	num := func(name string, off int, k codec.Kind, get func(*H) interface{}) codec.Field {
		return codec.Field{Name: name, Off: off, Kind: k, Get: func(r interface{}) interface{} { return get(b(r)) }}
	}
	txt := func(name string, off, n int, k codec.Kind, get func(*H) interface{}) codec.Field {
		return codec.Field{Name: name, Off: off, Len: n, Kind: k, Get: func(r interface{}) interface{} { return get(b(r)) }}
	}
	l := &codec.Layout{Size: 256, Fields: []codec.Field{
		txt("name", 0, 13, codec.Big5, func(h *H) interface{} { return h.BoardID() }),
		txt("title", 13, 49, codec.Big5, func(h *H) interface{} { return h.Title() }),
		txt("moderators", 62, 39, codec.Raw, func(h *H) interface{} { return strings.Join(h.BM(), "/") }),
		num("attributes", 104, codec.U32, func(h *H) interface{} { return uint64(h.Brdattr) }),
		num("chess country", 108, codec.Char, func(h *H) interface{} { return h.ChessCountry }),
		num("vote limit posts", 109, codec.U8, func(h *H) interface{} { return uint64(h.VoteLimitPosts) }),
		num("vote limit logins", 110, codec.U8, func(h *H) interface{} { return uint64(h.VoteLimitLogins) }),
		num("update time", 112, codec.Time, func(h *H) interface{} { return h.BUpdate }),
		num("post limit posts", 116, codec.U8, func(h *H) interface{} { return uint64(h.GetPostLimitPosts()) }),
		num("post limit logins", 117, codec.U8, func(h *H) interface{} { return uint64(h.GetPostLimitLogins()) }),
		num("votes", 119, codec.U8, func(h *H) interface{} { return uint64(h.BVote) }),
		num("vote time", 120, codec.Time, func(h *H) interface{} { return h.VTime }),
		num("level", 124, codec.U32, func(h *H) interface{} { return uint64(h.Level) }),
		num("permission reload", 128, codec.Time, func(h *H) interface{} { return h.PermReload }),
		num("class", 132, codec.I32, func(h *H) interface{} { return int64(h.Gid) }),
		num("next 0", 136, codec.I32, func(h *H) interface{} { return int64(h.Next[0]) }),
		num("next 1", 140, codec.I32, func(h *H) interface{} { return int64(h.Next[1]) }),
		num("first child 0", 144, codec.I32, func(h *H) interface{} { return int64(h.FirstChild[0]) }),
		num("first child 1", 148, codec.I32, func(h *H) interface{} { return int64(h.FirstChild[1]) }),
		num("parent", 152, codec.I32, func(h *H) interface{} { return int64(h.Parent) }),
		num("children", 156, codec.I32, func(h *H) interface{} { return int64(h.ChildCount) }),
		num("users", 160, codec.I32, func(h *H) interface{} { return int64(h.Nuser) }),
		num("post expire", 164, codec.I32, func(h *H) interface{} { return int64(h.PostExpire) }),
		num("end of gamble", 168, codec.Time, func(h *H) interface{} { return h.EndGamble }),
		txt("post type", 172, 33, codec.Big5, func(h *H) interface{} { return h.PostType }),
		num("post type flags", 205, codec.Char, func(h *H) interface{} { return h.PostTypeF }),
		num("recommend pause", 206, codec.U8, func(h *H) interface{} { return uint64(h.FastRecommendPause) }),
		num("vote limit bad posts", 207, codec.U8, func(h *H) interface{} { return uint64(h.VoteLimitBadPost) }),
		num("post limit bad posts", 208, codec.U8, func(h *H) interface{} { return uint64(h.GetPostLimitBadPost()) }),
		num("SR expire", 212, codec.Time, func(h *H) interface{} { return h.SRexpire }),
	}}
	l.Decode = func(d []byte) (interface{}, error) { return pttbbs.UnmarshalBoardHeader(d) }
	l.Encode = func(r interface{}) ([]byte, error) { return b(r).MarshalBinary() }
	return l
}

func edits(l *codec.Layout, all bool) []codec.Edit {
	var out []codec.Edit
	t := func(f string, set func(h *H, s string)) {
		out = append(out, l.TextEdits(f, pb.Big5, func(r interface{}, s string) { set(b(r), s) }, all)...)
	}
	n := func(f string, set func(h *H, v uint64)) {
		out = append(out, l.NumEdits(f, func(r interface{}, v uint64) { set(b(r), v) })...)
	}
	tm := func(f string, set func(h *H, v time.Time)) {
		out = append(out, l.TimeEdits(f, func(r interface{}, v time.Time) { set(b(r), v) })...)
	}
	t("name", func(h *H, s string) { h.SetBoardID(s) })
	t("title", func(h *H, s string) { h.SetTitle(s) })
	t("post type", func(h *H, s string) { h.PostType = s })
	n("attributes", func(h *H, v uint64) { h.Brdattr = uint32(v) })
	n("vote limit posts", func(h *H, v uint64) { h.VoteLimitPosts = uint8(v) })
	n("vote limit logins", func(h *H, v uint64) { h.VoteLimitLogins = uint8(v) })
	n("post limit posts", func(h *H, v uint64) { h.PostLimitPosts = uint8(v) })
	n("post limit logins", func(h *H, v uint64) { h.PostLimitLogins = uint8(v) })
	n("votes", func(h *H, v uint64) { h.BVote = uint8(v) })
	n("level", func(h *H, v uint64) { h.Level = uint32(v) })
	n("class", func(h *H, v uint64) { h.Gid = int32(v) })
	n("next 0", func(h *H, v uint64) { h.Next[0] = int32(v) })
	n("next 1", func(h *H, v uint64) { h.Next[1] = int32(v) })
	n("first child 0", func(h *H, v uint64) { h.FirstChild[0] = int32(v) })
	n("first child 1", func(h *H, v uint64) { h.FirstChild[1] = int32(v) })
	n("parent", func(h *H, v uint64) { h.Parent = int32(v) })
	n("children", func(h *H, v uint64) { h.ChildCount = int32(v) })
	n("users", func(h *H, v uint64) { h.Nuser = int32(v) })
	n("post expire", func(h *H, v uint64) { h.PostExpire = int32(v) })
	n("recommend pause", func(h *H, v uint64) { h.FastRecommendPause = uint8(v) })
	n("vote limit bad posts", func(h *H, v uint64) { h.VoteLimitBadPost = uint8(v) })
	n("post limit bad posts", func(h *H, v uint64) { h.PostLimitBadPost = uint8(v) })
	tm("update time", func(h *H, v time.Time) { h.BUpdate = v })
	tm("vote time", func(h *H, v time.Time) { h.VTime = v })
	tm("permission reload", func(h *H, v time.Time) { h.PermReload = v })
	tm("end of gamble", func(h *H, v time.Time) { h.EndGamble = v })
	tm("SR expire", func(h *H, v time.Time) { h.SRexpire = v })
	for _, s := range []string{"", "A", "\x80", "\xff", "ab"} {
		s := s
		ref := func(off int) func([]byte) {
			return func(b []byte) {
				b[off] = 0
				copy(b[off:off+1], s)
			}
		}
		out = append(out, codec.Edit{Field: "chess country", Name: fmt.Sprintf("%q", s), Do: func(r interface{}) { b(r).ChessCountry = s }, Ref: ref(108), Spill: len(s) > 1})
		out = append(out, codec.Edit{Field: "post type flags", Name: fmt.Sprintf("%q", s), Do: func(r interface{}) { b(r).PostTypeF = s }, Ref: ref(205), Spill: len(s) > 1})
	}
	return out
}

var special = []codec.Special{
	{Field: "name", Text: []string{"", "SYSOP", "ALLPOST", "Test", "deleted"}},
	{Field: "title", Text: []string{"", string(pb.Big5("嘰哩 ◎看板")), string(pb.Big5("分類 Σ群組")), "....   plain", "-"}},
	{Field: "moderators", Text: []string{"", "-", "userA", "userA/userB", "[" + string(pb.Big5("徵求中")) + "]"}},
	{Field: "attributes", Nums: []uint64{0, 1, 8, 0x10, 0x20, 0x400, 0x1000, 1 << 22, 1 << 31, 1<<32 - 1}},
	{Field: "level", Nums: []uint64{0, 1, 1 << 14, 1<<32 - 1}},
	{Field: "class", Nums: []uint64{0, 1, 2, 1<<32 - 1}},
	{Field: "votes", Nums: []uint64{0, 1}},
	{Field: "vote time", Nums: []uint64{0, 1600000000}},
	{Field: "update time", Nums: []uint64{0, 1<<32 - 1}},
	{Field: "permission reload", Nums: []uint64{0, 1600000000}},
	{Field: "users", Nums: []uint64{0, 1, 1<<32 - 1}},
}

func body(r *kit.Run) {
	l := layout()
	bases := map[string][]byte{"zeros": l.Blank(), "pattern": l.Pattern(0), "chinese": l.Chinese(1), "sample": pb.BoardBytes(12345), "ones": bytes.Repeat([]byte{0xff}, 256)}
	order := []string{"zeros", "pattern", "chinese", "sample", "ones"}
	r.Section("every value of every byte")
	l.Bytes(r, bases, order, codec.All())
	for _, n := range order {
		r.Section("all pairs of fields at extreme values")
		l.Pairs(r, n, bases[n])
		r.Section("all bit pairs")
		l.Words(r, n, bases[n])
		r.Section("all text lengths")
		l.TextLengths(r, n, bases[n])
	}
	r.Section("all Big5 characters")
	l.Characters(r, "pattern", bases["pattern"])
	r.Section("edits and pairs of edits")
	for _, n := range order[:4] {
		l.Edits(r, n, bases[n], edits(l, true), edits(l, false))
	}
	if r.Thorough {
		r.Section("all values of all pairs of neighbouring bytes")
		for off := 0; off < 255; off++ {
			off := off
			for _, n := range []string{"zeros", "sample"} {
				n := n
				r.Check(fmt.Sprintf("%s bytes %d %d", n, off, off+1), func() error {
					d := append([]byte{}, bases[n]...)
					for x := 0; x < 65536; x++ {
						d[off], d[off+1] = byte(x), byte(x>>8)
						if err := l.Check(d); err != nil {
							return fmt.Errorf("%x: %v", x, err)
						}
					}
					r.Eval(65535)
					return nil
				})
			}
		}
	}

	r.Section("every combination of special field values")
	l.Products(r, l.Blank(), special, nil)
	r.Section("attribute queries")
	for _, q := range queries {
		q := q
		r.Check("query "+q.name, func() error {
			e := 0
			try := func(a uint32) error {
				e++
				h := &H{Brdattr: a}
				if g, w := q.q(h), a&q.bit != 0; g != w {
					return fmt.Errorf("%s is %v for attributes %#x", q.name, g, a)
				}
				if h.Brdattr != a {
					return fmt.Errorf("%s changed the attributes", q.name)
				}
				r.Distinct(kit.Hash(q.name, fmt.Sprint(a)))
				// the answer does not depend on any other field
				if a == q.bit || a == ^q.bit {
					for _, n := range order {
						d := append([]byte{}, bases[n]...)
						d[104], d[105], d[106], d[107] = byte(a), byte(a>>8), byte(a>>16), byte(a>>24)
						x, err := l.Decode(d)
						if err != nil {
							return err
						}
						if g, w := q.q(b(x)), a&q.bit != 0; g != w {
							return fmt.Errorf("%s is %v for attributes %#x in record %s", q.name, g, a, n)
						}
					}
				}
				return nil
			}
			for i := 0; i < 32; i++ {
				for j := i; j < 32; j++ {
					a := uint32(1)<<i | uint32(1)<<j
					for _, v := range []uint32{a, ^a, a | q.bit, a &^ q.bit, ^a | q.bit, ^a &^ q.bit} {
						if err := try(v); err != nil {
							return err
						}
					}
				}
			}
			if err := try(0); err != nil {
				return err
			}
			for v := uint32(0); v < 1<<16; v++ {
				if err := try(v); err != nil {
					return err
				}
				if err := try(v << 16); err != nil {
					return err
				}
			}
			r.Eval(e)
			return nil
		})
	}
	r.Check("the record offers every query of bbs.BoardRecordSettings and bbs.BoardRecordInfo", func() error {
		var x bbs.BoardRecord = pttbbs.NewBoardHeader()
		if _, ok := x.(bbs.BoardRecordSettings); !ok {
			return fmt.Errorf("no bbs.BoardRecordSettings")
		}
		if _, ok := x.(bbs.BoardRecordInfo); !ok {
			return fmt.Errorf("no bbs.BoardRecordInfo")
		}
		return nil
	})

	r.Section("moderator lists")
	names := []string{"a", "SYSOP", "abcdefghijkl", "x1", "in2"}
	var lists [][]string
	lists = append(lists, nil)
	for _, a := range names {
		lists = append(lists, []string{a})
		for _, c := range names {
			lists = append(lists, []string{a, c})
			for _, d := range names {
				lists = append(lists, []string{a, c, d})
				for _, e := range names {
					lists = append(lists, []string{a, c, d, e})
				}
			}
		}
	}
	for _, m := range lists {
		m := m
		s := strings.Join(m, "/")
		if len(s) > 39 {
			continue
		}
		for _, tail := range []byte{0, 'z'} {
			tail := tail
			r.Check(fmt.Sprintf("moderators %q, rubbish %q", s, tail), func() error {
				d := l.Pattern(3)
				p := d[62:101]
				for i := range p {
					p[i] = tail
				}
				if copy(p, s) < 39 {
					p[len(s)] = 0
				}
				x, err := l.Decode(d)
				if err != nil {
					return err
				}
				g := b(x).BM()
				if len(g) != len(m) || len(m) > 0 && !reflect.DeepEqual(g, m) {
					return fmt.Errorf("moderators are %q, want %q", g, m)
				}
				// the caller may do with the list what it wants
				for i := range g {
					g[i] = "changed"
				}
				if g := b(x).BM(); len(m) > 0 && !reflect.DeepEqual(g, m) {
					return fmt.Errorf("moderators are %q after the caller changed its copy", g)
				}
				return nil
			})
		}
	}
	r.Section("class ids")
	for _, v := range []int32{0, 1, 2, 9, 10, 255, 256, 65535, 65536, 1<<31 - 1, -1} {
		v := v
		r.Check(fmt.Sprintf("class %d", v), func() error {
			h := &H{Gid: v}
			if h.ClassID() != fmt.Sprint(v) {
				return fmt.Errorf("class id is %q", h.ClassID())
			}
			return nil
		})
	}

	r.Section("board files")
	var file []byte
	for i := 0; i < 400; i++ {
		file = append(file, pb.BoardBytes(i)...)
	}
	for n := 0; n <= 400; n++ {
		n := n
		r.Check(fmt.Sprintf("file of %d boards", n), func() error {
			home := r.Dir("home")
			db, c, err := pb.Open(home)
			if err != nil {
				return err
			}
			p, err := c.GetBoardRecordsPath()
			if err != nil {
				return err
			}
			if err := os.WriteFile(p, file[:n*256], 0644); err != nil {
				return err
			}
			got, err := db.ReadBoardRecords()
			if err != nil {
				return err
			}
			if len(got) != n {
				return fmt.Errorf("%d boards are listed, want %d", len(got), n)
			}
			for i, g := range got {
				if err := l.CheckDecoded(g, file[i*256:i*256+256]); err != nil {
					return fmt.Errorf("board %d: %v", i, err)
				}
			}
			return nil
		})
	}
	// a board made by the application is stored as given
	r.Section("new boards")
	for _, id := range []string{"a", "Test", "abcdefghijkl"} {
		for _, title := range []string{"", "t", "嘰哩 ◎看板", strings.Repeat("許", 24), strings.Repeat("x", 48)} {
			id, title := id, title
			r.Check(fmt.Sprintf("new board %s %q", id, title), func() error {
				db, c, err := pb.Open(r.Dir("home"))
				if err != nil {
					return err
				}
				n, err := db.NewBoardRecord(map[string]interface{}{"board_id": id, "title": title})
				if err != nil {
					return err
				}
				if n.BoardID() != id || n.Title() != title {
					return fmt.Errorf("the new record is %q %q", n.BoardID(), n.Title())
				}
				if err := db.AddBoardRecord(n); err != nil {
					return err
				}
				want := make([]byte, 256)
				copy(want, id)
				copy(want[13:], pb.Big5(title))
				p, _ := c.GetBoardRecordsPath()
				return l.CheckEncoded(pb.Read(p), want)
			})
		}
	}
}
