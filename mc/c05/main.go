// C05: user records are stored faithfully.
package main

import (
	"bytes"
	"fmt"
	"os"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/codec"
	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	kit.Main(kit.Config{
		ID: "C05", Level: kit.Exploration,
		Rule: "all 256 values of all 512 byte positions of the base records, all pairs of fields at extreme values, all bit pairs of number fields, all text lengths, all Big5 characters, all edits and pairs of edits, files of every listed length; distinct by record bytes or case key",
		Assumptions: []string{"reference: userec_t of pttbbs pttstruct.h, little endian", "text which is not valid Big5 is only required to leave the other fields alone",
			"the registration field keeps 38 of its 39 bytes, the last one is the NUL"},
		Body: body,
	})
}

type U = pttbbs.Userec

func u(r interface{}) *U { return r.(*U) }

// Layout of userec_t.
func layout() *codec.Layout {
	num := func(name string, off int, k codec.Kind, get func(*U) interface{}) codec.Field {
		f := codec.Field{Name: name, Off: off, Kind: k}
		if get != nil {
			f.Get = func(r interface{}) interface{} { return get(u(r)) }
		}
		return f
	}
	txt := func(name string, off, n int, k codec.Kind, get func(*U) interface{}) codec.Field {
		f := num(name, off, k, get)
		f.Len = n
		return f
	}
	l := &codec.Layout{Size: 512, Fields: []codec.Field{
		num("version", 0, codec.U32, func(x *U) interface{} { return uint64(x.Version) }),
		txt("user id", 4, 13, codec.ASCII, func(x *U) interface{} { return x.UserID() }),
		txt("real name", 17, 20, codec.Big5, func(x *U) interface{} { return x.RealName() }),
		txt("nickname", 37, 24, codec.Big5, func(x *U) interface{} { return x.Nickname() }),
		txt("password", 61, 14, codec.ASCII, func(x *U) interface{} { return x.HashedPassword() }),
		num("flags", 76, codec.U32, func(x *U) interface{} { return uint64(x.UserFlag()) }),
		num("level", 84, codec.U32, func(x *U) interface{} { return uint64(x.UserLevel) }),
		num("login days", 88, codec.U32, func(x *U) interface{} { return uint64(x.NumLoginDays()) }),
		num("posts", 92, codec.U32, func(x *U) interface{} { return uint64(x.NumPosts()) }),
		num("first login", 96, codec.Time, nil),
		num("last login", 100, codec.Time, func(x *U) interface{} { return x.LastLogin() }),
		txt("last host", 104, 16, codec.ASCII, func(x *U) interface{} { return x.LastHost() }),
		num("money", 120, codec.I32, func(x *U) interface{} { return int64(x.Money()) }),
		txt("email", 128, 50, codec.Big5, func(x *U) interface{} { return x.Email }),
		txt("address", 178, 50, codec.Big5, func(x *U) interface{} { return x.Address }),
		txt("justify", 228, 39, codec.Big5, func(x *U) interface{} { return x.Justify }),
		num("over 18", 270, codec.Bool, func(x *U) interface{} { return x.Over18 }),
		num("pager ui", 271, codec.U8, func(x *U) interface{} { return uint64(x.PagerUIType) }),
		num("pager", 272, codec.U8, func(x *U) interface{} { return uint64(x.Pager) }),
		num("invisible", 273, codec.Bool, func(x *U) interface{} { return x.Invisible }),
		num("extra mailbox", 276, codec.U32, func(x *U) interface{} { return uint64(x.ExMailBox) }),
		txt("career", 284, 40, codec.Big5, func(x *U) interface{} { return x.Career }),
		num("role", 392, codec.U32, func(x *U) interface{} { return uint64(x.Role) }),
		num("last seen", 396, codec.Time, func(x *U) interface{} { return x.LastSeen }),
		num("time set angel", 400, codec.Time, func(x *U) interface{} { return x.TimeSetAngel }),
		num("time play angel", 404, codec.Time, func(x *U) interface{} { return x.TimePlayAngel }),
		num("last song", 408, codec.Time, func(x *U) interface{} { return x.LastSong }),
		num("login view", 412, codec.U32, func(x *U) interface{} { return uint64(x.LoginView) }),
		num("violations", 418, codec.U16, func(x *U) interface{} { return uint64(x.ViolateLaw) }),
		num("five win", 420, codec.U16, func(x *U) interface{} { return uint64(x.Five.Win) }),
		num("five lose", 422, codec.U16, func(x *U) interface{} { return uint64(x.Five.Lose) }),
		num("five tie", 424, codec.U16, func(x *U) interface{} { return uint64(x.Five.Tie) }),
		num("chess win", 426, codec.U16, func(x *U) interface{} { return uint64(x.ChineseChess.Win) }),
		num("chess lose", 428, codec.U16, func(x *U) interface{} { return uint64(x.ChineseChess.Lose) }),
		num("chess tie", 430, codec.U16, func(x *U) interface{} { return uint64(x.ChineseChess.Tie) }),
		num("conn6 win", 432, codec.U16, func(x *U) interface{} { return uint64(x.Conn6.Win) }),
		num("conn6 lose", 434, codec.U16, func(x *U) interface{} { return uint64(x.Conn6.Lose) }),
		num("conn6 tie", 436, codec.U16, func(x *U) interface{} { return uint64(x.Conn6.Tie) }),
		num("go win", 440, codec.U16, func(x *U) interface{} { return uint64(x.GoChess.Win) }),
		num("go lose", 442, codec.U16, func(x *U) interface{} { return uint64(x.GoChess.Lose) }),
		num("go tie", 444, codec.U16, func(x *U) interface{} { return uint64(x.GoChess.Tie) }),
		num("dark win", 446, codec.U16, func(x *U) interface{} { return uint64(x.DarkChess.Win) }),
		num("dark lose", 448, codec.U16, func(x *U) interface{} { return uint64(x.DarkChess.Lose) }),
		num("agreement", 450, codec.U8, func(x *U) interface{} { return uint64(x.UaVersion) }),
		num("signature", 451, codec.U8, func(x *U) interface{} { return uint64(x.Signature) }),
		num("bad posts", 453, codec.U8, func(x *U) interface{} { return uint64(x.BadPost) }),
		num("dark tie", 454, codec.U16, func(x *U) interface{} { return uint64(x.DarkChess.Tie) }),
		txt("angel", 456, 14, codec.ASCII, func(x *U) interface{} { return x.MyAngel }),
		num("elo", 470, codec.U16, func(x *U) interface{} { return uint64(x.ChessEloRating) }),
		num("with me", 472, codec.U32, func(x *U) interface{} { return uint64(x.WithMe) }),
		num("time remove bad post", 476, codec.Time, func(x *U) interface{} { return x.TimeRemoveBadPost }),
		num("time violate law", 480, codec.Time, func(x *U) interface{} { return x.TimeViolateLaw }),
	}}
	for i := range l.Fields {
		if l.Fields[i].Name == "justify" {
			l.Fields[i].EncLen = 38
		}
	}
	l.Decode = func(d []byte) (interface{}, error) { return pttbbs.UnmarshalUserec(d) }
	l.Encode = func(r interface{}) ([]byte, error) { return u(r).MarshalBinary() }
	return l
}

func edits(l *codec.Layout, all bool) []codec.Edit {
	var out []codec.Edit
	t := func(f string, set func(h *U, s string)) {
		out = append(out, l.TextEdits(f, pb.Big5, func(r interface{}, s string) { set(u(r), s) }, all)...)
	}
	n := func(f string, set func(h *U, v uint64)) {
		out = append(out, l.NumEdits(f, func(r interface{}, v uint64) { set(u(r), v) })...)
	}
	tm := func(f string, set func(h *U, v time.Time)) {
		out = append(out, l.TimeEdits(f, func(r interface{}, v time.Time) { set(u(r), v) })...)
	}
	boolean := func(f string, off int, set func(h *U, v bool)) {
		for _, v := range []bool{false, true} {
			v := v
			out = append(out, codec.Edit{Field: f, Name: fmt.Sprint(v), Do: func(r interface{}) { set(u(r), v) }, Ref: func(b []byte) {
				b[off] = 0
				if v {
					b[off] = 1
				}
			}})
		}
	}
	t("email", func(h *U, s string) { h.Email = s })
	t("address", func(h *U, s string) { h.Address = s })
	t("justify", func(h *U, s string) { h.Justify = s })
	t("career", func(h *U, s string) { h.Career = s })
	t("angel", func(h *U, s string) { h.MyAngel = s })
	n("version", func(h *U, v uint64) { h.Version = uint32(v) })
	n("level", func(h *U, v uint64) { h.UserLevel = uint32(v) })
	n("pager ui", func(h *U, v uint64) { h.PagerUIType = uint8(v) })
	n("pager", func(h *U, v uint64) { h.Pager = uint8(v) })
	n("extra mailbox", func(h *U, v uint64) { h.ExMailBox = uint32(v) })
	n("role", func(h *U, v uint64) { h.Role = uint32(v) })
	n("login view", func(h *U, v uint64) { h.LoginView = uint32(v) })
	n("violations", func(h *U, v uint64) { h.ViolateLaw = uint16(v) })
	n("five win", func(h *U, v uint64) { h.Five.Win = uint16(v) })
	n("five lose", func(h *U, v uint64) { h.Five.Lose = uint16(v) })
	n("five tie", func(h *U, v uint64) { h.Five.Tie = uint16(v) })
	n("chess win", func(h *U, v uint64) { h.ChineseChess.Win = uint16(v) })
	n("chess lose", func(h *U, v uint64) { h.ChineseChess.Lose = uint16(v) })
	n("chess tie", func(h *U, v uint64) { h.ChineseChess.Tie = uint16(v) })
	n("conn6 win", func(h *U, v uint64) { h.Conn6.Win = uint16(v) })
	n("conn6 lose", func(h *U, v uint64) { h.Conn6.Lose = uint16(v) })
	n("conn6 tie", func(h *U, v uint64) { h.Conn6.Tie = uint16(v) })
	n("go win", func(h *U, v uint64) { h.GoChess.Win = uint16(v) })
	n("go lose", func(h *U, v uint64) { h.GoChess.Lose = uint16(v) })
	n("go tie", func(h *U, v uint64) { h.GoChess.Tie = uint16(v) })
	n("dark win", func(h *U, v uint64) { h.DarkChess.Win = uint16(v) })
	n("dark lose", func(h *U, v uint64) { h.DarkChess.Lose = uint16(v) })
	n("dark tie", func(h *U, v uint64) { h.DarkChess.Tie = uint16(v) })
	n("agreement", func(h *U, v uint64) { h.UaVersion = uint8(v) })
	n("signature", func(h *U, v uint64) { h.Signature = uint8(v) })
	n("bad posts", func(h *U, v uint64) { h.BadPost = uint8(v) })
	n("elo", func(h *U, v uint64) { h.ChessEloRating = uint16(v) })
	n("with me", func(h *U, v uint64) { h.WithMe = uint32(v) })
	tm("last seen", func(h *U, v time.Time) { h.LastSeen = v })
	tm("time set angel", func(h *U, v time.Time) { h.TimeSetAngel = v })
	tm("time play angel", func(h *U, v time.Time) { h.TimePlayAngel = v })
	tm("last song", func(h *U, v time.Time) { h.LastSong = v })
	tm("time remove bad post", func(h *U, v time.Time) { h.TimeRemoveBadPost = v })
	tm("time violate law", func(h *U, v time.Time) { h.TimeViolateLaw = v })
	boolean("over 18", 270, func(h *U, v bool) { h.Over18 = v })
	boolean("invisible", 273, func(h *U, v bool) { h.Invisible = v })
	return out
}

func body(r *kit.Run) {
	l := layout()
	bases := map[string][]byte{"zeros": l.Blank(), "pattern": l.Pattern(0), "chinese": l.Chinese(1), "ones": bytes.Repeat([]byte{0xff}, 512)}
	order := []string{"zeros", "pattern", "chinese", "ones"}
	r.Section("every value of every byte")
	l.Bytes(r, bases, order, codec.All())
	for _, n := range order {
		r.Section("all pairs of fields at extreme values")
		if n != "ones" || r.Thorough {
			l.Pairs(r, n, bases[n])
		}
		r.Section("all bit pairs")
		l.Words(r, n, bases[n])
		r.Section("all text lengths")
		l.TextLengths(r, n, bases[n])
	}
	r.Section("all Big5 characters")
	l.Characters(r, "pattern", bases["pattern"])
	r.Section("edits and pairs of edits")
	for _, n := range kit.Pick(r, order[1:3], order[:3]) {
		l.Edits(r, n, bases[n], edits(l, true), edits(l, false))
	}
	r.Section("a new record, whose times are not set")
	for _, e := range edits(l, false) {
		e := e
		r.Check(fmt.Sprintf("new record: %s, %s", e.Field, e.Name), func() error { return l.CheckEdits(&U{}, l.Blank(), e) })
	}
	if r.Thorough {
		r.Section("all values of all pairs of neighbouring bytes")
		for off := 0; off < 511; off++ {
			off := off
			for _, n := range []string{"zeros", "pattern"} {
				n := n
				r.Check(fmt.Sprintf("%s bytes %d %d", n, off, off+1), func() error {
					d := append([]byte{}, bases[n]...)
					for x := 0; x < 65536; x++ {
						d[off], d[off+1] = byte(x), byte(x>>8)
						if err := l.Check(d); err != nil {
							return fmt.Errorf("%x: %v", x, err)
						}
					}
					r.Eval(65535)
					return nil
				})
			}
		}
	}

	// password files
	record := func(i int) []byte {
		if i%7 == 3 {
			return l.Blank() // the slot of a deleted user
		}
		d := l.Chinese(i)
		copy(d[4:17], make([]byte, 13))
		copy(d[4:17], fmt.Sprintf("user%d", i))
		return d
	}
	max := kit.Pick(r, 300, 1500)
	var all []byte
	check := func(n, tail int) error {
		for i := len(all) / 512; i <= n; i++ {
			all = append(all, record(i)...)
		}
		home := r.Dir("home")
		db, c, err := pb.Open(home)
		if err != nil {
			return err
		}
		p, err := c.GetUserRecordsPath()
		if err != nil {
			return err
		}
		if err := os.WriteFile(p, all[:n*512+tail], 0600); err != nil {
			return err
		}
		before := pb.Tree(home)
		got, err := db.ReadUserRecords()
		if err != nil {
			return err
		}
		if len(got) != n {
			return fmt.Errorf("%d users are listed, want %d", len(got), n)
		}
		for i, g := range got {
			if err := l.CheckDecoded(g.(bbs.UserRecord), all[i*512:i*512+512]); err != nil {
				return fmt.Errorf("user %d: %v", i, err)
			}
		}
		return pb.TreeDiff(before, pb.Tree(home))
	}
	r.Section("password files of every length")
	for n := 0; n <= max; n++ {
		n := n
		r.Check(fmt.Sprintf("%d slots", n), func() error { return check(n, 0) })
	}
	for _, n := range []int{1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537} {
		n := n
		r.Check(fmt.Sprintf("%d slots", n), func() error { return check(n, 0) })
	}
	r.Section("every sequence of odd slots")
	noID := record(1)
	copy(noID[4:17], make([]byte, 13))
	onlyID := l.Blank()
	copy(onlyID[4:], "only")
	onlyVersion := l.Blank()
	copy(onlyVersion, record(1)[:4])
	list := func(file []byte) ([]interface{}, error) {
		home := r.Dir("seq")
		db, c, err := pb.Open(home)
		if err != nil {
			return nil, err
		}
		p, err := c.GetUserRecordsPath()
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(p, file, 0600); err != nil {
			return nil, err
		}
		got, err := db.ReadUserRecords()
		var out []interface{}
		for _, g := range got {
			out = append(out, g.(bbs.UserRecord))
		}
		return out, err
	}
	l.Sequences(r, [][]byte{l.Blank(), record(1), record(2), bases["ones"], noID, onlyID, onlyVersion}, kit.Pick(r, 4, 5), list)
	r.Section("every combination of special field values")
	l.Products(r, l.Blank(), []codec.Special{
		{Field: "user id", Text: []string{"", "guest", "SYSOP", "userA", "-", "new", "[deleted]", "system", "u"}},
		{Field: "password", Text: []string{"", "*", "x", "fOfgxMZnrEkyo"}},
		{Field: "level", Nums: []uint64{0, 1, 7, 31, 0x400, 0x1000, 1 << 28, 1 << 31, 1<<32 - 1}},
		{Field: "flags", Nums: []uint64{0, 1, 1 << 31, 1<<32 - 1}},
		{Field: "version", Nums: []uint64{0, 4194, 1<<32 - 1}},
		{Field: "login days", Nums: []uint64{0, 1, 1<<32 - 1}},
		{Field: "posts", Nums: []uint64{0, 1<<32 - 1}},
		{Field: "last login", Nums: []uint64{0, 1600000000, 1<<32 - 1}},
		{Field: "over 18", Nums: []uint64{0, 1}},
		{Field: "email", Text: []string{"", "x", "bbs@example.org"}},
		{Field: "money", Nums: []uint64{0, 1<<32 - 1}},
		{Field: "nickname", Text: []string{"", "nick"}},
	}, list)
	r.Section("an incomplete slot at the end")
	for _, n := range []int{0, 1, 8} {
		for t := 1; t < 512; t++ {
			n, t := n, t
			r.Check(fmt.Sprintf("%d slots and %d bytes", n, t), func() error { return check(n, t) })
		}
	}
	r.Check("no password file", func() error {
		db, _, err := pb.Open(r.Dir("home"))
		if err != nil {
			return err
		}
		if got, err := db.ReadUserRecords(); err == nil {
			return fmt.Errorf("no error, %d users", len(got))
		}
		return nil
	})
}
