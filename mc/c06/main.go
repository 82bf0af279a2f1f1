// C06: online user records are decoded and encoded per their C layout.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/codec"
	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	kit.Main(kit.Config{
		ID: "C06", Level: kit.Exploration,
		Rule: "values (quick: 16, thorough: 256) of all 3484 byte positions of the base records, all pairs of scalar fields at extreme values, all bit pairs, all text lengths, all edits and pairs of edits, files of every listed length; distinct by record bytes or case key",
		Assumptions: []string{"reference: userinfo_t of pttbbs pttstruct.h with 100 byte msgque_t, little endian", "fields without accessor (uid, pid, user id, nickname, host, address, board cache id, water ball time) are compared after encoding",
			"text which is not valid Big5 is only required to leave the other fields alone"},
		Body: body,
	})
}

type I = pttbbs.UserInfoCache

func u(r interface{}) *I { return r.(*I) }

func layout() *codec.Layout {
	num := func(name string, off int, k codec.Kind, get func(*I) interface{}) codec.Field {
		f := codec.Field{Name: name, Off: off, Kind: k}
		if get != nil {
			f.Get = func(r interface{}) interface{} { return get(u(r)) }
		}
		return f
	}
	txt := func(name string, off, n int, k codec.Kind, get func(*I) interface{}) codec.Field {
		f := num(name, off, k, get)
		f.Len = n
		return f
	}
	l := &codec.Layout{Size: 3484, Fields: []codec.Field{
		num("uid", 0, codec.I32, nil),
		num("pid", 4, codec.I32, nil),
		num("socket address", 8, codec.I32, func(x *I) interface{} { return int64(x.SockAddr) }),
		num("level", 12, codec.U32, func(x *I) interface{} { return uint64(x.UserLevel) }),
		txt("user id", 16, 13, codec.ASCII, nil),
		txt("nickname", 29, 24, codec.Big5, nil),
		txt("from", 53, 27, codec.ASCII, nil),
		num("from ip", 80, codec.U32, nil),
		num("dark win", 84, codec.U16, func(x *I) interface{} { return uint64(x.DarkChess.Win) }),
		num("dark lose", 86, codec.U16, func(x *I) interface{} { return uint64(x.DarkChess.Lose) }),
		num("angel pause", 89, codec.U8, func(x *I) interface{} { return uint64(x.AngelPause) }),
		num("dark tie", 90, codec.U16, func(x *I) interface{} { return uint64(x.DarkChess.Tie) }),
		num("friend total", 92, codec.I32, func(x *I) interface{} { return int64(x.FriendTotal) }),
		num("friends", 96, codec.I16, func(x *I) interface{} { return int64(x.NumFriends) }),
		num("message count", 2288, codec.U8, func(x *I) interface{} { return uint64(x.MsgCount) }),
		num("birthday", 3392, codec.Bool, func(x *I) interface{} { return x.Birth }),
		num("active", 3393, codec.Bool, func(x *I) interface{} { return x.Active }),
		num("invisible", 3394, codec.Bool, func(x *I) interface{} { return x.Invisible }),
		num("mode", 3395, codec.U8, func(x *I) interface{} { return uint64(x.Mode) }),
		num("pager", 3396, codec.Bool, func(x *I) interface{} { return x.Pager }),
		num("conn6 win", 3398, codec.U16, func(x *I) interface{} { return uint64(x.Conn6.Win) }),
		num("last act", 3400, codec.Time, func(x *I) interface{} { return x.LastAct }),
		num("alerts", 3404, codec.U8, func(x *I) interface{} { return uint64(x.Alerts) }),
		num("conn6 lose", 3406, codec.U16, func(x *I) interface{} { return uint64(x.Conn6.Lose) }),
		num("signature", 3409, codec.U8, func(x *I) interface{} { return uint64(x.Signature) }),
		num("conn6 tie", 3410, codec.U16, func(x *I) interface{} { return uint64(x.Conn6.Tie) }),
		num("dest uid", 3412, codec.I32, func(x *I) interface{} { return int64(x.DestUID) }),
		num("dest uip", 3416, codec.I32, func(x *I) interface{} { return int64(x.DestUIP) }),
		num("socket active", 3420, codec.U8, func(x *I) interface{} { return uint64(x.SockActive) }),
		num("in chat", 3421, codec.U8, func(x *I) interface{} { return uint64(x.InChat) }),
		txt("chat id", 3422, 11, codec.ASCII, func(x *I) interface{} { return x.ChatID }),
		num("lock mode", 3433, codec.U8, func(x *I) interface{} { return uint64(x.LockMode) }),
		num("turn", 3434, codec.Bool, func(x *I) interface{} { return x.Turn }),
		txt("mate id", 3435, 13, codec.Big5, func(x *I) interface{} { return x.MateID }),
		num("color", 3448, codec.U8, func(x *I) interface{} { return uint64(x.Color) }),
		num("five win", 3450, codec.U16, func(x *I) interface{} { return uint64(x.Five.Win) }),
		num("five lose", 3452, codec.U16, func(x *I) interface{} { return uint64(x.Five.Lose) }),
		num("five tie", 3454, codec.U16, func(x *I) interface{} { return uint64(x.Five.Tie) }),
		num("chess win", 3456, codec.U16, func(x *I) interface{} { return uint64(x.ChineseChess.Win) }),
		num("chess lose", 3458, codec.U16, func(x *I) interface{} { return uint64(x.ChineseChess.Lose) }),
		num("chess tie", 3460, codec.U16, func(x *I) interface{} { return uint64(x.ChineseChess.Tie) }),
		num("elo", 3462, codec.U16, func(x *I) interface{} { return uint64(x.ChessEloRating) }),
		num("go win", 3464, codec.U16, func(x *I) interface{} { return uint64(x.GoChess.Win) }),
		num("go lose", 3466, codec.U16, func(x *I) interface{} { return uint64(x.GoChess.Lose) }),
		num("go tie", 3468, codec.U16, func(x *I) interface{} { return uint64(x.GoChess.Tie) }),
		num("with me", 3472, codec.U32, func(x *I) interface{} { return uint64(x.WithMe) }),
		num("board cache id", 3476, codec.U32, nil),
		num("water ball time", 3480, codec.Time, nil),
	}}
	arr := func(name string, off, count int, k codec.Kind, get func(x *I, i int) interface{}) {
		for i := 0; i < count; i++ {
			i := i
			l.Fields = append(l.Fields, num(fmt.Sprintf("%s %d", name, i), off+4*i, k, func(x *I) interface{} { return get(x, i) }))
		}
	}
	arr("my friend", 100, 256, codec.I32, func(x *I, i int) interface{} { return int64(x.MyFriend[i]) })
	arr("friend online", 1128, 256, codec.U32, func(x *I, i int) interface{} { return uint64(x.FriendOnline[i]) })
	arr("reject", 2156, 32, codec.I32, func(x *I, i int) interface{} { return int64(x.Reject[i]) })
	for i := 0; i < 10; i++ {
		i := i
		l.Fields = append(l.Fields, txt(fmt.Sprintf("message %d", i), 2292+100*i, 100, codec.Blob, func(x *I) interface{} { return []byte(x.Msgs[i]) }))
	}
	l.Decode = func(d []byte) (interface{}, error) { return pttbbs.UnmarshalUserInfo(d), nil }
	l.Encode = func(r interface{}) ([]byte, error) { return u(r).MarshalBinary(), nil }
	return l
}

func edits(l *codec.Layout, all bool) []codec.Edit {
	var out []codec.Edit
	t := func(f string, set func(h *I, s string)) {
		out = append(out, l.TextEdits(f, pb.Big5, func(r interface{}, s string) { set(u(r), s) }, all)...)
	}
	n := func(f string, set func(h *I, v uint64)) {
		out = append(out, l.NumEdits(f, func(r interface{}, v uint64) { set(u(r), v) })...)
	}
	boolean := func(f string, off int, set func(h *I, v bool)) {
		for _, v := range []bool{false, true} {
			v := v
			out = append(out, codec.Edit{Field: f, Name: fmt.Sprint(v), Do: func(r interface{}) { set(u(r), v) }, Ref: func(b []byte) {
				b[off] = 0
				if v {
					b[off] = 1
				}
			}})
		}
	}
	t("chat id", func(h *I, s string) { h.ChatID = s })
	t("mate id", func(h *I, s string) { h.MateID = s })
	n("socket address", func(h *I, v uint64) { h.SockAddr = int32(v) })
	n("level", func(h *I, v uint64) { h.UserLevel = uint32(v) })
	n("angel pause", func(h *I, v uint64) { h.AngelPause = uint8(v) })
	n("friend total", func(h *I, v uint64) { h.FriendTotal = int32(v) })
	n("friends", func(h *I, v uint64) { h.NumFriends = int16(v) })
	n("message count", func(h *I, v uint64) { h.MsgCount = uint8(v) })
	n("mode", func(h *I, v uint64) { h.Mode = uint8(v) })
	n("alerts", func(h *I, v uint64) { h.Alerts = uint8(v) })
	n("signature", func(h *I, v uint64) { h.Signature = uint8(v) })
	n("dest uid", func(h *I, v uint64) { h.DestUID = int32(v) })
	n("dest uip", func(h *I, v uint64) { h.DestUIP = int32(v) })
	n("socket active", func(h *I, v uint64) { h.SockActive = uint8(v) })
	n("in chat", func(h *I, v uint64) { h.InChat = uint8(v) })
	n("lock mode", func(h *I, v uint64) { h.LockMode = uint8(v) })
	n("color", func(h *I, v uint64) { h.Color = uint8(v) })
	n("elo", func(h *I, v uint64) { h.ChessEloRating = uint16(v) })
	n("with me", func(h *I, v uint64) { h.WithMe = uint32(v) })
	n("my friend 0", func(h *I, v uint64) { h.MyFriend[0] = int32(v) })
	n("my friend 255", func(h *I, v uint64) { h.MyFriend[255] = int32(v) })
	n("friend online 0", func(h *I, v uint64) { h.FriendOnline[0] = uint32(v) })
	n("friend online 255", func(h *I, v uint64) { h.FriendOnline[255] = uint32(v) })
	n("reject 0", func(h *I, v uint64) { h.Reject[0] = int32(v) })
	n("reject 31", func(h *I, v uint64) { h.Reject[31] = int32(v) })
	n("five win", func(h *I, v uint64) { h.Five.Win = uint16(v) })
	n("five lose", func(h *I, v uint64) { h.Five.Lose = uint16(v) })
	n("five tie", func(h *I, v uint64) { h.Five.Tie = uint16(v) })
	n("chess win", func(h *I, v uint64) { h.ChineseChess.Win = uint16(v) })
	n("chess lose", func(h *I, v uint64) { h.ChineseChess.Lose = uint16(v) })
	n("chess tie", func(h *I, v uint64) { h.ChineseChess.Tie = uint16(v) })
	n("go win", func(h *I, v uint64) { h.GoChess.Win = uint16(v) })
	n("go lose", func(h *I, v uint64) { h.GoChess.Lose = uint16(v) })
	n("go tie", func(h *I, v uint64) { h.GoChess.Tie = uint16(v) })
	n("conn6 win", func(h *I, v uint64) { h.Conn6.Win = uint16(v) })
	n("conn6 lose", func(h *I, v uint64) { h.Conn6.Lose = uint16(v) })
	n("conn6 tie", func(h *I, v uint64) { h.Conn6.Tie = uint16(v) })
	n("dark win", func(h *I, v uint64) { h.DarkChess.Win = uint16(v) })
	n("dark lose", func(h *I, v uint64) { h.DarkChess.Lose = uint16(v) })
	n("dark tie", func(h *I, v uint64) { h.DarkChess.Tie = uint16(v) })
	boolean("birthday", 3392, func(h *I, v bool) { h.Birth = v })
	boolean("active", 3393, func(h *I, v bool) { h.Active = v })
	boolean("invisible", 3394, func(h *I, v bool) { h.Invisible = v })
	boolean("pager", 3396, func(h *I, v bool) { h.Pager = v })
	boolean("turn", 3434, func(h *I, v bool) { h.Turn = v })
	out = append(out, l.TimeEdits("last act", func(r interface{}, v time.Time) { u(r).LastAct = v })...)
	for i := 0; i < 10; i++ {
		for _, n := range []int{0, 1, 99, 100, 101, 3000} {
			i, n := i, n
			if !all && i > 0 && i < 9 {
				continue
			}
			out = append(out, codec.Edit{Field: fmt.Sprintf("message %d", i), Name: fmt.Sprintf("%d bytes", n), Spill: n > 100,
				Do: func(r interface{}) {
					m := make(pttbbs.MessageQueueCache, 100)
					if n > 100 {
						m = make(pttbbs.MessageQueueCache, n)
					}
					copy(m, bytes.Repeat([]byte{'#'}, n))
					u(r).Msgs[i] = m
				},
				Ref: func(b []byte) {
					p := b[2292+100*i : 2392+100*i]
					copy(p, make([]byte, 100))
					copy(p, bytes.Repeat([]byte{'#'}, n))
				}})
		}
	}
	return out
}

func body(r *kit.Run) {
	l := layout()
	bases := map[string][]byte{"zeros": l.Blank(), "pattern": l.Pattern(0), "chinese": l.Chinese(1), "ones": bytes.Repeat([]byte{0xff}, 3484)}
	// every 4 byte field of the arrays has a different value
	distinct := l.Pattern(5)
	for o := 100; o < 2288; o += 4 {
		binary.LittleEndian.PutUint32(distinct[o:], uint32(o)*2654435761)
	}
	bases["distinct"] = distinct
	order := []string{"zeros", "pattern", "chinese", "ones", "distinct"}
	values := codec.All()
	if !r.Thorough {
		values = []int{0, 1, 2, 3, 9, 0x20, 0x41, 0x7a, 0x7f, 0x80, 0x81, 0xa4, 0xc0, 0xf0, 0xfe, 0xff}
	}
	r.Section("values of every byte")
	l.Bytes(r, bases, order, values)
	scalar := &codec.Layout{Size: l.Size, Decode: l.Decode, Encode: l.Encode}
	for _, f := range l.Fields {
		if len(scalar.Fields) < 50 || r.Thorough && (f.Off%61 == 0 || f.Off%53 == 0) || f.Name == "my friend 0" || f.Name == "my friend 255" ||
			f.Name == "friend online 0" || f.Name == "friend online 255" || f.Name == "reject 0" || f.Name == "reject 31" || f.Name == "message 0" || f.Name == "message 9" {
			scalar.Fields = append(scalar.Fields, f)
		}
	}
	r.Section("all values of all bytes of scalar fields")
	for _, f := range scalar.Fields {
		for o := f.Off; o < f.Off+f.Size(); o++ {
			f, o := f, o
			r.Check(fmt.Sprintf("%s, byte %d", f.Name, o), func() error {
				b := append([]byte{}, distinct...)
				for v := 0; v < 256; v++ {
					b[o] = byte(v)
					if err := l.Check(b); err != nil {
						return fmt.Errorf("%#x: %v", v, err)
					}
				}
				r.Eval(255)
				return nil
			})
		}
	}
	r.Section("all pairs of scalar fields at extreme values")
	// pairs are compared on all fields
	full := l.Fields
	scalar.Decode = l.Decode
	for _, n := range kit.Pick(r, []string{"distinct"}, order) {
		base := bases[n]
		for i := range scalar.Fields {
			for j := i + 1; j < len(scalar.Fields); j++ {
				p := &codec.Layout{Size: l.Size, Decode: l.Decode, Encode: l.Encode, Fields: []codec.Field{scalar.Fields[i], scalar.Fields[j]}}
				_ = full
				p.Pairs(r, n, base)
			}
		}
	}
	r.Section("all bit pairs")
	scalar.Words(r, "distinct", distinct)
	r.Section("all text lengths")
	for _, n := range []string{"zeros", "distinct"} {
		l.TextLengths(r, n, bases[n])
	}
	r.Section("all Big5 characters")
	scalar.Characters(r, "distinct", distinct)
	r.Section("edits and pairs of edits")
	l.Edits(r, "distinct", distinct, edits(l, true), nil)
	scalar.Edits(r, "distinct, scalar fields", distinct, nil, edits(scalar, false))
	r.Section("a new record, whose time is not set")
	for _, e := range edits(scalar, false) {
		e := e
		r.Check(fmt.Sprintf("new record: %s, %s", e.Field, e.Name), func() error {
			x := &I{}
			out, err := l.Encode(x)
			if err != nil {
				return err
			}
			if err := l.CheckEncoded(out, l.Blank()); err != nil {
				return err
			}
			b := l.Blank()
			e.Do(x)
			e.Ref(b)
			if out, err = l.Encode(x); err != nil {
				return err
			}
			if e.Spill {
				return l.CheckEncoded(out, b, e.Field)
			}
			return l.CheckEncoded(out, b)
		})
	}

	r.Section("files of every length")
	record := func(i int) []byte {
		d := append([]byte{}, distinct...)
		binary.LittleEndian.PutUint32(d[12:], uint32(i)*2654435761)
		binary.LittleEndian.PutUint32(d[3472:], uint32(i))
		copy(d[2292:], fmt.Sprintf("message %d", i))
		return d
	}
	max := kit.Pick(r, 70, 600)
	var all []byte
	for i := 0; i <= max; i++ {
		all = append(all, record(i)...)
	}
	check := func(n, tail int) error {
		dir := r.Dir("d")
		p := filepath.Join(dir, "uinfo")
		if err := os.WriteFile(p, all[:n*3484+tail], 0644); err != nil {
			return err
		}
		before := pb.Tree(dir)
		got, err := pttbbs.OpenUserInfoCache(p)
		if err != nil {
			return err
		}
		if len(got) != n {
			return fmt.Errorf("%d records are listed, want %d", len(got), n)
		}
		for i, g := range got {
			if err := l.CheckDecoded(g, all[i*3484:i*3484+3484]); err != nil {
				return fmt.Errorf("record %d: %v", i, err)
			}
			out, err := l.Encode(g)
			if err != nil {
				return err
			}
			if err := l.CheckEncoded(out, all[i*3484:i*3484+3484]); err != nil {
				return fmt.Errorf("record %d: %v", i, err)
			}
		}
		return pb.TreeDiff(before, pb.Tree(dir))
	}
	for n := 0; n <= max; n++ {
		n := n
		r.Check(fmt.Sprintf("%d records", n), func() error { return check(n, 0) })
	}
	r.Section("every sequence of odd records")
	noID := record(1)
	copy(noID[4:17], make([]byte, 13))
	onlyPid := l.Blank()
	onlyPid[0] = 7
	list := func(file []byte) ([]interface{}, error) {
		p := filepath.Join(r.Dir("seq"), "uinfo")
		if err := os.WriteFile(p, file, 0644); err != nil {
			return nil, err
		}
		got, err := pttbbs.OpenUserInfoCache(p)
		var out []interface{}
		for _, g := range got {
			out = append(out, g)
		}
		return out, err
	}
	l.Sequences(r, [][]byte{l.Blank(), record(1), record(2), bytes.Repeat([]byte{0xff}, 3484), noID, onlyPid}, kit.Pick(r, 4, 5), list)
	r.Section("every combination of special field values")
	l.Products(r, l.Blank(), []codec.Special{
		{Field: "user id", Text: []string{"", "guest", "userA", "-"}},
		{Field: "pid", Nums: []uint64{0, 1, 1<<32 - 1}},
		{Field: "uid", Nums: []uint64{0, 1, 1<<32 - 1}},
		{Field: "active", Nums: []uint64{0, 1}},
		{Field: "invisible", Nums: []uint64{0, 1}},
		{Field: "mode", Nums: []uint64{0, 1, 255}},
		{Field: "pager", Nums: []uint64{0, 1}},
		{Field: "friends", Nums: []uint64{0, 256, 1<<16 - 1}},
		{Field: "message count", Nums: []uint64{0, 10, 255}},
		{Field: "last act", Nums: []uint64{0, 1600000000}},
	}, list)
	r.Section("an incomplete record at the end")
	for _, n := range []int{0, 1, 2} {
		for t := 1; t < 3484; t += kit.Pick(r, 13, 1) {
			n, t := n, t
			r.Check(fmt.Sprintf("%d records and %d bytes", n, t), func() error { return check(n, t) })
		}
	}
}
