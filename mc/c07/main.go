// C07: favorites keep order, nesting and ids; damaged files are errors.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/codec"
	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	kit.Main(kit.Config{
		ID: "C07", Level: kit.Exploration,
		Rule:        "every tree of boards, lines and folders up to the listed size; every truncation and every value of every byte of small trees, compared with a reference parser; extreme counts, nesting depths, titles, ids and board lists; distinct by file bytes or case key",
		Assumptions: []string{"reference: fav.h of pttbbs, little endian, as in the package comment", "bytes after the tree, and items whose types do not match the counts of their folder, may be accepted or reported", "text which is not valid Big5 is only required to leave the rest alone"},
		Body:        body,
	})
}

// A node is one item of the reference.
type node struct {
	kind, attr, id    byte
	bid, visit, battr uint32
	title             []byte
	kids              []*node
}

const (
	board  = 1
	folder = 2
	line   = 3
)

func encode(version uint16, items []*node) []byte {
	b := make([]byte, 2)
	binary.LittleEndian.PutUint16(b, version)
	return encodeFolder(b, items)
}

func encodeFolder(b []byte, items []*node) []byte {
	var n [4]int
	for _, i := range items {
		n[i.kind]++
	}
	b = append(b, byte(n[board]), byte(n[board]>>8), byte(n[line]), byte(n[folder]))
	for _, i := range items {
		b = append(b, i.kind, i.attr)
		switch i.kind {
		case board:
			var x [12]byte
			binary.LittleEndian.PutUint32(x[0:], i.bid)
			binary.LittleEndian.PutUint32(x[4:], i.visit)
			binary.LittleEndian.PutUint32(x[8:], i.battr)
			b = append(b, x[:]...)
		case line:
			b = append(b, i.id)
		case folder:
			var x [50]byte
			x[0] = i.id
			copy(x[1:], i.title)
			b = append(b, x[:]...)
		}
	}
	for _, i := range items {
		if i.kind == folder {
			b = encodeFolder(b, i.kids)
		}
	}
	return b
}

var errBad = errors.New("malformed")

// decode is the reference parser. exact is false when the file has bytes after the tree or
// counts which do not match the items.
func decode(b []byte) (items []*node, exact bool, err error) {
	if len(b) < 2 {
		return nil, false, errBad
	}
	exact = true
	items, rest, err := decodeFolder(b[2:], &exact)
	if len(rest) > 0 {
		exact = false
	}
	return items, exact, err
}

func decodeFolder(b []byte, exact *bool) ([]*node, []byte, error) {
	if len(b) < 4 {
		return nil, nil, errBad
	}
	nb, nl, nf := int(b[0])|int(b[1])<<8, int(b[2]), int(b[3])
	b = b[4:]
	var items []*node
	var n [4]int
	for i := 0; i < nb+nl+nf; i++ {
		if len(b) < 2 {
			return nil, nil, errBad
		}
		it := &node{kind: b[0], attr: b[1]}
		b = b[2:]
		size := map[byte]int{board: 12, line: 1, folder: 50}[it.kind]
		if size == 0 || len(b) < size {
			return nil, nil, errBad
		}
		n[it.kind]++
		switch it.kind {
		case board:
			it.bid, it.visit, it.battr = binary.LittleEndian.Uint32(b), binary.LittleEndian.Uint32(b[4:]), binary.LittleEndian.Uint32(b[8:])
		case line:
			it.id = byte(n[line])
		case folder:
			it.id = byte(n[folder])
			it.title = b[1:50]
			if z := bytes.IndexByte(it.title, 0); z >= 0 {
				it.title = it.title[:z]
			}
		}
		items = append(items, it)
		b = b[size:]
	}
	if n[board] != nb || n[line] != nl || n[folder] != nf {
		*exact = false
	}
	for _, it := range items {
		if it.kind == folder {
			var err error
			if it.kids, b, err = decodeFolder(b, exact); err != nil {
				return nil, nil, err
			}
		}
	}
	return items, b, nil
}

// same compares the tree of the package with the reference.
func same(got []*pttbbs.FavItem, want []*node, where string) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s has %d items, want %d", where, len(got), len(want))
	}
	for i, w := range want {
		g := got[i]
		at := fmt.Sprintf("%s/%d", where, i)
		if byte(g.FavType) != w.kind {
			return fmt.Errorf("%s is of type %d, want %d", at, g.FavType, w.kind)
		}
		if g.FavAttr != w.attr {
			return fmt.Errorf("%s has attributes %x, want %x", at, g.FavAttr, w.attr)
		}
		switch w.kind {
		case board:
			x := g.GetBoard()
			if x == nil || x.BoardID != w.bid || !x.LastVisit.Equal(time.Unix(int64(w.visit), 0)) || x.Attr != w.battr {
				return fmt.Errorf("%s is the board %+v, want %+v", at, x, *w)
			}
			if g.Type() != bbs.FavoriteTypeBoard || g.Records() != nil && len(g.Records()) > 0 {
				return fmt.Errorf("%s is not reported as a board", at)
			}
		case line:
			x := g.GetLine()
			if x == nil || x.LineID != w.id {
				return fmt.Errorf("%s is the line %+v, want id %d", at, x, w.id)
			}
			if g.Type() != bbs.FavoriteTypeLine || g.BoardID() != "" || len(g.Records()) > 0 {
				return fmt.Errorf("%s is not reported as a line", at)
			}
		case folder:
			x := g.GetFolder()
			if x == nil || x.FolderID != w.id {
				return fmt.Errorf("%s is the folder %+v, want id %d", at, x, w.id)
			}
			if s, ok, _ := codec.Text(w.title); ok && (x.Title != s || g.Title() != s) {
				return fmt.Errorf("%s has the title %q, want %q", at, x.Title, s)
			}
			if g.Type() != bbs.FavoriteTypeFolder || g.BoardID() != "" {
				return fmt.Errorf("%s is not reported as a folder", at)
			}
			if x.ThisFolder == nil {
				return fmt.Errorf("%s has no folder", at)
			}
			if err := same(x.ThisFolder.FavItems, w.kids, at); err != nil {
				return err
			}
		}
	}
	return nil
}

// listed compares what the API lists with the reference.
func listed(got []bbs.FavoriteRecord, want []*node, boards []string, where string) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s lists %d items, want %d", where, len(got), len(want))
	}
	for i, w := range want {
		g := got[i]
		at := fmt.Sprintf("%s/%d", where, i)
		types := map[byte]bbs.FavoriteType{board: bbs.FavoriteTypeBoard, folder: bbs.FavoriteTypeFolder, line: bbs.FavoriteTypeLine}
		if g.Type() != types[w.kind] {
			return fmt.Errorf("%s is listed with type %d, want %d", at, g.Type(), types[w.kind])
		}
		id := ""
		if w.kind == board && w.bid >= 1 && uint64(w.bid) <= uint64(len(boards)) {
			id = boards[w.bid-1]
		}
		if g.BoardID() != id {
			return fmt.Errorf("%s (board %d of %d) has board id %q, want %q", at, w.bid, len(boards), g.BoardID(), id)
		}
		if w.kind == folder {
			if s, ok, _ := codec.Text(w.title); ok && g.Title() != s {
				return fmt.Errorf("%s has the title %q, want %q", at, g.Title(), s)
			}
			if err := listed(g.Records(), w.kids, boards, at); err != nil {
				return err
			}
		} else if len(g.Records()) > 0 {
			return fmt.Errorf("%s has records", at)
		}
	}
	return nil
}

// check decodes b with the package and the reference and encodes the result.
func check(b []byte) error {
	in := append([]byte{}, b...)
	want, exact, err := decode(b)
	got, gerr := pttbbs.UnmarshalFavFile(in)
	if !bytes.Equal(in, b) {
		return fmt.Errorf("decoding changed the input")
	}
	if err != nil {
		if gerr == nil {
			return fmt.Errorf("no error for a damaged file of %d bytes: % x", len(b), head(b))
		}
		return nil
	}
	if gerr != nil {
		if exact {
			return fmt.Errorf("%v for a valid file: % x", gerr, head(b))
		}
		return nil
	}
	if got == nil || got.Folder == nil {
		return fmt.Errorf("no tree and no error")
	}
	if got.Version != binary.LittleEndian.Uint16(b) {
		return fmt.Errorf("version is %x", got.Version)
	}
	if err := same(got.Folder.FavItems, want, ""); err != nil {
		return fmt.Errorf("%v: % x", err, head(b))
	}
	if !exact || !textOK(want) {
		return nil
	}
	// the ids of the reference are renumbered, so are those of the encoded file
	renumbered := encode(binary.LittleEndian.Uint16(b), want)
	out, err := got.MarshalBinary()
	if err != nil {
		return fmt.Errorf("encode: %v", err)
	}
	if d := pb.Diff(out, renumbered); d != "" {
		return fmt.Errorf("encoding does not reproduce the file: %s: % x", d, head(b))
	}
	return nil
}

func textOK(items []*node) bool {
	for _, i := range items {
		if i.kind == folder {
			if _, _, rt := codec.Text(i.title); !rt || !textOK(i.kids) {
				return false
			}
		}
	}
	return true
}

func head(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

// forests calls f with the shape of every tree of n items: b and l are leaves, ( ) folders.
func forests(n int, prefix string, open int, f func(string)) {
	if n == 0 {
		s := prefix
		for i := 0; i < open; i++ {
			s += ")"
		}
		f(s)
		return
	}
	// close any number of open folders, then one more item
	p := prefix
	for c := open; c >= 0; c-- {
		for _, k := range []string{"b", "l"} {
			forests(n-1, p+k, c, f)
		}
		forests(n-1, p+"(", c+1, f)
		p += ")"
	}
}

// build makes the tree of a shape; all values differ and depend on seed.
func build(shape string, seed int) []*node {
	pos, n := 0, seed
	var parse func() []*node
	parse = func() []*node {
		out := []*node{}
		var ids [4]byte
		for pos < len(shape) {
			c := shape[pos]
			pos++
			if c == ')' {
				return out
			}
			n++
			it := &node{attr: byte(n*37 + 1)}
			switch c {
			case 'b':
				it.kind = board
				it.bid, it.visit, it.battr = uint32(n%9), uint32(n)*0x01020304+5, uint32(n)*0x0f0e0d01+0x80000001
			case 'l':
				it.kind = line
			case '(':
				it.kind = folder
				it.title = pb.Big5(fmt.Sprintf("新的目錄%d", n))
			}
			ids[it.kind]++
			it.id = ids[it.kind]
			if c == '(' {
				it.kids = parse()
			}
			out = append(out, it)
		}
		return out
	}
	return parse()
}

// home makes a home with n boards (number blank has a blank slot) and returns their ids.
func home(dir string, n, blank int) (string, []string, error) {
	var all []byte
	var ids []string
	for i := 1; i <= n; i++ {
		b := pb.BoardBytes(i)
		id := fmt.Sprintf("Board%d", i)
		if i == blank {
			b, id = make([]byte, 256), ""
		}
		all, ids = append(all, b...), append(ids, id)
	}
	if err := os.MkdirAll(filepath.Join(dir, "home/u/user1"), 0755); err != nil {
		return "", nil, err
	}
	return dir, ids, os.WriteFile(filepath.Join(dir, ".BRD"), all, 0644)
}

func api(r *kit.Run, n, blank int, items []*node) error {
	h, ids, err := home(r.Dir("h"), n, blank)
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(h, "home/u/user1/.fav"), encode(0x0e90, items), 0644); err != nil {
		return err
	}
	before := pb.Tree(h)
	db, _, err := pb.Open(h)
	if err != nil {
		return err
	}
	got, err := db.ReadUserFavoriteRecords("user1")
	if err != nil {
		return err
	}
	if err := listed(got, items, ids, ""); err != nil {
		return err
	}
	return pb.TreeDiff(before, pb.Tree(h))
}

func body(r *kit.Run) {
	max := kit.Pick(r, 6, 8)
	r.Section("every tree")
	for n := 0; n <= max; n++ {
		forests(n, "", 0, func(s string) {
			r.Check("tree "+s, func() error {
				for seed := 0; seed < 2; seed++ {
					b := encode(uint16(0x0e90+seed), build(s, seed*50))
					r.Distinct(kit.HashB(b))
					r.Eval(1)
					if err := check(b); err != nil {
						return err
					}
				}
				if n <= 5 || r.Thorough && n <= 6 {
					return api(r, 7, 4, build(s, 3))
				}
				return nil
			})
		})
	}
	// the same board, line or folder title several times
	r.Section("every tree with items which are equal or nearly")
	for n := 2; n <= kit.Pick(r, 5, 6); n++ {
		forests(n, "", 0, func(s string) {
			r.Check("equal items "+s, func() error {
				for v := 0; v < 5; v++ {
					items := build(s, 7)
					k := 0
					var alike func(l []*node)
					alike = func(l []*node) {
						for _, x := range l {
							k++
							x.attr, x.bid, x.visit, x.battr = 1, 2, 1600000000, 0
							if x.kind == folder {
								x.title = pb.Big5("目錄")
								alike(x.kids)
							}
							if x.kind != board {
								x.bid, x.visit, x.battr = 0, 0, 0
								continue
							}
							switch v { // what every second one differs in
							case 1:
								x.attr += byte(k % 2)
							case 2:
								x.visit += uint32(k % 2)
							case 3:
								x.battr += uint32(k % 2)
							case 4:
								x.bid += uint32(k % 2)
							}
						}
					}
					alike(items)
					if err := check(encode(9, items)); err != nil {
						return err
					}
					if v == 0 || v == 4 {
						if err := api(r, 9, 0, items); err != nil {
							return err
						}
					}
				}
				r.Eval(6)
				return nil
			})
		})
	}
	r.Section("every truncation")
	for n := 0; n <= kit.Pick(r, 4, 5); n++ {
		forests(n, "", 0, func(s string) {
			r.Check("cut "+s, func() error {
				b := encode(1, build(s, 7))
				for i := 0; i < len(b); i++ {
					if err := check(b[:i:i]); err != nil {
						return fmt.Errorf("cut to %d of %d bytes: %v", i, len(b), err)
					}
					// a cut which does not clear the memory behind it
					if err := check(b[:i]); err != nil {
						return fmt.Errorf("cut to %d of %d bytes: %v", i, len(b), err)
					}
				}
				r.Eval(2 * len(b))
				return nil
			})
		})
	}
	r.Section("every value of every byte")
	for n := 0; n <= kit.Pick(r, 3, 4); n++ {
		forests(n, "", 0, func(s string) {
			r.Check("bytes "+s, func() error {
				b := encode(1, build(s, 7))
				// with and without bytes after the tree
				for _, tail := range []int{0, 80} {
					for i := range b {
						for v := 0; v < 256; v++ {
							m := append(append([]byte{}, b...), make([]byte, tail)...)
							m[i] = byte(v)
							if err := check(m); err != nil {
								return fmt.Errorf("byte %d = %d: %v", i, v, err)
							}
						}
						r.Eval(256)
					}
				}
				return nil
			})
		})
	}
	if r.Thorough {
		r.Section("every pair of values of the bytes of the counts and types")
		for n := 1; n <= 3; n++ {
			forests(n, "", 0, func(s string) {
				r.Check("count pairs "+s, func() error {
					b := append(encode(1, build(s, 7)), make([]byte, 60)...)
					for i := 2; i < 8; i++ {
						for j := i + 1; j < 8; j++ {
							for v := 0; v < 65536; v++ {
								m := append([]byte{}, b...)
								m[i], m[j] = byte(v), byte(v>>8)
								if err := check(m); err != nil {
									return fmt.Errorf("bytes %d, %d = %x: %v", i, j, v, err)
								}
							}
							r.Eval(65536)
						}
					}
					return nil
				})
			})
		}
	}
	r.Section("every file of one or two bytes")
	for hi := 0; hi < 256; hi++ {
		hi := hi
		r.Check(fmt.Sprintf("short %d", hi), func() error {
			if err := check(nil); err != nil {
				return err
			}
			if err := check([]byte{byte(hi)}); err != nil {
				return err
			}
			for lo := 0; lo < 256; lo++ {
				if err := check([]byte{byte(hi), byte(lo)}); err != nil {
					return err
				}
			}
			r.Eval(258)
			return nil
		})
	}
	r.Section("every version")
	for hi := 0; hi < 256; hi++ {
		hi := hi
		r.Check(fmt.Sprintf("version %d", hi), func() error {
			for lo := 0; lo < 256; lo++ {
				if err := check(encode(uint16(hi<<8|lo), build("b(l)", 1))); err != nil {
					return err
				}
			}
			r.Eval(256)
			return nil
		})
	}
	many := func(b, l, f int) []*node {
		var out []*node
		for i := 0; i < b || i < l || i < f; i++ {
			if i < b {
				out = append(out, &node{kind: board, bid: uint32(i), visit: uint32(i * 3), battr: uint32(i)})
			}
			if i < l {
				out = append(out, &node{kind: line, attr: byte(i), id: byte(i + 1)})
			}
			if i < f {
				out = append(out, &node{kind: folder, id: byte(i + 1), title: []byte(fmt.Sprint("folder", i)), kids: []*node{{kind: line, id: 1}}})
			}
		}
		return out
	}
	r.Section("counts")
	counts := []int{0, 1, 2, 3, 127, 128, 254, 255}
	for _, b := range append(counts, 256, 257, 32767, 32768, 65280, 65535) {
		for _, l := range counts {
			for _, f := range counts {
				b, l, f := b, l, f
				if !r.Thorough && b > 300 && (l != 0 && l != 255 || f != 0 && f != 255) {
					continue
				}
				r.Check(fmt.Sprintf("%d boards, %d lines, %d folders", b, l, f), func() error { return check(encode(9, many(b, l, f))) })
			}
		}
	}
	if r.Thorough {
		for b := 0; b < 70; b++ {
			for l := 0; l < 256; l += 5 {
				b, l := b, l
				r.Check(fmt.Sprintf("counts %d %d", b, l), func() error {
					for f := 0; f < 256; f += 15 {
						if err := check(encode(9, many(b, l, f))); err != nil {
							return err
						}
						r.Eval(1)
					}
					return nil
				})
			}
		}
	}
	r.Section("counts without items")
	for _, size := range []int{6, 7, 8, 20, 70, 1000} {
		for hi := 0; hi < 256; hi++ {
			size, hi := size, hi
			r.Check(fmt.Sprintf("%d bytes, count %d", size, hi), func() error {
				for p := 2; p < 6; p++ {
					for _, fill := range []byte{0, 1, 2, 3, 255} {
						b := bytes.Repeat([]byte{fill}, size)
						copy(b[:6], []byte{1, 0, 0, 0, 0, 0})
						b[p] = byte(hi)
						if err := check(b); err != nil {
							return err
						}
						r.Eval(1)
					}
				}
				return nil
			})
		}
	}
	r.Section("nesting depth")
	depths := []int{}
	for d := 1; d <= kit.Pick(r, 100, 1000); d++ {
		depths = append(depths, d)
	}
	for _, d := range append(depths, 255+1000, 256+1000, 5000, 20000) {
		d := d
		r.Check(fmt.Sprintf("depth %d", d), func() error {
			it := []*node{{kind: line, id: 1}, {kind: board, bid: 3}}
			for i := 0; i < d; i++ {
				it = []*node{{kind: board, bid: 1}, {kind: folder, id: 1, title: []byte("sub"), kids: it}, {kind: line, id: 1}}
			}
			b := encode(1, it)
			if err := check(b); err != nil {
				return err
			}
			if d > 2000 {
				return nil
			}
			for _, cut := range []int{1, 2, 3, 4, 5, 7, 20, 53} {
				if err := check(b[:len(b)-cut]); err != nil {
					return err
				}
			}
			return nil
		})
	}
	r.Section("stored ids are renumbered")
	for a := 0; a < 256; a++ {
		a := a
		r.Check(fmt.Sprintf("id %d", a), func() error {
			for _, s := range []string{"l(l)l", "((l)b)l(b)", "ll(ll(ll))ll"} {
				it := build(s, 1)
				var set func([]*node)
				set = func(x []*node) {
					for _, n := range x {
						n.id = byte(a)
						set(n.kids)
					}
				}
				set(it)
				if err := check(encode(2, it)); err != nil {
					return err
				}
				r.Eval(1)
			}
			return nil
		})
	}
	r.Section("titles")
	one := func(t []byte) error {
		return check(encode(2, []*node{{kind: line, id: 1}, {kind: folder, id: 1, title: t, kids: []*node{{kind: line, id: 1}}}, {kind: board, bid: 1}}))
	}
	for n := 0; n <= 49; n++ {
		n := n
		r.Check(fmt.Sprintf("title of %d bytes", n), func() error {
			if err := one(bytes.Repeat([]byte("x"), n)); err != nil {
				return err
			}
			t := append(bytes.Repeat([]byte("x"), n%2), bytes.Repeat(pb.Big5("中"), n/2)...)
			if err := one(t); err != nil {
				return err
			}
			// bytes after the first NUL do not belong to the title
			x := bytes.Repeat([]byte("y"), 49)
			copy(x, t)
			if n < 49 {
				x[n] = 0
				it := []*node{{kind: folder, id: 1, title: x}}
				got, err := pttbbs.UnmarshalFavFile(encode(3, it))
				if err != nil {
					return err
				}
				if g, w := got.Folder.FavItems[0].Title(), (func() string { s, _, _ := codec.Text(t); return s })(); g != w {
					return fmt.Errorf("title is %q, want %q", g, w)
				}
			}
			return nil
		})
	}
	for hi := 0x81; hi < 0xff; hi++ {
		hi := hi
		r.Check(fmt.Sprintf("title characters %02x", hi), func() error {
			for lo := 0x40; lo < 0xff; lo++ {
				if err := one([]byte{'a', byte(hi), byte(lo), 'b'}); err != nil {
					return err
				}
				r.Eval(1)
			}
			return nil
		})
	}
	r.Section("board lists")
	bids := []uint32{0, 1, 2, 3, 4, 5, 7, 8, 9, 255, 256, 257, 65535, 65536, 65537, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1}
	for n := 0; n <= kit.Pick(r, 40, 300); n++ {
		for blank := 0; blank <= 4; blank++ {
			n, blank := n, blank
			if blank > n {
				continue
			}
			r.Check(fmt.Sprintf("%d boards, %d blank", n, blank), func() error {
				var it []*node
				for _, b := range bids {
					it = append(it, &node{kind: board, bid: b})
				}
				it = append(it, &node{kind: folder, id: 1, title: []byte("f"), kids: append([]*node{}, it...)})
				for i := 0; i < n+2; i++ {
					it = append(it, &node{kind: board, bid: uint32(n + 1 - i)})
				}
				return api(r, n, blank, it)
			})
		}
	}
	r.Section("damaged files through the API")
	forests(2, "", 0, func(s string) {
		r.Check("api cut "+s, func() error {
			h, _, err := home(r.Dir("h"), 3, 0)
			if err != nil {
				return err
			}
			db, _, err := pb.Open(h)
			if err != nil {
				return err
			}
			b := encode(1, build(s, 7))
			for i := range b {
				if err := os.WriteFile(filepath.Join(h, "home/u/user1/.fav"), b[:i], 0644); err != nil {
					return err
				}
				if got, err := db.ReadUserFavoriteRecords("user1"); err == nil {
					return fmt.Errorf("%d of %d bytes: no error, %d records", i, len(b), len(got))
				}
				r.Eval(1)
			}
			return nil
		})
	})
}
