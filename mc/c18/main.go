// C18: user article and comment listings are complete and exact.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/Ptt-official-app/go-bbs"

	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	kit.Main(kit.Config{
		ID: "C18", Level: kit.Exploration,
		Rule:        "all board lists, all indexes and all articles made of the listed kinds of boards, records and lines up to the listed lengths, every line and list length in range, every pair of user names of the listed shapes, all histories of changes with a listing after each; distinct by home",
		Assumptions: []string{"user ids are compared as they are written; ids which differ in case only are outside", "whether a comment line whose date does not exist is listed or counted as a floor is open, it only may not hide others"},
		Body:        body,
	})
}

// line is a line of an article, owner is empty if it is no comment.
type line struct {
	raw         string
	owner, text string
	t           time.Time
	maybe       bool // may count as a floor or not, and is not listed
}

type article struct {
	file, owner, title string
	gone               bool // the file does not exist
	lines              []line
	end                string // what ends the last line
}

type board struct {
	id             string
	noIndex, noDir bool
	arts           []article
}

func say(owner, text string, mon, day, hour, min int) line {
	return line{raw: fmt.Sprintf("推 %s: %s %02d/%02d %02d:%02d", owner, text, mon, day, hour, min), owner: owner, text: strings.Trim(text, " "), t: time.Date(0, time.Month(mon), day, hour, min, 0, 0, time.UTC)}
}

func colour(l line) line {
	l.raw = strings.Replace(l.raw, l.owner, "\x1b[33m"+l.owner+"\x1b[m\x1b[33m", 1)
	l.raw = "\x1b[1;37m" + l.raw + "\x1b[m"
	return l
}

func big5(l line) line {
	l.raw = string(pb.Big5(l.raw))
	l.text = string(pb.Big5(l.text))
	return l
}

func text(s string) line { return line{raw: s} }

func (a article) content() string {
	var b strings.Builder
	for i, l := range a.lines {
		b.WriteString(l.raw)
		if i+1 < len(a.lines) {
			b.WriteByte('\n')
		} else {
			b.WriteString(a.end)
		}
	}
	return b.String()
}

func write(name string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(name), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(name, b, 0644); err != nil {
		panic(err)
	}
}

func record(a article) []byte {
	b := make([]byte, 128)
	copy(b[0:28], a.file)
	copy(b[34:48], a.owner)
	copy(b[48:54], " 5/15")
	copy(b[54:119], pb.Big5(a.title))
	return b
}

func brd(bs []board) []byte {
	var out []byte
	for i, b := range bs {
		rec := make([]byte, 256)
		if b.id != "" {
			rec = pb.BoardBytes(i)
			for j := 0; j < 13; j++ {
				rec[j] = 0
			}
			copy(rec, b.id)
		}
		out = append(out, rec...)
	}
	return out
}

func build(home string, bs []board) {
	write(filepath.Join(home, ".BRD"), brd(bs))
	for _, b := range bs {
		if b.id == "" || b.noDir {
			continue
		}
		dir := filepath.Join(home, "boards", b.id[:1], b.id)
		if err := os.MkdirAll(dir, 0755); err != nil {
			panic(err)
		}
		if b.noIndex {
			continue
		}
		var idx []byte
		for _, a := range b.arts {
			idx = append(idx, record(a)...)
			if !a.gone && a.file != "" {
				write(filepath.Join(dir, a.file), []byte(a.content()))
			}
		}
		write(filepath.Join(dir, ".DIR"), idx)
	}
}

type comment struct {
	board, file, owner, text string
	floor, maxFloor          int
	t                        time.Time
}

// comments is the reference listing of one article.
func comments(b board, a article) (out []comment) {
	if a.gone || a.file == "" {
		return
	}
	n, extra := 0, 0
	for _, l := range a.lines {
		if l.maybe {
			extra++
		}
		if l.owner == "" {
			continue
		}
		n++
		out = append(out, comment{b.id, a.file, l.owner, l.text, n, n + extra, l.t})
	}
	return
}

func sameComments(got []bbs.UserCommentRecord, want []comment) error {
	for i, g := range got {
		if i >= len(want) {
			return fmt.Errorf("%d comments are listed, want %d; the first surplus one is %q in %s %s", len(got), len(want), g.Comment(), g.BoardID(), g.Filename())
		}
		w := want[i]
		n := int(g.CommentOrder())
		if g.BoardID() != w.board || g.Filename() != w.file || g.Owner() != w.owner || g.Comment() != w.text || !g.CommentTime().Equal(w.t) || n < w.floor || n > w.maxFloor {
			return fmt.Errorf("comment %d of %d is %s/%s floor %d by %q at %v %.60q, want %s/%s floor %d by %q at %v %.60q", i, len(want), g.BoardID(), g.Filename(), n, g.Owner(), g.CommentTime(), g.Comment(), w.board, w.file, w.floor, w.owner, w.t, w.text)
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("%d comments are listed, want %d; the first missing one is floor %d of %s/%s", len(got), len(want), want[len(got)].floor, want[len(got)].board, want[len(got)].file)
	}
	return nil
}

// articles compares the listing of the articles of u with the reference.
func articles(db *bbs.DB, bs []board, u string) error {
	type ua struct{ board, title, owner, file string }
	var want []ua
	for _, b := range bs {
		if b.id == "" || b.id == "ALLPOST" || b.noDir || b.noIndex {
			continue
		}
		for _, a := range b.arts {
			if a.owner == u {
				want = append(want, ua{b.id, a.title, a.owner, a.file})
			}
		}
	}
	got, err := db.GetUserArticleRecordFile(u)
	if err != nil {
		return fmt.Errorf("articles of %q: %v", u, err)
	}
	for i, g := range got {
		if i >= len(want) {
			return fmt.Errorf("%d articles of %q are listed, want %d; the first surplus one is %s/%s", len(got), u, len(want), g.BoardID(), g.ArticleID())
		}
		w := want[i]
		if g.BoardID() != w.board || g.ArticleID() != w.file || g.Owner() != w.owner || g.Title() != w.title {
			return fmt.Errorf("article %d of %q is %s/%s %q by %q, want %s/%s %q", i, u, g.BoardID(), g.ArticleID(), g.Title(), g.Owner(), w.board, w.file, w.title)
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("%d articles of %q are listed, want %d", len(got), u, len(want))
	}
	return nil
}

// verify compares all listings for users with the reference.
func verify(db *bbs.DB, bs []board, users []string) error {
	for _, u := range users {
		var wantC []comment
		for _, b := range bs {
			var mine []comment
			if b.id == "" {
				continue
			}
			if !b.noDir && !b.noIndex {
				for _, a := range b.arts {
					for _, c := range comments(b, a) {
						if c.owner == u {
							mine = append(mine, c)
						}
					}
				}
			}
			if b.id != "ALLPOST" {
				wantC = append(wantC, mine...)
			}
			got, err := db.GetBoardUserCommentRecord(b.id, u)
			if err != nil {
				return fmt.Errorf("comments of %q in %s: %v", u, b.id, err)
			}
			if err := sameComments(got, mine); err != nil {
				return fmt.Errorf("comments of %q in %s: %v", u, b.id, err)
			}
		}
		if err := articles(db, bs, u); err != nil {
			return err
		}
		cs, err := db.GetUserCommentRecordFile(u)
		if err != nil {
			return fmt.Errorf("comments of %q: %v", u, err)
		}
		if err := sameComments(cs, wantC); err != nil {
			return fmt.Errorf("comments of %q: %v", u, err)
		}
	}
	return nil
}

// perArticle checks the listing of single articles.
func perArticle(db *bbs.DB, bs []board) error {
	for _, b := range bs {
		if b.id == "" || b.noDir || b.noIndex {
			continue
		}
		ars, err := db.ReadBoardArticleRecordsFile(b.id)
		if err != nil {
			return err
		}
		if len(ars) != len(b.arts) {
			return fmt.Errorf("%s has %d articles, want %d", b.id, len(ars), len(b.arts))
		}
		for i, a := range b.arts {
			if a.gone || a.file == "" {
				continue
			}
			got, err := db.GetBoardArticleCommentRecords(b.id, ars[i])
			if err != nil {
				return fmt.Errorf("comments of %s/%s: %v", b.id, a.file, err)
			}
			if err := sameComments(got, comments(b, a)); err != nil {
				return fmt.Errorf("comments of %s/%s: %v", b.id, a.file, err)
			}
		}
	}
	return nil
}

var users = []string{"userA", "userB", "userAB", "nobody"}

func stdArts(n int) []article {
	f := fmt.Sprintf("M.%d.A.00", 1600000000+n)
	return []article{
		{file: f + "1", owner: "userA", title: fmt.Sprintf("標題 %d", n), end: "\n", lines: []line{text("作者: userA (暱稱) 看板: x"), text("標題: x"), text(""), text("內文"), say("userB", fmt.Sprintf("text %d", n), 5, 15, 1, 6), say("userA", "own", 5, 16, 1, 6)}},
		{file: f + "2", owner: "userB", title: fmt.Sprintf("second %d", n), lines: []line{say("userA", "again", 1, 2, 3, 4), say("userB", "too", 1, 2, 3, 5)}},
	}
}

func world(r *kit.Run, bs []board, us []string) error {
	home := r.Dir("h")
	build(home, bs)
	db, err := bbs.Open("pttbbs", home)
	if err != nil {
		return err
	}
	r.Eval(1)
	if err := verify(db, bs, us); err != nil {
		return err
	}
	return perArticle(db, bs)
}

func body(r *kit.Run) {
	r.Section("board lists")
	kinds := []byte("NXDPBEA")
	mk := func(seq []byte) (bs []board) {
		for i, k := range seq {
			b := board{id: fmt.Sprintf("board%d", i)}
			switch k {
			case 'N':
				b.arts = stdArts(i)
			case 'X':
				b.noIndex = true
			case 'D':
				b.noDir = true
			case 'P':
				b.id = "ALLPOST"
				b.arts = stdArts(50)
			case 'B':
				b.id = ""
			case 'A':
				b.id = []string{"ALLPOST2", "ALLPOS", "Test-1_x", "XALLPOST", "a"}[i%5]
				b.arts = stdArts(i)
			}
			bs = append(bs, b)
		}
		return
	}
	depth := kit.Pick(r, 5, 6)
	r.Note("boards per list", depth)
	for _, a := range kinds {
		for _, b := range kinds {
			for _, c := range kinds {
				pre := string([]byte{a, b, c})
				r.Check("boards "+pre, func() error {
					var rec func(s string) error
					rec = func(s string) error {
						{
							if err := world(r, mk([]byte(s)), users); err != nil {
								return fmt.Errorf("boards %s: %v", s, err)
							}
							r.Distinct(kit.Hash("boards", s))
						}
						if len(s) == depth {
							return nil
						}
						for _, k := range kinds {
							if err := rec(s + string(k)); err != nil {
								return err
							}
						}
						return nil
					}
					for n := 0; n < 3; n++ {
						if n == 0 || pre[n:] == "NNN"[n:] {
							if err := world(r, mk([]byte(pre[:n])), users); err != nil {
								return fmt.Errorf("boards %s: %v", pre[:n], err)
							}
						}
					}
					return rec(pre)
				})
			}
		}
	}

	r.Section("indexes")
	arec := func(i int, k byte) article {
		a := article{file: fmt.Sprintf("M.%d.A.%03X", 1600000000+i, i), owner: "userA", title: fmt.Sprintf("標題 %c%d", k, i), end: "\n", lines: []line{say("userA", fmt.Sprintf("n%d", i), 5, 15, 1, i), text("x"), say("userB", "b", 5, 15, 2, i)}}
		switch k {
		case 'b':
			a.owner = "userB"
		case 'g':
			a.gone = true
		case 'p':
			a.owner = "userAB"
		case 'd': // deleted through the BBS
			a.owner, a.file, a.gone, a.title = "-", ".deleted", true, "(本文已被刪除)"
		case 'z': // blank slot
			a = article{}
		case 'e': // empty file
			a.lines, a.end = nil, ""
		}
		return a
	}
	rdepth := kit.Pick(r, 4, 5)
	r.Note("records per index", rdepth)
	rk := "abgpdze"
	for _, x := range rk {
		for _, y := range rk {
			pre := string([]rune{x, y})
			r.Check("index "+pre, func() error {
				var rec func(s string) error
				rec = func(s string) error {
					b := board{id: "Test"}
					for i := range s {
						b.arts = append(b.arts, arec(i, s[i]))
					}
					if err := world(r, []board{{id: "first", arts: stdArts(1)}, b, {id: "last", arts: stdArts(2)}}, users); err != nil {
						return fmt.Errorf("index %s: %v", s, err)
					}
					r.Distinct(kit.Hash("index", s))
					if len(s) == rdepth {
						return nil
					}
					for _, k := range rk {
						if err := rec(s + string(k)); err != nil {
							return err
						}
					}
					return nil
				}
				return rec(pre)
			})
		}
	}

	r.Section("lines")
	long := strings.Repeat("長 long ", 9000)
	kindsL := map[byte]line{
		'a': say("userA", "hello: 12:34 there", 5, 15, 1, 6),
		'b': say("userB", "  spaced   text  ", 12, 31, 23, 59),
		'p': say("userAB", "prefix of a name", 2, 29, 0, 0),
		'c': colour(say("userA", "colour", 1, 1, 0, 0)),
		'5': big5(say("userA", "中文字 推", 10, 10, 10, 10)),
		'h': text("作者: userA (暱稱) 看板: Test"),
		'T': text("時間: Mon May 15 01:06:00 2020"),
		'e': text(""),
		'L': say("userA", long, 3, 4, 5, 6),
		'N': text(long),
		'i': {raw: "推 userA: no such date 13/32 25:61", maybe: true},
		'x': text("\xff\xfe\x80 userA 01/02 03:04 \xa4"),
		'r': text("> 推 userA 01/02 03:04:"),
	}
	var ks []byte
	for c := byte(0); c < 128; c++ {
		if _, ok := kindsL[c]; ok {
			ks = append(ks, c)
		}
	}
	ldepth := kit.Pick(r, 3, 4)
	r.Note("lines per article", ldepth+1)
	for _, x := range ks {
		for _, y := range ks {
			pre := string([]byte{x, y})
			r.Check("lines "+pre, func() error {
				home := r.Dir("h")
				build(home, []board{{id: "Test", arts: []article{{file: "M.1.A.001", owner: "userA", title: "t"}}}})
				db, err := bbs.Open("pttbbs", home)
				if err != nil {
					return err
				}
				var rec func(s string) error
				rec = func(s string) error {
					n := strings.Count(s, "L") + strings.Count(s, "N")
					if len(s) > 2 && n > 1 {
						return nil
					}
					a := article{file: "M.1.A.001", owner: "userA", title: "t"}
					for i := range s {
						a.lines = append(a.lines, kindsL[s[i]])
					}
					for _, a.end = range []string{"", "\n", "\r\n", "\n\n"} {
						write(pb.ArticlePath(home, "Test", "M.1.A.001"), []byte(a.content()))
						bs := []board{{id: "Test", arts: []article{a}}}
						r.Eval(1)
						if len(s) < 3 || n == 0 {
							if err := verify(db, bs, users[:1]); err != nil {
								return fmt.Errorf("lines %s: %v", s, err)
							}
						}
						if err := perArticle(db, bs); err != nil {
							return fmt.Errorf("lines %s: %v", s, err)
						}
						if len(s) > 2 && (a.end == "\n" || n > 0 && !r.Thorough) {
							break
						}
					}
					r.Distinct(kit.Hash("lines", s))
					if len(s) == ldepth+1 || len(s) >= 3 && n > 0 {
						return nil
					}
					for _, k := range ks {
						if err := rec(s + string(k)); err != nil {
							return err
						}
					}
					return nil
				}
				if x == y {
					if err := rec2(r, db, home, kindsL[x]); err != nil {
						return err
					}
				}
				return rec(pre)
			})
		}
	}

	r.Section("line lengths")
	var lens []int
	for n := 0; n <= 600; n++ {
		lens = append(lens, n)
	}
	for _, c := range []int{1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 1 << 20} {
		for d := -40; d <= 3; d++ {
			lens = append(lens, c+d)
		}
	}
	for i := 0; i < len(lens); i += 10 {
		part := lens[i:min(i+10, len(lens))]
		r.Check(fmt.Sprintf("line lengths from %d", part[0]), func() error {
			home := r.Dir("h")
			build(home, []board{{id: "Test", arts: []article{{file: "M.1.A.001", owner: "userA", title: "t"}}}})
			db, err := bbs.Open("pttbbs", home)
			if err != nil {
				return err
			}
			for _, n := range part {
				for _, pos := range []int{0, 1, 2} {
					for _, comm := range []bool{true, false} {
						l := text(strings.Repeat("x", n))
						if comm {
							l = say("userA", strings.Repeat("y", n), 5, 6, 7, 8)
						}
						ls := []line{say("userA", "first", 1, 1, 1, 1), say("userB", "second", 2, 2, 2, 2)}
						ls = append(ls[:pos:pos], append([]line{l}, ls[pos:]...)...)
						a := article{file: "M.1.A.001", owner: "userA", title: "t", lines: ls}
						if n%2 == 0 {
							a.end = "\n"
						}
						write(pb.ArticlePath(home, "Test", "M.1.A.001"), []byte(a.content()))
						r.Eval(1)
						if err := perArticle(db, []board{{id: "Test", arts: []article{a}}}); err != nil {
							return fmt.Errorf("line of %d at %d: %v", n, pos, err)
						}
					}
				}
			}
			return nil
		})
	}

	r.Section("numbers of boards, records and comments")
	for _, n := range append(seq(0, kit.Pick(r, 130, 300)), 255, 256, 257, 1000, 5000, 32768, 65537) {
		n := n
		r.Check(fmt.Sprintf("%d boards", n), func() error {
			var bs []board
			for i := 0; i < n; i++ {
				b := board{id: fmt.Sprintf("board%d", i), noDir: true}
				if i == n-1 || i == 63 || i == 255 {
					b.noDir = false
					b.arts = stdArts(i)
				}
				bs = append(bs, b)
			}
			return world(r, bs, users[:1])
		})
		r.Check(fmt.Sprintf("%d records", n), func() error {
			b := board{id: "Test"}
			for i := 0; i < n; i++ {
				b.arts = append(b.arts, article{file: fmt.Sprintf("M.%d.A.001", i), owner: users[i%2], title: fmt.Sprint("t", i), gone: n > 300, lines: []line{say("userA", fmt.Sprint("c", i), 5, 5, 5, 5)}})
			}
			return world(r, []board{b}, users[:1])
		})
		r.Check(fmt.Sprintf("%d comments", n), func() error {
			a := article{file: "M.1.A.001", owner: "userA", title: "t"}
			for i := 0; i < n; i++ {
				a.lines = append(a.lines, say(users[i%3], fmt.Sprint("c", i), i%12+1, i%28+1, i%24, i%60))
			}
			return world(r, []board{{id: "Test", arts: []article{a}}}, users)
		})
	}

	r.Section("every combination of special field values")
	titles := []string{"", "(本文已被刪除)", "(本文已被刪除) [userA]", "(已被userB刪除) <userA>", "-", "<本文已刪除>", "Re: x", "Fw: x", "[公告] x", "◆ x", "[轉錄] x"}
	modes := []uint8{0, 1, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x21}
	for _, file := range []string{".deleted", ".d12345", "M.1600000000.A.001", "G.1600000000.A.001", "-"} {
		for _, owner := range []string{"userA", "-", "userB", "userA.", "guest"} {
			file, owner := file, owner
			r.Check(fmt.Sprintf("records of %q with file name %q", owner, file), func() error {
				home := r.Dir("h")
				b := board{id: "Test"}
				build(home, []board{b})
				var idx []byte
				for _, t := range titles {
					for _, d := range []string{"", " 0/00", " 1/01", "12/31"} {
						for _, m := range modes {
							for _, mod := range []uint32{0, 1600000000, 1<<32 - 1} {
								for _, score := range []int8{0, 1, -1, 100, -100, -128} {
									for _, u := range [][4]byte{{}, {1}, {255, 255, 255, 255}} {
										x := pb.Art{Filename: file, Owner: owner, Title: t, Date: d, Filemode: m, Modified: mod, Recommend: score, Union: u}
										idx = append(idx, x.Bytes()...)
										b.arts = append(b.arts, article{file: file, owner: owner, title: t, gone: true})
									}
								}
							}
						}
					}
				}
				write(filepath.Join(home, "boards", "T", "Test", ".DIR"), idx)
				db, err := bbs.Open("pttbbs", home)
				if err != nil {
					return err
				}
				r.Eval(len(b.arts))
				r.Distinct(kit.Hash("fields", file, owner))
				return articles(db, []board{b}, "userA")
			})
		}
	}
	for _, owner := range []string{"userA", "-", "userB", ""} {
		for _, t := range titles {
			owner, t := owner, t
			r.Check(fmt.Sprintf("comments on articles of %q, %q", owner, t), func() error {
				home := r.Dir("h")
				b := board{id: "Test"}
				var idx []byte
				for _, d := range []string{"", " 0/00", " 1/01"} {
					for _, m := range modes {
						for _, mod := range []uint32{0, 1600000000} {
							for _, score := range []int8{0, 1, -100, 100} {
								n := len(b.arts)
								x := pb.Art{Filename: fmt.Sprintf("M.%d.A.001", n), Owner: owner, Title: t, Date: d, Filemode: m, Modified: mod, Recommend: score}
								idx = append(idx, x.Bytes()...)
								b.arts = append(b.arts, article{file: x.Filename, owner: owner, title: t, lines: []line{say("userA", fmt.Sprint("c", n), 5, 5, 5, 5), text("x"), say("userB", "d", 6, 6, 6, 6), say("userA", "e", 7, 7, 7, 7)}})
							}
						}
					}
				}
				build(home, []board{b})
				write(filepath.Join(home, "boards", "T", "Test", ".DIR"), idx)
				db, err := bbs.Open("pttbbs", home)
				if err != nil {
					return err
				}
				r.Eval(len(b.arts))
				if err := verify(db, []board{b}, []string{"userA"}); err != nil {
					return err
				}
				return perArticle(db, []board{b})
			})
		}
	}

	r.Section("pairs of user names")
	var names []string
	for n := 2; n <= 12; n++ {
		names = append(names, "abcdefghijkl"[:n], "Xbcdefghijk9"[:n-1]+"9", "abcdefghijkl"[12-n:])
	}
	for i, u := range names {
		i, u := i, u
		r.Check("user "+u+fmt.Sprint(i), func() error {
			home := r.Dir("h")
			for _, v := range names {
				bs := []board{{id: "Test", arts: []article{
					{file: "M.1.A.001", owner: v, title: u + " is named here", end: "\n", lines: []line{text("作者: " + u + " (x) 看板: Test"), say(v, u+": my friend", 5, 6, 7, 8), say(u, v+": mine", 6, 7, 8, 9)}},
					{file: "M.2.A.001", owner: u, title: v},
				}}}
				build(home, bs)
				db, err := bbs.Open("pttbbs", home)
				if err != nil {
					return err
				}
				r.Eval(1)
				us := []string{u}
				if v != u {
					us = append(us, v)
				}
				if err := verify(db, bs, us); err != nil {
					return fmt.Errorf("%q and %q: %v", u, v, err)
				}
			}
			return nil
		})
	}

	r.Section("histories")
	hdepth := kit.Pick(r, 4, 5)
	r.Note("changes per history", hdepth)
	ops := "cCrabBdwX"
	for _, x := range ops {
		for _, y := range ops {
			pre := string([]rune{x, y})
			r.Check("history "+pre, func() error {
				var rec func(s string) error
				rec = func(s string) error {
					if len(s) < hdepth {
						for _, k := range ops {
							if err := rec(s + string(k)); err != nil {
								return err
							}
						}
						return nil
					}
					if err := history(r, s); err != nil {
						return fmt.Errorf("history %s: %v", s, err)
					}
					r.Distinct(kit.Hash("history", s))
					return nil
				}
				return rec(pre)
			})
		}
	}
}

// rec2 checks an article with one line and an empty one.
func rec2(r *kit.Run, db *bbs.DB, home string, l line) error {
	for _, end := range []string{"", "\n", "\r\n", "\n\n"} {
		for _, ls := range [][]line{nil, {l}} {
			a := article{file: "M.1.A.001", owner: "userA", title: "t", lines: ls, end: end}
			write(pb.ArticlePath(home, "Test", "M.1.A.001"), []byte(a.content()))
			bs := []board{{id: "Test", arts: []article{a}}}
			r.Eval(1)
			if err := verify(db, bs, users); err != nil {
				return err
			}
			if err := perArticle(db, bs); err != nil {
				return err
			}
		}
	}
	return nil
}

// history runs changes on one open database and lists after each.
func history(r *kit.Run, s string) error {
	home := r.Dir("h")
	bs := []board{{id: "Test", arts: stdArts(1)}, {id: "Second", noIndex: true}}
	build(home, bs)
	db, _, err := pb.Open(home)
	if err != nil {
		return err
	}
	for i := range bs[0].arts {
		bs[0].arts[i].end = "\n"
	}
	build(home, bs)
	for n, k := range s {
		a := &bs[0].arts[0]
		switch k {
		case 'c', 'C': // a comment is appended
			l := say("userA", fmt.Sprintf("said %d", n), 5, 5, 5, n)
			if k == 'C' {
				l = say("userB", fmt.Sprintf("%d again", n), 5, 5, 5, n)
			}
			if a.gone {
				continue
			}
			a.lines = append(a.lines, l)
			if err := db.AppendBoardArticleFile("Test", a.file, []byte(l.raw+"\n")); err != nil {
				return err
			}
		case 'w': // the article is written anew
			a.lines = []line{text("new"), say("userA", fmt.Sprintf("new %d", n), 1, 1, 1, n)}
			a.end, a.gone = "\n", false
			if err := db.WriteBoardArticleFile("Test", a.file, []byte(a.content())); err != nil {
				return err
			}
		case 'r': // removed
			os.Remove(pb.ArticlePath(home, "Test", a.file))
			a.gone = true
		case 'a', 'b': // an article record is added
			t := &bs[0]
			if k == 'b' {
				if bs[1].id == "" {
					continue
				}
				t = &bs[1]
				t.noIndex = false
			}
			ar := article{file: fmt.Sprintf("M.%d.A.00%c", n, k-'a'+'A'), owner: "userA", title: fmt.Sprintf("新文章 %d", n), end: "\n", lines: []line{say("userB", "on the new one", 7, 7, 7, n)}}
			art := pb.Art{Filename: ar.file, Owner: ar.owner, Date: " 7/07", Title: ar.title}
			rec, err := art.Record()
			if err != nil {
				return err
			}
			if err := db.AddArticleRecordFileRecord(t.id, rec); err != nil {
				return err
			}
			t.arts = append(t.arts, ar)
			write(pb.ArticlePath(home, t.id, ar.file), []byte(ar.content()))
		case 'B': // a board is added
			b := board{id: fmt.Sprintf("New%d", n), arts: stdArts(10 + n)}
			bs = append(bs, b)
			build(home, bs)
		case 'd': // the slot of the second board becomes blank, or its name comes back
			if bs[1].id == "" {
				bs[1].id = "Second"
			} else {
				bs[1].id = ""
			}
			write(filepath.Join(home, ".BRD"), brd(bs))
		case 'X': // boards change places
			bs[0], bs[1] = bs[1], bs[0]
			write(filepath.Join(home, ".BRD"), brd(bs))
			bs[0], bs[1] = bs[1], bs[0]
			if err := verify(db, append([]board{bs[1], bs[0]}, bs[2:]...), users[:2]); err != nil {
				return fmt.Errorf("step %d %c: %v", n, k, err)
			}
			write(filepath.Join(home, ".BRD"), brd(bs))
		}
		r.Eval(1)
		r.Trans(1)
		if err := verify(db, bs, users[:2]); err != nil {
			return fmt.Errorf("step %d %c: %v", n, k, err)
		}
	}
	return nil
}

func seq(a, b int) (out []int) {
	for ; a <= b; a++ {
		out = append(out, a)
	}
	return
}
