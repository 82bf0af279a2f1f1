package main

import (
	"bytes"
	"encoding/binary"
	"os"
	"path/filepath"
	"strings"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/cache"
	formosabbs "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/ops"
	"verifmc/pb"
)

type call struct {
	name   string
	write  bool
	mapped bool // maps files
	run    func(w *world) (interface{}, error)
}

func pattern(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*seed + i/7 + seed)
	}
	return b
}

type state struct {
	name  string
	setup func(home string)
}

func states() []state {
	rich := func(home string) {
		(&ops.World{Home: home}).Setup(ops.Start{Arts: 3, Brds: 0})
		ops.Rich(home, 0)
		must(os.WriteFile(filepath.Join(home, "memory"), pattern(40000, 13), 0644))
		must(os.WriteFile(pb.ArticlePath(home, "one", "M.300.A.000"), []byte("not in the index\n"), 0644))
	}
	grow := func(home, name string, n int) {
		f, err := os.OpenFile(filepath.Join(home, name), os.O_APPEND|os.O_WRONLY, 0644)
		must(err)
		_, err = f.Write(pattern(n, 21))
		must(err)
		must(f.Close())
	}
	return []state{
		{"a home with everything", rich},
		{"torn files", func(home string) {
			rich(home)
			for _, n := range []string{".BRD", ".PASSWDS", "boards/o/one/.DIR", "boards/t/test/.DIR", "man/boards/t/test/D1/.DIR", "formosa", "uinfo"} {
				grow(home, n, 77)
			}
			must(os.Truncate(filepath.Join(home, "home/t/tester/.fav"), 30))
			must(os.WriteFile(filepath.Join(home, "logins.bad"), []byte("-tester      [01/02/2020 03:04:05 Thu] ?@example.org\nbroken"), 0644))
		}},
		{"an empty home", func(home string) {
			must(os.MkdirAll(home, 0755))
			must(os.WriteFile(filepath.Join(home, "memory"), pattern(40000, 13), 0644))
			must(os.WriteFile(filepath.Join(home, ".BRD"), nil, 0644))
		}},
	}
}

var settings = pttbbs.MemoryMappingSetting{AlignmentBytes: 4, MaxUsers: 4, IDLen: 12, UseCoolDown: true, HashBits: 4}

func calls() []call {
	var l []call
	read := func(name string, f func(w *world) (interface{}, error)) { l = append(l, call{name: name, run: f}) }
	mapped := func(name string, f func(w *world) (interface{}, error)) {
		l = append(l, call{name: name, run: f, mapped: true})
	}
	write := func(name string, f func(w *world) error) {
		l = append(l, call{name: name, write: true, run: func(w *world) (interface{}, error) { return nil, f(w) }})
	}
	tree := func(w *world, s ...string) []string {
		s = append(make([]string, 0, 4), s...)
		w.arg(s[:cap(s)])
		return s
	}

	read("users", func(w *world) (interface{}, error) { return w.db.ReadUserRecords() })
	read("favorites", func(w *world) (interface{}, error) { return w.db.ReadUserFavoriteRecords("tester") })
	read("favorites of nobody", func(w *world) (interface{}, error) { return w.db.ReadUserFavoriteRecords("nobody") })
	read("boards", func(w *world) (interface{}, error) { return w.db.ReadBoardRecords() })
	for _, b := range []string{"one", "test", "none0", "missing"} {
		b := b
		read("articles of "+b, func(w *world) (interface{}, error) { return w.db.ReadBoardArticleRecordsFile(b) })
	}
	read("treasures", func(w *world) (interface{}, error) {
		return w.db.ReadBoardTreasureRecordsFile("test", tree(w, "D1", "D2"))
	})
	read("other treasures", func(w *world) (interface{}, error) { return w.db.ReadBoardTreasureRecordsFile("test", tree(w, "D1")) })
	read("missing treasures", func(w *world) (interface{}, error) { return w.db.ReadBoardTreasureRecordsFile("one", tree(w, "D1")) })
	for _, n := range []string{"M.100.A.000", "M.300.A.000", "M.400.A.000"} {
		n := n
		read("article "+n, func(w *world) (interface{}, error) { return w.db.ReadBoardArticleFile("one", n) })
	}
	read("treasure", func(w *world) (interface{}, error) {
		return w.db.ReadBoardTreasureFile("test", tree(w, "D1"), "M.5.A.005")
	})
	read("articles of a user", func(w *world) (interface{}, error) { return w.db.GetUserArticleRecordFile("commenter") })
	read("comments of a user", func(w *world) (interface{}, error) { return w.db.GetUserCommentRecordFile("commenter") })
	read("comments of a user on a board", func(w *world) (interface{}, error) { return w.db.GetBoardUserCommentRecord("one", "other") })
	read("comments of an article", func(w *world) (interface{}, error) {
		a := pttbbs.NewFileHeader()
		a.SetFilename("M.101.A.000")
		w.arg(a)
		return w.db.GetBoardArticleCommentRecords("one", a)
	})
	for _, d := range []string{"3", "5"} {
		d := d
		read("draft "+d, func(w *world) (interface{}, error) { return w.db.GetUserDrafts("tester", d) })
	}
	read("board by its number", func(w *world) (interface{}, error) {
		return w.c.ReadBoardRecordFileRecord(filepath.Join(w.home, ".BRD"), 1)
	})
	read("make a board record", func(w *world) (interface{}, error) {
		a := map[string]interface{}{"board_id": "newboard", "title": "中文"}
		w.arg(a)
		return w.db.NewBoardRecord(a)
	})
	read("make an article record", func(w *world) (interface{}, error) {
		return w.c.NewArticleRecord("M.1.A.004", "owner", "1/02", "中文")
	})
	read("recent logins", func(w *world) (interface{}, error) {
		return pttbbs.OpenLoginRecentFile(filepath.Join(w.home, "recent"))
	})
	read("bad logins", func(w *world) (interface{}, error) {
		return pttbbs.OpenBadLoginFile(filepath.Join(w.home, "logins.bad"))
	})
	read("online users", func(w *world) (interface{}, error) {
		return pttbbs.OpenUserInfoCache(filepath.Join(w.home, "uinfo"))
	})
	read("FormosaBBS records", func(w *world) (interface{}, error) {
		return formosabbs.OpenFormosaBBSFileHeaderFile(filepath.Join(w.home, "formosa"))
	})
	read("open a database", func(w *world) (interface{}, error) {
		d, err := bbs.Open("pttbbs", w.home)
		if err != nil {
			return nil, err
		}
		return d.ReadBoardRecords()
	})
	read("paths", func(w *world) (interface{}, error) {
		var out []string
		add := func(p string, err error) {
			must(err)
			out = append(out, p)
		}
		add(w.c.GetUserRecordsPath())
		add(w.c.GetBoardRecordsPath())
		add(w.c.GetUserFavoriteRecordsPath("nobody"))
		add(w.c.GetBoardArticleRecordsPath("nothing"))
		add(w.c.GetBoardTreasureRecordsPath("nothing", tree(w, "D1", "D7")))
		add(w.c.GetBoardArticleFilePath("nothing", "M.1.A"))
		add(w.c.GetBoardTreasureFilePath("nothing", tree(w, "D7"), "M.1.A"))
		add(w.c.GetUserDraftPath("nobody", "7"))
		return out, nil
	})
	mapped("shared memory", func(w *world) (interface{}, error) {
		if w.mem == nil {
			s := settings
			c, err := pttbbs.NewCache("file:"+filepath.Join(w.home, "memory"), &s)
			if err != nil {
				return nil, err
			}
			w.mem = c
		}
		out := []interface{}{w.mem.Version()}
		for u := 0; u < 4; u++ {
			out = append(out, w.mem.UserID(u), w.mem.Money(u), w.mem.UserInfo(u))
		}
		return out, nil
	})
	mapped("mapped file", func(w *world) (interface{}, error) {
		c, err := cache.OpenMmap(filepath.Join(w.home, "memory"))
		if err != nil {
			return nil, err
		}
		return append([]byte{}, c.Bytes()...), c.Close()
	})

	// changes
	write("add an article record", func(w *world) error {
		return w.db.AddArticleRecordFileRecord("one", record(4))
	})
	write("update an article record", func(w *world) error {
		return w.c.UpdateArticleRecordFileRecord(pb.DirPath(w.home, "one"), 0, record(5))
	})
	write("update it again", func(w *world) error {
		return w.c.UpdateArticleRecordFileRecord(pb.DirPath(w.home, "one"), 0, record(6))
	})
	write("write an article", func(w *world) error {
		return w.db.WriteBoardArticleFile("one", "M.400.A.000", arg1(w, "new article\n"))
	})
	write("append to an article", func(w *world) error {
		return w.db.AppendBoardArticleFile("one", "M.101.A.000", arg1(w, "\xb1\xc0 other: more 01/02 03:04\n"))
	})
	write("write draft 3", func(w *world) error {
		return w.db.WriteUserDraft("tester", "3", bbs.NewUserDraft([]byte("draft x")))
	})
	write("write draft 5", func(w *world) error {
		return w.db.WriteUserDraft("tester", "5", bbs.NewUserDraft([]byte("draft y")))
	})
	write("delete draft 3", func(w *world) error { return w.db.DeleteUserDraft("tester", "3") })
	write("add a board", func(w *world) error { return w.db.AddBoardRecord(pb.Board(7)) })
	write("remove a board", func(w *world) error {
		return w.c.RemoveBoardRecordFileRecord(filepath.Join(w.home, ".BRD"), 1)
	})
	// by other programs: in the same tick, so that the times are as before
	other := func(name, file string, f func(b []byte) []byte) {
		write("others: "+name, func(w *world) error {
			p := filepath.Join(w.home, file)
			i, err := os.Stat(p)
			if err != nil {
				return err
			}
			b, err := os.ReadFile(p)
			must(err)
			must(os.WriteFile(p, f(b), 0644))
			must(os.Chtimes(p, i.ModTime(), i.ModTime()))
			return nil
		})
	}
	flip := func(at ...int) func(b []byte) []byte {
		return func(b []byte) []byte {
			for _, i := range at {
				if i < len(b) {
					b[i] ^= 1
				}
			}
			return b
		}
	}
	other("change the users", ".PASSWDS", flip(5, 517, 400))
	other("change the boards", ".BRD", flip(1, 14, 257, 200))
	other("change the article records", "boards/o/one/.DIR", flip(5, 35, 130, 163, 120))
	other("change the treasures", "man/boards/t/test/D1/D2/.DIR", flip(5, 35, 130))
	other("change the favorites", "home/t/tester/.fav", flip(8, 9))
	other("change an article", "boards/o/one/M.100.A.000", flip(8))
	other("change comments", "boards/o/one/M.101.A.000", func(b []byte) []byte {
		return bytes.ReplaceAll(bytes.ReplaceAll(b, []byte("one more"), []byte("one less")), []byte("hm "), []byte("ah "))
	})
	other("change a draft", "home/t/tester/buf.3", flip(2))
	other("change the logins", "logins.bad", flip(2))
	other("change the online users", "uinfo", flip(30, 3500))
	write("others: change the memory", func(w *world) error {
		f, err := os.OpenFile(filepath.Join(w.home, "memory"), os.O_RDWR, 0)
		must(err)
		defer f.Close()
		b := make([]byte, 40000)
		_, err = f.ReadAt(b, 0)
		must(err)
		for i := range b {
			b[i] ^= 1
		}
		binary.LittleEndian.PutUint32(b, 4842)
		_, err = f.WriteAt(b, 0)
		return err
	})
	write("others: put another article in place", func(w *world) error {
		p := pb.ArticlePath(w.home, "one", "M.100.A.000")
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p+"~", []byte(strings.Repeat("x", 40)), 0644))
		return os.Rename(p+"~", p)
	})
	write("others: remove an article", func(w *world) error {
		return os.Remove(pb.ArticlePath(w.home, "one", "M.100.A.000"))
	})
	write("others: remove the index", func(w *world) error { return os.Remove(pb.DirPath(w.home, "one")) })
	write("others: cut the index", func(w *world) error { return os.Truncate(pb.DirPath(w.home, "one"), 200) })
	return l
}

func arg1(w *world, s string) []byte {
	b := []byte(s)
	w.arg(b)
	return b
}

func record(n int) bbs.ArticleRecord {
	a, err := pb.N(n).Record()
	must(err)
	return a
}
