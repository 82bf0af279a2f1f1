package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/cache"
	"github.com/Ptt-official-app/go-bbs/crypt"
	formosabbs "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/des"
	"verifmc/ops"
	"verifmc/pb"
)

// world is what the threads share.
type world struct {
	*bbs.DB
	c      pb.Conn
	home   string
	mem    *pttbbs.Cache
	user   *pttbbs.Userec
	board  *pttbbs.BoardHeader
	art    *pttbbs.FileHeader
	fav    *pttbbs.FavFile
	info   *pttbbs.UserInfoCache
	login  *pttbbs.LoginAttempt
	comm   bbs.UserCommentRecord
	boards []bbs.BoardRecord
	users  []bbs.UserRecord
	favs   []bbs.FavoriteRecord
	arts   []bbs.ArticleRecord
}

func (w *world) close() {
	if w.mem != nil {
		w.mem.Close()
	}
}

// call is made by thread k.
type call struct {
	name  string
	run   func(w *world, k int) (interface{}, error)
	write bool           // changes files
	all   bool           // looks at what others may change
	files bool           // has to do with files
	long  bool           // has to do with much: goes together with others of this kind
	prep  func(w *world) // makes what the threads share
}

const password = "my pass"

func pattern(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*seed + i/7 + seed)
	}
	return b
}

// arg is an argument: the first is used by all threads, thread k uses number k+1 as well.
type arg [4][]byte

func (a *arg) of(k int) []byte  { return a[k] }
func (a *arg) str(k int) string { return string(a[k]) }

func four(f func(i int) string) *arg {
	a := &arg{}
	for i := range a {
		a[i] = []byte(f(i))
	}
	return a
}

func filled(n, seed int, fields ...interface{}) *arg {
	return four(func(i int) string {
		b := pattern(n, seed+2*i)
		for j := 0; j < len(fields); j += 2 {
			copy(b[fields[j].(int):], fields[j+1].(func(int) string)(i))
		}
		return string(b)
	})
}

func name(s string) func(int) string {
	return func(i int) string { return fmt.Sprintf("%s%d\x00", s, i) }
}

func hash(i int) string {
	h, _ := des.Crypt([]byte(password), salt.str(i))
	return h + "\x00"
}

var (
	salt       = four(func(i int) string { return []string{"ab", "./", "zz", "A9"}[i] })
	userBytes  = filled(512, 5, 4, name("tester"), 4+13+20+24, hash)
	boardBytes = filled(256, 3, 0, name("board"))
	artBytes   = filled(128, 9, 0, name("M.1.A.00"))
	infoBytes  = filled(3484, 11)
	formosa    = filled(248, 7)
	favBytes   = four(func(i int) string {
		return "\x23\x0d\x02\x00\x01\x01\x01\x01\x01" + string([]byte{byte(i)}) + "\x00\x00\x00\x00\x00\x5f\x00\x00\x00\x01\x03\x01\x01\x02\x01\x01\xa4\xa4\xa4\xe5" + strings.Repeat("\x00", 45) + "\x01\x01\x05\x00\x00\x00\x00\x00\x00\x5f\x00\x00\x00\x01\x01\x00\x00\x00\x01\x01\x02\x00\x00\x00\x00\x00\x00\x5f\x00\x00\x00\x01"
	})
	comment = four(func(i int) string {
		return fmt.Sprintf("\x1b[1;37m\xb1\xc0 \x1b[33malice%d\x1b[m\x1b[33m: text %d\x1b[m 05/1%d 01:0%d", i, i, i, i)
	})
	bad = four(func(i int) string {
		return fmt.Sprintf("-tester%d     [01/0%d/2020 03:04:05 Thu] ?@example%d.org", i, i+1, i)
	})
	recent = four(func(i int) string { return fmt.Sprintf("01/0%d/2020 03:04:05 example%d.org", i+1, i) })
	big5   = four(func(i int) string { return "\xa4\xa4\xa4\xe5 text \xb1" + string([]byte{byte(0xc0 + i)}) + "\xff\x80" })
	utf8   = four(func(i int) string { return []string{"中文 text 推 ✓", "推 文", "text", "✓"}[i] })
	cstr   = four(func(i int) string { return fmt.Sprintf("text%d\x00more", i) })

	key      = []byte(password)
	treasure = []string{"D1", "D2"}
)

var cacheSettings = pttbbs.MemoryMappingSetting{AlignmentBytes: 4, MaxUsers: 10, IDLen: 12, UseCoolDown: true, HashBits: 4}

// setup makes the home.
func setup(home string) {
	(&ops.World{Home: home}).Setup(ops.Start{Arts: 3, Brds: 0})
	ops.Rich(home, 0)
	for _, b := range []string{"w0", "w1", "w2"} {
		must(pb.MakeBoard(home, b))
		must(os.WriteFile(pb.DirPath(home, b), append(pb.N(1).Bytes(), pb.N(2).Bytes()...), 0644))
		must(os.WriteFile(pb.ArticlePath(home, b, ops.ArticleName), []byte("article of "+b+"\n"), 0644))
		must(os.MkdirAll(filepath.Join(home, "home", "w", b+"user"), 0755))
		must(os.WriteFile(filepath.Join(home, "home", "w", b+"user", "buf.3"), []byte("draft of "+b), 0644))
	}
	for i := 0; i < 3; i++ {
		must(os.WriteFile(filepath.Join(home, fmt.Sprintf("boards%d", i)), append(pb.BoardBytes(1), pb.BoardBytes(2)...), 0644))
	}
	must(os.WriteFile(filepath.Join(home, "memory"), pattern(1<<17, 13), 0644))
	for i := 0; i < 3; i++ {
		must(os.WriteFile(filepath.Join(home, fmt.Sprintf("memory%d", i)), pattern(5000, 13+2*i), 0644))
	}
	// files with something wrong
	must(os.WriteFile(filepath.Join(home, "short"), pattern(3, 5), 0644))
	must(os.WriteFile(filepath.Join(home, "junk"), []byte("-junk\n"+string(pattern(77, 5))), 0644))
	// long files, which take long to read
	must(pb.MakeBoard(home, "long"))
	var dir, users, boards, formosa []byte
	for i := 0; i < many; i++ {
		dir = append(dir, pb.N(i).Bytes()...)
		users = append(users, userBytes[i%4]...)
		boards = append(boards, boardBytes[i%4]...)
		formosa = append(formosa, pattern(248, 7+2*i)...)
	}
	must(os.WriteFile(pb.DirPath(home, "long"), dir, 0644))
	must(os.WriteFile(filepath.Join(home, "longusers"), users, 0644))
	must(os.WriteFile(filepath.Join(home, "longboards"), boards, 0644))
	must(os.WriteFile(filepath.Join(home, "longformosa"), formosa, 0644))
	must(os.WriteFile(filepath.Join(home, "longbad"), []byte(strings.Repeat(bad.str(0)+"\n"+bad.str(1)+"\n", 2*many)), 0644))
	must(os.WriteFile(filepath.Join(home, "longrecent"), []byte(strings.Repeat(recent.str(0)+"\n"+recent.str(1)+"\n", 2*many)), 0644))
	must(os.WriteFile(pb.ArticlePath(home, "long", "M.1.A.001"), []byte(strings.Repeat(comment.str(0)+"\n"+comment.str(1)+"\nother text\n", 30)), 0644))
	for k := 0; k < 3; k++ {
		must(os.WriteFile(pb.ArticlePath(home, "long", fmt.Sprintf("M.1.A.01%d", k)), []byte(strings.Repeat(fmt.Sprintf("line %d\n", k), 9000)), 0644))
		must(os.WriteFile(filepath.Join(home, "home", "w", fmt.Sprintf("w%duser", k), "buf.7"), []byte(strings.Repeat(fmt.Sprintf("line %d\n", k), 9000)), 0644))
	}
}

// many is the number of records in a long file.
const many = 70

func attach(home string, l ...call) *world {
	w := &world{home: home}
	var err error
	w.DB, w.c, err = pb.Open(home)
	must(err)
	for _, c := range l {
		if c.prep != nil {
			c.prep(w)
		}
	}
	return w
}

func user(u bbs.UserRecord) interface{} {
	return []interface{}{u.UserID(), u.HashedPassword(), u.Nickname(), u.RealName(), u.NumLoginDays(), u.NumPosts(), u.Money(), u.LastLogin(), u.LastHost(), u.UserFlag()}
}

func board(b bbs.BoardRecord) interface{} {
	l := []interface{}{b.BoardID(), b.Title(), b.IsClass(), b.ClassID(), b.BM()}
	if s, ok := b.(bbs.BoardRecordSettings); ok {
		l = append(l, s.IsHide(), s.IsPostMask(), s.IsAnonymous(), s.IsNoCredit(), s.IsVoteBoard(), s.IsOver18(), s.IsNoReply(), s.IsBMMaskContent())
	}
	if s, ok := b.(bbs.BoardRecordInfo); ok {
		l = append(l, s.GetPostLimitPosts(), s.GetPostLimitLogins(), s.GetPostLimitBadPost())
	}
	return l
}

func article(a bbs.ArticleRecord) interface{} {
	return []interface{}{a.Filename(), a.Modified(), a.Recommend(), a.Date(), a.Title(), a.Money(), a.Owner()}
}

func favorites(l []bbs.FavoriteRecord) interface{} {
	var out []interface{}
	for _, f := range l {
		x := []interface{}{f.Type(), f.Title(), f.BoardID()}
		if f.Type() == bbs.FavoriteTypeFolder {
			x = append(x, favorites(f.Records()))
		}
		out = append(out, x)
	}
	return out
}

func remark(c bbs.UserCommentRecord) interface{} {
	return []interface{}{c.CommentOrder(), c.CommentTime(), c.Owner(), c.IP(), c.Comment(), c.String(), c.BoardID(), c.Filename()}
}

func calls() []call {
	var l []call
	type run = func(w *world, k int) (interface{}, error)
	// each thread uses what the others use, then something of its own
	pure := func(name string, f func(k int) (interface{}, error)) {
		l = append(l, call{name: name, run: func(_ *world, k int) (interface{}, error) {
			x, err := f(0)
			if err != nil {
				return nil, err
			}
			y, err := f(k + 1)
			return []interface{}{x, y}, err
		}})
	}
	shared := func(name string, prep func(w *world), f run) { l = append(l, call{name: name, run: f, prep: prep}) }
	read := func(name string, f run) { l = append(l, call{name: name, run: f, files: true}) }
	list := func(name string, f run) { l = append(l, call{name: name, run: f, files: true, all: true}) }
	write := func(name string, f run) { l = append(l, call{name: name, run: f, files: true, write: true}) }
	ok := func(x interface{}) (interface{}, error) { return x, nil }

	pure("Big5ToUtf8", func(k int) (interface{}, error) { return ok(bbs.Big5ToUtf8(big5.of(k))) })
	pure("Utf8ToBig5", func(k int) (interface{}, error) { return ok(bbs.Utf8ToBig5(utf8.str(k))) })
	pure("Cstr", func(k int) (interface{}, error) {
		return ok([]interface{}{bbs.CstrToString(cstr.of(k)), bbs.CstrToBytes(cstr.of(k))})
	})
	pure("FilterStringANSI", func(k int) (interface{}, error) { return ok(bbs.FilterStringANSI(comment.str(k))) })
	pure("Fcrypt", func(k int) (interface{}, error) { return crypt.Fcrypt(key, salt.of(k)) })
	pure("decode and encode a user", func(k int) (interface{}, error) {
		u, err := pttbbs.UnmarshalUserec(userBytes.of(k))
		if err != nil {
			return nil, err
		}
		b, err := u.MarshalBinary()
		return []interface{}{user(u), b}, err
	})
	pure("decode and encode a board", func(k int) (interface{}, error) {
		u, err := pttbbs.UnmarshalBoardHeader(boardBytes.of(k))
		if err != nil {
			return nil, err
		}
		b, err := u.MarshalBinary()
		return []interface{}{board(u), b}, err
	})
	pure("make a board", func(k int) (interface{}, error) {
		u := pttbbs.NewBoardHeader()
		u.SetBoardID("id")
		u.SetTitle(utf8.str(k))
		b, err := u.MarshalBinary()
		return []interface{}{board(u), b}, err
	})
	pure("decode and encode an article record", func(k int) (interface{}, error) {
		u, err := pttbbs.NewFileHeaderWithByte(artBytes.of(k))
		if err != nil {
			return nil, err
		}
		b, err := u.MarshalToByte()
		return []interface{}{article(u), b}, err
	})
	pure("make an article record", func(k int) (interface{}, error) {
		u := pttbbs.NewFileHeader()
		u.SetFilename("M.1.A.002")
		u.SetTitle(utf8.str(k))
		u.SetOwner("owner")
		u.SetDate("1/02")
		u.SetModified(time.Unix(1500000000, 0))
		u.AddRecommend(3)
		b, err := u.MarshalToByte()
		return []interface{}{article(u), b}, err
	})
	pure("decode and encode favorites", func(k int) (interface{}, error) {
		f, err := pttbbs.UnmarshalFavFile(favBytes.of(k))
		if err != nil {
			return nil, err
		}
		b, err := f.MarshalBinary()
		return []interface{}{f, b}, err
	})
	pure("decode and encode an online user", func(k int) (interface{}, error) {
		u := pttbbs.UnmarshalUserInfo(infoBytes.of(k))
		return []interface{}{u, u.MarshalBinary()}, nil
	})
	pure("decode and encode a login attempt", func(k int) (interface{}, error) {
		u := &pttbbs.LoginAttempt{}
		if err := u.UnmarshalText(bad.of(k)); err != nil {
			return nil, err
		}
		b, err := u.MarshalText()
		return []interface{}{u, u.IsUnderBbsHome(), b}, err
	})
	pure("decode a login", func(k int) (interface{}, error) { return pttbbs.NewLoginRecentRecord(recent.str(k)) })
	pure("decode a FormosaBBS record", func(k int) (interface{}, error) { return formosabbs.NewFomosaBBSFileHeaderWithByte(formosa.of(k)) })
	pure("parse a comment", func(k int) (interface{}, error) {
		a := pttbbs.NewFileHeader()
		a.SetFilename("M.1.A.003")
		c, err := bbs.NewUserCommentRecord(3, bbs.FilterStringANSI(comment.str(k)), "board", a)
		if err != nil {
			return nil, err
		}
		return remark(c), nil
	})
	pure("paths", func(k int) (interface{}, error) {
		var out []string
		n := fmt.Sprint(k)
		var err error
		add := func(p string, e error) {
			out = append(out, p)
			if e != nil {
				err = e
			}
		}
		add(pttbbs.GetPasswdsPath("/bbs"))
		add(pttbbs.GetBoardPath("/bbs"))
		add(pttbbs.GetLoginRecentPath("/bbs", "tester"+n))
		add(pttbbs.GetUserFavoritePath("/bbs", "tester"+n))
		add(pttbbs.GetUserDraftPath("/bbs", "tester"+n, "3"))
		add(pttbbs.GetUserMailPath("/bbs", "tester"+n, "M.1.A"+n))
		add(pttbbs.GetBoardNameFilePath("/bbs", "test"+n))
		add(pttbbs.GetBoardArticleFilePath("/bbs", "test"+n, "M.1.A"+n))
		add(pttbbs.GetBoardArticlesDirectoryPath("/bbs", "test"+n))
		add(pttbbs.GetBoardTreasuresDirectoryPath("/bbs", "test"+n, treasure[:1+k%2]))
		add(pttbbs.GetBoardTreasureFilePath("/bbs", "test"+n, treasure[:1+k%2], "M.1.A"+n))
		return out, err
	})

	// one object for all threads
	prepUser := func(w *world) {
		if w.user == nil {
			var err error
			w.user, err = pttbbs.UnmarshalUserec(userBytes[0])
			must(err)
		}
	}
	shared("look at a user", prepUser, func(w *world, k int) (interface{}, error) {
		b, err := w.user.MarshalBinary()
		return []interface{}{user(w.user), b}, err
	})
	shared("the right password of a user", prepUser, func(w *world, k int) (interface{}, error) { return nil, w.user.VerifyPassword(password) })
	shared("a wrong password of a user", prepUser, func(w *world, k int) (interface{}, error) { return nil, w.user.VerifyPassword("wrong") })
	shared("look at a board", func(w *world) {
		var err error
		w.board, err = pttbbs.UnmarshalBoardHeader(boardBytes[0])
		must(err)
	}, func(w *world, k int) (interface{}, error) {
		b, err := w.board.MarshalBinary()
		return []interface{}{board(w.board), b}, err
	})
	shared("look at an article record", func(w *world) {
		var err error
		w.art, err = pttbbs.NewFileHeaderWithByte(artBytes[0])
		must(err)
	}, func(w *world, k int) (interface{}, error) {
		b, err := w.art.MarshalToByte()
		return []interface{}{article(w.art), w.art.IsVotePost(), b}, err
	})
	shared("look at favorites", func(w *world) {
		var err error
		w.fav, err = pttbbs.UnmarshalFavFile(favBytes[0])
		must(err)
	}, func(w *world, k int) (interface{}, error) {
		b, err := w.fav.MarshalBinary()
		return []interface{}{w.fav, b}, err
	})
	shared("look at an online user", func(w *world) { w.info = pttbbs.UnmarshalUserInfo(infoBytes[0]) },
		func(w *world, k int) (interface{}, error) { return ok([]interface{}{w.info, w.info.MarshalBinary()}) })
	shared("look at a login attempt", func(w *world) {
		w.login = &pttbbs.LoginAttempt{}
		must(w.login.UnmarshalText(bad[0]))
	}, func(w *world, k int) (interface{}, error) {
		b, err := w.login.MarshalText()
		return []interface{}{w.login.IsUnderBbsHome(), b}, err
	})
	shared("look at a comment", func(w *world) {
		var err error
		w.comm, err = bbs.NewUserCommentRecord(3, "alice: text 05/15 01:06", "board", pttbbs.NewFileHeader())
		must(err)
	}, func(w *world, k int) (interface{}, error) { return ok(remark(w.comm)) })
	l = append(l, call{name: "look at what was listed", files: true, prep: func(w *world) {
		var err error
		w.boards, err = w.ReadBoardRecords()
		must(err)
		w.users, err = w.ReadUserRecords()
		must(err)
		w.favs, err = w.ReadUserFavoriteRecords("tester")
		must(err)
		w.arts, err = w.ReadBoardArticleRecordsFile("test")
		must(err)
	}, run: func(w *world, k int) (interface{}, error) {
		var out []interface{}
		for _, b := range w.boards {
			out = append(out, board(b))
		}
		for _, b := range w.users {
			out = append(out, user(b))
		}
		for _, b := range w.arts {
			out = append(out, article(b))
		}
		return append(out, favorites(w.favs)), nil
	}})
	l = append(l, call{name: "look into the shared memory", files: true, prep: func(w *world) {
		var err error
		s := cacheSettings
		w.mem, err = pttbbs.NewCache("file:"+filepath.Join(w.home, "memory"), &s)
		must(err)
	}, run: func(w *world, k int) (interface{}, error) {
		out := []interface{}{w.mem.Version()}
		for u := 0; u < 10; u += 3 {
			out = append(out, w.mem.UserID(u), w.mem.Money(u), w.mem.UserInfo(u))
		}
		return out, nil
	}})

	// one database for all threads
	read("paths of a driver", func(w *world, k int) (interface{}, error) {
		a, err := w.c.GetUserRecordsPath()
		if err != nil {
			return nil, err
		}
		b, err := w.c.GetBoardArticleRecordsPath("test")
		if err != nil {
			return nil, err
		}
		c, err := w.c.GetUserDraftPath("tester", "3")
		return []string{strings.TrimPrefix(a, w.home), strings.TrimPrefix(b, w.home), strings.TrimPrefix(c, w.home)}, err
	})
	read("new article record", func(w *world, k int) (interface{}, error) {
		return w.c.NewArticleRecord("M.1.A.004", "owner", "1/02", utf8.str(0))
	})
	read("new board record", func(w *world, k int) (interface{}, error) {
		return w.NewBoardRecord(map[string]interface{}{"board_id": "newboard", "title": utf8.str(0)})
	})
	list("users", func(w *world, k int) (interface{}, error) { return w.ReadUserRecords() })
	list("favorites", func(w *world, k int) (interface{}, error) { return w.ReadUserFavoriteRecords("tester") })
	list("boards", func(w *world, k int) (interface{}, error) { return w.ReadBoardRecords() })
	read("articles", func(w *world, k int) (interface{}, error) { return w.ReadBoardArticleRecordsFile("test") })
	read("treasures", func(w *world, k int) (interface{}, error) { return w.ReadBoardTreasureRecordsFile("test", treasure) })
	read("article", func(w *world, k int) (interface{}, error) { return w.ReadBoardArticleFile("one", "M.100.A.000") })
	read("treasure", func(w *world, k int) (interface{}, error) {
		return w.ReadBoardTreasureFile("test", treasure[:1], "M.5.A.005")
	})
	list("articles of a user", func(w *world, k int) (interface{}, error) { return w.GetUserArticleRecordFile("commenter") })
	list("comments of a user", func(w *world, k int) (interface{}, error) { return w.GetUserCommentRecordFile("commenter") })
	read("draft", func(w *world, k int) (interface{}, error) {
		d, err := w.GetUserDrafts("tester", "3")
		if err != nil {
			return nil, err
		}
		return d.Raw(), nil
	})
	read("recent logins", func(w *world, k int) (interface{}, error) {
		return pttbbs.OpenLoginRecentFile(filepath.Join(w.home, "recent"))
	})
	read("bad logins", func(w *world, k int) (interface{}, error) {
		return pttbbs.OpenBadLoginFile(filepath.Join(w.home, "logins.bad"))
	})
	read("online users", func(w *world, k int) (interface{}, error) {
		return pttbbs.OpenUserInfoCache(filepath.Join(w.home, "uinfo"))
	})
	read("FormosaBBS records", func(w *world, k int) (interface{}, error) {
		return formosabbs.OpenFormosaBBSFileHeaderFile(filepath.Join(w.home, "formosa"))
	})
	read("open a database", func(w *world, k int) (interface{}, error) {
		d, err := bbs.Open("pttbbs", w.home)
		if err != nil {
			return nil, err
		}
		return d.ReadBoardArticleFile("one", "M.100.A.000")
	})
	read("open the shared memory", func(w *world, k int) (interface{}, error) {
		s := cacheSettings
		c, err := pttbbs.NewCache("file:"+filepath.Join(w.home, "memory"), &s)
		if err != nil {
			return nil, err
		}
		defer c.Close()
		return c.Version(), nil
	})
	read("open a mapped file", func(w *world, k int) (interface{}, error) {
		c, err := cache.OpenMmap(filepath.Join(w.home, fmt.Sprintf("memory%d", k)))
		if err != nil {
			return nil, err
		}
		b := append([]byte{}, c.Bytes()...)
		return b, c.Close()
	})

	// each thread changes something else
	id := func(k int) string { return fmt.Sprintf("w%d", k) }
	bytesOf := func(p string, err error) (interface{}, error) {
		if err != nil {
			return nil, err
		}
		return os.ReadFile(p)
	}
	write("add an article record", func(w *world, k int) (interface{}, error) {
		a, err := w.c.NewArticleRecord("M.1.A.004", "owner"+id(k), "1/02", utf8.str(0))
		if err != nil {
			return nil, err
		}
		return bytesOf(pb.DirPath(w.home, id(k)), w.AddArticleRecordFileRecord(id(k), a))
	})
	write("update an article record", func(w *world, k int) (interface{}, error) {
		a, err := w.c.NewArticleRecord("M.1.A.005", "owner"+id(k), "1/02", utf8.str(0))
		if err != nil {
			return nil, err
		}
		return nil, w.c.UpdateArticleRecordFileRecord(pb.DirPath(w.home, id(k)), 0, a)
	})
	write("add a board", func(w *world, k int) (interface{}, error) {
		b := pttbbs.NewBoardHeader()
		b.SetBoardID(id(k))
		p := filepath.Join(w.home, fmt.Sprintf("boards%d", k))
		return nil, pttbbs.AppendBoardHeaderFileRecord(p, b)
	})
	write("remove a board", func(w *world, k int) (interface{}, error) {
		return nil, pttbbs.RemoveBoardHeaderFileRecord(filepath.Join(w.home, fmt.Sprintf("boards%d", k)), 0)
	})
	write("write an article", func(w *world, k int) (interface{}, error) {
		return nil, w.WriteBoardArticleFile(id(k), ops.ArticleName+"x", []byte("new content of "+id(k)))
	})
	write("append to an article", func(w *world, k int) (interface{}, error) {
		return nil, w.AppendBoardArticleFile(id(k), ops.ArticleName, []byte("more of "+id(k)))
	})
	write("write a draft", func(w *world, k int) (interface{}, error) {
		return nil, w.WriteUserDraft(id(k)+"user", "4", bbs.NewUserDraft([]byte("a draft of "+id(k))))
	})
	write("delete a draft", func(w *world, k int) (interface{}, error) { return nil, w.DeleteUserDraft(id(k)+"user", "3") })
	write("create an article", func(w *world, k int) (interface{}, error) {
		return w.CreateArticleRecord(id(k), "owner", "1/02", utf8.str(0))
	})
	write("make a mapped file", func(w *world, k int) (interface{}, error) {
		c, err := cache.CreateMmap(filepath.Join(w.home, fmt.Sprintf("new%d", k)), 5000+int64(k))
		if err != nil {
			return nil, err
		}
		return len(c.Bytes()), c.Close()
	})
	// what is refused: all the branches which end in an error, and those where there is nothing
	type tries struct {
		w   *world
		out []interface{}
	}
	try := func(t *tries, v interface{}, err error) {
		s := ""
		if err != nil {
			s = err.Error()
			if t.w != nil {
				s = strings.ReplaceAll(s, t.w.home, "")
			}
			s = strings.Map(func(r rune) rune {
				if r >= '0' && r <= '9' {
					return '#'
				}
				return r
			}, s)
			v = nil
		}
		t.out = append(t.out, v, s)
	}
	letter := func(k int) string { return string(rune('p' + k)) }
	pure("what is refused without files", func(k int) (interface{}, error) {
		t := &tries{}
		n := letter(k)
		for _, s := range []string{"", n, "a\x00", "::", "\x80\x80"} {
			b, err := crypt.Fcrypt(key, []byte(s))
			try(t, b, err)
		}
		for _, m := range []int{0, 1, 100, 1000} {
			b := append([]byte(n), pattern(m, 3+2*k)...)
			a, err := pttbbs.NewFileHeaderWithByte(append(b, artBytes.of(k)...))
			try(t, a, err)
			f, err := pttbbs.UnmarshalFavFile(b)
			try(t, f, err)
			g, err := pttbbs.UnmarshalFavFile(favBytes.of(k)[:5+m%60])
			try(t, g, err)
		}
		for _, s := range []string{"", n, "-" + n, bad.str(k)[:20+k], "-tester" + n + "  [0a/01/2020 03:04:05 Thu] ?@example.org", "x" + bad.str(k)} {
			u := &pttbbs.LoginAttempt{}
			try(t, nil, u.UnmarshalText([]byte(s)))
			r, err := pttbbs.NewLoginRecentRecord(s)
			try(t, r, err)
		}
		a := pttbbs.NewFileHeader()
		a.SetFilename("M.1.A.003")
		for _, s := range []string{"", n, "alice" + n + " text", "alice: text 99/99 99:99 " + n, "alice: text 02/30 01:06", "\x1b["} {
			c, err := bbs.NewUserCommentRecord(3, s, "board", a)
			try(t, c, err)
		}
		a.SetFilename("other" + n)
		c, err := bbs.NewUserCommentRecord(3, "alice: text 05/15 01:06", "board", a)
		try(t, c == nil, err)
		for _, s := range []string{"", "none" + n} {
			d, err := bbs.Open(s, "file:///none")
			try(t, d == nil, err)
		}
		d, err := bbs.Open("pttbbs", "none"+n)
		try(t, d == nil, err)
		for _, s := range []string{"", "none:" + n, "file:", "shmkey:", "shmkey:x" + n, n} {
			x := cacheSettings
			m, err := pttbbs.NewCache(s, &x)
			try(t, m == nil, err)
		}
		for _, s := range []string{"", "x" + n} {
			for _, f := range []func(s string) (string, error){
				func(s string) (string, error) { return pttbbs.GetLoginRecentPath("/none", s) },
				func(s string) (string, error) { return pttbbs.GetUserFavoritePath("/none", s) },
				func(s string) (string, error) { return pttbbs.GetUserDraftPath("/none", s, s) },
				func(s string) (string, error) { return pttbbs.GetUserMailPath("/none", s, s) },
				func(s string) (string, error) { return pttbbs.GetBoardNameFilePath("/none", s) },
				func(s string) (string, error) { return pttbbs.GetBoardArticleFilePath("/none", s, s) },
				func(s string) (string, error) { return pttbbs.GetBoardArticlesDirectoryPath("/none", s) },
				func(s string) (string, error) { return pttbbs.GetBoardTreasuresDirectoryPath("/none", s, nil) },
				func(s string) (string, error) { return pttbbs.GetBoardTreasureFilePath("/none", s, nil, s) },
			} {
				p, err := f(s)
				try(t, p, err)
			}
		}
		u := &pttbbs.Userec{}
		try(t, nil, u.VerifyPassword(n))
		h := pttbbs.NewFileHeader()
		h.SetTitle(strings.Repeat(utf8.str(k), 100))
		h.SetOwner(strings.Repeat("owner"+n, 100))
		h.SetFilename(strings.Repeat("M"+n, 100))
		b, err := h.MarshalToByte()
		try(t, b, err)
		return t.out, nil
	})
	read("what cannot be read", func(w *world, k int) (interface{}, error) {
		t := &tries{w: w}
		for _, n := range []string{letter(0), letter(k + 1)} {
			no := "none" + n
			v, err := w.ReadUserFavoriteRecords(no)
			try(t, len(v), err)
			a, err := w.ReadBoardArticleRecordsFile(no)
			try(t, len(a), err)
			a, err = w.ReadBoardTreasureRecordsFile(no, treasure)
			try(t, len(a), err)
			b, err := w.ReadBoardArticleFile(no, no)
			try(t, b, err)
			b, err = w.ReadBoardArticleFile("test", no)
			try(t, b, err)
			b, err = w.ReadBoardTreasureFile("test", treasure, no)
			try(t, b, err)
			c, err := w.GetBoardUserCommentRecord(no, no)
			try(t, len(c), err)
			f := pttbbs.NewFileHeader()
			f.SetFilename(no)
			c, err = w.GetBoardArticleCommentRecords("test", f)
			try(t, len(c), err)
			d, err := w.GetUserDrafts(no, "3")
			try(t, d == nil, err)
			d, err = w.GetUserDrafts("tester", no)
			try(t, d == nil, err)
			x, err := w.NewBoardRecord(map[string]interface{}{"title": no})
			try(t, x == nil, err)
			x, err = w.NewBoardRecord(nil)
			try(t, x == nil, err)
			y, err := w.c.NewArticleRecord("", "", "", "")
			try(t, y == nil, err)
			y, err = w.c.(*pttbbs.Connector).NewArticleRecordWithMap(map[string]interface{}{"title": no})
			try(t, y == nil, err)
			p := filepath.Join(w.home, no)
			for _, p := range []string{p, w.home, filepath.Join(w.home, "short"), filepath.Join(w.home, "junk")} {
				u, err := pttbbs.OpenUserecFile(p)
				try(t, len(u), err)
				bh, err := pttbbs.OpenBoardHeaderFile(p)
				try(t, len(bh), err)
				fh, err := pttbbs.OpenFileHeaderFile(p)
				try(t, len(fh), err)
				ff, err := pttbbs.OpenFavFile(p)
				try(t, ff, err)
				bl, err := pttbbs.OpenBadLoginFile(p)
				try(t, len(bl), err)
				lr, err := pttbbs.OpenLoginRecentFile(p)
				try(t, len(lr), err)
				ui, err := pttbbs.OpenUserInfoCache(p)
				try(t, len(ui), err)
				fo, err := formosabbs.OpenFormosaBBSFileHeaderFile(p)
				try(t, len(fo), err)
				m, err := cache.OpenMmap(p)
				try(t, m == nil, err)
				if err == nil {
					m.Close()
				}
				s := cacheSettings
				mem, err := pttbbs.NewCache("file:"+p, &s)
				try(t, mem == nil, err)
				if err == nil {
					mem.Close()
				}
			}
			e, err := bbs.Open("none", w.home)
			try(t, e == nil, err)
		}
		return t.out, nil
	})
	write("what cannot be written", func(w *world, k int) (interface{}, error) {
		t := &tries{w: w}
		for _, n := range []string{letter(0), letter(k + 1)} {
			no := "none" + n
			try(t, nil, w.DeleteUserDraft(no, "3"))
			try(t, nil, w.DeleteUserDraft("tester", no))
			try(t, nil, w.WriteUserDraft(no, "3", bbs.NewUserDraft([]byte(no))))
			try(t, nil, w.WriteBoardArticleFile(no, no, []byte(no)))
			try(t, nil, w.AppendBoardArticleFile(no, no, []byte(no)))
			a, err := w.CreateArticleRecord(no, "owner", "1/02", no)
			try(t, a == nil, err)
			h := pttbbs.NewFileHeader()
			h.SetFilename(no)
			try(t, nil, w.AddArticleRecordFileRecord(no, h))
			try(t, nil, w.c.UpdateArticleRecordFileRecord(pb.DirPath(w.home, no), 0, h))
			try(t, nil, w.c.UpdateArticleRecordFileRecord(pb.DirPath(w.home, id(k)), 1000, h))
			try(t, nil, pttbbs.RemoveBoardHeaderFileRecord(filepath.Join(w.home, no), 0))
			try(t, nil, pttbbs.RemoveBoardHeaderFileRecord(filepath.Join(w.home, fmt.Sprintf("boards%d", k)), 1000))
			try(t, nil, pttbbs.AppendBoardHeaderFileRecord(filepath.Join(w.home, no, "x"), pttbbs.NewBoardHeader()))
			try(t, nil, w.UpdateBoardRecord(0, nil))
			try(t, nil, w.RemoveBoardRecord(0))
			m, err := cache.CreateMmap(filepath.Join(w.home, no, "x"), 10)
			try(t, m == nil, err)
		}
		return t.out, nil
	})
	// the same with much more than usual
	short := len(l)
	sized := func(a *arg) *arg {
		return four(func(i int) string {
			out := ""
			for n, k := range []int{40, 400, 4000} {
				out += strings.Repeat(string(a[(i+n)%4])+fmt.Sprint(i), k/len(a[0])+n)
				if i == 3 {
					break
				}
			}
			return out
		})
	}
	lbig5, lutf8, lcomment := sized(big5), sized(utf8), sized(comment)
	lcstr := four(func(i int) string { return strings.Repeat(string(rune('a'+i)), 5000) + "\x00" + "more" })
	lkey := four(func(i int) string { return strings.Repeat(string(rune('a'+i)), []int{9, 100, 300, 5000}[i]) })
	lfav := four(func(i int) string {
		out := "\x23\x0d" + string([]byte{100, 1, 30, 20})
		for n := 0; n < 356; n++ {
			out += "\x01\x01" + string([]byte{byte(n + i)}) + "\x00\x00\x00\x00\x00\x5f\x00\x00\x00\x01"
		}
		for n := 0; n < 30; n++ {
			out += "\x03\x01\x01"
		}
		for n := 0; n < 20; n++ {
			out += "\x02\x01\x01\xa4\xa4\xa4\xe5" + strings.Repeat("\x00", 45)
		}
		for n := 0; n < 20; n++ {
			out += "\x00\x00\x00\x00"
		}
		return out
	})
	pure("Big5ToUtf8 of long texts", func(k int) (interface{}, error) { return ok(bbs.Big5ToUtf8(lbig5.of(k))) })
	pure("Utf8ToBig5 of long texts", func(k int) (interface{}, error) { return ok(bbs.Utf8ToBig5(lutf8.str(k))) })
	pure("Cstr of long texts", func(k int) (interface{}, error) {
		return ok([]interface{}{bbs.CstrToString(lcstr.of(k)), bbs.CstrToBytes(lcstr.of(k))})
	})
	pure("FilterStringANSI of long texts", func(k int) (interface{}, error) { return ok(bbs.FilterStringANSI(lcomment.str(k))) })
	pure("Fcrypt of long passwords", func(k int) (interface{}, error) { return crypt.Fcrypt(lkey.of(k), salt.of(k)) })
	pure("long paths", func(k int) (interface{}, error) {
		n := strings.Repeat(fmt.Sprint(k), 300)
		a, err := pttbbs.GetBoardTreasuresDirectoryPath("/bbs"+n, "test"+n, strings.Split(strings.Repeat("D"+fmt.Sprint(k)+",", 60), ","))
		if err != nil {
			return nil, err
		}
		b, err := pttbbs.GetUserDraftPath("/bbs"+n, "tester"+n, n)
		if err != nil {
			return nil, err
		}
		c, err := pttbbs.GetBoardArticleFilePath("/bbs"+n, "test"+n, n)
		return []string{a, b, c}, err
	})
	pure("decode and encode long favorites", func(k int) (interface{}, error) {
		f, err := pttbbs.UnmarshalFavFile(lfav.of(k))
		if err != nil {
			return nil, err
		}
		b, err := f.MarshalBinary()
		return []interface{}{len(f.Folder.FavItems), b}, err
	})
	pure("records with long texts", func(k int) (interface{}, error) {
		u := pttbbs.NewFileHeader()
		u.SetFilename("M.1.A.002")
		u.SetTitle(lutf8.str(k)[:60])
		u.SetOwner("owner")
		x, err := u.MarshalToByte()
		if err != nil {
			return nil, err
		}
		v := pttbbs.NewBoardHeader()
		v.SetBoardID("id")
		v.SetTitle(lutf8.str(k)[:40])
		y, err := v.MarshalBinary()
		return []interface{}{x, y}, err
	})
	pure("parse a long comment", func(k int) (interface{}, error) {
		a := pttbbs.NewFileHeader()
		a.SetFilename("M.1.A.003")
		c, err := bbs.NewUserCommentRecord(3, "alice: "+strings.Repeat(utf8.str(k), 200)+" 05/15 01:06", "board", a)
		if err != nil {
			return nil, err
		}
		return remark(c), nil
	})
	read("many articles", func(w *world, k int) (interface{}, error) { return w.ReadBoardArticleRecordsFile("long") })
	read("many users", func(w *world, k int) (interface{}, error) {
		return pttbbs.OpenUserecFile(filepath.Join(w.home, "longusers"))
	})
	read("many boards", func(w *world, k int) (interface{}, error) {
		return pttbbs.OpenBoardHeaderFile(filepath.Join(w.home, "longboards"))
	})
	read("many FormosaBBS records", func(w *world, k int) (interface{}, error) {
		return formosabbs.OpenFormosaBBSFileHeaderFile(filepath.Join(w.home, "longformosa"))
	})
	read("many bad logins", func(w *world, k int) (interface{}, error) {
		return pttbbs.OpenBadLoginFile(filepath.Join(w.home, "longbad"))
	})
	read("many recent logins", func(w *world, k int) (interface{}, error) {
		return pttbbs.OpenLoginRecentFile(filepath.Join(w.home, "longrecent"))
	})
	read("many comments", func(w *world, k int) (interface{}, error) {
		a := pttbbs.NewFileHeader()
		a.SetFilename("M.1.A.001")
		c, err := w.GetBoardArticleCommentRecords("long", a)
		var out []interface{}
		for _, x := range c {
			out = append(out, remark(x))
		}
		return out, err
	})
	read("a long article", func(w *world, k int) (interface{}, error) {
		return w.ReadBoardArticleFile("long", fmt.Sprintf("M.1.A.01%d", k))
	})
	read("a long draft", func(w *world, k int) (interface{}, error) {
		d, err := w.GetUserDrafts(id(k)+"user", "7")
		if err != nil {
			return nil, err
		}
		return d.Raw(), nil
	})
	write("write a long article", func(w *world, k int) (interface{}, error) {
		b := pattern(70000, 3+2*k)
		if err := w.WriteBoardArticleFile(id(k), ops.ArticleName+"y", b); err != nil {
			return nil, err
		}
		return bytesOf(pb.ArticlePath(w.home, id(k), ops.ArticleName+"y"), w.AppendBoardArticleFile(id(k), ops.ArticleName+"y", b))
	})
	write("write a long draft", func(w *world, k int) (interface{}, error) {
		return bytesOf(filepath.Join(w.home, "home", "w", id(k)+"user", "buf.5"), w.WriteUserDraft(id(k)+"user", "5", bbs.NewUserDraft(pattern(70000, 3+2*k))))
	})
	for i := short; i < len(l); i++ {
		l[i].long = true
	}
	return l
}
