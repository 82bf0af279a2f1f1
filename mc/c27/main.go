// C27: every database call reaches its driver faithfully.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/Ptt-official-app/go-bbs"

	"verifmc/kit"
)

const (
	writeBoard = 1 << iota
	writeArticle
	userArticle
	userComment
	userDraft
)

func main() {
	kit.Main(kit.Config{
		ID: "C27", Level: kit.ModelChecking,
		Rule: "a driver which is a function of its arguments and a plan: every method of the database × every set of optional interfaces × every assignment of an answer (right, error, file does not exist, empty) to every driver method it may use × the argument lists in the notes, alone, with the answer for one board or article only, and every call followed by every other call; distinct by call, interfaces and plan",
		Assumptions: []string{
			"which driver methods are called to read, how often and in which order is left to the database; what changes something is called exactly once",
			"UpdateBoardRecord, ReadBoardRecord and RemoveBoardRecord are not implemented and say so: when they report success, the driver has been called",
		},
		Body: body,
	})
}

// want is what a call must give.
type want struct {
	err    error  // a part of the driver's error, or errAny
	value  string // how the result looks
	writes []string
}

var errAny = errors.New("any error")

// call is one call of the database: run calls it, want says what must come out of a
// driver with a set of interfaces.
type call struct {
	name string
	uses []string // driver methods which it may use
	run  func(db *bbs.DB) (string, error)
	want func(d *driver, mask int) want
}

var (
	texts  = []string{"alice", "", "bob/../x", "看板 \x00"}
	lists  = [][]string{nil, {}, {"a"}, {"a", "b/c"}, {"", ""}}
	datas  = [][]byte{nil, {}, []byte("text\n"), []byte("\x00\xff\r\n\xb1\xc0")}
	argses = []map[string]interface{}{nil, {}, {"id": "x"}, {"id": "y", "title": "t", "n": 1, "l": []string{"a"}}}
)

// look shows a list of objects which must be passed on as they are.
func look[T any](l []T, f func(T) string) string {
	s := fmt.Sprint(len(l), ":")
	for _, x := range l {
		s += fmt.Sprintf("%T %q,", x, f(x))
	}
	return s
}

func lookUsers(l []bbs.UserRecord) string {
	return look(l, func(u bbs.UserRecord) string { return u.UserID() })
}
func lookFavs(l []bbs.FavoriteRecord) string {
	return look(l, func(u bbs.FavoriteRecord) string { return u.Title() })
}
func lookBoards(l []bbs.BoardRecord) string {
	return look(l, func(b bbs.BoardRecord) string { return b.BoardID() + "|" + b.Title() })
}
func lookArticle(a bbs.ArticleRecord) string {
	return a.Filename() + "|" + a.Owner() + "|" + a.Title() + "|" + a.Date()
}
func lookArticles(l []bbs.ArticleRecord) string { return look(l, lookArticle) }
func lookKept(l []bbs.UserArticleRecord) string {
	s := fmt.Sprint(len(l), ":")
	for _, k := range l {
		s += fmt.Sprintf("%q,", []string{k.BoardID(), k.ArticleID(), k.Owner(), k.Title()})
	}
	return s
}
func lookRemarks(l []bbs.UserCommentRecord) string {
	s := fmt.Sprint(len(l), ":")
	for _, k := range l {
		c := ""
		if _, ok := k.(*remark); ok {
			c = k.Comment()
		}
		for _, w := range []string{"first", "second", "third"} {
			if strings.Contains(k.Comment(), w) {
				c += w
			}
		}
		s += fmt.Sprintf("%q,", []string{k.BoardID(), k.Filename(), k.Owner(), fmt.Sprint(k.CommentOrder()), c})
	}
	return s
}

// reads makes a call which asks for a path and reads it.
func reads[T any](name, path, read string, enoent bool, pathArg string, run func(*bbs.DB) (T, error), value func(d *driver, path string) (T, error), show func(T) string) call {
	return call{name: name, uses: []string{path, read},
		run: func(db *bbs.DB) (string, error) {
			v, err := run(db)
			if err != nil {
				return "", err
			}
			return show(v), nil
		},
		want: func(d *driver, mask int) want {
			if err := d.fail(path, pathArg); err != nil {
				return want{err: err}
			}
			p := fmt.Sprintf("%s<%s>", path, pathArg)
			v, err := value(d, p)
			if err != nil && enoent && d.at(read, p) == missing {
				var none T
				return want{value: show(none)}
			}
			if err != nil {
				return want{err: err}
			}
			return want{value: show(v)}
		},
	}
}

// does makes a call which changes something: what and how is in the calls of the driver.
func does(name string, mask int, uses []string, run func(*bbs.DB) (string, error), w func(d *driver) want) call {
	return call{name: name, uses: uses, run: run, want: func(d *driver, have int) want {
		if have&mask == 0 {
			return want{err: errAny}
		}
		return w(d)
	}}
}

// calls are all calls with these arguments.
func calls(args func(n int) int) []call {
	u, b, f, o, t := texts[args(len(texts))], texts[args(len(texts))], texts[args(len(texts))], texts[args(len(texts))], texts[args(len(texts))]
	l := lists[args(len(lists))]
	data := datas[args(len(datas))]
	m := argses[args(len(argses))]
	brd := bbs.BoardRecord(&board{"new board", "here"})
	art := bbs.ArticleRecord(&article{"M.9.A.009", "carol", "new", "11/20", "here"})
	none := func(err error) (string, error) { return "", err }
	showBytes := func(x []byte) string { return fmt.Sprintf("%x", x) }
	path := func(method, arg string) string { return fmt.Sprintf("%s<%s>", method, arg) }
	viaPath := func(d *driver, method, arg string, write func(p string) string, wm string) want {
		if err := d.fail(method, arg); err != nil {
			return want{err: err}
		}
		a := write(path(method, arg))
		return want{err: d.fail(wm, a), writes: []string{wm + " " + a}}
	}
	listArticles := func(d *driver, b string) ([]bbs.ArticleRecord, error) {
		if err := d.fail("GetBoardArticleRecordsPath", q(b)); err != nil {
			return nil, err
		}
		p := path("GetBoardArticleRecordsPath", q(b))
		recs, err := d.ReadArticleRecordsFile(p)
		if err != nil && d.at("ReadArticleRecordsFile", p) == missing {
			return nil, nil
		}
		return recs, err
	}
	type rem struct {
		board, file, owner, text string
		order                    int
	}
	comments := func(d *driver, b string, a bbs.ArticleRecord) ([]rem, error) {
		if err := d.fail("GetBoardArticleFilePath", q(b, a.Filename())); err != nil {
			return nil, err
		}
		c, err := d.ReadBoardArticleFile(path("GetBoardArticleFilePath", q(b, a.Filename())))
		if err != nil || len(c) == 0 {
			return nil, err
		}
		return []rem{{b, a.Filename(), "alice", "first", 1}, {b, a.Filename(), "bob", "second", 2}, {b, a.Filename(), "alice", "third", 3}}, nil
	}
	boardComments := func(d *driver, b, u string) (out []rem, err error) {
		recs, err := listArticles(d, b)
		if err != nil {
			return nil, err
		}
		for _, a := range recs {
			if a.Filename() == "" {
				continue
			}
			cs, err := comments(d, b, a)
			if err != nil && strings.Contains(err.Error(), "no such file") {
				continue
			}
			if err != nil {
				return nil, err
			}
			for _, c := range cs {
				if c.owner == u {
					out = append(out, c)
				}
			}
		}
		return out, nil
	}
	showRem := func(l []rem) string {
		s := fmt.Sprint(len(l), ":")
		for _, k := range l {
			s += fmt.Sprintf("%q,", []string{k.board, k.file, k.owner, fmt.Sprint(k.order), k.text})
		}
		return s
	}
	boardIDs := func(d *driver) (ids []string, err error) {
		if err := d.fail("GetBoardRecordsPath", ""); err != nil {
			return nil, err
		}
		recs, err := d.ReadBoardRecordsFile(path("GetBoardRecordsPath", ""))
		for _, r := range recs {
			if id := r.BoardID(); id != "" && id != "ALLPOST" {
				ids = append(ids, id)
			}
		}
		return ids, err
	}

	return []call{
		reads("ReadUserRecords", "GetUserRecordsPath", "ReadUserRecordsFile", false, "",
			func(db *bbs.DB) ([]bbs.UserRecord, error) { return db.ReadUserRecords() },
			func(d *driver, p string) ([]bbs.UserRecord, error) { return d.ReadUserRecordsFile(p) }, lookUsers),
		reads("ReadUserFavoriteRecords", "GetUserFavoriteRecordsPath", "ReadUserFavoriteRecordsFile", false, q(u),
			func(db *bbs.DB) ([]bbs.FavoriteRecord, error) { return db.ReadUserFavoriteRecords(u) },
			func(d *driver, p string) ([]bbs.FavoriteRecord, error) { return d.ReadUserFavoriteRecordsFile(p) }, lookFavs),
		reads("ReadBoardRecords", "GetBoardRecordsPath", "ReadBoardRecordsFile", false, "",
			func(db *bbs.DB) ([]bbs.BoardRecord, error) { return db.ReadBoardRecords() },
			func(d *driver, p string) ([]bbs.BoardRecord, error) { return d.ReadBoardRecordsFile(p) }, lookBoards),
		reads("ReadBoardArticleRecordsFile", "GetBoardArticleRecordsPath", "ReadArticleRecordsFile", true, q(b),
			func(db *bbs.DB) ([]bbs.ArticleRecord, error) { return db.ReadBoardArticleRecordsFile(b) },
			func(d *driver, p string) ([]bbs.ArticleRecord, error) { return d.ReadArticleRecordsFile(p) }, lookArticles),
		reads("ReadBoardTreasureRecordsFile", "GetBoardTreasureRecordsPath", "ReadArticleRecordsFile", false, q(b, l),
			func(db *bbs.DB) ([]bbs.ArticleRecord, error) { return db.ReadBoardTreasureRecordsFile(b, l) },
			func(d *driver, p string) ([]bbs.ArticleRecord, error) { return d.ReadArticleRecordsFile(p) }, lookArticles),
		reads("ReadBoardArticleFile", "GetBoardArticleFilePath", "ReadBoardArticleFile", false, q(b, f),
			func(db *bbs.DB) ([]byte, error) { return db.ReadBoardArticleFile(b, f) },
			func(d *driver, p string) ([]byte, error) { return d.ReadBoardArticleFile(p) }, showBytes),
		reads("ReadBoardTreasureFile", "GetBoardTreasureFilePath", "ReadBoardArticleFile", false, q(b, l, f),
			func(db *bbs.DB) ([]byte, error) { return db.ReadBoardTreasureFile(b, l, f) },
			func(d *driver, p string) ([]byte, error) { return d.ReadBoardArticleFile(p) }, showBytes),

		does("NewBoardRecord", writeBoard, []string{"NewBoardRecord"},
			func(db *bbs.DB) (string, error) {
				r, err := db.NewBoardRecord(m)
				if err != nil {
					return "", err
				}
				return r.BoardID() + r.Title(), nil
			},
			func(d *driver) want {
				return want{err: d.fail("NewBoardRecord", q(m)), value: q(m) + "new"}
			}),
		does("AddBoardRecord", writeBoard, []string{"GetBoardRecordsPath", "AddBoardRecordFileRecord"},
			func(db *bbs.DB) (string, error) { return none(db.AddBoardRecord(brd)) },
			func(d *driver) want {
				return viaPath(d, "GetBoardRecordsPath", "", func(p string) string { return q(p, id(brd)) }, "AddBoardRecordFileRecord")
			}),
		does("CreateArticleRecord", writeArticle, []string{"CreateBoardArticleFilename", "NewArticleRecord"},
			func(db *bbs.DB) (string, error) {
				r, err := db.CreateArticleRecord(b, o, f, t)
				if err != nil {
					return "", err
				}
				return lookArticle(r), nil
			},
			func(d *driver) want {
				w := want{writes: []string{"CreateBoardArticleFilename " + q(b)}}
				if w.err = d.fail("CreateBoardArticleFilename", q(b)); w.err != nil {
					return w
				}
				name := "new file of " + q(b)
				w.err = d.fail("NewArticleRecord", q(name, o, f, t))
				w.value = name + "|" + o + "|" + t + "|" + f
				return w
			}),
		does("AddArticleRecordFileRecord", writeArticle, []string{"GetBoardArticleRecordsPath", "AddArticleRecordFileRecord"},
			func(db *bbs.DB) (string, error) { return none(db.AddArticleRecordFileRecord(b, art)) },
			func(d *driver) want {
				return viaPath(d, "GetBoardArticleRecordsPath", q(b), func(p string) string { return q(p, id(art)) }, "AddArticleRecordFileRecord")
			}),
		does("WriteBoardArticleFile", writeArticle, []string{"GetBoardArticleFilePath", "WriteBoardArticleFile"},
			func(db *bbs.DB) (string, error) { return none(db.WriteBoardArticleFile(b, f, data)) },
			func(d *driver) want {
				return viaPath(d, "GetBoardArticleFilePath", q(b, f), func(p string) string { return q(p, data) }, "WriteBoardArticleFile")
			}),
		does("AppendBoardArticleFile", writeArticle, []string{"GetBoardArticleFilePath", "AppendBoardArticleFile"},
			func(db *bbs.DB) (string, error) { return none(db.AppendBoardArticleFile(b, f, data)) },
			func(d *driver) want {
				return viaPath(d, "GetBoardArticleFilePath", q(b, f), func(p string) string { return q(p, data) }, "AppendBoardArticleFile")
			}),

		does("GetUserDrafts", userDraft, []string{"GetUserDraftPath", "ReadUserDraft"},
			func(db *bbs.DB) (string, error) {
				r, err := db.GetUserDrafts(u, t)
				if err != nil {
					return "", err
				}
				return string(r.Raw()), nil
			},
			func(d *driver) want {
				if err := d.fail("GetUserDraftPath", q(u, t)); err != nil {
					return want{err: err}
				}
				c, err := d.ReadUserDraft(path("GetUserDraftPath", q(u, t)))
				return want{err: err, value: string(c)}
			}),
		does("DeleteUserDraft", userDraft, []string{"GetUserDraftPath", "DeleteUserDraft"},
			func(db *bbs.DB) (string, error) { return none(db.DeleteUserDraft(u, t)) },
			func(d *driver) want {
				return viaPath(d, "GetUserDraftPath", q(u, t), func(p string) string { return q(p) }, "DeleteUserDraft")
			}),
		does("WriteUserDraft", userDraft, []string{"GetUserDraftPath", "WriteUserDraft"},
			func(db *bbs.DB) (string, error) { return none(db.WriteUserDraft(u, t, bbs.NewUserDraft(data))) },
			func(d *driver) want {
				return viaPath(d, "GetUserDraftPath", q(u, t), func(p string) string { return q(p, data) }, "WriteUserDraft")
			}),

		{name: "GetUserArticleRecordFile",
			uses: []string{"GetUserArticleRecordsPath", "ReadUserArticleRecordFile", "GetBoardRecordsPath", "ReadBoardRecordsFile", "GetBoardArticleRecordsPath", "ReadArticleRecordsFile"},
			run: func(db *bbs.DB) (string, error) {
				r, err := db.GetUserArticleRecordFile(u)
				if err != nil {
					return "", err
				}
				return lookKept(r), nil
			},
			want: func(d *driver, mask int) want {
				if mask&userArticle != 0 {
					if err := d.fail("GetUserArticleRecordsPath", q(u)); err != nil {
						return want{err: err}
					}
					recs, err := d.ReadUserArticleRecordFile(path("GetUserArticleRecordsPath", q(u)))
					if err != nil || len(recs) > 0 {
						return want{err: err, value: lookKept(recs)}
					}
				}
				ids, err := boardIDs(d)
				if err != nil {
					return want{err: err}
				}
				s, n := "", 0
				for _, id := range ids {
					recs, err := listArticles(d, id)
					if err != nil {
						return want{err: err}
					}
					for _, a := range recs {
						if a.Owner() == u {
							s += fmt.Sprintf("%q,", []string{id, a.Filename(), a.Owner(), a.Title()})
							n++
						}
					}
				}
				return want{value: fmt.Sprint(n, ":") + s}
			}},
		{name: "GetUserCommentRecordFile",
			uses: []string{"GetUserCommentRecordsPath", "ReadUserCommentRecordFile", "GetBoardRecordsPath", "ReadBoardRecordsFile", "GetBoardArticleRecordsPath", "ReadArticleRecordsFile", "GetBoardArticleFilePath", "ReadBoardArticleFile"},
			run: func(db *bbs.DB) (string, error) {
				r, err := db.GetUserCommentRecordFile(u)
				if err != nil {
					return "", err
				}
				return lookRemarks(r), nil
			},
			want: func(d *driver, mask int) want {
				if mask&userComment != 0 {
					if err := d.fail("GetUserCommentRecordsPath", q(u)); err != nil {
						return want{err: err}
					}
					recs, err := d.ReadUserCommentRecordFile(path("GetUserCommentRecordsPath", q(u)))
					if err != nil || len(recs) > 0 {
						return want{err: err, value: lookRemarks(recs)}
					}
				}
				ids, err := boardIDs(d)
				if err != nil {
					return want{err: err}
				}
				var all []rem
				for _, id := range ids {
					l, err := boardComments(d, id, u)
					if err != nil {
						return want{err: err}
					}
					all = append(all, l...)
				}
				return want{value: showRem(all)}
			}},
		{name: "GetBoardUserCommentRecord",
			uses: []string{"GetBoardArticleRecordsPath", "ReadArticleRecordsFile", "GetBoardArticleFilePath", "ReadBoardArticleFile"},
			run: func(db *bbs.DB) (string, error) {
				r, err := db.GetBoardUserCommentRecord(b, u)
				if err != nil {
					return "", err
				}
				return lookRemarks(r), nil
			},
			want: func(d *driver, mask int) want {
				l, err := boardComments(d, b, u)
				return want{err: err, value: showRem(l)}
			}},
		{name: "GetBoardArticleCommentRecords",
			uses: []string{"GetBoardArticleFilePath", "ReadBoardArticleFile"},
			run: func(db *bbs.DB) (string, error) {
				r, err := db.GetBoardArticleCommentRecords(b, art)
				if err != nil {
					return "", err
				}
				return lookRemarks(r), nil
			},
			want: func(d *driver, mask int) want {
				l, err := comments(d, b, art)
				return want{err: err, value: showRem(l)}
			}},

		notYet("UpdateBoardRecord", "UpdateBoardRecordFileRecord", func(db *bbs.DB) error { return db.UpdateBoardRecord(3, &brd) },
			func(p string) string { return q(p, uint(3), id(brd)) }),
		notYet("RemoveBoardRecord", "RemoveBoardRecordFileRecord", func(db *bbs.DB) error { return db.RemoveBoardRecord(3) },
			func(p string) string { return q(p, uint(3)) }),
	}
}

// notYet makes a call which is not implemented: it fails, or it does it.
func notYet(name, method string, run func(db *bbs.DB) error, arg func(p string) string) call {
	var failed bool
	return call{name: name, uses: []string{"GetBoardRecordsPath", method},
		run: func(db *bbs.DB) (string, error) {
			err := run(db)
			failed = err != nil
			return "", err
		},
		want: func(d *driver, mask int) want {
			err := d.fail("GetBoardRecordsPath", "")
			if err != nil || mask&writeBoard == 0 {
				return want{err: errAny}
			}
			a := arg("GetBoardRecordsPath<>")
			if err := d.fail(method, a); err != nil && len(d.writes) > 0 {
				return want{err: err, writes: []string{method + " " + a}}
			}
			if failed && len(d.writes) == 0 {
				return want{err: errAny}
			}
			return want{writes: []string{method + " " + a}}
		}}
}

// open registers and opens a driver.
func open(d *driver, mask int) (*bbs.DB, error) {
	bbs.Register("c27", with(d, mask))
	return bbs.Open("c27", "somewhere")
}

// judge runs one call and compares.
func judge(db *bbs.DB, d *driver, mask int, c call) error {
	d.writes = nil
	got, err := c.run(db)
	made := strings.Join(d.writes, "\n")
	w := c.want(d, mask)
	if exp := strings.Join(w.writes, "\n"); made != exp {
		return fmt.Errorf("%s did in the driver\n%s\nwant\n%s", c.name, made, exp)
	}
	switch {
	case w.err == errAny:
		if err == nil {
			return fmt.Errorf("%s cannot be done with this driver, it reports success", c.name)
		}
	case w.err != nil:
		if err == nil {
			return fmt.Errorf("%s: the driver failed with %q, the call reports success and %s", c.name, w.err, got)
		}
		if !errors.Is(err, w.err) && !strings.Contains(err.Error(), w.err.Error()) {
			return fmt.Errorf("%s: the driver failed with %q, the call reports %q", c.name, w.err, err)
		}
	case err != nil:
		return fmt.Errorf("%s: the driver did not fail, the call reports %q", c.name, err)
	case got != w.value:
		return fmt.Errorf("%s gives\n%s\nwant\n%s", c.name, got, w.value)
	}
	return nil
}

// plans calls f with every assignment of answers to the methods.
func plans(methods []string, f func(map[string]answer) error) error {
	p := map[string]answer{}
	var rec func(i int) error
	rec = func(i int) error {
		if i == len(methods) {
			return f(p)
		}
		for a := good; a < nAnswers; a++ {
			p[methods[i]] = a
			if err := rec(i + 1); err != nil {
				return err
			}
		}
		return nil
	}
	return rec(0)
}

func body(r *kit.Run) {
	r.Section("opening")
	for a := good; a < nAnswers; a++ {
		for mask := 0; mask < 32; mask++ {
			for _, src := range append([]string{"file:/x?y=z"}, texts...) {
				a, mask, src := a, mask, src
				r.Check(fmt.Sprintf("Open %q %v interfaces %05b", src, a, mask), func() error {
					d := &driver{plan: map[string]answer{"Open": a}}
					bbs.Register("c27", with(d, mask))
					db, err := bbs.Open("c27", src)
					r.Eval(1)
					if len(d.source) != 1 || d.source[0] != src {
						return fmt.Errorf("the driver was opened with %q", d.source)
					}
					want := d.fail("Open", src)
					if want == nil && (err != nil || db == nil) {
						return fmt.Errorf("opening fails with %v", err)
					}
					if want != nil && (err == nil || !strings.Contains(err.Error(), want.Error()) || db != nil) {
						return fmt.Errorf("the driver failed with %q, opening reports %v and %v", want, err, db)
					}
					if _, err := bbs.Open("c27 ", src); err == nil || len(d.source) != 1 {
						return fmt.Errorf("a driver without a name of its own was opened")
					}
					return nil
				})
			}
		}
	}

	n := len(calls(func(int) int { return 0 }))
	one := func(key string, call, mask int, args func(n int) int, only []string) {
		r.Check(fmt.Sprintf("%s interfaces %05b", key, mask), func() error {
			c := calls(args)[call]
			if mask&userArticle == 0 && c.name == "GetUserArticleRecordFile" || mask&userComment == 0 && c.name == "GetUserCommentRecordFile" {
				c.uses = c.uses[2:] // the driver has no such methods
			}
			return plans(c.uses, func(p map[string]answer) error {
				for _, o := range only {
					d := &driver{plan: map[string]answer{}, only: o}
					db, err := open(d, mask)
					if err != nil {
						return err
					}
					d.plan = p
					r.Eval(1)
					r.Trans(1)
					if err := judge(db, d, mask, c); err != nil {
						return fmt.Errorf("driver answers %v (for %q): %v", p, o, err)
					}
					// and once more: nothing is kept
					if len(c.uses) > 4 && !r.Thorough {
						continue
					}
					if err := judge(db, d, mask, c); err != nil {
						return fmt.Errorf("driver answers %v (for %q), second time: %v", p, o, err)
					}
				}
				return nil
			})
		})
	}

	r.Section("all answers and interfaces")
	for i := 0; i < n; i++ {
		for mask := 0; mask < 32; mask++ {
			for v := 0; v < 4; v++ {
				v := v
				k := 0
				args := func(n int) int {
					k++
					if v == 0 {
						return 0
					}
					return (v*k + k/n) % n
				}
				// the calls over all boards have more methods: these with fewer arguments
				name := calls(func(int) int { return 0 })[i].name
				if len(calls(func(int) int { return 0 })[i].uses) > 4 && !r.Thorough &&
					(v > 0 || mask != 0 && mask != 31 && mask != userArticle|userComment) {
					continue
				}
				one(fmt.Sprintf("%s arguments %d", name, v), i, mask, func(n int) int { return args(n) }, []string{""})
			}
		}
	}

	r.Section("answers for one board or article")
	for i := 0; i < n; i++ {
		c := calls(func(int) int { return 0 })[i]
		if len(c.uses) < 4 {
			continue
		}
		for _, mask := range []int{0, 31, userArticle, userComment} {
			for _, only := range []string{"zeta", "Alpha", "allpost", "M.1.", "M.2.", "M.4.", "Path<"} {
				one(c.name+" only "+only, i, mask, func(int) int { return 0 }, []string{only})
			}
		}
	}

	r.Section("all values of all arguments")
	for i := 0; i < n; i++ {
		for v := 0; v < 5*5*5*5; v++ {
			v := v
			name := calls(func(int) int { return 0 })[i].name
			r.Check(fmt.Sprintf("%s argument values %d", name, v), func() error {
				for _, mask := range []int{31, 0} {
					x := v
					// u, b, f, (o and t as b and f), list, data, map
					vals := []int{x % 5, x / 5 % 5, x / 25 % 5, x / 125 % 5, x % 5, x / 5 % 5, x / 25 % 5, x / 125 % 5}
					k := 0
					c := calls(func(n int) int { k++; return vals[(k-1)%8] % n })[i]
					d := &driver{plan: map[string]answer{}}
					db, err := open(d, mask)
					if err != nil {
						return err
					}
					r.Eval(1)
					r.Trans(1)
					if err := judge(db, d, mask, c); err != nil {
						return fmt.Errorf("interfaces %05b: %v", mask, err)
					}
				}
				return nil
			})
		}
	}

	r.Section("a call after another")
	depth := kit.Pick(r, 2, 3)
	r.Note("calls in a row", depth)
	for i := 0; i < n; i++ {
		for a1 := good; a1 < nAnswers; a1++ {
			i, a1 := i, a1
			r.Check(fmt.Sprintf("after call %d answered %v", i, a1), func() error {
				return after(r, i, a1, n, depth)
			})
		}
	}

	const times = 120
	r.Section(fmt.Sprintf("a call %d times and then every other call", times))
	for i := 0; i < n; i++ {
		for a1 := good; a1 < nAnswers; a1++ {
			for v := 0; v < 2; v++ {
				i, a1, v := i, a1, v
				r.Check(fmt.Sprintf("call %d answered %v, form %d", i, a1, v), func() error {
					for _, mask := range []int{31, 0} {
						cs := calls(func(int) int { return 0 })
						d := &driver{plan: map[string]answer{}}
						db, err := open(d, mask)
						if err != nil {
							return err
						}
						for k := 0; k < times; k++ {
							d.plan = map[string]answer{}
							for j, m := range cs[i].uses {
								if v == 0 || j > 0 {
									d.plan[m] = a1
								}
							}
							r.Trans(1)
							if err := judge(db, d, mask, cs[i]); err != nil {
								return fmt.Errorf("interfaces %05b, time %d: %v", mask, k, err)
							}
						}
						for round := 0; round < 2; round++ {
							for j := 0; j < n; j++ {
								for a2 := good; a2 < nAnswers; a2++ {
									d.plan = map[string]answer{}
									for _, m := range cs[j].uses {
										d.plan[m] = a2
									}
									r.Trans(1)
									if err := judge(db, d, mask, cs[j]); err != nil {
										return fmt.Errorf("interfaces %05b, afterwards call %d answered %v: %v", mask, j, a2, err)
									}
								}
							}
						}
						r.Trace()
					}
					return nil
				})
			}
		}
	}

	r.Section("the same bytes")
	r.Check("large contents", func() error {
		for size := 0; size < 300; size++ {
			if err := same(r, size); err != nil {
				return err
			}
		}
		for _, size := range []int{4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, 5<<20 + 3} {
			if err := same(r, size); err != nil {
				return err
			}
		}
		return nil
	})
}

// after makes the call with every driver answer of a kind and then all others.
func after(r *kit.Run, first int, a1 answer, n, depth int) error {
	zero := func(int) int { return 0 }
	all := func(c call, a answer) map[string]answer {
		p := map[string]answer{}
		for _, m := range c.uses {
			p[m] = a
		}
		return p
	}
	for _, mask := range []int{31, 0} {
		cs := calls(zero)
		var rec func(seq [][2]int) error
		rec = func(seq [][2]int) error {
			if len(seq) == depth {
				d := &driver{plan: map[string]answer{}}
				db, err := open(d, mask)
				if err != nil {
					return err
				}
				r.Trace()
				for k, s := range seq {
					c := cs[s[0]]
					d.plan = all(c, answer(s[1]))
					if answer(s[1]) == fails && len(c.uses) > 1 && k%2 == 1 {
						d.plan[c.uses[0]] = good
					}
					r.Eval(1)
					r.Trans(1)
					if err := judge(db, d, mask, c); err != nil {
						return fmt.Errorf("interfaces %05b, calls %v, at %d: %v", mask, seq, k, err)
					}
				}
				return nil
			}
			for i := 0; i < n; i++ {
				for a := good; a < nAnswers; a++ {
					if err := rec(append(append([][2]int{}, seq...), [2]int{i, int(a)})); err != nil {
						return err
					}
				}
			}
			return nil
		}
		if err := rec([][2]int{{first, int(a1)}}); err != nil {
			return err
		}
	}
	return nil
}

// big is a driver with a content.
type big struct {
	*driver
	data []byte
	got  []byte
}

func (b *big) ReadBoardArticleFile(string) ([]byte, error) { return b.data, nil }
func (b *big) ReadUserDraft(string) ([]byte, error)        { return b.data, nil }
func (b *big) WriteBoardArticleFile(_ string, c []byte) error {
	b.got = append([]byte{}, c...)
	return nil
}
func (b *big) AppendBoardArticleFile(_ string, c []byte) error {
	b.got = append([]byte{}, c...)
	return nil
}
func (b *big) WriteUserDraft(_ string, c []byte) error { b.got = append([]byte{}, c...); return nil }

// same passes contents of a size both ways.
func same(r *kit.Run, size int) error {
	data := make([]byte, size)
	for i := range data {
		data[i] = byte(i*7 + i>>8)
	}
	kept := append([]byte{}, data...)
	b := &big{driver: &driver{plan: map[string]answer{}}, data: data}
	bbs.Register("c27", b)
	db, err := bbs.Open("c27", "")
	if err != nil {
		return err
	}
	for _, f := range []func() ([]byte, error){
		func() ([]byte, error) { return db.ReadBoardArticleFile("b", "f") },
		func() ([]byte, error) { return db.ReadBoardTreasureFile("b", nil, "f") },
		func() ([]byte, error) {
			d, err := db.GetUserDrafts("u", "0")
			if err != nil {
				return nil, err
			}
			return d.Raw(), nil
		},
		func() ([]byte, error) { err := db.WriteBoardArticleFile("b", "f", data); return b.got, err },
		func() ([]byte, error) { err := db.AppendBoardArticleFile("b", "f", data); return b.got, err },
		func() ([]byte, error) { err := db.WriteUserDraft("u", "0", bbs.NewUserDraft(data)); return b.got, err },
	} {
		b.got = nil
		got, err := f()
		r.Eval(1)
		if err != nil {
			return fmt.Errorf("%d bytes: %v", size, err)
		}
		if !bytes.Equal(got, kept) || !bytes.Equal(data, kept) {
			return fmt.Errorf("%d bytes arrive as %d bytes, or changed", size, len(got))
		}
	}
	return nil
}
