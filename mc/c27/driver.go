package main

import (
	"errors"
	"fmt"
	"os"
	"syscall"
	"time"

	"github.com/Ptt-official-app/go-bbs"
)

// answer is what a method of the driver does.
type answer int

const (
	good    answer = iota // the value which belongs to its arguments
	fails                 // an error
	missing               // the error of a file which does not exist
	empty                 // a value without content
	nAnswers
)

func (a answer) String() string { return [...]string{"good", "fails", "missing", "empty"}[a] }

var errDriver = errors.New("the driver has no luck today")

// driver answers each method as told. The values are functions of the arguments: a call
// with other arguments than the right ones has a value which nobody expects.
type driver struct {
	plan   map[string]answer
	only   string   // when set, the answer of the plan is for calls whose argument contains this
	writes []string // calls which change something, in order
	source []string
}

func (d *driver) fail(method, arg string) error {
	switch d.at(method, arg) {
	case fails:
		return fmt.Errorf("%s: %w", method, errDriver)
	case missing:
		return &os.PathError{Op: "open", Path: arg, Err: syscall.ENOENT}
	}
	return nil
}

func (d *driver) at(method, arg string) answer {
	if d.only != "" && !contains(arg, d.only) {
		return good
	}
	return d.plan[method]
}

func contains(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

func (d *driver) path(method string, arg string) (string, error) {
	if err := d.fail(method, arg); err != nil {
		// what comes with an error means nothing
		return "/must/not/be/used", err
	}
	return fmt.Sprintf("%s<%s>", method, arg), nil
}

func (d *driver) Open(dataSourceName string) error {
	d.source = append(d.source, dataSourceName)
	return d.fail("Open", dataSourceName)
}

func (d *driver) GetUserRecordsPath() (string, error) { return d.path("GetUserRecordsPath", "") }
func (d *driver) GetUserFavoriteRecordsPath(u string) (string, error) {
	return d.path("GetUserFavoriteRecordsPath", q(u))
}
func (d *driver) GetBoardRecordsPath() (string, error) { return d.path("GetBoardRecordsPath", "") }
func (d *driver) GetBoardArticleRecordsPath(b string) (string, error) {
	return d.path("GetBoardArticleRecordsPath", q(b))
}
func (d *driver) GetBoardTreasureRecordsPath(b string, t []string) (string, error) {
	return d.path("GetBoardTreasureRecordsPath", q(b, t))
}
func (d *driver) GetBoardArticleFilePath(b, f string) (string, error) {
	return d.path("GetBoardArticleFilePath", q(b, f))
}
func (d *driver) GetBoardTreasureFilePath(b string, t []string, f string) (string, error) {
	return d.path("GetBoardTreasureFilePath", q(b, t, f))
}

func (d *driver) ReadUserRecordsFile(name string) ([]bbs.UserRecord, error) {
	if err := d.fail("ReadUserRecordsFile", name); err != nil {
		return nil, err
	}
	out := []bbs.UserRecord{}
	if d.at("ReadUserRecordsFile", name) == good {
		out = append(out, &user{name + " 1"}, &user{name + " 2"}, &user{name + " 1"})
	}
	return out, nil
}

func (d *driver) ReadUserFavoriteRecordsFile(name string) ([]bbs.FavoriteRecord, error) {
	if err := d.fail("ReadUserFavoriteRecordsFile", name); err != nil {
		return nil, err
	}
	out := []bbs.FavoriteRecord{}
	if d.at("ReadUserFavoriteRecordsFile", name) == good {
		out = append(out, &favorite{name + " 1"}, &favorite{name + " 2"})
	}
	return out, nil
}

// the boards of the system, the list of the driver has blank slots and a board of all articles
var boards = []string{"zeta", "", "ALLPOST", "Alpha", "allpost", ""}

func (d *driver) ReadBoardRecordsFile(name string) ([]bbs.BoardRecord, error) {
	if err := d.fail("ReadBoardRecordsFile", name); err != nil {
		return nil, err
	}
	out := []bbs.BoardRecord{}
	if d.at("ReadBoardRecordsFile", name) == good {
		for _, b := range boards {
			out = append(out, &board{b, name})
		}
	}
	return out, nil
}

// the articles of a board: file name and owner
var articles = [][2]string{{"M.1.A.001", "alice"}, {"", ""}, {"M.2.A.001", "bob"}, {"M.3.A.001", "alice"}, {"M.4.A.001", "Alice"}}

func (d *driver) ReadArticleRecordsFile(name string) ([]bbs.ArticleRecord, error) {
	if err := d.fail("ReadArticleRecordsFile", name); err != nil {
		return nil, err
	}
	out := []bbs.ArticleRecord{}
	if d.at("ReadArticleRecordsFile", name) == good {
		for i, a := range articles {
			out = append(out, &article{a[0], a[1], fmt.Sprint("title ", i, " of ", name), "11/19", name})
		}
	}
	return out, nil
}

// content is what the file at a path holds.
func content(name string) []byte {
	return []byte("header\x00\xff " + name + "\n\nsome text\n\n" +
		"\x1b[1;37m\xb1\xc0 \x1b[33malice\x1b[m\x1b[33m: first\x1b[m 05/15 01:06\n" +
		"\xb1\xc0 bob: second 05/15 01:07\n" +
		"\xb1\xc0 bob: not a day 13/32 01:07\n" +
		"\xb1\xc0 alice: third 05/16 01:08\n")
}

func (d *driver) ReadBoardArticleFile(name string) ([]byte, error) {
	if err := d.fail("ReadBoardArticleFile", name); err != nil {
		return []byte("must not be used"), err
	}
	if d.at("ReadBoardArticleFile", name) == empty {
		return []byte{}, nil
	}
	return content(name), nil
}

func (d *driver) write(method, arg string) error {
	d.writes = append(d.writes, method+" "+arg)
	return d.fail(method, arg)
}

func (d *driver) NewBoardRecord(args map[string]interface{}) (bbs.BoardRecord, error) {
	if err := d.fail("NewBoardRecord", q(args)); err != nil {
		return nil, err
	}
	return &board{q(args), "new"}, nil
}
func (d *driver) AddBoardRecordFileRecord(name string, brd bbs.BoardRecord) error {
	return d.write("AddBoardRecordFileRecord", q(name, id(brd)))
}
func (d *driver) UpdateBoardRecordFileRecord(name string, index uint, brd bbs.BoardRecord) error {
	return d.write("UpdateBoardRecordFileRecord", q(name, index, id(brd)))
}
func (d *driver) ReadBoardRecordFileRecord(name string, index uint) (bbs.BoardRecord, error) {
	if err := d.fail("ReadBoardRecordFileRecord", name); err != nil {
		return nil, err
	}
	return &board{fmt.Sprint(name, " ", index), "one"}, nil
}
func (d *driver) RemoveBoardRecordFileRecord(name string, index uint) error {
	return d.write("RemoveBoardRecordFileRecord", q(name, index))
}

func (d *driver) CreateBoardArticleFilename(b string) (string, error) {
	err := d.write("CreateBoardArticleFilename", q(b))
	if err != nil {
		return "must not be used", err
	}
	return "new file of " + q(b), nil
}
func (d *driver) NewArticleRecord(filename, owner, date, title string) (bbs.ArticleRecord, error) {
	if err := d.fail("NewArticleRecord", q(filename, owner, date, title)); err != nil {
		return nil, err
	}
	return &article{filename, owner, title, date, "new"}, nil
}
func (d *driver) AddArticleRecordFileRecord(name string, a bbs.ArticleRecord) error {
	return d.write("AddArticleRecordFileRecord", q(name, id(a)))
}
func (d *driver) UpdateArticleRecordFileRecord(name string, index uint, a bbs.ArticleRecord) error {
	return d.write("UpdateArticleRecordFileRecord", q(name, index, id(a)))
}
func (d *driver) WriteBoardArticleFile(name string, content []byte) error {
	return d.write("WriteBoardArticleFile", q(name, content))
}
func (d *driver) AppendBoardArticleFile(name string, content []byte) error {
	return d.write("AppendBoardArticleFile", q(name, content))
}

func (d *driver) GetUserArticleRecordsPath(u string) (string, error) {
	return d.path("GetUserArticleRecordsPath", q(u))
}
func (d *driver) ReadUserArticleRecordFile(name string) ([]bbs.UserArticleRecord, error) {
	if err := d.fail("ReadUserArticleRecordFile", name); err != nil {
		return nil, err
	}
	out := []bbs.UserArticleRecord{}
	if d.at("ReadUserArticleRecordFile", name) == good {
		out = append(out, &kept{name + " 1"}, &kept{name + " 2"})
	}
	return out, nil
}
func (d *driver) WriteUserArticleRecordFile(name string, recs []bbs.UserArticleRecord) error {
	return d.write("WriteUserArticleRecordFile", q(name, len(recs)))
}
func (d *driver) AppendUserArticleRecordFile(name string, rec bbs.UserArticleRecord) error {
	return d.write("AppendUserArticleRecordFile", q(name, id(rec)))
}

func (d *driver) GetUserCommentRecordsPath(u string) (string, error) {
	return d.path("GetUserCommentRecordsPath", q(u))
}
func (d *driver) ReadUserCommentRecordFile(name string) ([]bbs.UserCommentRecord, error) {
	if err := d.fail("ReadUserCommentRecordFile", name); err != nil {
		return nil, err
	}
	out := []bbs.UserCommentRecord{}
	if d.at("ReadUserCommentRecordFile", name) == good {
		out = append(out, &remark{kept{name + " 1"}}, &remark{kept{name + " 2"}})
	}
	return out, nil
}

func (d *driver) GetUserDraftPath(u, draft string) (string, error) {
	return d.path("GetUserDraftPath", q(u, draft))
}
func (d *driver) ReadUserDraft(name string) ([]byte, error) {
	if err := d.fail("ReadUserDraft", name); err != nil {
		return []byte("must not be used"), err
	}
	if d.at("ReadUserDraft", name) == empty {
		return []byte{}, nil
	}
	return []byte("draft\x00\xff\n of " + name), nil
}
func (d *driver) DeleteUserDraft(name string) error { return d.write("DeleteUserDraft", q(name)) }
func (d *driver) WriteUserDraft(name string, draft []byte) error {
	return d.write("WriteUserDraft", q(name, draft))
}

// q writes arguments so that different ones look different.
func q(args ...interface{}) string {
	s := ""
	for _, a := range args {
		s += fmt.Sprintf("%q;", fmt.Sprintf("%#v", a))
	}
	return s
}

// id tells objects apart.
func id(x interface{}) string { return fmt.Sprintf("%p", x) }

type user struct{ id string }

func (u *user) UserID() string              { return u.id }
func (u *user) HashedPassword() string      { return "" }
func (u *user) VerifyPassword(string) error { return nil }
func (u *user) Nickname() string            { return "" }
func (u *user) RealName() string            { return "" }
func (u *user) NumLoginDays() int           { return 0 }
func (u *user) NumPosts() int               { return 0 }
func (u *user) Money() int                  { return 0 }
func (u *user) LastLogin() time.Time        { return time.Time{} }
func (u *user) LastHost() string            { return "" }
func (u *user) UserFlag() uint32            { return 0 }

type favorite struct{ title string }

func (f *favorite) Title() string                 { return f.title }
func (f *favorite) Type() bbs.FavoriteType        { return bbs.FavoriteTypeBoard }
func (f *favorite) BoardID() string               { return "" }
func (f *favorite) Records() []bbs.FavoriteRecord { return nil }

type board struct{ id, from string }

func (b *board) BoardID() string { return b.id }
func (b *board) Title() string   { return b.from }
func (b *board) IsClass() bool   { return false }
func (b *board) ClassID() string { return "" }
func (b *board) BM() []string    { return nil }

type article struct{ file, owner, title, date, from string }

func (a *article) Filename() string      { return a.file }
func (a *article) Modified() time.Time   { return time.Time{} }
func (a *article) SetModified(time.Time) {}
func (a *article) Recommend() int        { return 0 }
func (a *article) Date() string          { return a.date }
func (a *article) Title() string         { return a.title }
func (a *article) Money() int            { return 0 }
func (a *article) Owner() string         { return a.owner }

// kept is a record which the driver keeps for a user.
type kept struct{ title string }

func (k *kept) BoardID() string   { return "kept board" }
func (k *kept) Title() string     { return k.title }
func (k *kept) Owner() string     { return "kept owner" }
func (k *kept) ArticleID() string { return "kept article" }

type remark struct{ kept }

func (k *remark) CommentOrder() uint32   { return 7 }
func (k *remark) CommentTime() time.Time { return time.Time{} }
func (k *remark) IP() string             { return "" }
func (k *remark) Comment() string        { return k.title }
func (k *remark) String() string         { return k.title }
func (k *remark) Filename() string       { return "kept file" }
