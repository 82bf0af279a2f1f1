// Package pb has what the checks of the pttbbs driver share: scratch homes, records and
// the reference layout of an article record.
package pb

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"golang.org/x/text/encoding/traditionalchinese"
)

// Big5 encodes s, which must have Big5 characters only.
func Big5(s string) []byte {
	b, err := traditionalchinese.Big5.NewEncoder().Bytes([]byte(s))
	if err != nil {
		panic(err)
	}
	return b
}

// Conn is what the pttbbs connector offers.
type Conn interface {
	bbs.Connector
	bbs.WriteArticleConnector
	bbs.WriteBoardConnector
	bbs.UserDraftConnector
}

// Open opens home twice: as database and as connector.
func Open(home string) (*bbs.DB, Conn, error) {
	db, err := bbs.Open("pttbbs", home)
	if err != nil {
		return nil, nil, err
	}
	c := &pttbbs.Connector{}
	if err := c.Open(home); err != nil {
		return nil, nil, err
	}
	return db, c, nil
}

// MakeBoard creates the directory of a board.
func MakeBoard(home, board string) error {
	return os.MkdirAll(filepath.Join(home, "boards", board[:1], board), 0755)
}

// DirPath is where the article index of a board belongs.
func DirPath(home, board string) string {
	return filepath.Join(home, "boards", board[:1], board, ".DIR")
}

// ArticlePath is where an article of a board belongs.
func ArticlePath(home, board, name string) string {
	return filepath.Join(home, "boards", board[:1], board, name)
}

// Art is the reference of one article record.
type Art struct {
	Filename, Owner, Date, Title string
	Modified                     uint32
	Recommend                    int8
	Union                        [4]byte
	Filemode                     uint8
}

const (
	FileVote      = 0x40
	FileAnonymous = 0x80
)

// N returns the reference record number n, all fields differ from those of other numbers.
func N(n int) Art {
	a := Art{
		Filename:  fmt.Sprintf("M.%d.A.%03X", 1600000000+n, n&0xfff),
		Owner:     fmt.Sprintf("owner%d", n%100000),
		Date:      fmt.Sprintf("%2d/%02d", n%12+1, n%28+1),
		Title:     fmt.Sprintf("[問題] 標題 title %d", n),
		Modified:  uint32(1500000000 + n*7),
		Recommend: int8(n*37%201 - 100),
		Filemode:  uint8(n%16 | n%3*0x40),
	}
	binary.LittleEndian.PutUint32(a.Union[:], uint32(n*1000003))
	return a
}

// Record builds the API object which stands for the reference, by decoding its bytes.
func (a Art) Record() (*pttbbs.FileHeader, error) {
	return pttbbs.NewFileHeaderWithByte(a.Bytes())
}

// Bytes encodes the reference.
func (a Art) Bytes() []byte {
	b := make([]byte, 128)
	copy(b[0:28], a.Filename)
	binary.LittleEndian.PutUint32(b[28:], a.Modified)
	b[33] = byte(a.Recommend)
	copy(b[34:48], a.Owner)
	copy(b[48:54], a.Date)
	copy(b[54:119], Big5(a.Title))
	copy(b[120:124], a.Union[:])
	b[124] = a.Filemode
	return b
}

// Same compares an API record with the reference.
func (a Art) Same(r bbs.ArticleRecord) error {
	if r.Filename() != a.Filename {
		return fmt.Errorf("file name is %q, want %q", r.Filename(), a.Filename)
	}
	if r.Owner() != a.Owner {
		return fmt.Errorf("owner is %q, want %q", r.Owner(), a.Owner)
	}
	if r.Date() != a.Date {
		return fmt.Errorf("date is %q, want %q", r.Date(), a.Date)
	}
	if r.Title() != a.Title {
		return fmt.Errorf("title is %q, want %q", r.Title(), a.Title)
	}
	if r.Recommend() != int(a.Recommend) {
		return fmt.Errorf("score is %d, want %d", r.Recommend(), a.Recommend)
	}
	if !r.Modified().Equal(time.Unix(int64(a.Modified), 0)) {
		return fmt.Errorf("modified is %v, want %v", r.Modified().Unix(), a.Modified)
	}
	h, ok := r.(*pttbbs.FileHeader)
	if !ok {
		return fmt.Errorf("record is a %T", r)
	}
	if h.Filemode != a.Filemode {
		return fmt.Errorf("file mode is %x, want %x", h.Filemode, a.Filemode)
	}
	u := binary.LittleEndian.Uint32(a.Union[:])
	switch {
	case a.Filemode&FileVote != 0:
		g := [4]byte{h.VoteLimits.Posts, h.VoteLimits.Logins, h.VoteLimits.Regtime, h.VoteLimits.Badpost}
		if g != a.Union {
			return fmt.Errorf("vote limits are %v, want %v", g, a.Union)
		}
	case a.Filemode&FileAnonymous != 0:
		if uint32(h.AnnoUID) != u {
			return fmt.Errorf("anonymous id is %d, want %d", h.AnnoUID, u)
		}
	default:
		if uint32(r.Money()) != u {
			return fmt.Errorf("money is %d, want %d", r.Money(), u)
		}
	}
	return nil
}

// SameList compares a listing with the reference.
func SameList(got []bbs.ArticleRecord, want []Art) error {
	for i, r := range got {
		if i >= len(want) {
			return fmt.Errorf("%d records are listed, want %d; the first surplus one is %q %q", len(got), len(want), r.Filename(), r.Title())
		}
		if err := want[i].Same(r); err != nil {
			return fmt.Errorf("record %d of %d: %v", i, len(want), err)
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("%d records are listed, want %d", len(got), len(want))
	}
	return nil
}

// Read reads a file, a missing one is nil.
func Read(name string) []byte {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil
	}
	if b == nil {
		b = []byte{}
	}
	return b
}

// Diff says where two byte strings differ first.
func Diff(a, b []byte) string {
	if bytes.Equal(a, b) {
		return ""
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("lengths %d and %d, first difference at byte %d", len(a), len(b), i)
}

// Tree reads all files below dir, keyed by relative path.
func Tree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case i.IsDir():
			out[rel+"/"] = ""
		case i.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			out[rel] = string(b)
		default:
			out[rel] = i.Mode().String()
		}
		return nil
	})
	return out
}

// TreeDiff compares two trees, ignoring the names in except.
func TreeDiff(before, after map[string]string, except ...string) error {
	skip := map[string]bool{}
	for _, e := range except {
		skip[e] = true
	}
	for k, v := range before {
		if skip[k] {
			continue
		}
		w, ok := after[k]
		if !ok {
			return fmt.Errorf("%s disappeared", k)
		}
		if v != w {
			return fmt.Errorf("%s changed: %s", k, Diff([]byte(v), []byte(w)))
		}
	}
	for k := range after {
		if _, ok := before[k]; !ok && !skip[k] {
			return fmt.Errorf("%s appeared", k)
		}
	}
	return nil
}
