// Package ops has the changes whose crashes (C14) and faults (C15) are explored, with a model of them.
package ops

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/pb"
)

type World struct {
	Home string
	DB   *bbs.DB
	C    pb.Conn
	// what is listed, and what is in the article
	Arts, Brds []string
	Content    string
}

func (w *World) Open() {
	var err error
	if w.DB, w.C, err = pb.Open(w.Home); err != nil {
		panic(err)
	}
}

// Op is a change of one of the two lists or of the content.
type Op struct {
	Name string
	Run  func(w *World) error
	// done says how the lists are after the call, cut whether they may be so after a crash
	Done func(w *World) (arts, brds []string, content string)
	Cut  func(w *World, arts, brds []string, content string) error
	// files it may change
	Files []string
}

func (w *World) dir() string { return pb.DirPath(w.Home, "test") }
func (w *World) brd() string { return filepath.Join(w.Home, ".BRD") }

const ArticleName = "M.1.A.001"

// look lists everything.
func (w *World) Look() (arts, brds []string, content string, err error) {
	l, err := w.DB.ReadBoardArticleRecordsFile("test")
	if err != nil {
		if !os.IsNotExist(statErr(w.dir())) {
			return nil, nil, "", fmt.Errorf("listing articles: %v", err)
		}
	}
	for _, a := range l {
		arts = append(arts, fmt.Sprintf("%+v", *a.(*pttbbs.FileHeader)))
	}
	b, err := w.DB.ReadBoardRecords()
	if err != nil {
		if !os.IsNotExist(statErr(w.brd())) {
			return nil, nil, "", fmt.Errorf("listing boards: %v", err)
		}
	}
	for _, x := range b {
		brds = append(brds, fmt.Sprintf("%+v", *x.(*pttbbs.BoardHeader)))
	}
	c, err := w.DB.ReadBoardArticleFile("test", ArticleName)
	if err != nil {
		return nil, nil, "", fmt.Errorf("reading the article: %v", err)
	}
	return arts, brds, string(c), nil
}

func statErr(p string) error { _, err := os.Stat(p); return err }

func record(n int) *pttbbs.FileHeader {
	h, err := pb.N(n).Record()
	if err != nil {
		panic(err)
	}
	return h
}

func artString(n int) string { return fmt.Sprintf("%+v", *record(n)) }

func Same(what string, got, want []string) error {
	for i := range got {
		if i >= len(want) {
			return fmt.Errorf("%d %s are listed, want %d, the first surplus one is %.200s", len(got), what, len(want), got[i])
		}
		if got[i] != want[i] {
			return fmt.Errorf("%s %d of %d is %.300s, want %.300s", what, i, len(want), got[i], want[i])
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("%d %s are listed, want %d, the first missing one is %.200s", len(got), what, len(want), want[len(got)])
	}
	return nil
}

func with(l []string, s string) []string { return append(append([]string{}, l...), s) }

func dirFile() string { return filepath.Join("boards", "t", "test", ".DIR") }

func Add(n int) Op {
	return Op{
		Name: fmt.Sprintf("add %d", n),
		Run:  func(w *World) error { return w.DB.AddArticleRecordFileRecord("test", record(n)) },
		Done: func(w *World) ([]string, []string, string) { return with(w.Arts, artString(n)), w.Brds, w.Content },
		Cut: func(w *World, arts, brds []string, content string) error {
			if len(arts) == len(w.Arts) {
				return Same("articles", arts, w.Arts)
			}
			return Same("articles", arts, with(w.Arts, artString(n)))
		},
		Files: []string{dirFile()},
	}
}

func Update(i, n int) Op {
	return Op{
		Name: fmt.Sprintf("update %d with %d", i, n),
		Run:  func(w *World) error { return w.C.UpdateArticleRecordFileRecord(w.dir(), uint(i), record(n)) },
		Done: func(w *World) ([]string, []string, string) {
			if i >= len(w.Arts) {
				return nil, nil, "error"
			}
			l := with(w.Arts, "")[:len(w.Arts)]
			l[i] = artString(n)
			return l, w.Brds, w.Content
		},
		Cut: func(w *World, arts, brds []string, content string) error {
			if i < len(w.Arts) && i < len(arts) {
				l := with(arts, "")[:len(arts)]
				l[i] = w.Arts[i]
				arts = l
			}
			return Same("articles", arts, w.Arts)
		},
		Files: []string{dirFile()},
	}
}

func newBoard(n int) *pttbbs.BoardHeader {
	b := pttbbs.NewBoardHeader()
	b.SetBoardID(fmt.Sprintf("new%d", n))
	b.SetTitle(strings.Repeat("新", n%20+1))
	return b
}

func AddBoard(n int) Op {
	// how it is listed
	d, err := newBoard(n).MarshalBinary()
	if err != nil {
		panic(err)
	}
	b, err := pttbbs.UnmarshalBoardHeader(d)
	if err != nil {
		panic(err)
	}
	s := fmt.Sprintf("%+v", *b)
	return Op{
		Name: fmt.Sprintf("add board %d", n),
		Run:  func(w *World) error { return w.DB.AddBoardRecord(newBoard(n)) },
		Done: func(w *World) ([]string, []string, string) { return w.Arts, with(w.Brds, s), w.Content },
		Cut: func(w *World, arts, brds []string, content string) error {
			if len(brds) == len(w.Brds) {
				return Same("boards", brds, w.Brds)
			}
			return Same("boards", brds, with(w.Brds, s))
		},
		Files: []string{".BRD"},
	}
}

func RemoveBoard(i int) Op {
	return Op{
		Name: fmt.Sprintf("remove board %d", i),
		Run:  func(w *World) error { return pttbbs.RemoveBoardHeaderFileRecord(w.brd(), i) },
		Done: func(w *World) ([]string, []string, string) {
			if i >= len(w.Brds) {
				return nil, nil, "error"
			}
			return w.Arts, append(append([]string{}, w.Brds[:i]...), w.Brds[i+1:]...), w.Content
		},
		Cut: func(w *World, arts, brds []string, content string) error {
			if i >= len(w.Brds) {
				return Same("boards", brds, w.Brds)
			}
			others := append(append([]string{}, w.Brds[:i]...), w.Brds[i+1:]...)
			if len(brds) != len(w.Brds) {
				return Same("boards", brds, others)
			}
			k := 0
			for _, b := range brds {
				if k < len(others) && others[k] == b {
					k++
				}
			}
			if k < len(others) {
				return fmt.Errorf("board %.200s was not to be removed and is lost or out of order", others[k])
			}
			return nil
		},
		Files: []string{".BRD"},
	}
}

func AppendContent(s string) Op {
	return Op{
		Name: fmt.Sprintf("append %d bytes", len(s)),
		Run:  func(w *World) error { return w.DB.AppendBoardArticleFile("test", ArticleName, []byte(s)) },
		Done: func(w *World) ([]string, []string, string) { return w.Arts, w.Brds, w.Content + s },
		Cut: func(w *World, arts, brds []string, content string) error {
			if !strings.HasPrefix(content, w.Content) || !strings.HasPrefix(w.Content+s, content) {
				return fmt.Errorf("the article is %.80q, it was %.80q and %.80q was being appended", content, w.Content, s)
			}
			return nil
		},
		Files: []string{filepath.Join("boards", "t", "test", ArticleName)},
	}
}

// other changes files which are not listed; nothing that is may be harmed.
func Other(name string, run func(w *World) error, files ...string) Op {
	return Op{Name: name, Run: run,
		Done: func(w *World) ([]string, []string, string) { return w.Arts, w.Brds, w.Content },
		Cut: func(w *World, arts, brds []string, content string) error {
			if err := Same("articles", arts, w.Arts); err != nil {
				return err
			}
			return Same("boards", brds, w.Brds)
		},
		Files: files,
	}
}

func WriteOther(n int) Op {
	return Other(fmt.Sprintf("write %d bytes to another article", n), func(w *World) error {
		return w.DB.WriteBoardArticleFile("test", "M.2.A.002", []byte(strings.Repeat("y", n)))
	}, filepath.Join("boards", "t", "test", "M.2.A.002"))
}

func Draft(n int) Op {
	return Other(fmt.Sprintf("write a draft of %d bytes", n), func(w *World) error {
		return w.DB.WriteUserDraft("tester", "3", bbs.NewUserDraft([]byte(strings.Repeat("d", n))))
	}, filepath.Join("home", "t", "tester", "buf.3"))
}

func DeleteDraft() Op {
	return Other("delete a draft", func(w *World) error { return w.DB.DeleteUserDraft("tester", "3") }, filepath.Join("home", "t", "tester", "buf.3"))
}

func Create() Op {
	return Other("create an article", func(w *World) error {
		_, err := w.DB.CreateArticleRecord("test", "owner", "1/01", "title")
		return err
	}, "new")
}

type Start struct {
	Name             string
	Arts, Brds, Torn int
}

func (w *World) Setup(s Start) {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.RemoveAll(w.Home))
	must(os.MkdirAll(w.Home, 0755))
	must(pb.MakeBoard(w.Home, "test"))
	must(pb.MakeBoard(w.Home, "other"))
	must(os.MkdirAll(filepath.Join(w.Home, "home", "t", "tester"), 0755))
	w.Arts, w.Brds = nil, nil
	if s.Arts >= 0 {
		var b []byte
		for i := 0; i < s.Arts; i++ {
			b = append(b, pb.N(i).Bytes()...)
			w.Arts = append(w.Arts, artString(i))
		}
		t := s.Torn
		if t > 127 {
			t = 127
		}
		must(os.WriteFile(w.dir(), append(b, pb.N(99).Bytes()[:t]...), 0644))
	}
	if s.Brds >= 0 {
		var b []byte
		for i := 0; i < s.Brds; i++ {
			b = append(b, pb.BoardBytes(i)...)
			w.Brds = append(w.Brds, fmt.Sprintf("%+v", *pb.Board(i)))
		}
		must(os.WriteFile(w.brd(), append(b, pb.BoardBytes(99)[:s.Torn]...), 0644))
	}
	w.Content = "the first article\n"
	must(os.WriteFile(pb.ArticlePath(w.Home, "test", ArticleName), []byte(w.Content), 0644))
	must(os.WriteFile(pb.ArticlePath(w.Home, "other", ArticleName), []byte("another article\n"), 0644))
	must(os.WriteFile(pb.DirPath(w.Home, "other"), pb.N(7).Bytes(), 0644))
	must(os.WriteFile(filepath.Join(w.Home, "home", "t", "tester", "buf.3"), []byte("draft 3"), 0644))
	must(os.WriteFile(filepath.Join(w.Home, "home", "t", "tester", "buf.4"), []byte("draft 4"), 0644))
	w.Open()
}

// unharmed says whether files which the call has nothing to do with changed.
func Unharmed(before, after map[string]string, files []string) error {
	for k, v := range before {
		mine := false
		for _, f := range files {
			mine = mine || f == k
		}
		if mine {
			continue
		}
		if g, ok := after[k]; !ok || g != v {
			return fmt.Errorf("the file %s, which has nothing to do with the call, was changed", k)
		}
	}
	return nil
}

func Kind(o Op) byte {
	switch {
	case strings.Contains(o.Name, "board"):
		return 'b'
	case strings.HasPrefix(o.Name, "append"):
		return 'c'
	}
	return 'a'
}
