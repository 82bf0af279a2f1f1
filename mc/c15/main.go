// C15: I/O errors and short reads are reported, never invented data.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	formosabbs "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"

	"verifmc/kit"
	"verifmc/ops"
	"verifmc/pb"
	"verifmc/show"
	"verifmc/vx"
)

func main() {
	kit.Main(kit.Config{
		ID: "C15", Level: kit.FaultEnumeration,
		Rule:        "every call with every one of its operations on files and locks failing with each of the errors, or, for reads and writes, being done only partly, and every pair of these faults (triples in the thorough tier); a disk which fails for good at any operation; a disk which gives at most so many bytes at a time; a state is the result of the call and the bytes of the home after it",
		Assumptions: []string{"a fault is an error of the operating system or a part of a read or write; ENOENT and EEXIST are answers rather than faults", "what a call that fails may have done to its own target is what a crash may do (C14)"},
		CaseTimeout: 15 * time.Minute,
		Body:        body,
	})
}

// faults are the answers to an operation other than doing it.
func faults(o vsched.Op, more bool) []vsched.Act {
	var l []vsched.Act
	fail := func(errs ...error) {
		for _, e := range errs {
			l = append(l, vsched.Act{Do: vsched.Fail, Err: e})
		}
	}
	parts := func() (p []int64) {
		for _, k := range []int64{1, o.N / 2, o.N - 1} {
			if k > 0 && k < o.N && (len(p) == 0 || p[len(p)-1] != k) {
				p = append(p, k)
			}
		}
		if more {
			for _, k := range []int64{127, 129, 255, 500} {
				if k < o.N-1 {
					p = append(p, k)
				}
			}
		}
		return p
	}
	switch o.Kind {
	case "open", "create", "stat", "remove", "rename", "mkdir", "truncate", "readdir", "link", "symlink", "chmod":
		fail(syscall.EACCES, syscall.EIO)
		if more {
			fail(syscall.EMFILE, syscall.EINTR, syscall.ENOSPC)
		}
	case "read", "readat":
		fail(syscall.EIO)
		for _, k := range parts() {
			l = append(l, vsched.Act{Do: vsched.Short, N: k})
		}
		if more {
			fail(syscall.EISDIR)
		}
	case "write", "writeat":
		fail(syscall.ENOSPC)
		for _, k := range parts() {
			l = append(l, vsched.Act{Do: vsched.Fail, N: k, Err: syscall.ENOSPC})
		}
		if more {
			fail(syscall.EIO)
		}
	case "seek", "close", "fstat", "ftruncate", "sync", "unlock":
		fail(syscall.EIO)
	case "lock":
		fail(syscall.ENOLCK)
	}
	return l
}

// env answers the operations of a call.
func answer(o vsched.Op, n int) vsched.Act {
	switch o.Kind {
	case "time":
		return vsched.Act{Do: vsched.Value, N: 1600000000 + int64(n)}
	case "rand", "seed":
		return vsched.Act{Do: vsched.Value, N: int64(n)}
	}
	return vsched.Act{}
}

// injector counts the operations and injects faults.
type injector struct {
	n     int
	story []string
	fault func(o vsched.Op, n int) vsched.Act
}

func (i *injector) act(o vsched.Op) vsched.Act {
	if a := answer(o, i.n); a.Do != vsched.Pass {
		i.n++
		return a
	}
	i.n++
	a := i.fault(o, i.n-1)
	if a.Do != vsched.Pass {
		i.story = append(i.story, describe(o, i.n-1, a))
	}
	return a
}

func describe(o vsched.Op, n int, a vsched.Act) string {
	if a.Do == vsched.Short {
		return fmt.Sprintf("operation %d (%s) reads only %d bytes", n, o, a.N)
	}
	return fmt.Sprintf("operation %d (%s) fails with %v after %d bytes", n, o, a.Err, a.N)
}

// plan is a way to choose faults: it is asked for a new choice at the start of each execution.
type plan struct {
	name string
	make func(e *vx.Exec) func(o vsched.Op, n int) vsched.Act
}

// upTo gives at most k faults anywhere.
func upTo(k int, more bool) plan {
	return plan{fmt.Sprintf("up to %d faults", k), func(e *vx.Exec) func(vsched.Op, int) vsched.Act {
		left := k
		return func(o vsched.Op, n int) vsched.Act {
			if left == 0 {
				return vsched.Act{}
			}
			f := faults(o, more)
			if c := e.Choose(len(f) + 1); c > 0 {
				left--
				return f[c-1]
			}
			return vsched.Act{}
		}
	}}
}

// dead fails everything from some operation on.
func dead(err error) plan {
	return plan{fmt.Sprintf("a disk which dies with %q", err), func(e *vx.Exec) func(vsched.Op, int) vsched.Act {
		died := false
		return func(o vsched.Op, n int) vsched.Act {
			if len(faults(o, false)) == 0 {
				return vsched.Act{}
			}
			if !died {
				died = e.Choose(2) == 1
			}
			if died {
				return vsched.Act{Do: vsched.Fail, Err: err}
			}
			return vsched.Act{}
		}
	}}
}

// slow reads at most so many bytes at a time, and some operation may fail.
func slow(sizes []int64, fail bool) plan {
	name := fmt.Sprintf("reads of at most so many bytes %v", sizes)
	if fail {
		name += " and one fault"
	}
	return plan{name, func(e *vx.Exec) func(vsched.Op, int) vsched.Act {
		size := sizes[e.Choose(len(sizes))]
		failed := !fail
		return func(o vsched.Op, n int) vsched.Act {
			if !failed {
				for _, f := range faults(o, false) {
					if f.Do == vsched.Fail && f.N == 0 && e.Choose(2) == 1 {
						failed = true
						return f
					}
				}
			}
			if (o.Kind == "read" || o.Kind == "readat") && o.N > size {
				return vsched.Act{Do: vsched.Short, N: size}
			}
			return vsched.Act{}
		}
	}}
}

// env is what the calls are made on.
type env struct {
	*ops.World
}

// reader is a call which changes nothing.
type reader struct {
	name string
	run  func(w env) (interface{}, error)
}

func (w env) file(name string) string { return filepath.Join(w.Home, name) }

type conn interface {
	ReadUserRecordsFile(name string) ([]bbs.UserRecord, error)
	ReadUserFavoriteRecordsFile(name string) ([]bbs.FavoriteRecord, error)
	ReadBoardRecordsFile(name string) ([]bbs.BoardRecord, error)
	ReadArticleRecordsFile(name string) ([]bbs.ArticleRecord, error)
	ReadBoardArticleFile(name string) ([]byte, error)
	ReadUserDraft(name string) ([]byte, error)
}

func readers() []reader {
	l := []reader{
		{"ReadUserRecords", func(w env) (interface{}, error) { return w.DB.ReadUserRecords() }},
		{"ReadUserFavoriteRecords", func(w env) (interface{}, error) { return w.DB.ReadUserFavoriteRecords("tester") }},
		{"ReadUserFavoriteRecords of a user without them", func(w env) (interface{}, error) { return w.DB.ReadUserFavoriteRecords("nobody") }},
		{"ReadBoardRecords", func(w env) (interface{}, error) { return w.DB.ReadBoardRecords() }},
		{"ReadBoardArticleRecordsFile", func(w env) (interface{}, error) { return w.DB.ReadBoardArticleRecordsFile("test") }},
		{"ReadBoardArticleRecordsFile of a board without index", func(w env) (interface{}, error) { return w.DB.ReadBoardArticleRecordsFile("none") }},
		{"ReadBoardTreasureRecordsFile", func(w env) (interface{}, error) {
			return w.DB.ReadBoardTreasureRecordsFile("test", []string{"D1", "D2"})
		}},
		{"ReadBoardArticleFile", func(w env) (interface{}, error) { return w.DB.ReadBoardArticleFile("test", ops.ArticleName) }},
		{"ReadBoardArticleFile of a long one", func(w env) (interface{}, error) { return w.DB.ReadBoardArticleFile("test", "long") }},
		{"ReadBoardTreasureFile", func(w env) (interface{}, error) {
			return w.DB.ReadBoardTreasureFile("test", []string{"D1"}, "M.5.A.005")
		}},
		{"GetUserArticleRecordFile", func(w env) (interface{}, error) { return w.DB.GetUserArticleRecordFile("commenter") }},
		{"GetUserCommentRecordFile", func(w env) (interface{}, error) { return w.DB.GetUserCommentRecordFile("commenter") }},
		{"GetBoardUserCommentRecord", func(w env) (interface{}, error) { return w.DB.GetBoardUserCommentRecord("one", "commenter") }},
		{"GetBoardArticleCommentRecords", func(w env) (interface{}, error) {
			h := pttbbs.NewFileHeader()
			h.SetFilename("M.100.A.000")
			return w.DB.GetBoardArticleCommentRecords("one", h)
		}},
		{"GetUserDrafts", func(w env) (interface{}, error) {
			d, err := w.DB.GetUserDrafts("tester", "3")
			if err != nil {
				return nil, err
			}
			return d.Raw(), nil
		}},
		{"GetUserDrafts of none", func(w env) (interface{}, error) {
			d, err := w.DB.GetUserDrafts("tester", "5")
			if err != nil {
				return nil, err
			}
			return d.Raw(), nil
		}},
		{"OpenUserInfoCache", func(w env) (interface{}, error) { return pttbbs.OpenUserInfoCache(w.file("uinfo")) }},
		{"OpenLoginRecentFile", func(w env) (interface{}, error) { return pttbbs.OpenLoginRecentFile(w.file("recent")) }},
		{"OpenBadLoginFile", func(w env) (interface{}, error) { return pttbbs.OpenBadLoginFile(w.file("logins.bad")) }},
		{"OpenFavFile", func(w env) (interface{}, error) { return pttbbs.OpenFavFile(w.file("home/t/tester/.fav")) }},
		{"OpenUserecFile", func(w env) (interface{}, error) { return pttbbs.OpenUserecFile(w.file(".PASSWDS")) }},
		{"OpenFormosaBBSFileHeaderFile", func(w env) (interface{}, error) {
			return formosabbs.OpenFormosaBBSFileHeaderFile(w.file("formosa"))
		}},
	}
	for _, x := range []struct {
		name string
		run  func(c conn, file string) (interface{}, error)
		file string
	}{
		{"ReadUserRecordsFile", func(c conn, f string) (interface{}, error) { return c.ReadUserRecordsFile(f) }, ".PASSWDS"},
		{"ReadUserFavoriteRecordsFile", func(c conn, f string) (interface{}, error) { return c.ReadUserFavoriteRecordsFile(f) }, "home/t/tester/.fav"},
		{"ReadBoardRecordsFile", func(c conn, f string) (interface{}, error) { return c.ReadBoardRecordsFile(f) }, ".BRD"},
		{"ReadArticleRecordsFile", func(c conn, f string) (interface{}, error) { return c.ReadArticleRecordsFile(f) }, "boards/t/test/.DIR"},
		{"the connector's ReadBoardArticleFile", func(c conn, f string) (interface{}, error) { return c.ReadBoardArticleFile(f) }, "boards/t/test/" + ops.ArticleName},
		{"ReadUserDraft", func(c conn, f string) (interface{}, error) { return c.ReadUserDraft(f) }, "home/t/tester/buf.4"},
	} {
		x := x
		l = append(l, reader{x.name, func(w env) (interface{}, error) {
			c, ok := w.C.(conn)
			if !ok {
				panic("the connector cannot read")
			}
			return x.run(c, w.file(x.file))
		}})
	}
	return l
}

// read explores the faults of a call which reads.
func read(r *kit.Run, c reader, p plan, large bool) error {
	w := env{&ops.World{Home: filepath.Join(r.Dir("h"), "home")}}
	w.Setup(ops.Start{"", 3, 0, 0})
	ops.Rich(w.Home, 0)
	if large {
		ops.Large(w.Home)
	}
	call := func(fault func(vsched.Op, int) vsched.Act) (string, error, *injector, error) {
		i := &injector{fault: fault}
		var got interface{}
		var err error
		ex := vx.Single(i.act, func() { got, err = c.run(w) })
		open := vsched.OpenFiles()
		vsched.Reset()
		if f := ex.Failure(); f != nil {
			return "", nil, i, fmt.Errorf("%q: %v", i.story, f)
		}
		if len(open) > 0 {
			return "", nil, i, fmt.Errorf("%q: the files %v are left open", i.story, open)
		}
		return show.Value(got), err, i, nil
	}
	before := pb.Tree(w.Home)
	want, err, base, bad := call(func(vsched.Op, int) vsched.Act { return vsched.Act{} })
	if bad != nil {
		return bad
	}
	if err != nil {
		return fmt.Errorf("without a fault: %v", err)
	}
	r.MaxNote("operations of a call", base.n)
	er := vx.Explore(r, 0, func(e *vx.Exec) error {
		got, err, i, bad := call(p.make(e))
		if bad != nil {
			return bad
		}
		r.Trans(i.n)
		r.State(kit.Hash(fmt.Sprint(err), got))
		r.Trace()
		if err == nil && got != want {
			return fmt.Errorf("%q: the result is %.600s without an error, want %.600s", i.story, got, want)
		}
		return nil
	})
	if er != nil {
		return er
	}
	return pb.TreeDiff(before, pb.Tree(w.Home))
}

// change explores the faults of a call which changes files, then makes some more calls without.
func change(r *kit.Run, s ops.Start, o ops.Op, p plan, names bool) error {
	w := &ops.World{Home: filepath.Join(r.Dir("h"), "home")}
	call := func(fault func(vsched.Op, int) vsched.Act) (error, *injector, error) {
		i := &injector{fault: fault}
		var err error
		ex := vx.Single(i.act, func() { err = o.Run(w) })
		open := vsched.OpenFiles()
		vsched.Reset()
		if f := ex.Failure(); f != nil {
			return nil, i, fmt.Errorf("%q: %v", i.story, f)
		}
		if len(open) > 0 {
			return nil, i, fmt.Errorf("%q: the files %v are left open", i.story, open)
		}
		return err, i, nil
	}
	w.Setup(s)
	clean, base, bad := call(func(vsched.Op, int) vsched.Act { return vsched.Act{} })
	if bad != nil {
		return bad
	}
	want := pb.Tree(w.Home)
	r.MaxNote("operations of a call", base.n)
	more := []ops.Op{ops.Add(11), ops.AddBoard(11), ops.AppendContent("z")}
	return vx.Explore(r, 0, func(e *vx.Exec) error {
		w.Setup(s)
		before := pb.Tree(w.Home)
		err, i, bad := call(p.make(e))
		if bad != nil {
			return bad
		}
		r.Trans(i.n)
		after := pb.Tree(w.Home)
		h := kit.Hash(fmt.Sprint(err))
		for k, v := range after {
			h += kit.Hash(k, v)
		}
		r.State(h)
		r.Trace()
		if err == nil && clean != nil {
			return fmt.Errorf("%q: the call succeeds, without the fault it fails with %v", i.story, clean)
		}
		if err == nil && !names {
			for k, v := range want {
				if g, ok := after[k]; !ok {
					return fmt.Errorf("%q: the call succeeds, but there is no file %s", i.story, k)
				} else if g != v {
					return fmt.Errorf("%q: the call succeeds, but the file %s is not as without the fault: %s", i.story, k, pb.Diff([]byte(g), []byte(v)))
				}
			}
			for k := range before {
				if _, ok := want[k]; !ok {
					if _, ok := after[k]; ok {
						return fmt.Errorf("%q: the call succeeds, but the file %s is still there", i.story, k)
					}
				}
			}
		}
		if err := ops.Unharmed(before, after, o.Files); err != nil {
			return fmt.Errorf("%q: %v", i.story, err)
		}
		// what the call does to the lists, and whether they can be used after it
		check := func(o ops.Op, failed bool) error {
			arts, brds, content, err := w.Look()
			if err != nil {
				return err
			}
			if failed {
				err = o.Cut(w, arts, brds, content)
			} else {
				a, b, c := o.Done(w)
				if err = ops.Same("articles", arts, a); err == nil {
					err = ops.Same("boards", brds, b)
				}
				if err == nil && c != content {
					err = fmt.Errorf("the article is %.80q, want %.80q", content, c)
				}
			}
			w.Arts, w.Brds, w.Content = arts, brds, content
			return err
		}
		if er := check(o, err != nil); er != nil {
			return fmt.Errorf("%q, error %v: %v", i.story, err, er)
		}
		if err == nil && len(i.story) == 0 {
			return nil
		}
		for _, m := range more {
			if er := m.Run(w); er != nil {
				return fmt.Errorf("%q, error %v; then %s without a fault fails: %v", i.story, err, m.Name, er)
			}
			if er := check(m, false); er != nil {
				return fmt.Errorf("%q, error %v; then %s without a fault: %v", i.story, err, m.Name, er)
			}
		}
		return nil
	})
}

func body(r *kit.Run) {
	sizes := []int64{1, 2, 3, 5, 7, 13, 64, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000}
	if r.Thorough {
		sizes = nil
		for i := int64(1); i < 520; i++ {
			sizes = append(sizes, i)
		}
	}
	deep := kit.Pick(r, 3, 4)
	plans := []plan{upTo(2, true), upTo(deep, false), dead(syscall.EIO), dead(syscall.EACCES), dead(syscall.ENOSPC), dead(syscall.EMFILE), slow(sizes, false)}
	if r.Thorough {
		plans = append(plans, upTo(3, true), slow([]int64{1, 7, 64, 100, 127, 128, 129, 255, 257, 511, 513}, true))
	} else {
		plans = append(plans, slow([]int64{100, 129}, true))
	}
	r.Section("calls which read")
	for _, c := range readers() {
		for _, p := range plans {
			c, p := c, p
			if strings.HasPrefix(c.name, "GetUserCommentRecordFile") && p.name == fmt.Sprintf("up to %d faults", deep) {
				continue
			}
			r.Check(c.name+", "+p.name, func() error { return read(r, c, p, false) })
		}
	}
	r.Section("calls which read large files")
	for _, c := range readers() {
		for _, p := range []plan{upTo(1, false), dead(syscall.EIO), slow([]int64{100, 1000, 4096}, false)} {
			c, p := c, p
			r.Check("large files, "+c.name+", "+p.name, func() error { return read(r, c, p, true) })
		}
	}
	r.Section("calls which change large files")
	for _, s := range []ops.Start{{"600 records", 600, 5, 0}, {"600 records and 100 bytes", 600, 5, 100}, {"300 boards", 5, 300, 0}, {"300 boards and 100 bytes", 5, 300, 100}} {
		for _, o := range []ops.Op{ops.Add(10), ops.Update(598, 10), ops.AddBoard(10), ops.RemoveBoard(298), ops.AppendContent(strings.Repeat("m", 70000)), ops.WriteOther(70000), ops.Draft(70000)} {
			for _, p := range []plan{upTo(2, false), dead(syscall.EIO), slow([]int64{100, 1000}, false)} {
				s, o, p := s, o, p
				r.Check(s.Name+", "+o.Name+", "+p.name, func() error { return change(r, s, o, p, false) })
			}
		}
	}
	r.Section("calls which change")
	starts := []ops.Start{{"no files", -1, -1, 0}, {"empty files", 0, 0, 0}, {"3 records", 3, 3, 0}, {"2 records and 1 byte", 2, 2, 1}, {"1 record and a torn one", 1, 1, 200}}
	for _, s := range starts {
		for _, o := range []ops.Op{ops.Add(10), ops.Update(0, 10), ops.Update(1, 10), ops.Update(2, 10), ops.AddBoard(10), ops.RemoveBoard(0), ops.RemoveBoard(1), ops.RemoveBoard(2), ops.AppendContent("more\n"), ops.AppendContent(strings.Repeat("m", 5000)),
			ops.WriteOther(0), ops.WriteOther(300), ops.WriteOther(5000), ops.Draft(1), ops.Draft(300), ops.DeleteDraft()} {
			for _, p := range plans {
				s, o, p := s, o, p
				r.Check(s.Name+", "+o.Name+", "+p.name, func() error { return change(r, s, o, p, false) })
			}
		}
		for _, o := range []ops.Op{ops.Create(), createMap()} {
			for _, p := range plans {
				s, o, p := s, o, p
				r.Check(s.Name+", "+o.Name+", "+p.name, func() error { return change(r, s, o, p, true) })
			}
		}
	}
	r.Section("rewriting an article")
	for _, n := range []int{0, 1, 40} {
		for _, p := range plans {
			n, p := n, p
			r.Check(fmt.Sprintf("%d bytes, %s", n, p.name), func() error { return change(r, starts[2], rewrite(n), p, false) })
		}
	}
}

// rewrite replaces the content of the article.
func rewrite(n int) ops.Op {
	o := ops.AppendContent("")
	o.Name = fmt.Sprintf("rewrite with %d bytes", n)
	text := strings.Repeat("R", n)
	o.Run = func(w *ops.World) error {
		return w.DB.WriteBoardArticleFile("test", ops.ArticleName, []byte(text))
	}
	o.Done = func(w *ops.World) ([]string, []string, string) { return w.Arts, w.Brds, text }
	o.Cut = func(w *ops.World, arts, brds []string, content string) error {
		if content != w.Content && !strings.HasPrefix(text, content) && !strings.HasPrefix(w.Content, content) {
			return fmt.Errorf("the article is %.80q, it was %.80q and %.80q was being written", content, w.Content, text)
		}
		return nil
	}
	return o
}

// createMap makes an article with its header.
func createMap() ops.Op {
	return ops.Other("NewArticleRecordWithMap", func(w *ops.World) error {
		c, ok := w.C.(interface {
			NewArticleRecordWithMap(map[string]interface{}) (bbs.ArticleRecord, error)
		})
		if !ok {
			panic("no NewArticleRecordWithMap")
		}
		a, err := c.NewArticleRecordWithMap(map[string]interface{}{"owner": "owner", "date": "1/01", "title": "title", "board_id": "test"})
		if err != nil {
			return err
		}
		b, err := os.ReadFile(pb.ArticlePath(w.Home, "test", a.Filename()))
		if err != nil {
			panic(fmt.Sprintf("the call succeeds, but there is no article: %v", err))
		}
		if !strings.Contains(string(b), "owner") || !strings.Contains(string(b), "title") || !strings.HasSuffix(string(b), "1/01\n") {
			panic(fmt.Sprintf("the call succeeds, but the article is %q", b))
		}
		return nil
	}, "new")
}
