// C12: new article file names are unique and reserved.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"
	"github.com/Ptt-official-app/go-bbs/verifmcshim/vtime"

	"verifmc/kit"
	"verifmc/pb"
	"verifmc/vx"
)

func main() {
	kit.Main(kit.Config{
		ID: "C12", Level: kit.ModelChecking,
		Rule:        "every schedule (a switch is possible before every operation on files, locks, clock and random numbers; sleep sets leave out those which differ in the order of independent operations) of concurrent callers, times every pattern of random numbers out of two and of clocks which stand still or go on for the stated number of draws of each caller, times which of the names are taken before; a state is what all callers have done so far",
		Assumptions: []string{"after the pattern the random numbers differ and the clock goes on, otherwise no program could find a free name", "the callers are threads sharing a database, or processes"},
		CaseTimeout: 15 * time.Minute,
		Body:        body,
	})
}

const base = 1600000000

var shape = regexp.MustCompile(`^M\.[0-9]+\.A\.[0-9A-F]{3}$`)

// env chooses the numbers and times.
type env struct {
	e     *vx.Exec
	draws int // of each caller which are chosen
	times int
	n, t  [8]int
	now   [8]int64
	fault func(vsched.Op) vsched.Act
}

func (v *env) act(o vsched.Op) vsched.Act {
	id := o.ID & 7
	switch o.Kind {
	case "seed":
		return vsched.Act{Do: vsched.Value}
	case "rand":
		v.n[id]++
		if v.n[id] <= v.draws {
			return vsched.Act{Do: vsched.Value, N: int64(v.e.Choose(2))}
		}
		return vsched.Act{Do: vsched.Value, N: int64(16 + id*256 + v.n[id])}
	case "time":
		v.t[id]++
		if v.t[id] <= v.times {
			v.now[id] += int64(v.e.Choose(2))
		} else if v.t[id] > v.times+4 {
			v.now[id]++
		}
		return vsched.Act{Do: vsched.Value, N: v.now[id]}
	}
	if v.fault != nil {
		return v.fault(o)
	}
	return vsched.Act{}
}

type world struct {
	home string
	db   *bbs.DB
	c    pb.Conn
}

func open(home string) *world {
	db, c, err := pb.Open(home)
	if err != nil {
		panic(err)
	}
	return &world{home, db, c}
}

// a way to make an article: it returns the name
type way struct {
	name string
	make func(w *world, who int) (string, error)
	want func(who int, name string) string // the content of the file
}

func title(who int) string { return fmt.Sprintf("title of %d", who) }

var ways = []way{
	{"CreateArticleRecord", func(w *world, who int) (string, error) {
		a, err := w.db.CreateArticleRecord("test", "owner", "1/01", title(who))
		if err != nil {
			return "", err
		}
		if a.Title() != title(who) || a.Owner() != "owner" || a.Date() != "1/01" {
			return "", fmt.Errorf("BROKEN record: %q %q %q", a.Title(), a.Owner(), a.Date())
		}
		return a.Filename(), nil
	}, func(int, string) string { return "" }},
	{"NewArticleRecordWithMap", func(w *world, who int) (string, error) {
		c, ok := w.c.(interface {
			NewArticleRecordWithMap(map[string]interface{}) (bbs.ArticleRecord, error)
		})
		if !ok {
			return "", fmt.Errorf("BROKEN: no NewArticleRecordWithMap")
		}
		a, err := c.NewArticleRecordWithMap(map[string]interface{}{"owner": "owner", "date": "1/01", "title": title(who), "board_id": "test"})
		if err != nil {
			return "", err
		}
		return a.Filename(), nil
	}, func(who int, _ string) string { return title(who) }},
	{"post", func(w *world, who int) (string, error) {
		a, err := w.db.CreateArticleRecord("test", "owner", "1/01", title(who))
		if err != nil {
			return "", err
		}
		if err := w.db.WriteBoardArticleFile("test", a.Filename(), []byte("content of "+title(who))); err != nil {
			return "", err
		}
		return a.Filename(), w.db.AddArticleRecordFileRecord("test", a)
	}, func(who int, _ string) string { return "content of " + title(who) }},
}

func setup(home string, taken []string) {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.RemoveAll(home))
	must(os.MkdirAll(home, 0755))
	must(pb.MakeBoard(home, "test"))
	must(pb.MakeBoard(home, "other"))
	for _, n := range taken {
		must(os.WriteFile(pb.ArticlePath(home, "test", n), []byte("article "+n), 0644))
	}
}

// verify looks at the directory after names have been given out.
func verify(home string, taken []string, ws []way, names []string) error {
	seen := map[string]bool{}
	for i, n := range names {
		if n == "" {
			continue
		}
		if !shape.MatchString(n) {
			return fmt.Errorf("caller %d gets the name %q", i, n)
		}
		if seen[n] {
			return fmt.Errorf("the name %s is given to two callers", n)
		}
		seen[n] = true
		b := pb.Read(pb.ArticlePath(home, "test", n))
		if b == nil {
			return fmt.Errorf("the name %s of caller %d is not reserved by a file", n, i)
		}
		if w := ws[i].want(i, n); !strings.Contains(string(b), w) || w == "" && len(b) > 0 {
			return fmt.Errorf("the file %s of caller %d has %q", n, i, b)
		}
	}
	for _, n := range taken {
		if seen[n] {
			return fmt.Errorf("the name %s was taken before", n)
		}
		seen[n] = true
		if g := string(pb.Read(pb.ArticlePath(home, "test", n))); g != "article "+n {
			return fmt.Errorf("the article %s was there before and is %q now", n, g)
		}
	}
	var surplus []string
	es, err := os.ReadDir(filepath.Dir(pb.DirPath(home, "test")))
	if err != nil {
		return err
	}
	for _, e := range es {
		if !seen[e.Name()] && e.Name() != ".DIR" {
			surplus = append(surplus, e.Name())
		}
	}
	if len(surplus) > 0 {
		return fmt.Errorf("there are files %v, which no caller has", surplus)
	}
	return nil
}

func taken(mask int) (l []string) {
	for i, n := range []string{"M.1600000000.A.000", "M.1600000000.A.001", "M.1600000001.A.000", "M.1600000001.A.001"} {
		if mask>>uint(i)&1 == 1 {
			l = append(l, n)
		}
	}
	return
}

func explore(r *kit.Run, bound, draws, times int, processes bool, pre []string, ws []way) error {
	home := filepath.Join(r.Dir("h"), "home")
	return vx.Explore(r, 0, func(e *vx.Exec) error {
		setup(home, pre)
		vsched.Reset()
		vsched.Processes = processes
		shared := open(home)
		names, errs := make([]string, len(ws)), make([]error, len(ws))
		var bodies []func()
		for i := range ws {
			i := i
			w := shared
			if processes {
				w = open(home)
			}
			bodies = append(bodies, func() { names[i], errs[i] = ws[i].make(w, i) })
		}
		vsched.Reset()
		vsched.Env = (&env{e: e, draws: draws, times: times}).act
		out, tr := vx.Threads(r, e, bound, bodies...)
		vsched.Env = nil
		vsched.Processes = false
		defer vsched.CloseAll()
		if tr.Redundant {
			return nil
		}
		bad := vx.Failure(out)
		for i, err := range errs {
			if bad == nil && err != nil {
				bad = fmt.Errorf("caller %d: %v", i, err)
			}
		}
		if f := vsched.OpenFiles(); bad == nil && len(f) > 0 {
			bad = fmt.Errorf("%v is still open", f)
		}
		if bad == nil {
			bad = verify(home, pre, ws, names)
		}
		if bad == nil {
			bad = listed(shared, ws, names)
		}
		if bad != nil {
			return fmt.Errorf("%v; schedule:\n    %v", bad, tr)
		}
		r.Trace()
		return nil
	})
}

// listed checks the index when articles were posted.
func listed(w *world, ws []way, names []string) error {
	var want []string
	for i := range ws {
		if ws[i].name == "post" {
			want = append(want, names[i]+" "+title(i))
		}
	}
	if len(want) == 0 {
		return nil
	}
	l, err := w.db.ReadBoardArticleRecordsFile("test")
	if err != nil {
		return err
	}
	var got []string
	for _, a := range l {
		got = append(got, a.Filename()+" "+a.Title())
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("articles %q are listed, want %q", got, want)
	}
	return nil
}

func body(r *kit.Run) {
	check := func(bound, draws, times, mask int, ws ...way) {
		for _, proc := range []bool{false, true} {
			proc := proc
			var n []string
			for _, w := range ws {
				n = append(n, w.name)
			}
			who := "threads"
			if proc {
				who = "processes"
			}
			if proc && len(ws) == 1 {
				continue
			}
			r.Check(fmt.Sprintf("%s, %d draws, %d times, taken %04b, preemptions %d: %s", who, draws, times, mask, bound, strings.Join(n, " / ")), func() error {
				return explore(r, bound, draws, times, proc, taken(mask), ws)
			})
		}
	}
	c, m, p := ways[0], ways[1], ways[2]
	r.Section("one caller")
	for mask := 0; mask < 16; mask++ {
		for _, w := range ways {
			check(vx.Unbounded, kit.Pick(r, 4, 6), kit.Pick(r, 3, 5), mask, w)
		}
	}
	r.Section("two callers")
	for mask := 0; mask < 16; mask++ {
		check(vx.Unbounded, 2, 2, mask, c, c)
		check(vx.Unbounded, 2, 2, mask, c, m)
		check(vx.Unbounded, 2, 2, mask, m, m)
	}
	for _, mask := range []int{0, 5} {
		check(kit.Pick(r, 2, 4), 1, 1, mask, p, p)
		check(kit.Pick(r, 2, 4), 1, 1, mask, p, m)
		check(vx.Unbounded, 3, kit.Pick(r, 1, 3), mask, c, c)
	}
	r.Section("three callers")
	for mask := 0; mask < 16; mask += kit.Pick(r, 5, 1) {
		check(vx.Unbounded, kit.Pick(r, 1, 2), 1, mask, c, c, c)
		check(vx.Unbounded, 1, kit.Pick(r, 0, 1), mask, c, m, m)
	}
	check(kit.Pick(r, 1, 2), 1, 0, 0, c, c, c, c)
	check(kit.Pick(r, 1, 2), 1, 0, 0, p, p, p)

	r.Section("all names of a second")
	for _, w := range ways {
		w := w
		for _, left := range []int{0, 1, 2, 4095} {
			left := left
			r.Check(fmt.Sprintf("%s with %d of 4096 names free", w.name, left), func() error {
				home := filepath.Join(r.Dir("h"), "home")
				var pre []string
				for i := left; i < 4096; i++ {
					pre = append(pre, fmt.Sprintf("M.%d.A.%03X", base, i))
				}
				setup(home, pre)
				for k := 0; k < 3; k++ {
					var name string
					var err error
					n, t := 0, 0
					pan := vx.Single(func(o vsched.Op) vsched.Act {
						switch o.Kind {
						case "seed":
							return vsched.Act{Do: vsched.Value}
						case "rand":
							n++
							return vsched.Act{Do: vsched.Value, N: int64(n*7 + 4000)}
						case "time":
							if t++; t > 300 {
								return vsched.Act{Do: vsched.Value, N: int64(k + 1)}
							}
							return vsched.Act{Do: vsched.Value}
						}
						return vsched.Act{}
					}, func() { name, err = w.make(open(home), 0) })
					if pan != nil {
						return pan.Failure()
					}
					if err != nil {
						return err
					}
					if err := verify(home, pre, []way{w}, []string{name}); err != nil {
						return err
					}
					os.Remove(pb.ArticlePath(home, "test", name))
					os.Remove(pb.DirPath(home, "test"))
				}
				return nil
			})
		}
	}

	r.Section("all kinds of times")
	for _, w := range ways {
		for _, at := range []int64{0, 1, 9, 999999999, 1000000000, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 4300000000, 9999999999, 10000000000, 253402300799} {
			for _, frac := range []int64{0, 1, 499999999, 500000000, 999999999} {
				w, at, frac := w, at, frac
				r.Check(fmt.Sprintf("%s at %d.%09d", w.name, at, frac), func() error {
					home := filepath.Join(r.Dir("h"), "home")
					pre := []string{fmt.Sprintf("M.%d.A.000", at), fmt.Sprintf("M.%d.A.005", at), fmt.Sprintf("M.%d.A.FFF", at)}
					for _, cut := range []int64{int64(uint32(at)), int64(int32(at) & 0x7fffffff)} {
						if n := fmt.Sprintf("M.%d.A.000", cut); cut != at && n != pre[len(pre)-1] {
							pre = append(pre, n)
						}
					}
					setup(home, pre)
					defer func(b time.Time) { vtime.Base = b }(vtime.Base)
					vtime.Base = time.Unix(at, frac)
					var names []string
					var ws []way
					n := 0
					for k := 0; k < 3; k++ {
						var name string
						var err error
						pan := vx.Single(func(o vsched.Op) vsched.Act {
							switch o.Kind {
							case "seed", "time":
								return vsched.Act{Do: vsched.Value}
							case "rand":
								n++
								return vsched.Act{Do: vsched.Value, N: int64((n - 1) / 2 * 5)}
							}
							return vsched.Act{}
						}, func() { name, err = w.make(open(home), k) })
						if pan != nil {
							return pan.Failure()
						}
						if err != nil {
							return err
						}
						if !strings.HasPrefix(name, fmt.Sprintf("M.%d.A.", at)) {
							return fmt.Errorf("the name is %s", name)
						}
						names, ws = append(names, name), append(ws, w)
					}
					os.Remove(pb.DirPath(home, "test"))
					return verify(home, pre, ws, names)
				})
			}
		}
	}

	r.Section("directories which cannot be written")
	errnos := []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EROFS, syscall.EMFILE, syscall.ENFILE, syscall.ENOENT, syscall.ENOTDIR, syscall.EDQUOT, syscall.ENAMETOOLONG, syscall.EPERM, syscall.ENOMEM, syscall.EISDIR, syscall.ELOOP}
	for _, w := range ways[:2] {
		w := w
		for _, en := range errnos {
			en := en
			for from := 0; from < 3; from++ {
				from := from
				r.Check(fmt.Sprintf("%s: %v from creation %d on", w.name, en, from), func() error {
					home := filepath.Join(r.Dir("h"), "home")
					pre := taken(3)[:from]
					setup(home, pre)
					var name string
					var err error
					n, k := 0, 0
					pan := vx.Single(func(o vsched.Op) vsched.Act {
						switch o.Kind {
						case "seed":
							return vsched.Act{Do: vsched.Value}
						case "time":
							return vsched.Act{Do: vsched.Value}
						case "rand":
							n++
							return vsched.Act{Do: vsched.Value, N: int64(n - 1)}
						case "create":
							if k++; k > from {
								return vsched.Act{Do: vsched.Fail, Err: en}
							}
						}
						return vsched.Act{}
					}, func() { name, err = w.make(open(home), 0) })
					if pan != nil {
						return pan.Failure()
					}
					if err == nil {
						return fmt.Errorf("it succeeds with the name %q", name)
					}
					if strings.Contains(err.Error(), "BROKEN") {
						return err
					}
					if f := vsched.OpenFiles(); len(f) > 0 {
						return fmt.Errorf("%v is still open", f)
					}
					return verify(home, pre, nil, nil)
				})
			}
		}
		for _, how := range []string{"no directory", "a file", "a dangling link", "no home"} {
			how := how
			r.Check(fmt.Sprintf("%s: the board is %s", w.name, how), func() error {
				home := filepath.Join(r.Dir("h"), "home")
				setup(home, nil)
				d := filepath.Dir(pb.DirPath(home, "test"))
				os.RemoveAll(d)
				switch how {
				case "a file":
					os.WriteFile(d, nil, 0644)
				case "a dangling link":
					os.Symlink("nowhere", d)
				case "no home":
					os.RemoveAll(home)
				}
				before := pb.Tree(filepath.Dir(home))
				var err error
				var name string
				pan := vx.Single(nil, func() { name, err = w.make(open(home), 0) })
				if pan != nil {
					return pan.Failure()
				}
				if err == nil {
					return fmt.Errorf("it succeeds with the name %q", name)
				}
				return pb.TreeDiff(before, pb.Tree(filepath.Dir(home)))
			})
		}
	}

	r.Section("incomplete descriptions")
	keys := []string{"owner", "date", "title", "board_id"}
	kinds := []string{"given", "missing", "nil", "a number", "bytes"}
	for n := 0; n < 5*5*5*5; n++ {
		n := n
		args, m, bad := []string(nil), map[string]interface{}{"other": "x"}, false
		for i, c := 0, n; i < 4; i, c = i+1, c/5 {
			v := map[string]string{"owner": "owner", "date": "1/01", "title": "title", "board_id": "test"}[keys[i]]
			switch kinds[c%5] {
			case "given":
				m[keys[i]] = v
			case "nil":
				m[keys[i]] = nil
			case "a number":
				m[keys[i]] = 5
			case "bytes":
				m[keys[i]] = []byte(v)
			}
			bad = bad || c%5 > 0
			args = append(args, keys[i]+" "+kinds[c%5])
		}
		if !bad {
			continue
		}
		r.Check("NewArticleRecordWithMap with "+strings.Join(args, ", "), func() error { return incomplete(r, m) })
	}
	r.Check("NewArticleRecordWithMap with nothing", func() error { return incomplete(r, nil) })
	for _, id := range []string{"", "none"} {
		id := id
		r.Check(fmt.Sprintf("NewArticleRecordWithMap for the board %q", id), func() error {
			return incomplete(r, map[string]interface{}{"owner": "owner", "date": "1/01", "title": "title", "board_id": id})
		})
	}
	r.Section("descriptions")
	// Each value fits its field and is Big5 on the disk.
	owners := []string{"owner", "a", "ab", "abcdefghijkl", "a.b-c_d", "guest", "SYSOP", "12345"}
	dates := []string{"1/01", " 1/01", "12/31", "01/02", " 9/09", "0/0", ""}
	titles := []string{"", "a", "title", "標題", "Re: [問題] 什麼?", "  two  spaces ", "%s %d %%", "a\tb", "功蓋許 \\ 誌", "\x1b[1;31mred\x1b[m", strings.Repeat("長", 32), strings.Repeat("t", 64), "轉錄 ◇", "M.1.A.000"}
	boards := []string{"test", "other", "a", "a.b-c_d", "Test_1", "abcdefghijkl"}
	describe := func(owner, date, title, board string) {
		for _, way := range []string{"NewArticleRecordWithMap", "CreateArticleRecord", "NewArticleRecord"} {
			way := way
			r.Check(fmt.Sprintf("%s with owner %q, date %q, title %q, board %q", way, owner, date, title, board), func() error {
				return described(r, way, owner, date, title, board)
			})
		}
	}
	for _, t := range titles {
		for _, d := range dates {
			describe("owner", d, t, "test")
		}
		for _, o := range owners {
			describe(o, "1/01", t, "test")
		}
		for _, b := range boards {
			describe("owner", "1/01", t, b)
		}
	}
	for _, o := range owners {
		for _, d := range dates {
			describe(o, d, "title", "test")
		}
		for _, b := range boards {
			describe(o, "1/01", "title", b)
		}
	}
	for _, d := range dates {
		for _, b := range boards {
			describe("owner", d, "title", b)
		}
	}
}

// described makes an article: it has to be the one which was asked for, also
// when it is looked at again in the index of the board.
func described(r *kit.Run, way, owner, date, title, board string) error {
	home := filepath.Join(r.Dir("h"), "home")
	setup(home, taken(3))
	if board != "test" && board != "other" {
		if err := pb.MakeBoard(home, board); err != nil {
			return err
		}
	}
	type made interface {
		NewArticleRecordWithMap(map[string]interface{}) (bbs.ArticleRecord, error)
	}
	var a bbs.ArticleRecord
	var err error
	var list []bbs.ArticleRecord
	if pan := vx.Single(nil, func() {
		w := open(home)
		switch way {
		case "NewArticleRecordWithMap":
			a, err = w.c.(made).NewArticleRecordWithMap(map[string]interface{}{"owner": owner, "date": date, "title": title, "board_id": board})
		case "CreateArticleRecord":
			a, err = w.db.CreateArticleRecord(board, owner, date, title)
		case "NewArticleRecord":
			var n string
			if n, err = w.c.CreateBoardArticleFilename(board); err == nil {
				a, err = w.c.NewArticleRecord(n, owner, date, title)
			}
		}
		if err == nil {
			if err = w.db.AddArticleRecordFileRecord(board, a); err == nil {
				list, err = w.db.ReadBoardArticleRecordsFile(board)
			}
		}
	}); pan != nil {
		return pan.Failure()
	}
	if err != nil {
		return err
	}
	if !shape.MatchString(a.Filename()) {
		return fmt.Errorf("the name is %q", a.Filename())
	}
	content := pb.Read(pb.ArticlePath(home, board, a.Filename()))
	if content == nil {
		return fmt.Errorf("the name %s is not reserved by a file", a.Filename())
	}
	if way == "NewArticleRecordWithMap" {
		for _, v := range []string{owner, date, title, board} {
			if !strings.Contains(string(content), v) && !strings.Contains(string(content), string(pb.Big5(v))) {
				return fmt.Errorf("the article does not say %q: %q", v, content)
			}
		}
	}
	if len(list) != 1 {
		return fmt.Errorf("the index has %d records", len(list))
	}
	for i, g := range []bbs.ArticleRecord{a, list[0]} {
		if g.Filename() != a.Filename() || g.Owner() != owner || g.Date() != date || g.Title() != title {
			return fmt.Errorf("%s it has file %q, owner %q, date %q, title %q", []string{"the new record:", "listed:"}[i], g.Filename(), g.Owner(), g.Date(), g.Title())
		}
	}
	return nil
}

// incomplete asks for an article which cannot be made.
func incomplete(r *kit.Run, m map[string]interface{}) error {
	home := filepath.Join(r.Dir("h"), "home")
	setup(home, taken(3))
	before := pb.Tree(home)
	var a bbs.ArticleRecord
	var err error
	if pan := vx.Single(nil, func() {
		a, err = open(home).c.(interface {
			NewArticleRecordWithMap(map[string]interface{}) (bbs.ArticleRecord, error)
		}).NewArticleRecordWithMap(m)
	}); pan != nil {
		return pan.Failure()
	}
	if err == nil {
		return fmt.Errorf("it succeeds with %v", a)
	}
	return pb.TreeDiff(before, pb.Tree(home))
}
