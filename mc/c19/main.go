// C19: open databases are independent of each other.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"

	"verifmc/kit"
	"verifmc/ops"
	"verifmc/pb"
	"verifmc/show"
	"verifmc/vx"
)

func main() {
	if os.Getenv("GORACE") == "" {
		// a data race ends the process, which is a violation
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		panic(syscall.Exec(self, os.Args, append(os.Environ(), "GORACE=history_size=7 halt_on_error=1 exitcode=66")))
	}
	kit.Main(kit.Config{
		ID: "C19", Level: kit.ModelChecking,
		Rule:        "every history of registering, opening, failing to open, reading and writing up to the depth in the notes, against a model of the registry; every pair of calls on two databases, one after the other and with every schedule of the stated number of preemptions, compared with the calls made alone; many databases and drivers one after another; every schedule of concurrent registering and opening, under the race detector; a state is the registry with the open databases, or what all threads have done so far",
		Assumptions: []string{"a driver of which the connector is shared by all its databases cannot be independent; the drivers of this repository are not of that kind"},
		CaseTimeout: 15 * time.Minute,
		Body:        body,
	})
}

// fake is a driver which says which one it is.
type fake struct {
	bbs.Connector
	id     int
	record bool
	opened []string
}

func (f *fake) Open(source string) error {
	if source == "fail" {
		return fmt.Errorf("driver %d does not open %q", f.id, source)
	}
	if f.record {
		f.opened = append(f.opened, source)
	}
	return nil
}

func (f *fake) GetBoardRecordsPath() (string, error) { return fmt.Sprintf("fake %d", f.id), nil }
func (f *fake) ReadBoardRecordsFile(name string) ([]bbs.BoardRecord, error) {
	b := pttbbs.NewBoardHeader()
	b.SetBoardID(fmt.Sprintf("%d", f.id))
	if name != fmt.Sprintf("fake %d", f.id) {
		return nil, fmt.Errorf("driver %d got the path %q", f.id, name)
	}
	return []bbs.BoardRecord{b}, nil
}

// ---------------------------------------------------------------- histories

type open struct {
	db   *bbs.DB
	fake int // or
	home int
	src  string
}

type hist struct {
	n     int // of the history
	homes []string
	files [][]int         // articles of each home
	reg   map[string]conn // by name
	open  []open
	fakes int
}

type conn struct {
	c    bbs.Connector
	fake int
}

var shared = &pttbbs.Connector{}

type step struct {
	name string
	do   func(h *hist) error
}

func (h *hist) name(n string) string { return fmt.Sprintf("%d%s", h.n, n) }

func register(n, kind string) step {
	return step{"register " + n + " as " + kind, func(h *hist) error {
		if kind == "ptt" {
			bbs.Register(h.name(n), shared)
			h.reg[h.name(n)] = conn{shared, 0}
			return nil
		}
		h.fakes++
		f := &fake{id: h.fakes, record: true}
		bbs.Register(h.name(n), f)
		h.reg[h.name(n)] = conn{f, f.id}
		return nil
	}}
}

func (h *hist) source(home int) string {
	switch home {
	case 1:
		return "file://" + h.homes[1]
	case 2:
		return "file://" + h.homes[2] + "?a=b"
	}
	return h.homes[0]
}

func openStep(n string, home int) step {
	s := fmt.Sprintf("open %s with home %d", n, home)
	if home < 0 {
		s = fmt.Sprintf("open %s with something it refuses", n)
	}
	return step{s, func(h *hist) error {
		full := h.name(n)
		c, ok := h.reg[full]
		if n == "pttbbs" {
			full, c, ok = n, conn{}, true
		}
		src := "fail"
		if home >= 0 {
			src = h.source(home)
		} else if ok && c.fake == 0 {
			return nil // pttbbs refuses nothing
		}
		before := 0
		if c.fake > 0 {
			before = len(c.c.(*fake).opened)
		}
		db, err := bbs.Open(full, src)
		switch {
		case !ok || home < 0:
			if err == nil {
				return fmt.Errorf("opening %q with %q succeeds", full, src)
			}
			return nil
		case err != nil:
			return fmt.Errorf("opening %q with %q: %v", full, src, err)
		}
		if c.fake > 0 {
			o := c.c.(*fake).opened
			if len(o) != before+1 || o[before] != src {
				return fmt.Errorf("opening %q with %q opened the driver with %q", full, src, o[before:])
			}
		}
		h.open = append(h.open, open{db: db, fake: c.fake, home: home})
		return nil
	}}
}

func writeStep(last bool) step {
	s := "add an article with the first database"
	if last {
		s = "add an article with the last database"
	}
	return step{s, func(h *hist) error {
		i := 0
		if last {
			i = len(h.open) - 1
		}
		if i < 0 || len(h.open) == 0 || h.open[i].fake > 0 {
			return nil
		}
		o := h.open[i]
		n := 20*o.home + len(h.files[o.home])
		a, err := pb.N(n).Record()
		if err != nil {
			return err
		}
		if err := o.db.AddArticleRecordFileRecord("test", a); err != nil {
			return fmt.Errorf("adding an article to home %d: %v", o.home, err)
		}
		h.files[o.home] = append(h.files[o.home], n)
		return nil
	}}
}

// check looks through every open database.
func (h *hist) check() error {
	for i, o := range h.open {
		b, err := o.db.ReadBoardRecords()
		if err != nil {
			return fmt.Errorf("database %d: listing boards: %v", i, err)
		}
		want := fmt.Sprintf("home%d", o.home)
		if o.fake > 0 {
			want = fmt.Sprint(o.fake)
		}
		if len(b) != 1 || b[0].BoardID() != want {
			return fmt.Errorf("database %d: the boards are %s, want %s", i, show.Value(b), want)
		}
		if o.fake > 0 {
			continue
		}
		l, err := o.db.ReadBoardArticleRecordsFile("test")
		if err != nil {
			return fmt.Errorf("database %d: listing articles: %v", i, err)
		}
		var arts []pb.Art
		for _, n := range h.files[o.home] {
			arts = append(arts, pb.N(n))
		}
		if err := pb.SameList(l, arts); err != nil {
			return fmt.Errorf("database %d of home %d: %v", i, o.home, err)
		}
	}
	return nil
}

var count int

func runHistory(r *kit.Run, homes []string, steps []step) error {
	count++
	vsched.Reset()
	h := &hist{n: count, homes: homes, files: make([][]int, len(homes)), reg: map[string]conn{}}
	for i := range homes {
		must(os.WriteFile(pb.DirPath(homes[i], "test"), nil, 0644))
	}
	for i, s := range steps {
		err := s.do(h)
		if err == nil {
			err = h.check()
		}
		if err != nil {
			var l []string
			for _, s := range steps[:i+1] {
				l = append(l, s.name)
			}
			return fmt.Errorf("%s: %v", strings.Join(l, "; "), err)
		}
		r.Trans(1)
		st := ""
		for _, o := range h.open {
			st += fmt.Sprint(o.fake, o.home, h.files[o.home%3], ",")
		}
		r.State(kit.Hash(st, fmt.Sprint(len(h.reg), h.fakes)))
	}
	r.Trace()
	return nil
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func steps() []step {
	return []step{
		register("drv", "fake"), register("drv", "ptt"), register("Drv", "ptt"), register("Drv", "fake"),
		openStep("pttbbs", 0), openStep("pttbbs", 1), openStep("pttbbs", 2), openStep("drv", 0), openStep("drv", 1), openStep("Drv", 2),
		openStep("drv ", 0), openStep("dr", 1), openStep("drv", -1),
		writeStep(false), writeStep(true),
	}
}

func makeHomes(r *kit.Run) (homes []string) {
	dir := r.Dir("homes")
	for i := 0; i < 3; i++ {
		// the names of the homes have each other as a prefix
		h := filepath.Join(dir, "home"+strings.Repeat("2", i))
		must(pb.MakeBoard(h, "test"))
		b := make([]byte, 256)
		copy(b, fmt.Sprintf("home%d", i))
		must(os.WriteFile(filepath.Join(h, ".BRD"), b, 0644))
		homes = append(homes, h)
	}
	return homes
}

func histories(r *kit.Run) {
	depth := kit.Pick(r, 4, 5)
	r.MaxNote("depth of the histories", depth)
	all := steps()
	for a := range all {
		for b := range all {
			a, b := a, b
			r.Check(fmt.Sprintf("histories of %d steps: %s; %s", depth, all[a].name, all[b].name), func() error {
				homes := makeHomes(r)
				return vx.Explore(r, 0, func(e *vx.Exec) error {
					l := []step{all[a], all[b]}
					for len(l) < depth {
						l = append(l, all[e.Choose(len(all))])
					}
					return runHistory(r, homes, l)
				})
			})
		}
	}
}

// ---------------------------------------------------------------- calls on two databases

type db struct {
	*bbs.DB
	c    pb.Conn
	home string
}

type call struct {
	name  string
	run   func(w *db) (interface{}, error)
	write bool
}

func calls() []call {
	rd := func(name string, run func(w *db) (interface{}, error)) call { return call{name, run, false} }
	wr := func(name string, run func(w *db) error) call {
		return call{name, func(w *db) (interface{}, error) { return nil, run(w) }, true}
	}
	l := []call{
		rd("users", func(w *db) (interface{}, error) {
			u, err := w.ReadUserRecords()
			for _, x := range u {
				if x.VerifyPassword("secret") == nil {
					return nil, fmt.Errorf("every password is right")
				}
			}
			return u, err
		}),
		rd("favorites", func(w *db) (interface{}, error) { return w.ReadUserFavoriteRecords("tester") }),
		rd("boards", func(w *db) (interface{}, error) { return w.ReadBoardRecords() }),
		rd("articles", func(w *db) (interface{}, error) { return w.ReadBoardArticleRecordsFile("test") }),
		rd("treasures", func(w *db) (interface{}, error) {
			return w.ReadBoardTreasureRecordsFile("test", []string{"D1", "D2"})
		}),
		rd("article", func(w *db) (interface{}, error) { return w.ReadBoardArticleFile("one", "M.100.A.000") }),
		rd("treasure", func(w *db) (interface{}, error) {
			return w.ReadBoardTreasureFile("test", []string{"D1"}, "M.5.A.005")
		}),
		rd("articles of a user", func(w *db) (interface{}, error) { return w.GetUserArticleRecordFile("commenter") }),
		rd("comments of a user", func(w *db) (interface{}, error) { return w.GetUserCommentRecordFile("commenter") }),
		rd("draft", func(w *db) (interface{}, error) {
			d, err := w.GetUserDrafts("tester", "3")
			if err != nil {
				return nil, err
			}
			return d.Raw(), nil
		}),
		rd("recent logins", func(w *db) (interface{}, error) { return pttbbs.OpenLoginRecentFile(filepath.Join(w.home, "recent")) }),
		rd("bad logins", func(w *db) (interface{}, error) { return pttbbs.OpenBadLoginFile(filepath.Join(w.home, "logins.bad")) }),
		wr("add an article record", func(w *db) error {
			a, err := pb.N(12).Record()
			if err != nil {
				return err
			}
			return w.AddArticleRecordFileRecord("test", a)
		}),
		wr("update an article record", func(w *db) error {
			a, err := pb.N(13).Record()
			if err != nil {
				return err
			}
			return w.c.UpdateArticleRecordFileRecord(pb.DirPath(w.home, "test"), 1, a)
		}),
		wr("add a board", func(w *db) error {
			b, err := w.NewBoardRecord(map[string]interface{}{"board_id": "newboard", "title": "一個新看板"})
			if err != nil {
				return err
			}
			return w.AddBoardRecord(b)
		}),
		wr("remove a board", func(w *db) error {
			return pttbbs.RemoveBoardHeaderFileRecord(filepath.Join(w.home, ".BRD"), 1)
		}),
		wr("write an article", func(w *db) error {
			return w.WriteBoardArticleFile("test", ops.ArticleName, []byte("new content"))
		}),
		wr("append to an article", func(w *db) error { return w.AppendBoardArticleFile("test", ops.ArticleName, []byte("more\n")) }),
		wr("write a draft", func(w *db) error {
			return w.WriteUserDraft("tester", "3", bbs.NewUserDraft([]byte("draft of "+filepath.Base(w.home))))
		}),
		wr("delete a draft", func(w *db) error { return w.DeleteUserDraft("tester", "3") }),
		{"create an article", func(w *db) (interface{}, error) {
			return w.CreateArticleRecord("test", "owner", "1/02", "題目")
		}, true},
	}
	return l
}

func setup(home string, tag int) {
	w := &ops.World{Home: home}
	w.Setup(ops.Start{Name: "", Arts: 3 + tag, Brds: 0})
	ops.Rich(home, tag)
	texts(home, tag)
}

// texts makes the rest of a home with another content for each tag.
func texts(home string, tag int) {
	must(os.WriteFile(pb.ArticlePath(home, "test", ops.ArticleName), []byte(fmt.Sprintf("the article of home %d\n", tag)), 0644))
	must(os.WriteFile(filepath.Join(home, "home", "t", "tester", "buf.3"), []byte(fmt.Sprintf("draft 3 of %d", tag)), 0644))
	must(os.WriteFile(filepath.Join(home, "recent"), []byte(fmt.Sprintf("01/0%d/2020 03:04:05 example.org\n", tag+1)), 0644))
	must(os.WriteFile(filepath.Join(home, "logins.bad"), []byte(fmt.Sprintf("-tester      [01/0%d/2020 03:04:05 Thu] ?@example.org\n", tag+1)), 0644))
}

// when is the time of all files of homes which look alike.
var when = time.Unix(1600000000, 0)
var times int64

// alike makes homes of which the files have other contents, but the same sizes and times.
func alike(home string, tag int) {
	w := &ops.World{Home: home}
	w.Setup(ops.Start{Name: "", Arts: 3, Brds: 0})
	ops.Rich(home, tag)
	var b []byte
	for i := 0; i < 3; i++ {
		b = append(b, pb.N(10*tag+i).Bytes()...)
	}
	must(os.WriteFile(pb.DirPath(home, "test"), b, 0644))
	texts(home, tag)
	must(filepath.Walk(home, func(p string, _ os.FileInfo, err error) error {
		must(err)
		return os.Chtimes(p, when, when)
	}))
}

func openDB(home string) *db {
	d, err := bbs.Open("pttbbs", home)
	must(err)
	c := &pttbbs.Connector{}
	must(c.Open(home))
	return &db{d, c, home}
}

// clock gives the same times and random numbers to every call.
func clock(o vsched.Op) vsched.Act {
	switch o.Kind {
	case "time":
		return vsched.Act{Do: vsched.Value, N: 1600000000}
	case "rand", "seed":
		return vsched.Act{Do: vsched.Value, N: 7}
	}
	return vsched.Act{}
}

type result struct {
	value string
	err   bool
}

func (r result) String() string { return fmt.Sprintf("%.500s (error %v)", r.value, r.err) }

func outcome(v interface{}, err error) result { return raw{v, err}.result() }

// raw is what a call gave: it is looked at after all threads have ended, as looking at it might
// order the threads.
type raw struct {
	v   interface{}
	err error
}

func keep(v interface{}, err error) raw { return raw{v, err} }

func (r raw) result() result {
	if r.err != nil {
		return result{"", true}
	}
	return result{show.Value(r.v), false}
}

type alone struct {
	res  result
	tree map[string]string
}

func same(who string, got result, tree map[string]string, want alone) error {
	if got != want.res {
		return fmt.Errorf("%s gives %s, alone it gives %s", who, got, want.res)
	}
	for k, v := range want.tree {
		if g, ok := tree[k]; !ok || g != v {
			return fmt.Errorf("%s: the file %s is not as when it is made alone: %s", who, k, pb.Diff([]byte(g), []byte(v)))
		}
	}
	for k := range tree {
		if _, ok := want.tree[k]; !ok {
			return fmt.Errorf("%s: there is a file %s, which it does not make alone", who, k)
		}
	}
	return nil
}

func pairs(r *kit.Run, bound int, setup func(string, int), note string) {
	all := calls()
	for i := range all {
		for j := range all {
			a, b := all[i], all[j]
			r.Check(fmt.Sprintf("%s, %s on two databases%s, %d preemptions", a.name, b.name, note, bound), func() error {
				dir := r.Dir("p")
				home := [2]string{filepath.Join(dir, "home"), filepath.Join(dir, "home2")}
				both := func() { setup(home[0], 0); setup(home[1], 1) }
				single := func(c call, k int) (x alone, err error) {
					// not as it will be
					times++
					when = time.Unix(1500000000+times, 0)
					defer func() { when = time.Unix(1600000000, 0) }()
					setup(home[k], k)
					w := openDB(home[k])
					if f := vx.Single(clock, func() { x.res = outcome(c.run(w)) }).Failure(); f != nil {
						return x, f
					}
					vsched.Reset()
					x.tree = pb.Tree(home[k])
					return x, nil
				}
				wa, err := single(a, 0)
				if err != nil {
					return err
				}
				wb, err := single(b, 1)
				if err != nil {
					return err
				}
				if wo, err := single(a, 1); err != nil || !a.write && wo.res == wa.res {
					return fmt.Errorf("%s gives %s for both databases (%v)", a.name, wa.res, err)
				}
				both()
				if bound < 0 {
					// all orders of opening and calling
					for _, order := range []string{"ABab", "ABba", "AaBb", "BAab", "BAba", "BbAa", "ABaABb", "ABbABa"} {
						both()
						var A, B *db
						var ra, rb result
						f := vx.Single(clock, func() {
							for _, c := range order {
								switch c {
								case 'A':
									n := openDB(home[0])
									if A == nil {
										A = n
									}
								case 'B':
									n := openDB(home[1])
									if B == nil {
										B = n
									}
								case 'a':
									ra = outcome(a.run(A))
								case 'b':
									rb = outcome(b.run(B))
								}
							}
						}).Failure()
						vsched.Reset()
						if f != nil {
							return fmt.Errorf("%s: %v", order, f)
						}
						if err := same(order+": "+a.name, ra, pb.Tree(home[0]), wa); err != nil {
							return err
						}
						if err := same(order+": "+b.name, rb, pb.Tree(home[1]), wb); err != nil {
							return err
						}
						r.Eval(1)
						r.Trace()
					}
					return nil
				}
				fresh := true
				return vx.Explore(r, 0, func(e *vx.Exec) error {
					if !fresh && (a.write || b.write) {
						both()
					}
					fresh = false
					A, B := openDB(home[0]), openDB(home[1])
					var xa, xb raw
					vsched.Env = clock
					out, tr := vx.Threads(r, e, bound, func() { xa = keep(a.run(A)) }, func() { xb = keep(b.run(B)) })
					vsched.Env = nil
					vsched.Reset()
					if tr.Redundant {
						return nil
					}
					if err := vx.Failure(out); err != nil {
						return fmt.Errorf("%v\n    %v", err, tr)
					}
					r.Trace()
					ra, rb := xa.result(), xb.result()
					if err := same(a.name, ra, pb.Tree(home[0]), wa); err != nil {
						return fmt.Errorf("%v\n    %v", err, tr)
					}
					if err := same(b.name, rb, pb.Tree(home[1]), wb); err != nil {
						return fmt.Errorf("%v\n    %v", err, tr)
					}
					return nil
				})
			})
		}
	}
}

// shared makes calls on one database at the same time: no data race, and those which read
// give what they give alone.
func sharing(r *kit.Run, bound int) {
	all := calls()
	for i := range all {
		for j := range all[:i+1] {
			a, b := all[i], all[j]
			r.Check(fmt.Sprintf("%s, %s on one database, %d preemptions", a.name, b.name, bound), func() error {
				home := filepath.Join(r.Dir("p"), "home")
				setup(home, 0)
				w := openDB(home)
				var wa, wb result
				if !a.write && !b.write {
					if f := vx.Single(clock, func() { wa, wb = outcome(a.run(w)), outcome(b.run(w)) }).Failure(); f != nil {
						return f
					}
				}
				return vx.Explore(r, 0, func(e *vx.Exec) error {
					if a.write || b.write {
						setup(home, 0)
					}
					var xa, xb raw
					draws := [4]int64{}
					vsched.Env = func(o vsched.Op) vsched.Act {
						x := clock(o)
						if o.Kind == "rand" {
							draws[o.ID&3]++
							x.N = draws[o.ID&3] + 100*int64(o.ID)
						}
						return x
					}
					out, tr := vx.Threads(r, e, bound, func() { xa = keep(a.run(w)) }, func() { xb = keep(b.run(w)) })
					vsched.Env = nil
					vsched.Reset()
					if err := vx.Failure(out); err != nil {
						return fmt.Errorf("%v\n    %v", err, tr)
					}
					r.Trace()
					ra, rb := xa.result(), xb.result()
					if !a.write && !b.write && (ra != wa || rb != wb) {
						return fmt.Errorf("the results are %v and %v, alone they are %v and %v\n    %v", ra, rb, wa, wb, tr)
					}
					return nil
				})
			})
		}
	}
}

// ---------------------------------------------------------------- registering and opening at the same time

type event struct {
	kind, name string
	fake, home int
}

func (e event) String() string {
	if e.kind == "register" {
		return fmt.Sprintf("register %s as %d", e.name, e.fake)
	}
	return fmt.Sprintf("open %s with home %d", e.name, e.home)
}

func concurrent(r *kit.Run) {
	events := []event{{"register", "drv", 1, 0}, {"register", "drv", 2, 0}, {"register", "Drv", 3, 0}, {"register", "drv", 0, 0},
		{"open", "drv", 0, 0}, {"open", "drv", 0, 1}, {"open", "Drv", 0, 0}, {"open", "pttbbs", 0, 0}, {"open", "pttbbs", 0, 1}}
	bound := kit.Pick(r, 2, vx.Unbounded)
	_ = bound
	run := func(before []event, threads [][]event) {
		r.Check(fmt.Sprintf("after %v: %v at the same time", before, threads), func() error {
			homes := makeHomes(r)
			return vx.Explore(r, 0, func(e *vx.Exec) error {
				count++
				n := func(s string) string {
					if s == "pttbbs" {
						return s
					}
					return fmt.Sprintf("%d%s", count, s)
				}
				fakes := make([]*fake, 4)
				for i := range fakes {
					fakes[i] = &fake{id: i}
				}
				do := func(v event) string {
					if v.kind == "register" {
						if v.fake == 0 {
							bbs.Register(n(v.name), shared)
						} else {
							bbs.Register(n(v.name), fakes[v.fake])
						}
						return ""
					}
					d, err := bbs.Open(n(v.name), homes[v.home])
					if err != nil {
						return "error"
					}
					b, err := d.ReadBoardRecords()
					if err != nil || len(b) != 1 {
						return fmt.Sprintf("%d boards, %v", len(b), err)
					}
					return b[0].BoardID()
				}
				reg := map[string]int{"pttbbs": 0}
				for _, v := range before {
					do(v)
					reg[v.name] = v.fake
				}
				got := make([][]string, len(threads))
				var bodies []func()
				for i, t := range threads {
					i, t := i, t
					got[i] = make([]string, len(t))
					bodies = append(bodies, func() {
						for k, v := range t {
							got[i][k] = do(v)
						}
					})
				}
				out, tr := vx.Threads(r, e, bound, bodies...)
				vsched.Reset()
				if tr.Redundant {
					return nil
				}
				if err := vx.Failure(out); err != nil {
					return fmt.Errorf("%v\n    %v", err, tr)
				}
				r.Trace()
				// what is registered in the end
				final := map[string]string{}
				for _, m := range []string{"drv", "Drv"} {
					final[m] = do(event{"open", m, 0, 0})
				}
				if !sequential(reg, threads, got, final) {
					return fmt.Errorf("the results %q and then %q are those of no order\n    %v", got, final, tr)
				}
				return nil
			})
		})
	}
	for _, before := range [][]event{nil, {events[0]}, {events[3]}, {events[0], events[2]}} {
		for i, a := range events {
			for _, b := range events[:i+1] {
				run(before, [][]event{{a}, {b}})
				for _, c := range events {
					if r.Thorough || c.kind == "open" && a.kind == "register" {
						run(before, [][]event{{a, c}, {b}})
						run(before, [][]event{{a}, {b}, {c}})
					}
				}
			}
		}
	}
}

// sequential says whether the results are those of the events in some order.
func sequential(reg map[string]int, threads [][]event, got [][]string, final map[string]string) bool {
	board := func(f, home int) string {
		if f == 0 {
			return fmt.Sprintf("home%d", home)
		}
		return fmt.Sprint(f)
	}
	open := func(reg map[string]int, v event) string {
		f, ok := reg[v.name]
		if !ok {
			return "error"
		}
		return board(f, v.home)
	}
	pos := make([]int, len(threads))
	var try func(reg map[string]int) bool
	try = func(reg map[string]int) bool {
		left := false
		for i, t := range threads {
			if pos[i] == len(t) {
				continue
			}
			left = true
			v := t[pos[i]]
			next := reg
			if v.kind == "register" {
				next = map[string]int{}
				for k, x := range reg {
					next[k] = x
				}
				next[v.name] = v.fake
			} else if open(reg, v) != got[i][pos[i]] {
				continue
			}
			pos[i]++
			ok := try(next)
			pos[i]--
			if ok {
				return true
			}
		}
		if left {
			return false
		}
		for m, want := range final {
			if open(reg, event{"open", m, 0, 0}) != want {
				return false
			}
		}
		return true
	}
	return try(reg)
}

func body(r *kit.Run) {
	r.Section("histories")
	histories(r)
	r.Section("many databases")
	many(r)
	r.Section("homes and drivers with all kinds of names")
	names(r)
	r.Section("two databases, one call after the other")
	pairs(r, -1, setup, "")
	r.Section("two databases which look alike, one call after the other")
	pairs(r, -1, alike, " which look alike")
	r.Section("registering and opening at the same time")
	concurrent(r)
	r.Section("two databases at the same time")
	pairs(r, kit.Pick(r, 1, 2), setup, "")
	r.Section("one database at the same time")
	sharing(r, kit.Pick(r, 1, 2))
}

// many opens a database, and then a great many more: all kinds of opening, one after another.
func many(r *kit.Run) {
	n := kit.Pick(r, 300, 3000)
	r.MaxNote("databases open at once", n)
	homes := func(k int) []string {
		dir := r.Dir("many")
		var l []string
		for i := 0; i < k; i++ {
			h := filepath.Join(dir, fmt.Sprintf("home%d", i))
			must(os.MkdirAll(h, 0755))
			b := make([]byte, 256)
			copy(b, fmt.Sprintf("home%d", i))
			must(os.WriteFile(filepath.Join(h, ".BRD"), b, 0644))
			l = append(l, h)
		}
		return l
	}
	type opened struct {
		db   *bbs.DB
		want string
	}
	look := func(i int, o opened) error {
		b, err := o.db.ReadBoardRecords()
		if err != nil {
			return fmt.Errorf("database %d: %v", i, err)
		}
		if len(b) != 1 || b[0].BoardID() != o.want {
			return fmt.Errorf("database %d lists %s, want %s", i, show.Value(b), o.want)
		}
		return nil
	}
	// what is done at step i
	kinds := []struct {
		name  string
		homes int
		do    func(i int, hs []string, name string) (*bbs.DB, string, error)
	}{
		{"every database has its own home", n, func(i int, hs []string, _ string) (*bbs.DB, string, error) {
			d, err := bbs.Open("pttbbs", hs[i])
			return d, fmt.Sprintf("home%d", i), err
		}},
		{"three homes in turn", 3, func(i int, hs []string, _ string) (*bbs.DB, string, error) {
			d, err := bbs.Open("pttbbs", "file://"+hs[i%3])
			return d, fmt.Sprintf("home%d", i%3), err
		}},
		{"one home, and then another one for ever", 2, func(i int, hs []string, _ string) (*bbs.DB, string, error) {
			if i > 0 {
				i = 1
			}
			d, err := bbs.Open("pttbbs", hs[i])
			return d, fmt.Sprintf("home%d", i), err
		}},
		{"one home, and then drivers which do not exist", 1, func(i int, hs []string, name string) (*bbs.DB, string, error) {
			if i == 0 {
				d, err := bbs.Open("pttbbs", hs[0])
				return d, "home0", err
			}
			if _, err := bbs.Open(fmt.Sprintf("%s no %d", name, i), hs[0]); err == nil {
				return nil, "", fmt.Errorf("a driver which is not registered is opened")
			}
			return nil, "", nil
		}},
		{"drivers of which each has its own name", 0, func(i int, _ []string, name string) (*bbs.DB, string, error) {
			full := fmt.Sprintf("%s %d", name, i)
			bbs.Register(full, &fake{id: i + 1, record: true})
			d, err := bbs.Open(full, "x")
			return d, fmt.Sprint(i + 1), err
		}},
		{"one name which gets driver after driver", 0, func(i int, _ []string, name string) (*bbs.DB, string, error) {
			bbs.Register(name, &fake{id: i + 1, record: true})
			d, err := bbs.Open(name, "x")
			return d, fmt.Sprint(i + 1), err
		}},
		{"a driver, and then opening it in vain", 0, func(i int, _ []string, name string) (*bbs.DB, string, error) {
			if i == 0 {
				bbs.Register(name, &fake{id: 1, record: true})
				d, err := bbs.Open(name, "x")
				return d, "1", err
			}
			if _, err := bbs.Open(name, "fail"); err == nil {
				return nil, "", fmt.Errorf("a driver which fails is opened")
			}
			return nil, "", nil
		}},
	}
	for ki := range kinds {
		k := kinds[ki]
		r.Check("many databases: "+k.name, func() error {
			vsched.Reset()
			count++
			hs := homes(k.homes)
			name := fmt.Sprintf("%d many", count)
			var l []opened
			for i := 0; i < n; i++ {
				d, want, err := k.do(i, hs, name)
				if err != nil {
					return fmt.Errorf("step %d: %v", i, err)
				}
				if d != nil {
					l = append(l, opened{d, want})
				}
				for _, j := range []int{0, len(l) / 2, len(l) - 1} {
					if err := look(j, l[j]); err != nil {
						return fmt.Errorf("after step %d: %v", i, err)
					}
				}
				r.Trans(1)
			}
			for j := range l {
				if err := look(j, l[j]); err != nil {
					return fmt.Errorf("at the end: %v", err)
				}
			}
			if strings.HasPrefix(k.name, "drivers of") {
				for i := 0; i < n; i++ {
					d, err := bbs.Open(fmt.Sprintf("%s %d", name, i), "y")
					if err != nil {
						return fmt.Errorf("opening driver %d again: %v", i, err)
					}
					if err := look(i, opened{d, fmt.Sprint(i + 1)}); err != nil {
						return err
					}
				}
			}
			r.Trace()
			return nil
		})
	}
}

// names opens databases on homes, and drivers, whose names are alike or unusual.
func names(r *kit.Run) {
	odd := []string{"a", "A", "aa", "a?b", "a?", "a?b=c", "a b", "a ", " a", "a%20b", "a%b", "a%62", "a#b", "a:b", "a&b", "a;b", "a\\b", "a\tb", "a\"b", "a'b", "file:", "pttbbs", "~", "-a", ".a", "a.", "...", "$HOME", "中文", "中", "\xa4\xa4", "ａ", "a,b", "a=b", "a@b", "a|b", "*", "[a]", strings.Repeat("a", 200), strings.Repeat("a", 199) + "b"}
	home := func(dir, n string, i int) string {
		h := filepath.Join(dir, n)
		must(pb.MakeBoard(h, "test"))
		b := make([]byte, 256)
		copy(b, fmt.Sprintf("home%d", i))
		must(os.WriteFile(filepath.Join(h, ".BRD"), b, 0644))
		must(os.WriteFile(pb.DirPath(h, "test"), pb.N(i).Bytes(), 0644))
		return h
	}
	check := func(db *bbs.DB, i int) error {
		vsched.Reset()
		b, err := db.ReadBoardRecords()
		if err != nil || len(b) != 1 || b[0].BoardID() != fmt.Sprintf("home%d", i) {
			return fmt.Errorf("the boards are %s, %v, want home%d", show.Value(b), err, i)
		}
		l, err := db.ReadBoardArticleRecordsFile("test")
		if err != nil {
			return err
		}
		return pb.SameList(l, []pb.Art{pb.N(i)})
	}
	for a, n := range odd {
		a, n := a, n
		r.Check(fmt.Sprintf("home %q with every other", n), func() error {
			dir := r.Dir("names")
			first := home(dir, n, 0)
			for b, m := range odd {
				if a == b {
					continue
				}
				second := home(dir, m, 1)
				for k, form := range [][2]string{{"", ""}, {"", "/"}, {"/", ""}} {
					x, err := bbs.Open("pttbbs", first+form[0])
					if err != nil {
						return err
					}
					y, err := bbs.Open("pttbbs", second+form[1])
					if err != nil {
						return err
					}
					if err := check(x, 0); err != nil {
						return fmt.Errorf("home %q, opened before %q: %v", first+form[0], second+form[1], err)
					}
					if err := check(y, 1); err != nil {
						return fmt.Errorf("home %q, opened after %q: %v", second+form[1], first+form[0], err)
					}
					r.Eval(1)
					r.Distinct(kit.Hash("names", fmt.Sprint(a, b, k)))
				}
				must(os.RemoveAll(second))
			}
			return nil
		})
	}
	r.Check("many databases", func() error {
		dir := r.Dir("names")
		var dbs []*bbs.DB
		for i := 0; i < 1100; i++ {
			db, err := bbs.Open("pttbbs", home(dir, fmt.Sprint(i), i))
			if err != nil {
				return err
			}
			dbs = append(dbs, db)
		}
		for i, db := range dbs {
			if err := check(db, i); err != nil {
				return fmt.Errorf("database %d of %d: %v", i, len(dbs), err)
			}
		}
		return nil
	})
	r.Check("many drivers", func() error {
		l := append([]string{""}, odd...)
		for i := 0; i < 1100; i++ {
			l = append(l, fmt.Sprintf("driver%d", i))
		}
		for i, n := range l {
			vsched.Reset()
			if _, err := bbs.Open("x"+n, "x"); err == nil {
				return fmt.Errorf("the driver %q is not registered and is opened", "x"+n)
			}
			bbs.Register("x"+n, &fake{id: i})
		}
		for i, n := range l {
			vsched.Reset()
			db, err := bbs.Open("x"+n, "x")
			if err != nil {
				return fmt.Errorf("driver %q of %d: %v", "x"+n, len(l), err)
			}
			b, err := db.ReadBoardRecords()
			if err != nil || len(b) != 1 || b[0].BoardID() != fmt.Sprint(i) {
				return fmt.Errorf("driver %q of %d: %s, %v", "x"+n, len(l), show.Value(b), err)
			}
			r.Eval(1)
		}
		return nil
	})
}
