// C13: concurrent changes of indexes and articles never lose or mix.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"

	"verifmc/kit"
	"verifmc/pb"
	"verifmc/vx"
)

func main() {
	kit.Main(kit.Config{
		ID: "C13", Level: kit.ModelChecking,
		Rule: "every schedule of the listed calls, run as real code on real files with a switch possible before every operation on files, locks and changing package variables; pairs without a bound on preemptions, triples and sequences with the bound in the notes; a state is what all threads have done so far; the results and the files have to be those of a sequential order of the same calls",
		Assumptions: []string{"one write call of the operating system is atomic with regard to others", "advisory locks are those of flock, real ones are taken",
			"the calls come from threads of one process sharing a database, and from separate processes"},
		CaseTimeout: 15 * time.Minute,
		Body:        body,
	})
}

// op is one call.
type op struct {
	name string
	run  func(w *world) string
}

type world struct {
	home string
	db   *bbs.DB
	c    pb.Conn
}

func result(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

func (w *world) dir() string { return pb.DirPath(w.home, "test") }
func (w *world) brd() string { return filepath.Join(w.home, ".BRD") }

func record(n int) *pttbbs.FileHeader {
	h, err := pb.N(n).Record()
	if err != nil {
		panic(err)
	}
	return h
}

func add(n int) op {
	return op{fmt.Sprintf("add %d", n), func(w *world) string { return result(w.db.AddArticleRecordFileRecord("test", record(n))) }}
}

func update(i uint, n int) op {
	return op{fmt.Sprintf("update %d with %d", i, n), func(w *world) string {
		return result(w.c.UpdateArticleRecordFileRecord(w.dir(), i, record(n)))
	}}
}

func list() op {
	return op{"list", func(w *world) string {
		l, err := w.db.ReadBoardArticleRecordsFile("test")
		var s []string
		for _, r := range l {
			s = append(s, r.Filename()+r.Title()+r.Owner())
		}
		return result(err) + strings.Join(s, "|")
	}}
}

func addBoard(n int) op {
	return op{fmt.Sprintf("add board %d", n), func(w *world) string {
		b, err := w.db.NewBoardRecord(map[string]interface{}{"board_id": fmt.Sprintf("new%d", n), "title": strings.Repeat("新", n%20+1)})
		if err != nil {
			return "new: error"
		}
		return result(w.db.AddBoardRecord(b))
	}}
}

func removeBoard(i int) op {
	return op{fmt.Sprintf("remove board %d", i), func(w *world) string {
		return result(pttbbs.RemoveBoardHeaderFileRecord(w.brd(), i))
	}}
}

func boards() op {
	return op{"list boards", func(w *world) string {
		l, err := w.db.ReadBoardRecords()
		var s []string
		for _, r := range l {
			s = append(s, r.BoardID()+r.Title())
		}
		return result(err) + strings.Join(s, "|")
	}}
}

func write(name, content string) op {
	return op{fmt.Sprintf("write %d bytes to %s", len(content), name), func(w *world) string {
		return result(w.db.WriteBoardArticleFile("test", name, []byte(content)))
	}}
}

func appendTo(name, content string) op {
	return op{fmt.Sprintf("append %d bytes to %s", len(content), name), func(w *world) string {
		return result(w.db.AppendBoardArticleFile("test", name, []byte(content)))
	}}
}

// start is a home to start from.
type start struct {
	name       string
	arts, brds int // -1: no file
	torn       int
}

// touch is the creation of the file of a call, which comes before it when there is none.
func touch(o op) op {
	return op{"touch", func(w *world) string {
		var p string
		switch {
		case strings.HasPrefix(o.name, "add board"):
			p = w.brd()
		case strings.HasPrefix(o.name, "add "):
			p = w.dir()
		case strings.HasPrefix(o.name, "write "):
			p = pb.ArticlePath(w.home, "test", o.name[strings.LastIndexByte(o.name, ' ')+1:])
		default:
			return ""
		}
		f, err := os.OpenFile(p, os.O_CREATE|os.O_WRONLY, 0644)
		if err != nil {
			panic(err)
		}
		f.Close()
		return ""
	}}
}

// missing says whether the calls create files.
func (s start) missing(threads [][]op) bool {
	return s.arts < 0 || strings.Contains(names(threads), "M.2.A.002")
}

// setup makes the home; the files are written anew.
func setup(home string, s start) {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	must(os.RemoveAll(home))
	must(os.MkdirAll(home, 0755))
	must(pb.MakeBoard(home, "test"))
	must(pb.MakeBoard(home, "other"))
	if s.arts >= 0 {
		var b []byte
		for i := 0; i < s.arts; i++ {
			b = append(b, pb.N(i).Bytes()...)
		}
		must(os.WriteFile(pb.DirPath(home, "test"), append(b, pb.N(99).Bytes()[:s.torn]...), 0644))
	}
	if s.brds >= 0 {
		var b []byte
		for i := 0; i < s.brds; i++ {
			b = append(b, pb.BoardBytes(i)...)
		}
		must(os.WriteFile(filepath.Join(home, ".BRD"), append(b, pb.BoardBytes(99)[:s.torn]...), 0644))
	}
	must(os.WriteFile(pb.ArticlePath(home, "test", "M.1.A.001"), []byte("the first article\n"), 0644))
	must(os.WriteFile(pb.ArticlePath(home, "other", "M.1.A.001"), []byte("another article\n"), 0644))
}

func open(home string) *world {
	db, c, err := pb.Open(home)
	if err != nil {
		panic(err)
	}
	return &world{home, db, c}
}

// outcome is what can be observed after all is done.
func outcome(home string, res []string) string {
	t := pb.Tree(home)
	var keys []string
	for k := range t {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, r := range res {
		b.WriteString(r + ";")
	}
	for _, k := range keys {
		fmt.Fprintf(&b, "\n%s %d ", k, len(t[k]))
		b.WriteString(t[k])
	}
	return b.String()
}

// sequential finds all outcomes of sequential orders which keep the order of each thread.
func sequential(r *kit.Run, home string, s start, threads [][]op) (map[string]bool, error) {
	want := map[string]bool{}
	if s.missing(threads) {
		var l [][]op
		for _, t := range threads {
			var m []op
			for _, o := range t {
				m = append(m, touch(o), o)
			}
			l = append(l, m)
		}
		threads = l
	}
	pos := make([]int, len(threads))
	var order []int
	var rec func() error
	rec = func() error {
		done := true
		for i := range threads {
			if pos[i] < len(threads[i]) {
				done = false
				pos[i]++
				order = append(order, i)
				if err := rec(); err != nil {
					return err
				}
				order = order[:len(order)-1]
				pos[i]--
			}
		}
		if !done {
			return nil
		}
		setup(home, s)
		var res []string
		p := vx.Single(nil, func() {
			w := open(home)
			at := make([]int, len(threads))
			per := make([][]string, len(threads))
			for _, i := range order {
				if o := threads[i][at[i]]; o.name != "touch" {
					per[i] = append(per[i], o.run(w))
				} else {
					o.run(w)
				}
				at[i]++
			}
			for _, x := range per {
				res = append(res, x...)
			}
		})
		if p != nil {
			return fmt.Errorf("one after another: %v", p.Failure())
		}
		if f := vsched.OpenFiles(); len(f) > 0 {
			return fmt.Errorf("one after another: %v is still open", f)
		}
		r.Trace()
		want[outcome(home, res)] = true
		return nil
	}
	err := rec()
	return want, err
}

func explore(r *kit.Run, s start, bound int, processes bool, threads [][]op) error {
	home := filepath.Join(r.Dir("h"), "home")
	want, err := sequential(r, home, s, threads)
	if err != nil {
		return err
	}
	return vx.Explore(r, 0, func(e *vx.Exec) error {
		setup(home, s)
		vsched.Reset()
		vsched.Processes = processes
		shared := open(home)
		per := make([][]string, len(threads))
		var bodies []func()
		for i := range threads {
			i := i
			w := shared
			if processes {
				w = open(home)
			}
			bodies = append(bodies, func() {
				for _, o := range threads[i] {
					per[i] = append(per[i], o.run(w))
				}
			})
		}
		vsched.Reset()
		out, tr := vx.Threads(r, e, bound, bodies...)
		vsched.Processes = false
		defer vsched.CloseAll()
		if tr.Redundant {
			return nil
		}
		if err := vx.Failure(out); err != nil {
			return fmt.Errorf("%v; schedule:\n    %v", err, tr)
		}
		if f := vsched.OpenFiles(); len(f) > 0 {
			return fmt.Errorf("%v is still open; schedule:\n    %v", f, tr)
		}
		var res []string
		for _, x := range per {
			res = append(res, x...)
		}
		if got := outcome(home, res); !want[got] {
			return fmt.Errorf("results %q and files are those of no sequential order: %s; schedule:\n    %v", res, closest(got, want), tr)
		}
		r.Trace()
		return unlocked(home)
	})
}

// closest says how the outcome differs from the most similar one.
func closest(got string, want map[string]bool) string {
	best, at := "", -1
	for w := range want {
		i := 0
		for i < len(w) && i < len(got) && w[i] == got[i] {
			i++
		}
		if i > at {
			best, at = w, i
		}
	}
	from := strings.LastIndexByte(got[:at], '\n') + 1
	line := func(s string) string {
		if from >= len(s) {
			return "nothing"
		}
		s = s[from:]
		if len(s) > 60 {
			s = s[:60]
		}
		return fmt.Sprintf("%.60q", s)
	}
	return fmt.Sprintf("%s, nearest is %s, they differ after %d bytes", line(got), line(best), at-from)
}

// unlocked checks that no lock is left.
func unlocked(home string) error {
	for _, p := range []string{pb.DirPath(home, "test"), filepath.Join(home, ".BRD"), pb.ArticlePath(home, "test", "M.1.A.001")} {
		f, err := os.Open(p)
		if err != nil {
			continue
		}
		err = syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB)
		f.Close()
		if err != nil {
			return fmt.Errorf("%s is still locked", filepath.Base(p))
		}
	}
	return nil
}

func names(threads [][]op) string {
	var l []string
	for _, t := range threads {
		var n []string
		for _, o := range t {
			n = append(n, o.name)
		}
		l = append(l, strings.Join(n, ", then "))
	}
	return strings.Join(l, " / ")
}

func body(r *kit.Run) {
	one := func(os ...op) (l [][]op) {
		for _, o := range os {
			l = append(l, []op{o})
		}
		return
	}
	check := func(s start, bound int, threads [][]op) {
		for _, proc := range []bool{false, true} {
			proc := proc
			who := "threads"
			if proc {
				who = "processes"
			}
			r.Check(fmt.Sprintf("%s, %s: %s", s.name, who, names(threads)), func() error {
				return explore(r, s, bound, proc, threads)
			})
		}
	}
	none, full, torn := start{name: "no files", arts: -1, brds: -1}, start{name: "3 records", arts: 3, brds: 3}, start{name: "2 records and a torn one", arts: 2, brds: 2, torn: 77}

	r.Section("pairs")
	long, short := strings.Repeat("long line\n", 40), "short\n"
	index := []op{add(10), add(11), update(0, 20), update(2, 21)}
	brds := []op{addBoard(1), addBoard(2), removeBoard(0), removeBoard(2), removeBoard(1)}
	content := []op{write("M.1.A.001", long), write("M.1.A.001", short), appendTo("M.1.A.001", long), appendTo("M.1.A.001", "x"), write("M.2.A.002", short), appendTo("M.2.A.002", "y"), write("M.1.A.001", "")}
	for _, s := range []start{none, full, torn} {
		for gi, g := range [][]op{index, brds, content} {
			for i := range g {
				for j := i; j < len(g); j++ {
					if gi == 2 && s.name != full.name {
						continue
					}
					check(s, vx.Unbounded, one(g[i], g[j]))
				}
			}
		}
	}
	r.Section("pairs with large files and contents")
	// beyond the sizes where buffers and pipes end
	big := start{name: "many records", arts: 600, brds: 300}
	bigTorn := start{name: "many records and a torn one", arts: 550, brds: 280, torn: 77}
	page, large := strings.Repeat("a page.\n", 640), strings.Repeat("a large article\n", 4400)
	for _, s := range []start{big, bigTorn} {
		n := s.arts
		for gi, g := range [][]op{
			{add(10), add(11), update(uint(n-1), 20), update(0, 21), list()},
			{addBoard(1), addBoard(2), removeBoard(s.brds - 1), removeBoard(s.brds - 3), boards()},
			{write("M.1.A.001", page), write("M.1.A.001", large), write("M.1.A.001", short), appendTo("M.1.A.001", page), appendTo("M.1.A.001", large), appendTo("M.1.A.001", "x"), appendTo("M.2.A.002", large), write("M.2.A.002", page)},
		} {
			for i := range g {
				for j := i; j < len(g); j++ {
					lists := strings.HasPrefix(g[j].name, "list")
					if gi == 2 && s.torn > 0 || lists && (i == j || s.torn > 0 || gi == 1 && i > 1) {
						continue // as below
					}
					if lists {
						check(s, 1, one(g[i], g[j]))
						continue
					}
					check(s, kit.Pick(r, 4, vx.Unbounded), one(g[i], g[j]))
				}
			}
		}
	}
	r.Section("pairs with a listing")
	for _, s := range []start{none, full} {
		for _, o := range index {
			check(s, vx.Unbounded, one(o, list()))
		}
		check(s, vx.Unbounded, one(addBoard(1), boards()))
	}
	r.Section("pairs on different files")
	all := []op{add(10), update(1, 20), addBoard(1), removeBoard(0), write("M.1.A.001", long), appendTo("M.1.A.001", short)}
	cross := vx.Unbounded
	r.Note("preemptions of pairs on different files", cross)
	for i := range all {
		for j := range all {
			if i < j {
				check(full, cross, one(all[i], all[j]))
			}
		}
	}
	r.Section("triples")
	three := kit.Pick(r, 2, vx.Unbounded)
	r.Note("preemptions of triples", three)
	for _, s := range []start{none, full, torn} {
		for _, t := range [][]op{
			{add(10), add(11), add(12)}, {add(10), add(11), update(0, 20)}, {add(10), update(1, 20), update(1, 21)}, {update(0, 20), update(1, 21), update(2, 22)},
			{addBoard(1), addBoard(2), addBoard(3)}, {addBoard(1), addBoard(2), removeBoard(0)}, {addBoard(1), removeBoard(0), removeBoard(1)}, {removeBoard(0), removeBoard(0), removeBoard(0)},
			{add(10), add(11), list()},
		} {
			if s.torn > 0 && t[2].name == "list" {
				continue // a record which is replaced while it is read may be mixed
			}
			check(s, three, one(t...))
		}
	}
	for _, t := range [][]op{
		{content[0], content[1], content[2]}, {content[0], content[2], content[3]}, {content[2], content[3], content[3]}, {content[0], content[1], content[1]}, {content[4], content[5], content[5]},
	} {
		check(full, three, one(t...))
	}
	r.Section("sequences of two")
	seqs := [][][]op{
		{{add(10), add(11)}, {add(12), add(13)}},
		{{add(10), update(0, 20)}, {update(0, 21), add(11)}},
		{{addBoard(1), removeBoard(0)}, {addBoard(2), removeBoard(1)}},
		{{removeBoard(0), addBoard(1)}, {addBoard(2), addBoard(3)}},
		{{write("M.1.A.001", short), appendTo("M.1.A.001", "x")}, {appendTo("M.1.A.001", long), write("M.1.A.001", long)}},
		{{write("M.2.A.002", short), appendTo("M.2.A.002", "x")}, {write("M.2.A.002", long), appendTo("M.2.A.002", "y")}},
		{{add(10), write("M.1.A.001", short), appendTo("M.1.A.001", "x")}, {add(11), appendTo("M.1.A.001", "y")}},
	}
	seqBound := kit.Pick(r, 3, vx.Unbounded)
	r.Note("preemptions of sequences", seqBound)
	for _, s := range []start{none, full, torn} {
		for _, t := range seqs {
			check(s, seqBound, t)
		}
	}
	four := kit.Pick(r, 1, 2)
	r.Section("four and five callers")
	r.Note("preemptions of four and more", four)
	check(full, four, one(add(10), add(11), add(12), update(1, 20)))
	check(torn, four, one(add(10), add(11), add(12), add(13)))
	check(full, four, one(addBoard(1), removeBoard(1), addBoard(2), removeBoard(0)))
	check(full, four, one(add(10), addBoard(1), write("M.1.A.001", long), appendTo("M.1.A.001", "x"), update(0, 20)))
}
