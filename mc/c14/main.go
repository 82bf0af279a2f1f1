// C14: a crash during a change never damages other records.
package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"time"

	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"

	"verifmc/kit"
	"verifmc/ops"
	"verifmc/pb"
	"verifmc/vx"
)

func main() {
	kit.Main(kit.Config{
		ID: "C14", Level: kit.ModelChecking,
		Rule:        "every history of the listed changes on real files with a crash before every operation on files and inside every write after every number of bytes (of classes of them where histories have two crashes), and after each crash a restart, a listing compared with the model and the rest of the history; a state is the bytes of the home after a call or crash",
		Assumptions: []string{"the process dies and the system does not: what was written stays", "a write of the operating system may have written any number of its bytes when the process dies", "a slot which an interrupted update or removal was writing may have any content, and an interrupted removal may leave one slot too many"},
		CaseTimeout: 15 * time.Minute,
		Body:        body,
	})
}

// cuts are the numbers of bytes which a write of n may have written.
func cuts(n int64, all bool) []int64 {
	var l []int64
	for i := int64(0); i <= n; i++ {
		if all || i < 2 || i > n-2 || i == n/2 || i == 28 || i == 33 || i == 54 || i == 62 || n > 256 && i%256 < 2 && (n < 2000 || i%4096 < 2 && (n < 8192 || i < 8194 || i%65536 < 2)) {
			l = append(l, i)
		}
	}
	return l
}

// history runs the calls with at most crashes crashes.
func history(r *kit.Run, s ops.Start, crashes int, all bool, calls []ops.Op) error {
	w := &ops.World{Home: filepath.Join(r.Dir("h"), "home")}
	return vx.Explore(r, 0, func(e *vx.Exec) error {
		w.Setup(s)
		left := crashes
		var story []string
		for _, o := range calls {
			before := pb.Tree(w.Home)
			at := ""
			var err error
			p := vx.Single(func(x vsched.Op) vsched.Act {
				if left == 0 {
					return vsched.Act{}
				}
				if x.Kind == "write" || x.Kind == "writeat" {
					c := cuts(x.N, all)
					if k := e.Choose(len(c) + 1); k > 0 {
						left--
						at = fmt.Sprintf("%s: crash at %s after %d bytes", o.Name, x, c[k-1])
						return vsched.Act{Do: vsched.Crash, N: c[k-1]}
					}
					return vsched.Act{}
				}
				if x.Kind == "time" || x.Kind == "rand" || x.Kind == "seed" {
					return vsched.Act{Do: vsched.Value, N: int64(len(story) + vsched.Steps())}
				}
				if e.Choose(2) == 1 {
					left--
					at = fmt.Sprintf("%s: crash before %s", o.Name, x)
					return vsched.Act{Do: vsched.Crash}
				}
				return vsched.Act{}
			}, func() { err = o.Run(w) })
			vsched.Reset() // ends the process
			if f := p.Failure(); f != nil {
				return fmt.Errorf("%v; %s: %v", story, o.Name, f)
			}
			if p != nil {
				w.Open()
			} else {
				at = o.Name
				if err != nil {
					at += " fails"
				}
			}
			story = append(story, at)
			arts, brds, content, lerr := w.Look()
			if lerr != nil {
				return fmt.Errorf("%q: %v", story, lerr)
			}
			after := pb.Tree(w.Home)
			var h uint64
			for k, v := range after {
				h += kit.Hash(k, v)
			}
			r.State(h)
			r.Trans(1)
			var bad error
			if p == nil {
				a, b, c := o.Done(w)
				if (c == "error") != (err != nil) {
					bad = fmt.Errorf("the call returns %v", err)
				}
				if c == "error" {
					a, b, c = w.Arts, w.Brds, w.Content
				}
				if bad == nil {
					bad = ops.Same("articles", arts, a)
				}
				if bad == nil {
					bad = ops.Same("boards", brds, b)
				}
				if bad == nil && c != content {
					bad = fmt.Errorf("the article is %.80q, want %.80q", content, c)
				}
			} else {
				bad = o.Cut(w, arts, brds, content)
			}
			if bad == nil {
				bad = ops.Unharmed(before, after, o.Files)
			}
			if bad != nil {
				return fmt.Errorf("%q: %v", story, bad)
			}
			w.Arts, w.Brds, w.Content = arts, brds, content
		}
		r.Trace()
		return nil
	})
}

func body(r *kit.Run) {
	starts := []ops.Start{{"no files", -1, -1, 0}, {"empty files", 0, 0, 0}, {"one record", 1, 1, 0}, {"3 records", 3, 3, 0}, {"2 records and 1 byte", 2, 2, 1}, {"2 records and 127 bytes", 2, 2, 127}, {"1 record and a torn one", 1, 1, 200}}
	check := func(s ops.Start, crashes int, all bool, calls ...ops.Op) {
		var n []string
		for _, o := range calls {
			n = append(n, o.Name)
		}
		r.Check(fmt.Sprintf("%s, %d crashes, all %v: %s", s.Name, crashes, all, strings.Join(n, ", ")), func() error {
			return history(r, s, crashes, all, calls)
		})
	}
	r.Section("one crash, then additions")
	changes := func(n int) []ops.Op {
		return []ops.Op{ops.Add(n), ops.Update(0, n), ops.Update(1, n), ops.Update(2, n), ops.AddBoard(n), ops.RemoveBoard(0), ops.RemoveBoard(1), ops.RemoveBoard(2), ops.AppendContent(strings.Repeat("more\n", 9*n%31))}
	}
	for _, s := range starts {
		for _, o := range changes(10) {
			check(s, 1, true, o, ops.Add(11), ops.AddBoard(11), ops.AppendContent("z"), ops.Add(12), ops.AddBoard(12))
		}
		for _, o := range []ops.Op{ops.WriteOther(0), ops.WriteOther(300), ops.Draft(1), ops.Draft(300), ops.DeleteDraft(), ops.Create()} {
			check(s, 1, true, o, ops.Add(11), ops.AddBoard(11), ops.AppendContent("z"))
		}
	}
	r.Section("one crash, then another change")
	for _, s := range starts {
		for _, o := range changes(10) {
			for _, p := range changes(20) {
				if r.Thorough || ops.Kind(o) == ops.Kind(p) {
					check(s, 1, r.Thorough, o, p, ops.Add(12), ops.AddBoard(12))
				}
			}
		}
	}
	r.Section("two crashes")
	some := starts
	if !r.Thorough {
		some = []ops.Start{starts[2], starts[4]}
	}
	for _, s := range some {
		for _, o := range changes(10) {
			for _, p := range changes(20) {
				if ops.Kind(o) == ops.Kind(p) {
					check(s, 2, r.Thorough && ops.Kind(o) != 'b', o, p, ops.Add(12), ops.AddBoard(12), ops.AppendContent("z"))
				}
			}
		}
	}
	r.Section("three crashes")
	if !r.Thorough {
		some = []ops.Start{starts[4]}
	}
	for _, s := range some {
		for _, o := range changes(10) {
			for _, p := range changes(20) {
				for _, q := range changes(30) {
					if ops.Kind(o) == ops.Kind(p) && ops.Kind(p) == ops.Kind(q) && (r.Thorough || strings.HasPrefix(o.Name, "add") && strings.HasPrefix(p.Name, "add")) {
						check(s, 3, false, o, p, q)
					}
				}
			}
		}
	}
	r.Section("many records")
	for _, n := range []int{5, 9, 17} {
		s := ops.Start{fmt.Sprintf("%d records", n), n, n, 0}
		for i := 0; i < n; i += kit.Pick(r, 4, 1) {
			check(s, 1, false, ops.RemoveBoard(i), ops.AddBoard(10), ops.RemoveBoard(i))
			check(s, 1, true, ops.Update(i, 10), ops.Add(11))
		}
	}
	r.Section("large files and contents")
	// beyond the sizes where buffers and pipes end
	large := strings.Repeat("a large article\n", 4400)
	arts, brds := []ops.Op{ops.Add(11), ops.Add(12)}, []ops.Op{ops.AddBoard(11), ops.AddBoard(12)}
	for _, s := range []ops.Start{{"600 records", 600, 5, 0}, {"600 records and 100 bytes", 600, 5, 100}} {
		for _, o := range []ops.Op{ops.Add(10), ops.Update(599, 10), ops.Update(1, 10)} {
			check(s, 1, r.Thorough, append([]ops.Op{o}, arts...)...)
		}
		check(s, kit.Pick(r, 1, 2), false, ops.Add(10), ops.Add(11), ops.Add(12), ops.Add(13))
	}
	for _, s := range []ops.Start{{"300 boards", 5, 300, 0}, {"300 boards and 100 bytes", 5, 300, 100}} {
		for _, o := range []ops.Op{ops.AddBoard(10), ops.RemoveBoard(298)} {
			check(s, 1, r.Thorough, append([]ops.Op{o}, brds...)...)
		}
		check(s, kit.Pick(r, 1, 2), false, ops.AddBoard(10), ops.AddBoard(11), ops.AddBoard(12), ops.AddBoard(13))
	}
	for _, o := range []ops.Op{ops.AppendContent(large), ops.AppendContent(large[:5000]), ops.WriteOther(70000)} {
		check(ops.Start{"3 records", 3, 3, 0}, 1, false, o, ops.AppendContent("z"), ops.Add(11))
	}
	check(ops.Start{"3 records", 3, 3, 0}, 2, false, ops.AppendContent(large), ops.AppendContent(large), ops.AppendContent("z"))
}
