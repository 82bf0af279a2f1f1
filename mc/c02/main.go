// C02: the board list follows every add/remove history.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	kit.Main(kit.Config{
		ID: "C02", Level: kit.ModelChecking,
		Rule:        "stateless exploration of every history of the listed operations on a real board file; a state is the bytes of all files of the home; a transition is one API call compared with a list model; distinct cases are distinct histories or positions",
		Assumptions: []string{"single caller (C13 decides concurrency), no faults (C14, C15)", "removal is pttbbs.RemoveBoardHeaderFileRecord, bbs.DB.RemoveBoardRecord is not implemented"},
		Body:        body,
	})
}

type world struct {
	r    *kit.Run
	home string
	db   *bbs.DB
	c    pb.Conn
	recs []*pttbbs.BoardHeader
	n    int
}

func newWorld(r *kit.Run) *world {
	w := &world{r: r, home: r.Dir("home")}
	// neighbours which must not be touched
	os.WriteFile(filepath.Join(w.home, ".PASSWDS"), []byte("x"), 0644)
	os.WriteFile(filepath.Join(w.home, ".BRD2"), []byte("y"), 0644)
	w.open()
	return w
}

func (w *world) open() {
	var err error
	if w.db, w.c, err = pb.Open(w.home); err != nil {
		panic(err)
	}
}

func (w *world) path() string {
	p, err := w.c.GetBoardRecordsPath()
	if err != nil {
		panic(err)
	}
	return p
}

func (w *world) fill(n int) {
	var b bytes.Buffer
	for i := 0; i < n; i++ {
		b.Write(pb.BoardBytes(w.n))
		w.recs = append(w.recs, pb.Board(w.n))
		w.n++
	}
	if n > 0 {
		if err := os.WriteFile(w.path(), b.Bytes(), 0644); err != nil {
			panic(err)
		}
	}
}

func (w *world) check() error {
	got, err := w.db.ReadBoardRecords()
	w.r.Trans(1)
	if err != nil {
		if w.n == 0 && len(w.recs) == 0 {
			return nil // there is no board file yet
		}
		return fmt.Errorf("listing: %v", err)
	}
	for i, g := range got {
		if i >= len(w.recs) {
			return fmt.Errorf("%d boards are listed, want %d; the first surplus one is %s", len(got), len(w.recs), g.BoardID())
		}
		if g.BoardID() != w.recs[i].BoardID() {
			return fmt.Errorf("board %d of %d is %s, want %s", i, len(w.recs), g.BoardID(), w.recs[i].BoardID())
		}
		if !reflect.DeepEqual(g, bbs.BoardRecord(w.recs[i])) {
			return fmt.Errorf("board %d of %d differs:\n%+v\n%+v", i, len(w.recs), g, w.recs[i])
		}
	}
	if len(got) < len(w.recs) {
		return fmt.Errorf("%d boards are listed, want %d", len(got), len(w.recs))
	}
	return nil
}

// change runs f, which may change the board file only, and only when it succeeds.
func (w *world) change(f func() error, wantErr bool) error {
	before := pb.Tree(w.home)
	err := f()
	w.r.Trans(1)
	after := pb.Tree(w.home)
	var h uint64
	for k, v := range after {
		h += kit.Hash(k, v)
	}
	w.r.State(h)
	if wantErr {
		if err == nil {
			return fmt.Errorf("the call succeeded, it must fail")
		}
		return pb.TreeDiff(before, after)
	}
	if err != nil {
		return fmt.Errorf("the call failed: %v", err)
	}
	rel, _ := filepath.Rel(w.home, w.path())
	return pb.TreeDiff(before, after, rel)
}

type op struct {
	name string
	do   func(w *world) error
}

func add() op {
	return op{"add", func(w *world) error {
		b := pb.Board(w.n)
		keep := pb.Board(w.n)
		w.n++
		if err := w.change(func() error { return w.db.AddBoardRecord(b) }, false); err != nil {
			return err
		}
		w.recs = append(w.recs, keep)
		return nil
	}}
}

// addNew adds a board the way an application does.
func addNew() op {
	return op{"addnew", func(w *world) error {
		id, title := fmt.Sprintf("New%d", w.n), fmt.Sprintf("新 %d", w.n)
		w.n++
		b, err := w.db.NewBoardRecord(map[string]interface{}{"board_id": id, "title": title})
		if err != nil {
			return err
		}
		if err := w.change(func() error { return w.db.AddBoardRecord(b) }, false); err != nil {
			return err
		}
		raw := make([]byte, 256)
		copy(raw, id)
		copy(raw[13:], pb.Big5(title))
		k, err := pttbbs.UnmarshalBoardHeader(raw)
		if err != nil {
			return err
		}
		w.recs = append(w.recs, k)
		return nil
	}}
}

func remove(name string, pos func(n int) int) op {
	return op{"remove(" + name + ")", func(w *world) error {
		i := pos(len(w.recs))
		bad := i < 0 || i >= len(w.recs)
		err := w.change(func() error { return pttbbs.RemoveBoardHeaderFileRecord(w.path(), i) }, bad)
		if err != nil {
			return err
		}
		if !bad {
			w.recs = append(append([]*pttbbs.BoardHeader{}, w.recs[:i]...), w.recs[i+1:]...)
		}
		return nil
	}}
}

func reopen() op { return op{"reopen", func(w *world) error { w.open(); return nil }} }

// again adds the first listed board once more.
func again() op {
	return op{"again", func(w *world) error {
		got, err := w.db.ReadBoardRecords()
		if err != nil || len(got) == 0 {
			return nil
		}
		if err := w.change(func() error { return w.db.AddBoardRecord(got[0]) }, false); err != nil {
			return err
		}
		w.recs = append(w.recs, w.recs[0])
		return nil
	}}
}

func body(r *kit.Run) {
	ops := []op{add(), remove("0", func(int) int { return 0 }), remove("last", func(n int) int { return n - 1 }),
		remove("mid", func(n int) int { return n / 2 }), remove("n", func(n int) int { return n }),
		remove("-1", func(int) int { return -1 }), addNew(), again(), reopen(),
		remove("n+1", func(n int) int { return n + 1 })}
	depth := kit.Pick(r, 5, 6)
	run := func(start int, h []int) error {
		w := newWorld(r)
		w.fill(start)
		for _, i := range h {
			if err := ops[i].do(w); err != nil {
				return fmt.Errorf("%s: %v", ops[i].name, err)
			}
			if err := w.check(); err != nil {
				return fmt.Errorf("after %s: %v", ops[i].name, err)
			}
		}
		r.Trace()
		return nil
	}
	enum := func(start, depth int) {
		idx := make([]int, depth)
		for {
			h := append([]int{}, idx...)
			var names []string
			for _, i := range h {
				names = append(names, ops[i].name)
			}
			r.Check(fmt.Sprintf("start %d: %s", start, strings.Join(names, " ")), func() error { return run(start, h) })
			i := depth - 1
			for ; i >= 0; i-- {
				if idx[i]++; idx[i] < len(ops) {
					break
				}
				idx[i] = 0
			}
			if i < 0 {
				return
			}
		}
	}
	r.Section(fmt.Sprintf("all histories of %d operations out of %d from an empty home", depth, len(ops)))
	enum(0, depth)
	r.Section("all histories of 4 operations from longer lists")
	for _, s := range []int{1, 2, 3, 5} {
		enum(s, 4-kit.Pick(r, 1, 0))
	}

	look := op{"list", (*world).check}
	many := append([]op{look}, ops...)
	const times = 150
	r.Section(fmt.Sprintf("an operation %d times and then every pair of others", times))
	for _, x := range many {
		for _, y := range many {
			x, y := x, y
			r.Check(fmt.Sprintf("%s %d times, %s", x.name, times, y.name), func() error {
				for _, z := range many {
					w := newWorld(r)
					if strings.HasPrefix(x.name, "remove") {
						w.fill(times - 20)
					} else {
						w.fill(3)
					}
					var h []op
					for i := 0; i < times; i++ {
						h = append(h, x)
					}
					h = append(h, look, y, look, z, look, x, look)
					for i, o := range h {
						if err := o.do(w); err != nil {
							return fmt.Errorf("step %d, %s, then %s: %v", i, o.name, z.name, err)
						}
					}
					r.Trace()
				}
				return nil
			})
		}
	}
	r.Section("histories which repeat two or three operations")
	for a := range many {
		for b := range many {
			for c := -1; c < len(many); c++ {
				if a == b && (b == c || c < 0) {
					continue
				}
				period := []op{many[a], many[b]}
				name := many[a].name + " " + many[b].name
				if c >= 0 {
					period = append(period, many[c])
					name += " " + many[c].name
				}
				r.Check("again and again: "+name, func() error {
					w := newWorld(r)
					w.fill(4)
					for i := 0; i < 36; i++ {
						o := period[i%len(period)]
						if err := o.do(w); err != nil {
							return fmt.Errorf("step %d, %s: %v", i, o.name, err)
						}
					}
					r.Trace()
					return w.check()
				})
			}
		}
	}

	max := kit.Pick(r, 130, 400)
	r.Section(fmt.Sprintf("every position of every list length up to %d", max))
	for n := 1; n <= max; n++ {
		step := 1
		if n > 40 && !r.Thorough {
			step = 7
		}
		for p := 0; p < n; p++ {
			if p%step != 0 && p != n-1 && p != n-2 && p > 2 {
				continue
			}
			n, p := n, p
			r.Check(fmt.Sprintf("%d boards, remove %d", n, p), func() error {
				w := newWorld(r)
				w.fill(n)
				if err := remove("p", func(int) int { return p }).do(w); err != nil {
					return err
				}
				if err := w.check(); err != nil {
					return err
				}
				if err := add().do(w); err != nil {
					return err
				}
				r.Trace()
				return w.check()
			})
		}
	}

	r.Section("every sequence of odd boards, every position")
	kinds := oddBoards()
	var seqs func(seq []int)
	odd := kit.Pick(r, 3, 4)
	seqs = func(seq []int) {
		if len(seq) > 0 {
			r.Check(fmt.Sprintf("odd boards %v", seq), func() error {
				for p := -1; p < len(seq); p++ {
					w := newWorld(r)
					var b []byte
					for _, k := range seq {
						b = append(b, kinds[k]...)
						h, err := pttbbs.UnmarshalBoardHeader(append([]byte{}, kinds[k]...))
						if err != nil {
							return err
						}
						w.recs = append(w.recs, h)
					}
					w.n = 20
					if err := os.WriteFile(w.path(), b, 0644); err != nil {
						return err
					}
					if err := w.check(); err != nil {
						return err
					}
					l := []op{add(), addNew(), remove("last", func(n int) int { return n - 1 }), again(), remove("1", func(n int) int { return 1 })}
					if p >= 0 {
						l = []op{remove("p", func(int) int { return p }), add(), again()}
					}
					for _, o := range l {
						if err := o.do(w); err != nil {
							return fmt.Errorf("%s, position %d: %v", o.name, p, err)
						}
						if err := w.check(); err != nil {
							return fmt.Errorf("after %s, position %d: %v", o.name, p, err)
						}
					}
				}
				r.Trace()
				return nil
			})
		}
		if len(seq) < odd {
			for k := range kinds {
				seqs(append(seq[:len(seq):len(seq)], k))
			}
		}
	}
	seqs(nil)

	r.Section("every combination of special field values")
	for _, id := range []string{"", "SYSOP", "ALLPOST", "Test", "deleted"} {
		for _, title := range []string{"", "嘰哩 ◎看板", "分類 Σ群組", "....   plain", "-"} {
			id, title := id, title
			r.Check(fmt.Sprintf("boards %q %q", id, title), func() error {
				w := newWorld(r)
				var file []byte
				le := binary.LittleEndian
				b := make([]byte, 256)
				copy(b, id)
				copy(b[13:62], pb.Big5(title))
				for _, bm := range []string{"", "-", "userA", "userA/userB", "[徵求中]"} {
					copy(b[62:101], make([]byte, 39))
					copy(b[62:101], pb.Big5(bm))
					for bit := 0; bit < 34; bit++ {
						attr := uint32(uint64(1) << uint(bit))
						if bit == 33 {
							attr = 1<<32 - 1
						}
						le.PutUint32(b[104:], attr)
						for _, level := range []uint32{0, 1, 1 << 14, 1<<32 - 1} {
							le.PutUint32(b[124:], level)
							for _, class := range []uint32{0, 1, 2, 1<<32 - 1} {
								le.PutUint32(b[132:], class)
								for _, t := range []uint32{0, 1600000000, 1<<32 - 1} {
									le.PutUint32(b[112:], t)
									for _, parent := range []uint32{0, 5} {
										le.PutUint32(b[152:], parent)
										file = append(file, b...)
										h, err := pttbbs.UnmarshalBoardHeader(append([]byte{}, b...))
										if err != nil {
											return err
										}
										w.recs = append(w.recs, h)
									}
								}
							}
						}
					}
				}
				w.n = 20
				if err := os.WriteFile(w.path(), file, 0644); err != nil {
					return err
				}
				if err := w.check(); err != nil {
					return err
				}
				for _, o := range []op{remove("mid", func(n int) int { return n / 2 }), add(), again()} {
					if err := o.do(w); err != nil {
						return fmt.Errorf("%s: %v", o.name, err)
					}
				}
				r.Trace()
				return w.check()
			})
		}
	}

	r.Section("large lists")
	for _, n := range []int{255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4097, 12000, 33000, 70000} {
		for _, p := range []int{0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 1023, 4095, 4096, 32768, 65535, 65536, n - 2, n - 1, n, n + 1, n / 2} {
			if p > n+1 || !r.Thorough && n > 12000 && p != 0 && p < 32768 {
				continue
			}
			n, p := n, p
			r.Check(fmt.Sprintf("%d boards, remove %d", n, p), func() error {
				w := newWorld(r)
				w.fill(n)
				if err := remove("p", func(int) int { return p }).do(w); err != nil {
					return err
				}
				if err := w.check(); err != nil {
					return err
				}
				if err := add().do(w); err != nil {
					return err
				}
				r.Trace()
				return w.check()
			})
		}
	}

	r.Section("positions +-2^k-1, +-2^k, +-2^k+1 for every k")
	for k := 0; k < 64; k++ {
		for d := -1; d <= 1; d++ {
			for _, s := range []int{1, -1} {
				i := (int(uint64(1)<<uint(k)) + d) * s
				for _, n := range []int{1, 4} {
					n := n
					r.Check(fmt.Sprintf("remove %d of %d", i, n), func() error {
						w := newWorld(r)
						w.fill(n)
						if err := remove("p", func(int) int { return i }).do(w); err != nil {
							return err
						}
						r.Trace()
						return w.check()
					})
				}
			}
		}
	}

	r.Section("calls which can not work")
	for n := 0; n < 3; n++ {
		n := n
		r.Check(fmt.Sprintf("foreign record, %d boards", n), func() error {
			w := newWorld(r)
			w.fill(n)
			r.Trace()
			if err := w.change(func() error { return w.db.AddBoardRecord(foreign{}) }, true); err != nil {
				return err
			}
			return w.check()
		})
	}
	r.Check("remove without a board file", func() error {
		w := newWorld(r)
		r.Trace()
		return w.change(func() error { return pttbbs.RemoveBoardHeaderFileRecord(w.path(), 0) }, true)
	})
	for _, a := range []map[string]interface{}{{}, {"board_id": "x"}, {"title": "x"}, {"board_id": 3, "title": "x"}, nil} {
		a := a
		r.Check(fmt.Sprintf("new board from %v", a), func() error {
			w := newWorld(r)
			r.Trace()
			return w.change(func() error { _, err := w.db.NewBoardRecord(a); return err }, true)
		})
	}
}

// oddBoards are records as they may stand in a board file: blank, equal, without an id, special.
func oddBoards() [][]byte {
	b := func(n int, f func(b []byte)) []byte {
		x := append([]byte{}, pb.BoardBytes(n)...)
		if f != nil {
			f(x)
		}
		return x
	}
	id := func(s string) []byte {
		return b(5, func(b []byte) { copy(b, append([]byte(s), make([]byte, 13-len(s))...)) })
	}
	only := make([]byte, 256)
	copy(only, "Only")
	return [][]byte{
		make([]byte, 256),    // the slot of a removed board
		b(3, nil), b(4, nil), // ordinary ones
		id(""), // the id is blank, the rest is left
		only,   // nothing but an id
		b(6, func(b []byte) { copy(b[13:62], make([]byte, 49)) }), // no title
		id("ALLPOST"),
		b(3, func(b []byte) { b[0] ^= 0x20 }), // the id of another one in the other case
		b(7, func(b []byte) { copy(b[104:108], []byte{0xff, 0xff, 0xff, 0xff}) }),
	}
}

type foreign struct{ bbs.BoardRecord }
