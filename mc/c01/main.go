// C01: the article index follows every add/update history.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	kit.Main(kit.Config{
		ID: "C01", Level: kit.ModelChecking,
		Rule: "stateless exploration of every history of the listed operations on real files; a state is the bytes of all files of the home; a transition is one API call compared with a list model; distinct cases are distinct histories or positions",
		Assumptions: []string{"single caller (concurrency is C13), no faults (C14, C15)", "records within field sizes (C03 decides record contents)",
			"the two boards share the first letter of their name"},
		Body: body,
	})
}

type board struct {
	name string
	recs []pb.Art
	has  bool
}

type world struct {
	r      *kit.Run
	home   string
	db     *bbs.DB
	c      pb.Conn
	boards []*board
	n      int
	log    []string
}

func newWorld(r *kit.Run) *world {
	w := &world{r: r, home: r.Dir("home")}
	w.boards = []*board{{name: "Test"}, {name: "Tes"}}
	for _, b := range w.boards {
		if err := pb.MakeBoard(w.home, b.name); err != nil {
			panic(err)
		}
	}
	w.open()
	return w
}

func (w *world) open() {
	var err error
	w.db, w.c, err = pb.Open(w.home)
	if err != nil {
		panic(err)
	}
}

// check compares both listings with the model.
func (w *world) check() error {
	for _, b := range w.boards {
		got, err := w.db.ReadBoardArticleRecordsFile(b.name)
		if err != nil {
			return fmt.Errorf("listing %s: %v", b.name, err)
		}
		if err := pb.SameList(got, b.recs); err != nil {
			return fmt.Errorf("listing of %s: %v", b.name, err)
		}
		w.r.Trans(1)
	}
	return nil
}

type op struct {
	name string
	do   func(w *world) error
}

func (w *world) path(b int) string {
	p, err := w.c.GetBoardArticleRecordsPath(w.boards[b].name)
	if err != nil {
		panic(err)
	}
	return p
}

// change runs f, which may change bytes [from,to) of the index of board b only.
func (w *world) change(b int, f func() error, wantErr bool, newLen int, from, to int) error {
	before := pb.Tree(w.home)
	err := f()
	w.r.Trans(1)
	if wantErr && err == nil {
		return fmt.Errorf("the call succeeded, it must fail")
	}
	if !wantErr && err != nil {
		return fmt.Errorf("the call failed: %v", err)
	}
	after := pb.Tree(w.home)
	rel, _ := filepath.Rel(w.home, w.path(b))
	w.r.State(hashTree(after))
	if wantErr {
		return pb.TreeDiff(before, after)
	}
	if err := pb.TreeDiff(before, after, rel); err != nil {
		return err
	}
	o, n := []byte(before[rel]), []byte(after[rel])
	if len(n) != newLen {
		return fmt.Errorf("the index has %d bytes, want %d", len(n), newLen)
	}
	for i := range o {
		if (i < from || i >= to) && i < len(n) && o[i] != n[i] {
			return fmt.Errorf("byte %d of the index changed, only record %d was the target", i, from/128)
		}
	}
	return nil
}

func hashTree(t map[string]string) uint64 {
	var h uint64
	for k, v := range t {
		h += kit.Hash(k, v)
	}
	return h
}

func add(b int) op {
	return op{fmt.Sprintf("add%d", b), func(w *world) error {
		bd := w.boards[b]
		a := pb.N(w.n)
		w.n++
		rec, err := a.Record()
		if err != nil {
			return err
		}
		l := len(bd.recs) * 128
		err = w.change(b, func() error { return w.db.AddArticleRecordFileRecord(bd.name, rec) }, false, l+128, l, l+128)
		bd.recs = append(bd.recs, a)
		return err
	}}
}

// addNew makes the record the way an application does.
func addNew(b int) op {
	return op{fmt.Sprintf("addnew%d", b), func(w *world) error {
		bd := w.boards[b]
		a := pb.N(w.n)
		w.n++
		a.Modified, a.Recommend, a.Union, a.Filemode = 0, 0, [4]byte{}, 0
		rec, err := w.c.NewArticleRecord(a.Filename, a.Owner, a.Date, a.Title)
		if err != nil {
			return err
		}
		if w.n%2 == 0 {
			a.Modified = 1234567
			rec.SetModified(time.Unix(1234567, 0))
		}
		l := len(bd.recs) * 128
		err = w.change(b, func() error { return w.db.AddArticleRecordFileRecord(bd.name, rec) }, false, l+128, l, l+128)
		bd.recs = append(bd.recs, a)
		return err
	}}
}

// update writes a new record at a position given by the length of the index.
func update(b int, name string, pos func(n int) uint) op {
	return op{fmt.Sprintf("update%d(%s)", b, name), func(w *world) error {
		bd := w.boards[b]
		i := pos(len(bd.recs))
		a := pb.N(w.n)
		w.n++
		rec, err := a.Record()
		if err != nil {
			return err
		}
		l := len(bd.recs)
		bad := uint64(i) >= uint64(l)
		err = w.change(b, func() error { return w.c.UpdateArticleRecordFileRecord(w.path(b), i, rec) }, bad, l*128, int(i)*128, int(i)*128+128)
		if !bad {
			bd.recs[i] = a
		}
		return err
	}}
}

// bump reads the listing, changes some attributes of the last record and writes it back.
func bump(b int) op {
	return op{fmt.Sprintf("bump%d", b), func(w *world) error {
		bd := w.boards[b]
		l := len(bd.recs)
		if l == 0 {
			return nil
		}
		i := l - 1
		if w.n%2 == 1 {
			i = 0
		}
		w.n++
		got, err := w.db.ReadBoardArticleRecordsFile(bd.name)
		if err != nil {
			return err
		}
		if len(got) != l {
			return fmt.Errorf("%d records are listed, want %d", len(got), l)
		}
		h := got[i].(*pttbbs.FileHeader)
		h.SetModified(time.Unix(1700000000+int64(w.n), 0))
		h.SetTitle(fmt.Sprintf("改 %d", w.n))
		a := &bd.recs[i]
		a.Modified, a.Title = uint32(1700000000+w.n), fmt.Sprintf("改 %d", w.n)
		h.AddRecommend(1)
		if a.Recommend < 100 {
			a.Recommend++
		}
		return w.change(b, func() error { return w.c.UpdateArticleRecordFileRecord(w.path(b), uint(i), h) }, false, l*128, i*128, i*128+128)
	}}
}

func reopen() op {
	return op{"reopen", func(w *world) error { w.open(); return nil }}
}

// sparse updates record p of an index of n records of which most are blank, and adds one.
func sparse(r *kit.Run, n, p int64) error {
	w := newWorld(r)
	f, err := os.Create(w.path(0))
	if err != nil {
		return err
	}
	defer f.Close()
	defer os.Remove(w.path(0))
	if err := f.Truncate(n * 128); err != nil {
		return err
	}
	want := map[int64]string{}
	for i, q := range []int64{0, p % (1 << 16), p % (1 << 24), p % (1 << 25), p - 1, p, p + 1, n - 1} {
		if q >= 0 && q < n {
			b := pb.N(i).Bytes()
			want[q] = string(b)
			if _, err := f.WriteAt(b, q*128); err != nil {
				return err
			}
		}
	}
	compare := func(what string, n int64) error {
		st, err := f.Stat()
		if err != nil {
			return err
		}
		if st.Size() != n*128 {
			return fmt.Errorf("after %s the index has %d bytes, want %d", what, st.Size(), n*128)
		}
		seen := 0
		for off := int64(0); off < n*128; {
			from, err := f.Seek(off, 3) // SEEK_DATA
			if err != nil {
				break // only a hole is left
			}
			to, err := f.Seek(from, 4) // SEEK_HOLE
			if err != nil {
				return err
			}
			from -= from % 128
			to += (128 - to%128) % 128
			buf := make([]byte, to-from)
			if m, err := f.ReadAt(buf, from); m < len(buf) {
				return err
			}
			for i := 0; i < len(buf); i += 128 {
				q := (from + int64(i)) / 128
				got := string(buf[i : i+128])
				if x, ok := want[q]; ok {
					seen++
					if x != got {
						return fmt.Errorf("after %s record %d is %q, want %q", what, q, got, x)
					}
				} else if got != blank {
					return fmt.Errorf("after %s record %d is %q, it was blank", what, q, got)
				}
			}
			off = to
		}
		if seen != len(want) {
			return fmt.Errorf("after %s %d records are there, want %d", what, seen, len(want))
		}
		return nil
	}
	if err := compare("making it", n); err != nil {
		return err
	}
	a := pb.N(40)
	rec, err := a.Record()
	if err != nil {
		return err
	}
	if err := w.c.UpdateArticleRecordFileRecord(w.path(0), uint(p), rec); err != nil {
		return err
	}
	want[p] = string(a.Bytes())
	if err := compare("the update", n); err != nil {
		return err
	}
	if err := w.c.UpdateArticleRecordFileRecord(w.path(0), uint(n), rec); err == nil {
		return fmt.Errorf("an update behind the end succeeded")
	}
	if err := compare("the update behind the end", n); err != nil {
		return err
	}
	a = pb.N(41)
	if rec, err = a.Record(); err != nil {
		return err
	}
	if err := w.db.AddArticleRecordFileRecord("Test", rec); err != nil {
		return err
	}
	want[n] = string(a.Bytes())
	r.Trans(3)
	r.Trace()
	return compare("adding", n+1)
}

var blank = string(make([]byte, 128))

func body(r *kit.Run) {
	first := func(int) uint { return 0 }
	last := func(n int) uint { return uint(n) - 1 } // 2^64-1 in an empty index
	past := func(n int) uint { return uint(n) }
	past2 := func(n int) uint { return uint(n) + 1 }
	wrap := func(n int) uint { return 1 << 57 } // * 128 is 0 in 64 bits
	ops := []op{add(0), add(1), update(0, "last", last), update(0, "0", first), update(0, "n", past),
		update(0, "n+1", past2), bump(0), update(1, "last", last), addNew(0), update(0, "2^57", wrap), reopen()}

	// 1. every history
	depth := kit.Pick(r, 5, 6)
	r.Section(fmt.Sprintf("all histories of %d operations out of %d", depth, len(ops)))
	idx := make([]int, depth)
	for {
		h := append([]int{}, idx...)
		var names []string
		for _, i := range h {
			names = append(names, ops[i].name)
		}
		r.Check(strings.Join(names, " "), func() error {
			w := newWorld(r)
			for _, i := range h {
				if err := ops[i].do(w); err != nil {
					return fmt.Errorf("%s: %v", ops[i].name, err)
				}
				if err := w.check(); err != nil {
					return fmt.Errorf("after %s: %v", ops[i].name, err)
				}
			}
			r.Trace()
			return nil
		})
		i := depth - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(ops) {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			break
		}
	}

	// 2. long histories: an operation many times, with and without listing, then others
	look := op{"list0", func(w *world) error {
		bd := w.boards[0]
		got, err := w.db.ReadBoardArticleRecordsFile(bd.name)
		if err != nil {
			return err
		}
		r.Trans(1)
		return pb.SameList(got, bd.recs)
	}}
	many := append([]op{look}, ops...)
	const times = 150
	r.Section(fmt.Sprintf("an operation %d times and then every pair of others", times))
	for _, x := range many {
		for _, y := range many {
			x, y := x, y
			r.Check(fmt.Sprintf("%s %d times, %s", x.name, times, y.name), func() error {
				for _, z := range many {
					w := newWorld(r)
					fill(w, 2)
					var h []op
					for i := 0; i < times; i++ {
						h = append(h, x)
					}
					h = append(h, look, y, look, z, look, x, look)
					for i, o := range h {
						if err := o.do(w); err != nil {
							return fmt.Errorf("step %d, %s, then %s: %v", i, o.name, z.name, err)
						}
					}
					if err := w.check(); err != nil {
						return fmt.Errorf("then %s: %v", z.name, err)
					}
					r.Trace()
				}
				return nil
			})
		}
	}
	r.Section("histories which repeat two or three operations")
	for a := range many {
		for b := range many {
			for c := -1; c < len(many); c++ {
				if a == b && (b == c || c < 0) {
					continue
				}
				period := []op{many[a], many[b]}
				name := many[a].name + " " + many[b].name
				if c >= 0 {
					period = append(period, many[c])
					name += " " + many[c].name
				}
				r.Check("again and again: "+name, func() error {
					w := newWorld(r)
					fill(w, 1)
					for i := 0; i < 36; i++ {
						o := period[i%len(period)]
						if err := o.do(w); err != nil {
							return fmt.Errorf("step %d, %s: %v", i, o.name, err)
						}
					}
					r.Trace()
					return w.check()
				})
			}
		}
	}

	// 3. every length of the index: grow record by record, list, update a position
	max := kit.Pick(r, 700, 2600)
	r.Section(fmt.Sprintf("index lengths 1 to %d: add, list, update every position", max))
	for n := 1; n <= max; n++ {
		n := n
		r.Check(fmt.Sprintf("length %d", n), func() error {
			w := newWorld(r)
			fill(w, n-1)
			for _, o := range []op{add(0), update(0, "mid", func(l int) uint { return uint(l / 2) }), update(0, "last", last), update(0, "n", past), bump(0)} {
				if err := o.do(w); err != nil {
					return fmt.Errorf("%s: %v", o.name, err)
				}
			}
			if err := w.check(); err != nil {
				return err
			}
			r.Trace()
			return nil
		})
	}
	// every position of one index
	for n := 0; n < max; n++ {
		n := n
		r.Check(fmt.Sprintf("position %d of %d", n, max), func() error {
			w := newWorld(r)
			fill(w, max)
			if err := update(0, "i", func(int) uint { return uint(n) }).do(w); err != nil {
				return err
			}
			r.Trace()
			return w.check()
		})
	}

	// every sequence of odd records: blank, twice the same, deleted, only one field
	r.Section("every sequence of odd records, every position")
	kinds := []pb.Art{{}, pb.N(3), pb.N(4), {Filename: ".d12345", Owner: "-", Date: " 1/01", Title: "(本文已被刪除)"}, {Owner: "x"}, {Title: "只有標題"}, {Filename: "M.1.A.001"}, {Recommend: -1, Filemode: 0xff, Modified: 0xffffffff}}
	var seqs func(seq []int)
	odd := kit.Pick(r, 4, 5)
	seqs = func(seq []int) {
		if len(seq) > 0 {
			r.Check(fmt.Sprintf("odd records %v", seq), func() error {
				for p := 0; p <= len(seq); p++ {
					w := newWorld(r)
					var b []byte
					for _, k := range seq {
						b = append(b, kinds[k].Bytes()...)
						w.boards[0].recs = append(w.boards[0].recs, kinds[k])
					}
					if err := os.WriteFile(w.path(0), b, 0644); err != nil {
						return err
					}
					if err := w.check(); err != nil {
						return err
					}
					o := add(0)
					if p < len(seq) {
						o = update(0, "p", func(int) uint { return uint(p) })
					}
					if err := o.do(w); err != nil {
						return fmt.Errorf("%s, position %d: %v", o.name, p, err)
					}
					if err := w.check(); err != nil {
						return fmt.Errorf("after %s, position %d: %v", o.name, p, err)
					}
					// an odd record goes from the listing to the end
					got, err := w.db.ReadBoardArticleRecordsFile(w.boards[0].name)
					if err != nil {
						return err
					}
					i := (p + 1) % len(seq)
					want := w.boards[0].recs[i]
					l := len(got) * 128
					if err := w.change(0, func() error { return w.db.AddArticleRecordFileRecord(w.boards[0].name, got[i]) }, false, l+128, l, l+128); err != nil {
						return fmt.Errorf("adding record %d: %v", i, err)
					}
					w.boards[0].recs = append(w.boards[0].recs, want)
					if err := w.check(); err != nil {
						return fmt.Errorf("after adding record %d: %v", i, err)
					}
				}
				r.Trace()
				return nil
			})
		}
		if len(seq) < odd {
			for k := range kinds {
				seqs(append(seq[:len(seq):len(seq)], k))
			}
		}
	}
	seqs(nil)

	// special values of all fields together: no record is left out for what its fields say
	r.Section("every combination of special field values")
	special := specialFields()
	for _, fn := range special.files {
		for _, ow := range special.owners {
			fn, ow := fn, ow
			r.Check(fmt.Sprintf("fields: file name %q, owner %q", fn, ow), func() error {
				w := newWorld(r)
				var b bytes.Buffer
				n := 0
				for _, ti := range special.titles {
					enc := pb.Art{Filename: fn, Owner: ow, Title: ti}.Bytes()
					for _, da := range special.dates {
						copy(enc[48:54], "\x00\x00\x00\x00\x00\x00")
						copy(enc[48:54], da)
						for _, mode := range special.modes {
							for _, mo := range special.modified {
								for _, re := range special.scores {
									for _, un := range special.unions {
										a := pb.Art{Filename: fn, Owner: ow, Date: da, Title: ti, Modified: mo, Recommend: re, Union: un, Filemode: mode}
										binary.LittleEndian.PutUint32(enc[28:], mo)
										enc[33] = byte(re)
										copy(enc[120:124], un[:])
										enc[124] = mode
										b.Write(enc)
										w.boards[0].recs = append(w.boards[0].recs, a)
										n++
									}
								}
							}
						}
					}
				}
				if err := os.WriteFile(w.path(0), b.Bytes(), 0644); err != nil {
					return err
				}
				if err := w.check(); err != nil {
					return err
				}
				for _, o := range []op{add(0), update(0, "mid", func(l int) uint { return uint(l / 2) })} {
					if err := o.do(w); err != nil {
						return err
					}
				}
				r.Trace()
				r.Distinct(kit.Hash("fields", fn, ow))
				return w.check()
			})
		}
	}
	// and each of a smaller product is listed, written by an update and by an addition
	for _, fn := range special.files {
		for _, ow := range special.owners {
			fn, ow := fn, ow
			r.Check(fmt.Sprintf("fields written: file name %q, owner %q", fn, ow), func() error {
				w := newWorld(r)
				fill(w, 1)
				for _, ti := range special.titles {
					for _, mode := range special.modes {
						a := pb.Art{Filename: fn, Owner: ow, Date: " 1/01", Title: ti, Filemode: mode}
						rec, err := a.Record()
						if err != nil {
							return err
						}
						if err := w.c.UpdateArticleRecordFileRecord(w.path(0), 0, rec); err != nil {
							return err
						}
						if err := w.db.AddArticleRecordFileRecord("Tes", rec); err != nil {
							return err
						}
						w.boards[0].recs[0] = a
						w.boards[1].recs = []pb.Art{a}
						r.Trans(2)
						if err := w.check(); err != nil {
							return fmt.Errorf("title %q, mode %x: %v", ti, mode, err)
						}
						if err := os.Remove(w.path(1)); err != nil {
							return err
						}
					}
				}
				r.Trace()
				return nil
			})
		}
	}

	// 3. large indexes
	r.Section("large indexes")
	for _, n := range []int{4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537} {
		for _, p := range []int{0, 1, 127, 128, 255, 256, 257, 511, 512, 4094, 4095, 4096, 32766, 32767, 32768, 65534, 65535, 65536, n} {
			if p > n {
				continue
			}
			if !r.Thorough && n != 65537 && p != n {
				continue
			}
			n, p := n, p
			r.Check(fmt.Sprintf("%d records, position %d", n, p), func() error {
				w := newWorld(r)
				fill(w, n)
				o := update(0, "p", func(int) uint { return uint(p) })
				if err := o.do(w); err != nil {
					return err
				}
				if err := add(0).do(w); err != nil {
					return err
				}
				r.Trace()
				return w.check()
			})
		}
	}

	// indexes with holes, in which offsets need more than 31 and 32 bits
	r.Section("indexes of up to 2^26 records")
	for k := uint(16); k <= 26; k++ {
		for d := int64(-1); d <= 1; d++ {
			for _, extra := range []int64{1, 5} {
				p := int64(1)<<k + d
				n := p + extra
				r.Check(fmt.Sprintf("%d records, position %d", n, p), func() error { return sparse(r, n, p) })
			}
		}
	}

	// 4. positions whose offset overflows or is huge
	r.Section("positions 2^k-1, 2^k, 2^k+1 for every k")
	for k := 0; k < 64; k++ {
		for d := -1; d <= 1; d++ {
			for _, n := range []int{0, 1, 3} {
				i := uint(uint64(1)<<k + uint64(d))
				n := n
				r.Check(fmt.Sprintf("update position %d of %d", i, n), func() error {
					w := newWorld(r)
					fill(w, n)
					if err := update(0, "i", func(int) uint { return i }).do(w); err != nil {
						return err
					}
					r.Trace()
					return w.check()
				})
			}
		}
	}

	// 5. updates and additions which can not work
	r.Section("missing files and foreign records")
	r.Check("update in a board without index", func() error {
		w := newWorld(r)
		rec, _ := pb.N(1).Record()
		r.Trace()
		return w.change(0, func() error { return w.c.UpdateArticleRecordFileRecord(w.path(0), 0, rec) }, true, 0, 0, 0)
	})
	r.Check("add to a board without directory", func() error {
		w := newWorld(r)
		rec, _ := pb.N(1).Record()
		r.Trace()
		return w.change(0, func() error { return w.db.AddArticleRecordFileRecord("Nothing", rec) }, true, 0, 0, 0)
	})
	for n := 0; n < 3; n++ {
		n := n
		r.Check(fmt.Sprintf("foreign record, %d records", n), func() error {
			w := newWorld(r)
			fill(w, n)
			r.Trace()
			if err := w.change(0, func() error { return w.db.AddArticleRecordFileRecord("Test", foreign{}) }, true, 0, 0, 0); err != nil {
				return fmt.Errorf("add: %v", err)
			}
			if err := w.change(0, func() error { return w.c.UpdateArticleRecordFileRecord(w.path(0), 0, foreign{}) }, true, 0, 0, 0); err != nil {
				return fmt.Errorf("update: %v", err)
			}
			return w.check()
		})
	}
	// a record of one board goes to another one, and may be added again
	r.Section("one record in several places")
	for n := 0; n < 4; n++ {
		for m := 0; m < 4; m++ {
			n, m := n, m
			r.Check(fmt.Sprintf("copies %d %d", n, m), func() error {
				w := newWorld(r)
				a := pb.N(77)
				rec, err := a.Record()
				if err != nil {
					return err
				}
				for i := 0; i < n+m; i++ {
					b := 0
					if i >= n {
						b = 1
					}
					if err := w.db.AddArticleRecordFileRecord(w.boards[b].name, rec); err != nil {
						return err
					}
					w.boards[b].recs = append(w.boards[b].recs, a)
					if err := w.check(); err != nil {
						return err
					}
				}
				// what the caller does to its record later changes nothing
				rec.SetTitle("other")
				r.Trace()
				return w.check()
			})
		}
	}
}

// specialFields has values of the fields which have a meaning in a BBS.
func specialFields() (f struct {
	files, owners, titles, dates []string
	modes                        []uint8
	modified                     []uint32
	scores                       []int8
	unions                       [][4]byte
}) {
	f.files = []string{"", ".deleted", ".d12345", "M.1600000000.A.001", "G.1600000000.A.001", "M", ".", "L.1.A.000"}
	f.owners = []string{"", "-", "userA", "guest", "SYSOP", "[系統]"[:1], "-userA"}
	f.titles = []string{"", "(本文已被刪除)", "(本文已被刪除) [userA]", "(本文已被刪除) <userA>", "(已被userA刪除) <userB>", "-", "<本文已刪除>", "Re: x", "Fw: x", "[公告] x", "◆ x", "[轉錄] x", "<< x"}
	f.dates = []string{"", " 0/00", " 1/01", "12/31"}
	f.modes = []uint8{0, 1, 2, 4, 8, 16, 32, 64, 128, 0xff, 0x21}
	f.modified = []uint32{0, 1600000000, 1<<32 - 1}
	f.scores = []int8{0, 1, -1, 100, -128}
	f.unions = [][4]byte{{}, {1}, {255, 255, 255, 255}}
	return
}

// fill writes an index of n records directly.
func fill(w *world, n int) {
	var b bytes.Buffer
	for i := 0; i < n; i++ {
		a := pb.N(w.n)
		w.n++
		b.Write(a.Bytes())
		w.boards[0].recs = append(w.boards[0].recs, a)
	}
	if n > 0 {
		if err := os.WriteFile(pb.DirPath(w.home, w.boards[0].name), b.Bytes(), 0644); err != nil {
			panic(err)
		}
	}
}

type foreign struct{ bbs.ArticleRecord }
