// C11: article content and drafts follow every read/write history.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/Ptt-official-app/go-bbs"

	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	kit.Main(kit.Config{
		ID: "C11", Level: kit.ModelChecking,
		Rule:        "every history up to the depth in the notes over write, append, write draft and delete draft on two articles and two drafts with contents of different lengths, run from an empty home and compared with a map after every step; every size of a content and every pair of sizes; distinct by history or sizes",
		Assumptions: []string{"appending to an article which does not exist and deleting a draft which does not exist may fail or not, but change nothing when they fail", "the file system"},
		Body:        body,
	})
}

type op struct {
	name   string
	target int // 0..1 articles, 2..3 drafts
	kind   byte
	data   string
}

// the targets: two articles in two boards with the same name, one more in the first board, two drafts
// of two users with the same number, one more of the first user.
type target struct{ owner, name string }

var articles = []target{{"test", "M.1.A.001"}, {"test2", "M.1.A.001"}, {"test", "M.1.A.002"}}
var drafts = []target{{"user", "0"}, {"user2", "0"}, {"user", "1"}}

type env struct {
	home string
	db   *bbs.DB
	base map[string]string
}

func setup(r *kit.Run) (*env, error) {
	e := &env{home: r.Dir("h")}
	for _, a := range articles {
		if err := pb.MakeBoard(e.home, a.owner); err != nil {
			return nil, err
		}
	}
	for _, d := range drafts {
		if err := os.MkdirAll(filepath.Join(e.home, "home", d.owner[:1], d.owner), 0755); err != nil {
			return nil, err
		}
	}
	// files which nothing may touch
	for _, f := range []string{"home/u/user/.fav", "home/u/user/buf.10", "home/u/user2/logins.recent", "boards/t/test/.DIR", "boards/t/test/M.1.A.0011", ".BRD"} {
		if err := os.WriteFile(filepath.Join(e.home, f), []byte("bystander "+f), 0644); err != nil {
			return nil, err
		}
	}
	e.base = pb.Tree(e.home)
	var err error
	e.db, _, err = pb.Open(e.home)
	return e, err
}

func apath(i int) string {
	a := articles[i]
	return "boards/" + a.owner[:1] + "/" + a.owner + "/" + a.name
}

func dpath(i int) string {
	d := drafts[i]
	return "home/" + d.owner[:1] + "/" + d.owner + "/buf." + d.name
}

// model is path to content.
type model map[string]string

func (m model) key() string {
	var ks []string
	for k, v := range m {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, "\x00")
}

func (e *env) apply(o op, m model) error {
	data := []byte(o.data)
	switch o.kind {
	case 'w':
		a := articles[o.target]
		if err := e.db.WriteBoardArticleFile(a.owner, a.name, data); err != nil {
			return fmt.Errorf("%s: %v", o.name, err)
		}
		m[apath(o.target)] = o.data
	case 'a':
		a := articles[o.target]
		old, ok := m[apath(o.target)]
		if err := e.db.AppendBoardArticleFile(a.owner, a.name, data); err != nil {
			if ok {
				return fmt.Errorf("%s: %v", o.name, err)
			}
			return nil
		}
		m[apath(o.target)] = old + o.data
	case 'd':
		d := drafts[o.target]
		if err := e.db.WriteUserDraft(d.owner, d.name, bbs.NewUserDraft(data)); err != nil {
			return fmt.Errorf("%s: %v", o.name, err)
		}
		m[dpath(o.target)] = o.data
	case 'x':
		d := drafts[o.target]
		_, ok := m[dpath(o.target)]
		if err := e.db.DeleteUserDraft(d.owner, d.name); err != nil && ok {
			return fmt.Errorf("%s: %v", o.name, err)
		}
		delete(m, dpath(o.target))
	}
	if string(data) != o.data {
		return fmt.Errorf("%s changed the caller's content", o.name)
	}
	// the content belongs to the caller
	for i := range data {
		data[i] = '#'
	}
	return nil
}

// compare reads everything through the API and compares the whole tree.
func (e *env) compare(m model) error {
	for i, a := range articles {
		want, ok := m[apath(i)]
		got, err := e.db.ReadBoardArticleFile(a.owner, a.name)
		if !ok {
			if err == nil && len(got) > 0 {
				return fmt.Errorf("article %v which does not exist reads %q", a, clip(got))
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("article %v: %v", a, err)
		}
		if string(got) != want {
			return fmt.Errorf("article %v reads %q, want %q: %s", a, clip(got), clip([]byte(want)), pb.Diff(got, []byte(want)))
		}
	}
	for i, d := range drafts {
		want, ok := m[dpath(i)]
		got, err := e.db.GetUserDrafts(d.owner, d.name)
		if err != nil {
			return fmt.Errorf("draft %v: %v", d, err)
		}
		var raw []byte
		if got != nil {
			raw = got.Raw()
		}
		if ok && string(raw) != want || !ok && len(raw) > 0 {
			return fmt.Errorf("draft %v reads %q, want %q (exists: %v)", d, clip(raw), clip([]byte(want)), ok)
		}
		for i := range raw {
			raw[i] = '!' // must not reach the file or a later read
		}
	}
	want := map[string]string{}
	for k, v := range e.base {
		want[k] = v
	}
	for k, v := range m {
		want[k] = v
	}
	return pb.TreeDiff(want, pb.Tree(e.home))
}

func clip(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func body(r *kit.Run) {
	contents := []string{"", "long content with \x00\xff\r\n bytes\n", "mid\n"}
	var ops []op
	for t := 0; t < 2; t++ {
		for i, c := range contents {
			ops = append(ops, op{fmt.Sprintf("write%d.%d", t, i), t, 'w', c})
		}
		ops = append(ops, op{fmt.Sprintf("append%d", t), t, 'a', "+more\n"})
	}
	for t := 0; t < 2; t++ {
		for i, c := range contents[:2] {
			ops = append(ops, op{fmt.Sprintf("draft%d.%d", t, i), t, 'd', c})
		}
		ops = append(ops, op{fmt.Sprintf("delete%d", t), t, 'x', ""})
	}
	// the third article and draft live next to the first ones
	ops = append(ops, op{"write2", 2, 'w', "neighbour"}, op{"append2", 2, 'a', "!"}, op{"draft2", 2, 'd', "next draft"}, op{"delete2", 2, 'x', ""})
	depth := kit.Pick(r, 4, 5)
	r.Note("history depth", depth)
	r.Note("operations", len(ops))
	r.Section("every history")
	var walk func(h []int)
	walk = func(h []int) {
		// one case runs all histories with one common prefix
		if len(h) == depth-2 {
			names := ""
			for _, i := range h {
				names += ops[i].name + " "
			}
			h := append([]int{}, h...)
			r.Check("history "+names+"...", func() error {
				var rec func(t []int) error
				rec = func(t []int) error {
					e, err := setup(r)
					if err != nil {
						return err
					}
					m := model{}
					hist := ""
					for _, i := range append(append([]int{}, h...), t...) {
						hist += ops[i].name + " "
						if err := e.apply(ops[i], m); err != nil {
							return fmt.Errorf("after %s: %v", hist, err)
						}
						r.State(kit.Hash(m.key()))
						r.Trans(1)
						// every prefix which is not a case of its own
						if err := e.quick(m, ops[i]); err != nil {
							return fmt.Errorf("after %s: %v", hist, err)
						}
					}
					r.Trace()
					r.Eval(1)
					if err := e.compare(m); err != nil {
						return fmt.Errorf("after %s: %v", hist, err)
					}
					os.RemoveAll(e.home)
					if len(t) == 2 {
						return nil
					}
					for i := range ops {
						if err := rec(append(append([]int{}, t...), i)); err != nil {
							return err
						}
					}
					return nil
				}
				return rec(nil)
			})
			return
		}
		for i := range ops {
			walk(append(append([]int{}, h...), i))
		}
	}
	walk(nil)

	pattern := func(n, seed int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + i/251 + seed)
		}
		return string(b)
	}
	// run executes ops and compares after each of them
	run := func(os_ ...op) error {
		e, err := setup(r)
		if err != nil {
			return err
		}
		m := model{}
		for i, o := range os_ {
			if err := e.apply(o, m); err != nil {
				return err
			}
			r.State(kit.Hash(m.key()))
			r.Trans(1)
			if err := e.compare(m); err != nil {
				return fmt.Errorf("after operation %d (%s): %v", i, o.name, err)
			}
		}
		r.Trace()
		return os.RemoveAll(e.home)
	}
	r.Section("every size")
	var sizes []int
	for n := 0; n <= kit.Pick(r, 600, 5000); n++ {
		sizes = append(sizes, n)
	}
	for _, c := range []int{1024, 4096, 8192, 32768, 65536, 131072, 1 << 20} {
		for d := -2; d <= 2; d++ {
			sizes = append(sizes, c+d)
		}
	}
	for _, n := range sizes {
		n := n
		r.Check(fmt.Sprintf("size %d", n), func() error {
			c := pattern(n, n)
			return run(op{"write", 0, 'w', c}, op{"append", 0, 'a', c}, op{"draft", 0, 'd', c}, op{"write", 1, 'w', "x" + c}, op{"append", 1, 'a', "y"}, op{"draft", 1, 'd', c + "z"},
				op{"write", 0, 'w', pattern(n/2, 3)}, op{"draft", 0, 'd', pattern(n/2, 4)}, op{"append", 0, 'a', ""}, op{"append", 0, 'a', pattern(1, 9)}, op{"delete", 1, 'x', ""})
		})
	}
	r.Section("every pair of sizes")
	pairs := []int{0, 1, 2, 3, 10, 100, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65536, 65537}
	for _, n := range pairs {
		for _, k := range pairs {
			n, k := n, k
			r.Check(fmt.Sprintf("sizes %d %d", n, k), func() error {
				a, b := pattern(n, 1), pattern(k, 2)
				return run(op{"write", 0, 'w', a}, op{"write again", 0, 'w', b}, op{"append", 0, 'a', a}, op{"append", 0, 'a', b},
					op{"draft", 0, 'd', a}, op{"draft again", 0, 'd', b}, op{"delete", 0, 'x', ""}, op{"draft", 0, 'd', a})
			})
		}
	}
	// what is written differs a little from what is there
	r.Section("every small change of a content")
	for _, n := range []int{1, 2, 3, 8, 31, 64, 65, 100, 200, 513, 4097, 70000} {
		for part := 0; part < 8; part++ {
			n, part := n, part
			step := 1
			if n > 600 {
				step = n/83 + 1
			}
			r.Check(fmt.Sprintf("changes of %d bytes, part %d", n, part), func() error {
				for _, base := range []string{pattern(n, 5), strings.Repeat("x", n), strings.Repeat("推 userA: x 01/02 03:04\n", n/24+1)[:n]} {
					e, err := setup(r)
					if err != nil {
						return err
					}
					m := model{}
					for i := part * step; i <= n; i += 8 * step {
						if i+step > n && i < n {
							i = n - 1
						}
						changed := []string{base[:i] + "!" + base[i:], base[:i], base + base[i:]}
						if i < n {
							changed = append(changed, base[:i]+"!"+base[i+1:], base[:i]+base[i+1:])
						}
						for _, c := range changed {
							ops := []op{{"write", 0, 'w', base}, {"write changed", 0, 'w', c}, {"draft", 0, 'd', base}, {"draft changed", 0, 'd', c}, {"append the rest", 0, 'a', base[i:]}, {"append it again", 0, 'a', base[i:]}}
							for _, o := range ops {
								if err := e.apply(o, m); err != nil {
									return err
								}
								r.Trans(1)
								p := apath(0)
								if o.kind == 'd' {
									p = dpath(0)
								}
								if got := string(pb.Read(filepath.Join(e.home, p))); got != m[p] {
									return fmt.Errorf("after %s, position %d: %s", o.name, i, pb.Diff([]byte(got), []byte(m[p])))
								}
							}
						}
					}
					if err := e.compare(m); err != nil {
						return err
					}
					r.Trace()
					if err := os.RemoveAll(e.home); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	r.Section("every byte value")
	for v := 0; v < 256; v++ {
		v := v
		r.Check(fmt.Sprintf("byte %d", v), func() error {
			var os []op
			for _, c := range []string{string([]byte{byte(v)}), strings.Repeat(string([]byte{byte(v)}), 300), "a" + string([]byte{byte(v)}) + "\n", string([]byte{byte(v), '\r', byte(v), 0, byte(v)})} {
				os = append(os, op{"write", 0, 'w', c}, op{"append", 0, 'a', c}, op{"draft", 0, 'd', c}, op{"append", 1, 'a', c}, op{"write", 1, 'w', c})
			}
			return run(os...)
		})
	}
	r.Section("many appends")
	for n := 1; n <= kit.Pick(r, 60, 400); n++ {
		n := n
		r.Check(fmt.Sprintf("%d appends", n), func() error {
			os := []op{{"write", 0, 'w', "head\n"}}
			for i := 0; i < n; i++ {
				os = append(os, op{"append", 0, 'a', fmt.Sprintf("推 user%d: comment %d 01/02 03:04\n", i, i)})
			}
			return run(os...)
		})
	}
	const times = 150
	r.Section(fmt.Sprintf("an operation %d times and then every other", times))
	look := op{"read", -1, 0, ""}
	for _, x := range append(ops, look) {
		for _, y := range ops {
			x, y := x, y
			r.Check(fmt.Sprintf("%s %d times, %s", x.name, times, y.name), func() error {
				for _, read := range []bool{false, true} {
					for start := 0; start < 2; start++ {
						e, err := setup(r)
						if err != nil {
							return err
						}
						m := model{}
						for i, o := range ops {
							if start == 1 && (o.kind == 'w' || o.kind == 'd') && ops[(i+1)%len(ops)].kind != o.kind {
								if err := e.apply(o, m); err != nil {
									return err
								}
							}
						}
						var h []op
						for i := 0; i < times; i++ {
							h = append(h, x)
						}
						for i, o := range append(h, y, x, y, y) {
							if o.target >= 0 {
								if err := e.apply(o, m); err != nil {
									return fmt.Errorf("operation %d: %v", i, err)
								}
							}
							r.Trans(1)
							if o.target >= 0 && !read && i < times {
								continue
							}
							if i < times-1 && o.target >= 0 {
								err = e.quick(m, o)
							} else {
								err = e.compare(m)
							}
							if err != nil {
								return fmt.Errorf("after operation %d (%s): %v", i, o.name, err)
							}
						}
						r.Trace()
					}
				}
				return nil
			})
		}
	}
	r.Section("created articles")
	for n := 0; n < 8; n++ {
		n := n
		r.Check(fmt.Sprintf("created %d", n), func() error {
			e, err := setup(r)
			if err != nil {
				return err
			}
			want := map[string]string{}
			for k, v := range e.base {
				want[k] = v
			}
			for i := 0; i <= n; i++ {
				rec, err := e.db.CreateArticleRecord("test", "owner", "1/02", "title")
				if err != nil {
					return err
				}
				p := "boards/t/test/" + rec.Filename()
				if _, ok := want[p]; ok {
					return fmt.Errorf("%s was there already", p)
				}
				if got, err := e.db.ReadBoardArticleFile("test", rec.Filename()); err != nil || len(got) != 0 {
					return fmt.Errorf("a new article reads %q, %v", got, err)
				}
				c := ""
				if i%2 == 0 {
					c = pattern(i*100, i)
					if err := e.db.WriteBoardArticleFile("test", rec.Filename(), []byte(c)); err != nil {
						return err
					}
				}
				if err := e.db.AppendBoardArticleFile("test", rec.Filename(), []byte("comment")); err != nil {
					return err
				}
				want[p] = c + "comment"
				got, err := e.db.ReadBoardArticleFile("test", rec.Filename())
				if err != nil || string(got) != want[p] {
					return fmt.Errorf("%s reads %q, %v", p, clip(got), err)
				}
			}
			return pb.TreeDiff(want, pb.Tree(e.home))
		})
	}
	r.Section("boards, users and articles which do not exist")
	r.Check("absent", func() error {
		e, err := setup(r)
		if err != nil {
			return err
		}
		if err := e.db.WriteBoardArticleFile("nope", "M.1.A.001", []byte("x")); err == nil {
			return fmt.Errorf("writing to a board without a directory succeeded")
		}
		if err := e.db.AppendBoardArticleFile("nope", "M.1.A.001", []byte("x")); err == nil {
			return fmt.Errorf("appending in a board without a directory succeeded")
		}
		if got, err := e.db.ReadBoardArticleFile("nope", "M.1.A.001"); err == nil {
			return fmt.Errorf("reading from a board without a directory gives %q", got)
		}
		if got, err := e.db.ReadBoardArticleFile("test", "M.1.A.00F"); err == nil {
			return fmt.Errorf("reading an article which does not exist gives %q", got)
		}
		if err := e.db.WriteUserDraft("nope", "0", bbs.NewUserDraft([]byte("x"))); err == nil {
			return fmt.Errorf("writing a draft of a user without a directory succeeded")
		}
		for _, f := range []func() error{
			func() error { return e.db.WriteBoardArticleFile("", "M.1.A.001", []byte("x")) },
			func() error { return e.db.AppendBoardArticleFile("", "M.1.A.001", []byte("x")) },
			func() error { _, err := e.db.ReadBoardArticleFile("", "M.1.A.001"); return err },
			func() error { return e.db.WriteUserDraft("", "0", bbs.NewUserDraft([]byte("x"))) },
			func() error { _, err := e.db.GetUserDrafts("", "0"); return err },
			func() error { return e.db.DeleteUserDraft("", "0") },
			func() error { _, err := e.db.CreateArticleRecord("", "o", "d", "t"); return err },
			func() error { _, err := e.db.CreateArticleRecord("nope", "o", "d", "t"); return err },
		} {
			if err := f(); err == nil {
				return fmt.Errorf("an empty id or a missing directory was accepted")
			}
		}
		return pb.TreeDiff(e.base, pb.Tree(e.home))
	})
	r.Section("draft ids and user ids")
	for i := 0; i < 10; i++ {
		i := i
		r.Check(fmt.Sprintf("draft %d", i), func() error {
			e, err := setup(r)
			if err != nil {
				return err
			}
			want := map[string]string{}
			for k, v := range e.base {
				want[k] = v
			}
			for j := 0; j < 10; j++ {
				for _, u := range []string{"user", "user2"} {
					c := fmt.Sprintf("draft %d of %s", j, u)
					if err := e.db.WriteUserDraft(u, fmt.Sprint(j), bbs.NewUserDraft([]byte(c))); err != nil {
						return err
					}
					want["home/u/"+u+"/buf."+fmt.Sprint(j)] = c
				}
			}
			if err := e.db.DeleteUserDraft("user", fmt.Sprint(i)); err != nil {
				return err
			}
			delete(want, "home/u/user/buf."+fmt.Sprint(i))
			for j := 0; j < 10; j++ {
				for _, u := range []string{"user", "user2"} {
					d, err := e.db.GetUserDrafts(u, fmt.Sprint(j))
					if err != nil {
						return err
					}
					if w := want["home/u/"+u+"/buf."+fmt.Sprint(j)]; !bytes.Equal(d.Raw(), []byte(w)) {
						return fmt.Errorf("draft %d of %s reads %q, want %q", j, u, d.Raw(), w)
					}
				}
			}
			return pb.TreeDiff(want, pb.Tree(e.home))
		})
	}
}

// quick compares only what the operation targets, in the middle of a history.
func (e *env) quick(m model, o op) error {
	p := apath(o.target)
	if o.kind == 'd' || o.kind == 'x' {
		p = dpath(o.target)
	}
	want, ok := m[p]
	got := pb.Read(filepath.Join(e.home, p))
	if ok != (got != nil) || string(got) != want {
		return fmt.Errorf("%s: %s is %q, want %q (exists: %v)", o.name, p, clip(got), clip([]byte(want)), ok)
	}
	return nil
}
