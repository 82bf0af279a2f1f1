// C16: file paths follow the BBS layout and never collide.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	kit.Main(kit.Config{
		ID: "C16", Level: kit.Exploration,
		Rule:        "every path function with every id of up to two characters (and longer ones over a smaller alphabet), all draft and file names and all treasure paths of up to the listed depth, for several homes, against the written-out layout and against all other paths; callers' slices with every amount of spare capacity; distinct by path",
		Assumptions: []string{"ids and names have the characters which ptt allows, no slashes; ids are ASCII", "names of files in a user's home other than the reserved ones are M.*"},
		Body:        body,
	})
}

const alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func ids(extra string, long int) []string {
	var out []string
	a := alnum + extra
	for i := range a {
		out = append(out, a[i:i+1])
		for j := range a {
			out = append(out, a[i:i+1]+a[j:j+1])
		}
	}
	small := "aAb1" + extra
	var rec func(p string)
	rec = func(p string) {
		if len(p) >= 3 {
			out = append(out, p)
		}
		if len(p) == long {
			return
		}
		for i := range small {
			rec(p + small[i:i+1])
		}
	}
	rec("")
	for c := byte(' '); c < 127; c++ {
		if c == '/' || strings.IndexByte(a, c) >= 0 {
			continue
		}
		x := string([]byte{c})
		for _, id := range []string{x, x + x, "a" + x, x + "a", "a" + x + "b", "a" + x + x, "ab" + x, "test" + x} {
			if id != "." && id != ".." {
				out = append(out, id)
			}
		}
	}
	for _, n := range []int{10, 11, 12, 13, 14, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255} {
		x := strings.Repeat("a", n-1)
		out = append(out, x+"a", x+"b", "b"+x)
	}
	return append(out, "SYSOP", "abcdefghijkl", "test", "Test", "TEST", "test1", "guest")
}

// a path function and what it must return, relative to the home
type pathCase struct {
	key  string
	want string
	got  func(home string, c *pttbbs.Connector) []res
}

type res struct {
	fn  string
	p   string
	err error
}

func mk(fn string) func(string, error) res {
	return func(p string, err error) res { return res{fn, p, err} }
}

var homes = []string{"/bbs", "home/bbs", "../home/bbs", ".", "/home/bbs/", "", "/a b/%s%d/中文", "/x?y"}

func user(u string) []pathCase {
	b := "home/" + u[:1] + "/" + u + "/"
	cs := []pathCase{
		{"fav", b + ".fav", func(h string, c *pttbbs.Connector) []res {
			return []res{mk("GetUserFavoritePath")(pttbbs.GetUserFavoritePath(h, u)), mk("GetUserFavoriteRecordsPath")(c.GetUserFavoriteRecordsPath(u))}
		}},
		{"recent", b + "logins.recent", func(h string, c *pttbbs.Connector) []res {
			return []res{mk("GetLoginRecentPath")(pttbbs.GetLoginRecentPath(h, u))}
		}},
	}
	for _, d := range []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "00", "01", "a", "A", "0.", "0 ", ".0", "a.b", "~", "%d", "4294967296", "18446744073709551616", long + "a", long + "b"} {
		d := d
		cs = append(cs, pathCase{"draft " + d, b + "buf." + d, func(h string, c *pttbbs.Connector) []res {
			return []res{mk("GetUserDraftPath")(pttbbs.GetUserDraftPath(h, u, d)), mk("Connector.GetUserDraftPath")(c.GetUserDraftPath(u, d))}
		}})
	}
	for _, f := range files {
		f := f
		cs = append(cs, pathCase{"mail " + f, b + f, func(h string, c *pttbbs.Connector) []res {
			return []res{mk("GetUserMailPath")(pttbbs.GetUserMailPath(h, u, f))}
		}})
	}
	return cs
}

var long = strings.Repeat("x", 200)

var files = []string{"M.1.A.001", "M.1.A.0012", "M.1600000000.A.FFF", "M.1600000000.A.FFE", "G.1600000000.A.001", "M.4300000000.A.001", "M." + long + "a", "M." + long + "b"}

func treasures(depth int) [][]string {
	names := []string{"D1", "D12", "D", "M.1600000000.A.FFF"}
	out := [][]string{nil, {}}
	var rec func(p []string)
	rec = func(p []string) {
		if len(p) == depth {
			return
		}
		for _, n := range names {
			q := append(append([]string{}, p...), n)
			out = append(out, q)
			rec(q)
		}
	}
	rec(nil)
	var deep []string
	for i := 0; i < 300; i++ {
		deep = append(deep, fmt.Sprintf("D%d", i))
		switch i {
		case 5, 6, 7, 8, 9, 10, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 299:
			out = append(out, deep[:i:i])
		}
	}
	return append(out, []string{"D" + long + "a"}, []string{"D" + long + "b"})
}

func board(b string, ts [][]string) []pathCase {
	base := "boards/" + b[:1] + "/" + b + "/"
	cs := []pathCase{
		{"dir", base + ".DIR", func(h string, c *pttbbs.Connector) []res {
			return []res{mk("GetBoardArticlesDirectoryPath")(pttbbs.GetBoardArticlesDirectoryPath(h, b)), mk("GetBoardArticleRecordsPath")(c.GetBoardArticleRecordsPath(b))}
		}},
		{"name", base + ".Name", func(h string, c *pttbbs.Connector) []res {
			return []res{mk("GetBoardNameFilePath")(pttbbs.GetBoardNameFilePath(h, b))}
		}},
	}
	for _, f := range files {
		f := f
		cs = append(cs, pathCase{"file " + f, base + f, func(h string, c *pttbbs.Connector) []res {
			return []res{mk("GetBoardArticleFilePath")(pttbbs.GetBoardArticleFilePath(h, b, f)), mk("Connector.GetBoardArticleFilePath")(c.GetBoardArticleFilePath(b, f))}
		}})
	}
	for _, t := range ts {
		t := t
		tb := "man/" + base
		for _, x := range t {
			tb += x + "/"
		}
		cs = append(cs, pathCase{fmt.Sprintf("treasure dir %v %v", t, t == nil), tb + ".DIR", func(h string, c *pttbbs.Connector) []res {
			return []res{mk("GetBoardTreasuresDirectoryPath")(pttbbs.GetBoardTreasuresDirectoryPath(h, b, t)), mk("GetBoardTreasureRecordsPath")(c.GetBoardTreasureRecordsPath(b, t))}
		}})
		for _, f := range files {
			f := f
			cs = append(cs, pathCase{fmt.Sprintf("treasure file %v %v %s", t, t == nil, f), tb + f, func(h string, c *pttbbs.Connector) []res {
				return []res{mk("GetBoardTreasureFilePath")(pttbbs.GetBoardTreasureFilePath(h, b, t, f)), mk("Connector.GetBoardTreasureFilePath")(c.GetBoardTreasureFilePath(b, t, f))}
			}})
		}
	}
	return cs
}

// same compares ignoring "." components and double slashes.
func same(got, want string) bool { return got == want || filepath.Clean(got) == filepath.Clean(want) }

func body(r *kit.Run) {
	check := func(cs []pathCase, seen map[string]string, who string) error {
		for _, h := range homes {
			c := &pttbbs.Connector{}
			if err := c.Open(h); err != nil {
				return err
			}
			for _, x := range cs {
				for _, g := range x.got(h, c) {
					if g.err != nil {
						return fmt.Errorf("%s of %s %s: %v", g.fn, who, x.key, g.err)
					}
					if w := h + "/" + x.want; !same(g.p, w) {
						return fmt.Errorf("%s of %s %s with home %q is %q, want %q", g.fn, who, x.key, h, g.p, w)
					}
					r.Eval(1)
					if h == homes[0] && seen != nil {
						p := filepath.Clean(g.p)
						id := who + " " + strings.Replace(strings.Replace(x.key, " true", "", 1), " false", "", 1)
						if o, ok := seen[p]; ok && o != id {
							return fmt.Errorf("%s and %s share the path %q", o, id, p)
						}
						seen[p] = id
						r.Distinct(kit.Hash(p))
					}
				}
			}
		}
		return nil
	}
	us := ids("", kit.Pick(r, 4, 6))
	bs := ids("_-.", kit.Pick(r, 3, 5))
	ts := treasures(kit.Pick(r, 2, 3))
	r.Note("user ids", len(us))
	r.Note("board ids", len(bs))
	r.Section("every user id")
	for i := 0; i < len(us); i += 20 {
		i := i
		r.Check(fmt.Sprintf("users from %d", i), func() error {
			seen := map[string]string{}
			for j := i; j < i+20 && j < len(us); j++ {
				if err := check(user(us[j]), seen, "user "+us[j]); err != nil {
					return err
				}
			}
			return nil
		})
	}
	r.Section("every board id")
	for i := 0; i < len(bs); i += 20 {
		i := i
		r.Check(fmt.Sprintf("boards from %d", i), func() error {
			seen := map[string]string{}
			for j := i; j < i+20 && j < len(bs); j++ {
				t := ts
				if j%40 != 0 {
					t = ts[:8]
				}
				if bs[j] == "." || bs[j] == ".." || bs[j][0] == '.' {
					continue
				}
				if err := check(board(bs[j], t), seen, "board "+bs[j]); err != nil {
					return err
				}
			}
			return nil
		})
	}
	r.Section("no two paths are the same")
	r.Check("all users and boards", func() error {
		seen := map[string]string{}
		h := "/bbs"
		c := &pttbbs.Connector{}
		if err := c.Open(h); err != nil {
			return err
		}
		add := func(who string, cs []pathCase) error {
			for _, x := range cs {
				for _, g := range x.got(h, c) {
					id := who + " " + strings.Replace(strings.Replace(x.key, " true", "", 1), " false", "", 1)
					if o, ok := seen[g.p]; ok && o != id {
						return fmt.Errorf("%s and %s share the path %q", o, id, g.p)
					}
					seen[g.p] = id
				}
			}
			return nil
		}
		for _, u := range us {
			if err := add("user "+u, user(u)); err != nil {
				return err
			}
		}
		for i, b := range bs {
			t := ts
			if i > 50 {
				t = ts[:3]
			}
			if err := add("board "+b, board(b, t)); err != nil {
				return err
			}
		}
		r.Note("paths compared", len(seen))
		return nil
	})
	r.Section("the files of the home itself")
	for i, h := range homes {
		i, h := i, h
		r.Check(fmt.Sprintf("home %d", i), func() error {
			c := &pttbbs.Connector{}
			if err := c.Open(h); err != nil {
				return err
			}
			for _, x := range []pathCase{
				{"users", ".PASSWDS", func(h string, c *pttbbs.Connector) []res {
					return []res{mk("GetPasswdsPath")(pttbbs.GetPasswdsPath(h)), mk("GetUserRecordsPath")(c.GetUserRecordsPath())}
				}},
				{"boards", ".BRD", func(h string, c *pttbbs.Connector) []res {
					return []res{mk("GetBoardPath")(pttbbs.GetBoardPath(h)), mk("GetBoardRecordsPath")(c.GetBoardRecordsPath())}
				}},
			} {
				for _, g := range x.got(h, c) {
					if g.err != nil || !same(g.p, h+"/"+x.want) {
						return fmt.Errorf("%s is %q, %v", g.fn, g.p, g.err)
					}
				}
			}
			return nil
		})
	}
	r.Section("data source names")
	for i, d := range []struct{ dsn, home string }{{"/bbs", "/bbs"}, {"file:///bbs", "/bbs"}, {"file:///bbs?a=b", "/bbs"}, {"file://home/bbs?shm=1?x", "home/bbs"}, {"file:///bbs?", "/bbs"}, {"./bbs", "./bbs"}, {"bbs?x", "bbs?x"}, {"/srv/file/bbs", "/srv/file/bbs"}} {
		i, d := i, d
		r.Check(fmt.Sprintf("dsn %d", i), func() error {
			c := &pttbbs.Connector{}
			if err := c.Open(d.dsn); err != nil {
				return err
			}
			p, err := c.GetBoardRecordsPath()
			if err != nil || !same(p, d.home+"/.BRD") {
				return fmt.Errorf("%q has the boards in %q, %v, want %q", d.dsn, p, err, d.home+"/.BRD")
			}
			p, err = c.GetBoardArticleRecordsPath("test")
			if err != nil || !same(p, d.home+"/boards/t/test/.DIR") {
				return fmt.Errorf("%q has the articles in %q, %v", d.dsn, p, err)
			}
			return nil
		})
	}
	r.Section("empty ids")
	for i, h := range homes {
		i, h := i, h
		r.Check(fmt.Sprintf("empty ids in home %d", i), func() error {
			c := &pttbbs.Connector{}
			if err := c.Open(h); err != nil {
				return err
			}
			for _, g := range []res{
				mk("GetUserFavoritePath")(pttbbs.GetUserFavoritePath(h, "")), mk("GetUserDraftPath")(pttbbs.GetUserDraftPath(h, "", "0")), mk("GetUserMailPath")(pttbbs.GetUserMailPath(h, "", "M.1.A.001")),
				mk("GetLoginRecentPath")(pttbbs.GetLoginRecentPath(h, "")), mk("GetBoardArticlesDirectoryPath")(pttbbs.GetBoardArticlesDirectoryPath(h, "")),
				mk("GetBoardArticleFilePath")(pttbbs.GetBoardArticleFilePath(h, "", "M.1.A.001")), mk("GetBoardTreasuresDirectoryPath")(pttbbs.GetBoardTreasuresDirectoryPath(h, "", []string{"D1"})),
				mk("GetBoardTreasureFilePath")(pttbbs.GetBoardTreasureFilePath(h, "", []string{"D1"}, "M.1.A.001")), mk("GetBoardNameFilePath")(pttbbs.GetBoardNameFilePath(h, "")),
				mk("c.GetUserDraftPath")(c.GetUserDraftPath("", "0")), mk("c.GetUserFavoriteRecordsPath")(c.GetUserFavoriteRecordsPath("")), mk("c.GetBoardArticleRecordsPath")(c.GetBoardArticleRecordsPath("")),
				mk("c.GetBoardArticleFilePath")(c.GetBoardArticleFilePath("", "M.1.A.001")), mk("c.GetBoardTreasureRecordsPath")(c.GetBoardTreasureRecordsPath("", nil)), mk("c.GetBoardTreasureFilePath")(c.GetBoardTreasureFilePath("", nil, "M.1.A.001")),
			} {
				if g.err == nil {
					return fmt.Errorf("%s of an empty id is %q", g.fn, g.p)
				}
				r.Eval(1)
			}
			return nil
		})
	}
	r.Section("callers' slices with unusual names")
	odd := []string{"", " ", "/", "D1/", "/D1", "D1//D2", "D1 ", " D1", "D1.", ".D1", "d1", "D1", "中文", "%s", "D1\x00", "\xa4\xa4"}
	for i, a := range odd {
		i, a := i, a
		r.Check(fmt.Sprintf("name %d", i), func() error {
			for _, b := range odd {
				for n := 0; n <= 4; n++ {
					back := []string{a, b, a, b}
					c := &pttbbs.Connector{}
					if err := c.Open("/bbs"); err != nil {
						return err
					}
					for k, f := range []func() (string, error){
						func() (string, error) { return pttbbs.GetBoardTreasuresDirectoryPath("/bbs", "test", back[:n]) },
						func() (string, error) { return c.GetBoardTreasureRecordsPath("test", back[:n]) },
						func() (string, error) { return pttbbs.GetBoardTreasureFilePath("/bbs", "test", back[:n], "M.1.A.001") },
						func() (string, error) { return c.GetBoardTreasureFilePath("test", back[:n], "M.1.A.001") },
					} {
						w := "/bbs/man/boards/t/test/" + strings.Join(append(append([]string{}, back[:n]...), ".DIR"), "/")
						if k >= 2 {
							w = strings.TrimSuffix(w, ".DIR") + "M.1.A.001"
						}
						p, err := f()
						r.Eval(1)
						if back[0] != a || back[1] != b || back[2] != a || back[3] != b {
							return fmt.Errorf("the caller's names %q became %q", []string{a, b, a, b}, back)
						}
						if err == nil && !same(p, w) {
							return fmt.Errorf("the path of %q is %q, want %q", back[:n], p, w)
						}
					}
				}
			}
			return nil
		})
	}
	r.Section("callers' slices")
	for n := 0; n <= 6; n++ {
		for spare := 0; spare <= 4; spare++ {
			n, spare := n, spare
			r.Check(fmt.Sprintf("%d parts, %d spare", n, spare), func() error {
				back := make([]string, n+spare)
				for i := range back {
					back[i] = fmt.Sprintf("D%d", i)
				}
				keep := append([]string{}, back...)
				c := &pttbbs.Connector{}
				if err := c.Open("/bbs"); err != nil {
					return err
				}
				arg := back[:n]
				want := "/bbs/man/boards/t/test/"
				for _, x := range arg {
					want += x + "/"
				}
				for i, f := range []func() (string, error){
					func() (string, error) { return pttbbs.GetBoardTreasuresDirectoryPath("/bbs", "test", arg) },
					func() (string, error) { return c.GetBoardTreasureRecordsPath("test", arg) },
					func() (string, error) { return pttbbs.GetBoardTreasureFilePath("/bbs", "test", arg, "M.1.A.001") },
					func() (string, error) { return c.GetBoardTreasureFilePath("test", arg, "M.1.A.001") },
				} {
					w := want + ".DIR"
					if i >= 2 {
						w = want + "M.1.A.001"
					}
					for k := 0; k < 2; k++ {
						if p, err := f(); err != nil || p != w {
							return fmt.Errorf("path is %q, %v, want %q", p, err, w)
						}
						for j := range back {
							if back[j] != keep[j] {
								return fmt.Errorf("element %d of the caller's array (length %d of %d) became %q", j, n, n+spare, back[j])
							}
						}
						r.Eval(1)
					}
				}
				return nil
			})
		}
	}
	r.Section("the database reads the files of the layout")
	small := []string{"a", "A", "ab", "test", "Test", "test1", "T1", "abcdefghijkl", "0b", "z9"}
	for i, b := range small {
		i, b := i, b
		r.Check("read "+b, func() error {
			home := r.Dir("h")
			put := func(p, c string) error {
				p = filepath.Join(home, p)
				if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
					return err
				}
				return os.WriteFile(p, []byte(c), 0644)
			}
			art := func(s string, k int) string {
				a := pb.N(k)
				a.Owner = "o" + s
				if len(a.Owner) > 12 {
					a.Owner = a.Owner[:12]
				}
				return string(a.Bytes())
			}
			for j, x := range small {
				d := "boards/" + x[:1] + "/" + x + "/"
				for p, c := range map[string]string{d + ".DIR": art(x, j), d + "M.1.A.001": "article of " + x, "man/" + d + ".DIR": art(x, j+100), "man/" + d + "D1/.DIR": art(x, j+200),
					"man/" + d + "D1/D2/.DIR": art(x, j+300), "man/" + d + "M.1.A.001": "treasure of " + x, "man/" + d + "D1/M.1.A.001": "treasure 1 of " + x, "home/" + x[:1] + "/" + x + "/buf.3": "draft of " + x} {
					if err := put(p, c); err != nil {
						return err
					}
				}
			}
			db, _, err := pb.Open(home)
			if err != nil {
				return err
			}
			list := func(k int, parts ...string) error {
				got, err := db.ReadBoardTreasureRecordsFile(b, parts)
				if err != nil {
					return err
				}
				if len(got) != 1 || got[0].Filename() != pb.N(i+k).Filename {
					return fmt.Errorf("treasures %v of %s are not listed", parts, b)
				}
				return nil
			}
			for k, parts := range [][]string{nil, {"D1"}, {"D1", "D2"}} {
				if err := list(100*(k+1), parts...); err != nil {
					return err
				}
			}
			got, err := db.ReadBoardArticleRecordsFile(b)
			if err != nil || len(got) != 1 || got[0].Filename() != pb.N(i).Filename {
				return fmt.Errorf("articles of %s are not listed: %v", b, err)
			}
			for _, x := range []struct {
				want string
				f    func() ([]byte, error)
			}{
				{"article of " + b, func() ([]byte, error) { return db.ReadBoardArticleFile(b, "M.1.A.001") }},
				{"treasure of " + b, func() ([]byte, error) { return db.ReadBoardTreasureFile(b, nil, "M.1.A.001") }},
				{"treasure 1 of " + b, func() ([]byte, error) { return db.ReadBoardTreasureFile(b, []string{"D1"}, "M.1.A.001") }},
				{"draft of " + b, func() ([]byte, error) {
					d, err := db.GetUserDrafts(b, "3")
					if err != nil {
						return nil, err
					}
					return d.Raw(), nil
				}},
			} {
				if g, err := x.f(); err != nil || string(g) != x.want {
					return fmt.Errorf("read %q, %v, want %q", g, err, x.want)
				}
			}
			return nil
		})
	}
}
