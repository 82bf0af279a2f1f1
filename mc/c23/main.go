// C23: what bbstool adds is what bbstool shows.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"golang.org/x/text/encoding/traditionalchinese"

	"verifmc/kit"
	"verifmc/pb"
)

func main() {
	kit.Main(kit.Config{
		ID: "C23", Level: kit.Exploration,
		Rule:        "every sequence up to the length in the notes of runs of the tool (built from the tree) which add boards and articles or fail, on homes with and without boards before, with all listings and the files compared with a model after each run; all Big5 characters in titles and contents, all content sizes of the list, all subsets of the arguments of each command; distinct by sequence or text",
		Assumptions: []string{"texts have characters of Big5 only and fit their fields", "the directory of a board exists before articles are added to it", "arguments which do not begin with -- are values"},
		CaseTimeout: 120 * time.Second,
		Body:        body,
	})
}

// run runs the tool; it never may crash or take long.
func run(args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_SCRATCH"), "out", "bbstool"), args...)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	if ctx.Err() != nil {
		return "", fmt.Errorf("%.200q does not end", args)
	}
	if s := errs.String(); strings.Contains(s, "goroutine ") || strings.Contains(s, "panic:") {
		return "", fmt.Errorf("%.200q crashes: %.600s", args, s)
	}
	if err != nil && strings.Contains(err.Error(), "signal") {
		return "", fmt.Errorf("%.200q: %v", args, err)
	}
	return out.String(), nil
}

type article struct{ file, owner, date, title, content string }

type board struct {
	id, title string
	arts      []article
}

type home struct {
	dir    string
	boards []board
	users  []string
	extra  map[string][]article // articles of boards whose record may be missing
	ask    []string             // the users whose articles and comments are listed, tester and other if empty
}

func big5(s string) []byte { return pb.Big5(s) }

// setup makes the home of h.
func (h *home) setup() error {
	var brd []byte
	for i, b := range h.boards {
		rec := pb.BoardBytes(i)
		for j := 0; j < 62; j++ {
			rec[j] = 0
		}
		copy(rec, b.id)
		copy(rec[13:], big5(b.title))
		brd = append(brd, rec...)
	}
	for _, d := range []string{"old", "first", "second", "Empty"} {
		if err := pb.MakeBoard(h.dir, d); err != nil {
			return err
		}
	}
	if len(brd) > 0 {
		if err := os.WriteFile(filepath.Join(h.dir, ".BRD"), brd, 0644); err != nil {
			return err
		}
	}
	var pw []byte
	for _, u := range h.users {
		rec := make([]byte, 512)
		binary.LittleEndian.PutUint32(rec, 4194)
		copy(rec[4:], u)
		pw = append(pw, rec...)
	}
	if err := os.WriteFile(filepath.Join(h.dir, ".PASSWDS"), pw, 0644); err != nil {
		return err
	}
	for id, as := range h.extra {
		for _, a := range as {
			rec := make([]byte, 128)
			copy(rec, a.file)
			copy(rec[34:], a.owner)
			copy(rec[48:], a.date)
			copy(rec[54:], big5(a.title))
			f, err := os.OpenFile(pb.DirPath(h.dir, id), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
			if err != nil {
				return err
			}
			f.Write(rec)
			f.Close()
			if err := os.WriteFile(pb.ArticlePath(h.dir, id, a.file), big5(a.content), 0644); err != nil {
				return err
			}
		}
	}
	return nil
}

// lines are what a listing prints after the three lines every command starts with.
func lines(out string) []string {
	l := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	for i, s := range l {
		if strings.HasPrefix(s, "args: ") {
			return l[i+1:]
		}
	}
	return l
}

func pick(out, prefix string) (found []string) {
	for _, l := range lines(out) {
		if strings.HasPrefix(l, prefix) {
			found = append(found, strings.TrimPrefix(l, prefix))
		}
	}
	return
}

func equal(what string, got, want []string) error {
	for i, g := range got {
		if i >= len(want) {
			return fmt.Errorf("%s: %d are listed, want %d; the first surplus one is %q", what, len(got), len(want), g)
		}
		if g != want[i] {
			return fmt.Errorf("%s: number %d is %q, want %q", what, i, g, want[i])
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("%s: %d are listed, want %d; the first missing one is %q", what, len(got), len(want), want[len(got)])
	}
	return nil
}

var artLine = regexp.MustCompile(`^(M\.\S+)\s+(\S+)\s+(\d+/\d+)\s(.*)$`)

// verify runs all listings.
func (h *home) verify(full bool) error {
	b := "--bbshome=" + h.dir
	out, err := run(b, "show_board_list")
	if err != nil {
		return err
	}
	var want []string
	for _, x := range h.boards {
		want = append(want, x.title)
	}
	if err := equal("boards", pick(out, "title: "), want); err != nil {
		return err
	}
	for _, id := range []string{"old", "first", "second", "Empty"} {
		out, err := run(b, "show_board_article_list", "--board", id)
		if err != nil {
			return err
		}
		var got, want []string
		for _, l := range lines(out) {
			m := artLine.FindStringSubmatch(l)
			if m == nil {
				return fmt.Errorf("articles of %s: a line %.200q", id, l)
			}
			got = append(got, strings.Join([]string{m[1], m[2], strings.TrimSpace(m[3]), m[4]}, "|"))
		}
		for _, a := range h.extra[id] {
			want = append(want, strings.Join([]string{a.file, a.owner, strings.TrimSpace(a.date), a.title}, "|"))
		}
		if err := equal("articles of "+id, got, want); err != nil {
			return err
		}
		if !full {
			continue
		}
		for _, a := range h.extra[id] {
			if err := h.article(id, a); err != nil {
				return err
			}
		}
	}
	if !full {
		return nil
	}
	out, err = run(b, "show_user_list")
	if err != nil {
		return err
	}
	want = nil
	for _, u := range h.users {
		if u != "" {
			want = append(want, u)
		}
	}
	if err := equal("users", pick(out, "user id: "), want); err != nil {
		return err
	}
	asked := []string{"tester", "other"}
	if len(h.ask) > 0 {
		asked = h.ask
	}
	for _, u := range asked {
		out, err := run(b, "show_user_article_list", "--user_id", u)
		if err != nil {
			return err
		}
		want = nil
		var wantC []string
		for _, x := range h.boards {
			for _, a := range h.extra[x.id] {
				if a.owner == u {
					want = append(want, a.title)
				}
				floor := 0
				for _, l := range strings.Split(a.content, "\n") {
					if m := commentLine.FindStringSubmatch(l); m != nil {
						floor++
						if m[1] == u {
							wantC = append(wantC, fmt.Sprintf("order: %d, owner: %s, time: %s", floor, u, m[2]))
						}
					}
				}
			}
		}
		if err := equal("articles of user "+u, pick(out, "titlex: "), want); err != nil {
			return err
		}
		out, err = run(b, "show_user_comment_list", "--user_id", u)
		if err != nil {
			return err
		}
		if err := equal("comments of user "+u, pick(out, "user comment record: "), wantC); err != nil {
			return err
		}
	}
	return nil
}

var commentLine = regexp.MustCompile(`^推 (\w+): .* (\d\d/\d\d \d\d:\d\d)$`)

// article checks what is shown and stored of one article.
func (h *home) article(id string, a article) error {
	out, err := run("--bbshome="+h.dir, "show_board_article", "--board", id, "--filename", a.file)
	if err != nil {
		return err
	}
	i := strings.Index(out, "filecontent: \n")
	if i < 0 {
		return fmt.Errorf("%s/%s is not shown: %.300q", id, a.file, out)
	}
	if g := out[i+len("filecontent: \n"):]; g != a.content+"\n" {
		return fmt.Errorf("%s/%s shows %s", id, a.file, textDiff(g, a.content+"\n"))
	}
	if d := sameBig5(pb.Read(pb.ArticlePath(h.dir, id, a.file)), a.content); d != "" {
		return fmt.Errorf("%s/%s is not stored as Big5: %s", id, a.file, d)
	}
	return nil
}

// sameBig5 compares stored text with what it has to be; a character which is twice in the
// table may have either code (C09 says which).
func sameBig5(got []byte, want string) string {
	w := big5(want)
	if bytes.Equal(got, w) {
		return ""
	}
	if len(got) == len(w) {
		if s, err := traditionalchinese.Big5.NewDecoder().Bytes(got); err == nil && string(s) == want {
			return ""
		}
	}
	return pb.Diff(got, w)
}

func textDiff(g, w string) string {
	a, b := []rune(g), []rune(w)
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("%d characters, want %d; at %d %.20q, want %.20q", len(a), len(b), i, string(a[i:]), string(b[i:]))
}

var newName = regexp.MustCompile(`(?m)^new filename: (M\.\d+\.A\.[0-9A-F]{3})$`)

// add adds an article through the tool.
func (h *home) add(id string, a article, file bool) error {
	args := []string{"--bbshome=" + h.dir, "add_board_article", "--board", id, "--owner", a.owner, "--date", a.date, "--title", a.title}
	if file {
		p := filepath.Join(filepath.Dir(h.dir), "content")
		if err := os.WriteFile(p, []byte(a.content), 0644); err != nil {
			return err
		}
		args = append(args, "--content_file", p)
	} else {
		args = append(args, "--content", a.content)
	}
	out, err := run(args...)
	if err != nil {
		return err
	}
	m := newName.FindStringSubmatch(out)
	if m == nil {
		return fmt.Errorf("adding an article %.200q to %s prints %.500q", a.title, id, out)
	}
	a.file = m[1]
	for _, o := range h.extra[id] {
		if o.file == a.file {
			return fmt.Errorf("file name %s is given twice", a.file)
		}
	}
	if h.extra == nil {
		h.extra = map[string][]article{}
	}
	h.extra[id] = append(h.extra[id], a)
	return nil
}

func (h *home) addBoard(id, title string) error {
	if _, err := run("--bbshome="+h.dir, "add_board", "--board_id", id, "--title", title); err != nil {
		return err
	}
	h.boards = append(h.boards, board{id: id, title: title})
	b := pb.Read(filepath.Join(h.dir, ".BRD"))
	if len(b) != 256*len(h.boards) {
		return fmt.Errorf("adding board %s: .BRD has %d bytes, want %d", id, len(b), 256*len(h.boards))
	}
	rec := b[len(b)-256:]
	want := make([]byte, 13)
	copy(want, id)
	t := len(big5(title))
	if !bytes.Equal(rec[:13], want) || sameBig5(rec[13:13+t], title) != "" || len(bytes.Trim(rec[13+t:62], "\x00")) > 0 {
		return fmt.Errorf("adding board %s: stored as %q", id, rec[:62])
	}
	return nil
}

var useless = [][]string{
	{"add_board"}, {"add_board", "--board_id", "x"}, {"add_board", "--title", "x"}, {"add_board", "--board_id"}, {"add_board", "--board_id", "x", "--title"},
	{"add_board_article"}, {"add_board_article", "--board", "first"}, {"add_board_article", "--board", "first", "--owner", "o", "--date", "1/01"},
	{"add_board_article", "--board", "first", "--owner", "o", "--date", "1/01", "--title", "t"},
	{"add_board_article", "--board", "first", "--owner", "o", "--date", "1/01", "--title", "t", "--content_file", "/nonexistent/file"},
	{"add_board_article", "--board", "nosuch", "--owner", "o", "--date", "1/01", "--title", "t", "--content", "c"},
	{"add_board_article", "--board", "", "--owner", "o", "--date", "1/01", "--title", "t", "--content", "c"},
	{"show_board_article_list"}, {"show_board_article"}, {"show_board_article", "--board", "first"}, {"show_board_article", "--filename", "M.1.A.001"},
	{"show_board_article", "--board", "first", "--filename", "M.1.A.001"}, {"show_user_article_list"}, {"show_user_comment_list"},
	{"show_user_article_list", "--user_id"}, {"show_user_comment_list", "--board", "x"}, {"nothing"}, {""}, {},
}

// idle runs a command which may change nothing.
func (h *home) idle(args []string) error {
	before := pb.Tree(h.dir)
	out, err := run(append([]string{"--bbshome=" + h.dir}, args...)...)
	if err != nil {
		return err
	}
	if err := pb.TreeDiff(before, pb.Tree(h.dir)); err != nil {
		return fmt.Errorf("%q: %v", args, err)
	}
	if len(strings.TrimSpace(strings.Join(lines(out), ""))) == 0 {
		return fmt.Errorf("%q prints no message", args)
	}
	if strings.Contains(out, "new filename") {
		return fmt.Errorf("%q pretends to have added an article", args)
	}
	return nil
}

func newHome(r *kit.Run, old bool) *home {
	h := &home{dir: filepath.Join(r.Dir("t"), "home with 空白"), users: []string{"SYSOP", "tester", "", "other"}}
	if err := os.MkdirAll(h.dir, 0755); err != nil {
		panic(err)
	}
	if old {
		h.boards = []board{{id: "old", title: "舊看板 ◎ 測試"}}
		h.extra = map[string][]article{"old": {{"M.1.A.001", "tester", " 5/15", "舊文章", "內文\n推 other: 好 05/15 01:06\n推 tester: 謝謝 05/15 01:07"}}}
	}
	if err := h.setup(); err != nil {
		panic(err)
	}
	return h
}

func body(r *kit.Run) {
	r.Section("sequences")
	depth := kit.Pick(r, 3, 4)
	r.Note("runs per sequence", depth)
	ops := "12abcdfuv"
	step := func(h *home, k byte, n int) error {
		switch k {
		case '1':
			return h.addBoard("first", fmt.Sprintf("嘰哩 ◎第一個 %d", n))
		case '2':
			return h.addBoard("second", "plain title")
		case 'a':
			return h.add("first", article{owner: "tester", date: " 5/15", title: fmt.Sprintf("[問題] 第 %d 篇", n), content: fmt.Sprintf("第 %d 篇\n內文\n", n)}, false)
		case 'b':
			return h.add("second", article{owner: "other", date: "12/31", title: "Re: [問題] 許功蓋", content: "許功蓋\n推 tester: 推 01/02 03:04\n推 other: x: y 11/12 13:14\n"}, true)
		case 'c':
			return h.add("first", article{owner: "other", date: "1/01", title: "empty", content: ""}, false)
		case 'd':
			return h.add("old", article{owner: "tester", date: "10/10", title: "--title", content: "--content\n--\n"}, false)
		case 'f':
			return h.add("second", article{owner: "tester", date: " 1/01", title: "same", content: strings.Repeat("長\n", 3000)}, true)
		case 'u':
			return h.idle(useless[n*7%len(useless)])
		case 'v':
			return h.idle(useless[(n*5+8)%len(useless)])
		}
		return nil
	}
	for _, old := range []bool{false, true} {
		for i := range ops {
			for j := range ops {
				old, pre := old, string([]byte{ops[i], ops[j]})
				r.Check(fmt.Sprintf("sequence %s, boards before %v", pre, old), func() error {
					var rec func(s string) error
					rec = func(s string) error {
						if len(s) < depth {
							for _, k := range ops {
								if err := rec(s + string(k)); err != nil {
									return err
								}
							}
							return nil
						}
						h := newHome(r, old)
						for n := range s {
							if err := step(h, s[n], n); err != nil {
								return fmt.Errorf("sequence %s, run %d: %v", s, n, err)
							}
							if n < len(s)-2 {
								continue // seen in shorter ones
							}
							if err := h.verify(n == len(s)-1); err != nil {
								return fmt.Errorf("sequence %s, after run %d: %v", s, n, err)
							}
						}
						r.Eval(1)
						r.Trans(len(s))
						r.Distinct(kit.Hash(s, fmt.Sprint(old)))
						return nil
					}
					return rec(pre)
				})
			}
		}
	}

	r.Section("many articles and boards")
	for _, n := range []int{10, 40, kit.Pick(r, 60, 300)} {
		n := n
		r.Check(fmt.Sprintf("%d of each", n), func() error {
			h := newHome(r, true)
			for i := 0; i < n; i++ {
				if err := step(h, ops[i%7], i); err != nil {
					return err
				}
			}
			return h.verify(true)
		})
	}

	r.Section("all Big5 characters")
	var chars []string
	dec := traditionalchinese.Big5.NewDecoder()
	seen := map[string]bool{}
	for hi := 0x81; hi < 0xff; hi++ {
		for lo := 0x40; lo < 0xff; lo++ {
			if lo == 0x7f {
				lo = 0xa1
			}
			s, err := dec.String(string([]byte{byte(hi), byte(lo)}))
			if err != nil || strings.Contains(s, "\ufffd") || len([]rune(s)) != 1 || seen[s] {
				continue
			}
			seen[s] = true
			chars = append(chars, s)
		}
	}
	r.Note("characters", len(chars))
	title := func(from, n int, sep string) string {
		var b strings.Builder
		for i := from; i < from+n && i < len(chars); i++ {
			b.WriteString(chars[i])
			b.WriteString(sep)
		}
		return strings.TrimSuffix(b.String(), sep)
	}
	per := 20 * 30
	for from := 0; from < len(chars); from += per {
		from := from
		r.Check(fmt.Sprintf("characters from %d", from), func() error {
			h := newHome(r, false)
			for i := from; i < from+per && i < len(chars); i += 30 {
				sep := []string{"", "\n", "a", " ", "\\"}[i/30%5]
				r.Eval(2)
				if err := h.add("first", article{owner: "tester", date: "1/01", title: title(i, 30, ""), content: title(i, 30, sep)}, i/30%2 == 0); err != nil {
					return err
				}
				if i/30%4 == 0 {
					if err := h.addBoard("second", title(i, 22, "")); err != nil {
						return err
					}
				}
			}
			return h.verify(true)
		})
	}
	r.Check("all characters at once", func() error {
		h := newHome(r, false)
		if err := h.add("first", article{owner: "tester", date: "1/01", title: "all", content: title(0, len(chars), "")}, false); err != nil {
			return err
		}
		if err := h.add("first", article{owner: "tester", date: "1/01", title: "all", content: title(0, len(chars), "\n")}, true); err != nil {
			return err
		}
		return h.verify(true)
	})

	r.Section("content sizes")
	for _, n := range []int{0, 1, 2, 255, 256, 257, 511, 512, 513, 4095, 4096, 4097, 32767, 65535, 65536, 100000, 1 << 20, 5 << 20} {
		n := n
		r.Check(fmt.Sprintf("content of %d", n), func() error {
			h := newHome(r, false)
			if err := h.add("first", article{owner: "tester", date: "1/01", title: "ascii", content: strings.Repeat("x", n)}, true); err != nil {
				return err
			}
			if n <= 100000 {
				if err := h.add("first", article{owner: "tester", date: "1/01", title: "arg", content: strings.Repeat("y", n)}, false); err != nil {
					return err
				}
			}
			if err := h.add("first", article{owner: "tester", date: "1/01", title: "odd", content: "a" + strings.Repeat("中", n/2)}, true); err != nil {
				return err
			}
			r.Eval(3)
			return h.verify(true)
		})
	}

	r.Section("lengths of titles and owners")
	for n := 0; n <= 64; n++ {
		n := n
		r.Check(fmt.Sprintf("title of %d", n), func() error {
			h := newHome(r, false)
			t := strings.Repeat("t", n)
			if n%2 == 0 {
				t = strings.Repeat("題", n/2)
			}
			o := "ownerownerownr"[:n%12+1]
			if err := h.add("first", article{owner: o, date: []string{"1/01", " 1/01", "12/31"}[n%3], title: t, content: t}, false); err != nil {
				return err
			}
			if n <= 48 {
				if err := h.addBoard("ABCDEFGHIJKL"[:n%12+1], t); err != nil {
					return err
				}
			}
			r.Eval(1)
			return h.verify(true)
		})
	}

	r.Section("unusual characters")
	for c := 0; c < 0x80; c++ {
		c := string(rune(c))
		r.Check(fmt.Sprintf("character %q", c), func() error {
			h := newHome(r, false)
			printable := c > " " && c < "\x7f"
			for i, s := range []string{c, "a" + c, c + "a", "a" + c + "b", "中" + c, c + "中", c + c, "a\n" + c + "\n", "文\n" + c} {
				a := article{owner: "tester", date: "1/01", title: "t", content: s}
				if printable || c == " " {
					a.title = strings.ReplaceAll(s, "\n", c)
				}
				if printable && i < 4 {
					a.owner = s
				}
				if err := h.add("first", a, i%2 == 0 || c == "\x00"); err != nil {
					return err
				}
				if c != "\x00" && i < 4 {
					if err := h.add("second", a, i%2 == 1); err != nil {
						return err
					}
				}
				r.Eval(1)
			}
			if printable || c == " " {
				if err := h.addBoard("first", "a"+c+"b"); err != nil {
					return err
				}
				if err := h.addBoard("second", c+"ab"+c); err != nil {
					return err
				}
				if err := h.addBoard("Empty", "看"+c); err != nil {
					return err
				}
			}
			return h.verify(true)
		})
	}
	r.Check("records made by others", func() error {
		for _, owner := range []string{"", "-", ".", "guest", "tester", "*", "#", "guest.", "a-very-long-o"} {
			for _, title := range []string{"", " ", "-", "(本文已被刪除) [tester]", "x"} {
				for _, date := range []string{" 1/01", "12/31"} {
					if owner == "" { // what is between the columns is not fixed
						continue
					}
					h := &home{dir: filepath.Join(r.Dir("t"), "home"), users: []string{"a"}}
					if err := os.MkdirAll(h.dir, 0755); err != nil {
						return err
					}
					a := article{"M.7.A.ABC", owner, date, title, "x"}
					b := article{"M.8.A.ABC", "tester", " 1/02", "behind", "y"}
					h.extra = map[string][]article{"first": {a, b}, "old": {b, a}}
					if err := h.setup(); err != nil {
						return err
					}
					r.Eval(1)
					if err := h.verify(true); err != nil {
						return err
					}
				}
			}
		}
		return nil
	})
	r.Section("records which are equal or nearly")
	// every sequence of three of these users, boards and articles
	uids := []string{"tester", "Tester", "TESTER", "teste", "tester1", "", "other", "12345", "guest"}
	titles := []string{"題目 ◎ 一", "題目 ◎ 一", "題目 ◎ 二", "", "題目", "(本看板已被刪除)"}
	brds := []string{"first", "second", "old", "Empty"}
	arts := []article{
		{"M.1.A.001", "tester", " 5/15", "題目", "內文\n推 other: 好 05/15 01:06\n推 other: 好 05/15 01:06\n推 tester: 好 05/15 01:06"},
		{"M.1.A.002", "tester", " 5/15", "題目", "內文\n推 other: 好 05/15 01:06\n推 other: 好 05/15 01:06\n推 tester: 好 05/15 01:06"},
		{"M.2.A.001", "tester", " 5/15", "題目", "內文\n推 other: 好 05/15 01:07\n推 other: 好 05/15 01:06"},
		{"M.1.A.003", "other", " 5/15", "題目", "內文"},
		{"M.1.A.004", "Tester", " 5/15", "題目", "內文"},
		{"M.1.A.005", "tester", "12/31", "Re: 題目", "內文"},
		{"M.1.A.006", "tester", " 5/15", "(本文已被刪除) [tester]", ""},
		{"M.1.A.007", "teste", " 5/15", "題目", "推 teste: 好 05/15 01:06\n推 tester: 好 05/15 01:06\n推 tester1: 好 05/15 01:06\n推 Tester: 好 05/15 01:06"},
	}
	for i := range arts {
		for j := range arts {
			i, j := i, j
			r.Check(fmt.Sprintf("articles starting with %d and %d", i, j), func() error {
				for k := range arts {
					h := &home{dir: filepath.Join(r.Dir("t"), "home"), ask: []string{"tester", "other", "teste"}}
					if err := os.MkdirAll(h.dir, 0755); err != nil {
						return err
					}
					n := i*64 + j*8 + k
					for m := 0; m < 4; m++ {
						h.boards = append(h.boards, board{id: brds[(m+n)%4], title: titles[(n/(1+m*5)+m)%len(titles)]})
						h.users = append(h.users, uids[(n/(1+m*m*m)+m*n)%len(uids)])
					}
					h.extra = map[string][]article{}
					for _, b := range brds[:3] {
						seen := map[string]bool{}
						for _, x := range []int{i, j, k} {
							a := arts[x]
							if seen[a.file] { // the same record again, as another file
								a.file = fmt.Sprintf("M.9.A.%03d", len(seen))
							}
							seen[a.file] = true
							h.extra[b] = append(h.extra[b], a)
						}
					}
					if err := h.setup(); err != nil {
						return err
					}
					if err := h.verify(true); err != nil {
						return fmt.Errorf("articles %d, %d, %d, boards %q, users %q: %v", i, j, k, h.boards, h.users, err)
					}
				}
				r.Eval(len(arts) - 1)
				return nil
			})
		}
	}
	for i := range uids {
		i := i
		r.Check(fmt.Sprintf("users starting with %d", i), func() error {
			n := 0
			for j := range uids {
				for k := range uids {
					h := &home{dir: filepath.Join(r.Dir("t"), "home"), users: []string{uids[i], uids[j], uids[k]}, boards: []board{{id: "first", title: titles[i%6]}, {id: "second", title: titles[j%6]}, {id: "old", title: titles[k%6]}}}
					if uids[i] == uids[j] || uids[j] == uids[k] || uids[i] == uids[k] { // two users of one name: not claimed
						if uids[i] != "" || uids[j] != "" && uids[j] == uids[k] {
							continue
						}
					}
					if err := os.MkdirAll(h.dir, 0755); err != nil {
						return err
					}
					if err := h.setup(); err != nil {
						return err
					}
					n++
					if err := h.verify(true); err != nil {
						return fmt.Errorf("users %q: %v", h.users, err)
					}
				}
			}
			r.Eval(n - 1)
			return nil
		})
	}
	r.Section("useless commands")
	for i, u := range useless {
		i, u := i, u
		r.Check(fmt.Sprintf("useless %d", i), func() error {
			for _, old := range []bool{false, true} {
				if err := newHome(r, old).idle(u); err != nil {
					return err
				}
			}
			return nil
		})
	}
	r.Section("homes which cannot be used")
	cmds := [][]string{{"show_board_list"}, {"show_user_list"}, {"add_board", "--board_id", "x", "--title", "y"}, {"show_user_article_list", "--user_id", "tester"}, {"show_user_comment_list", "--user_id", "tester"}, {"show_board_article_list", "--board", "first"}, {"add_board_article", "--board", "first", "--owner", "o", "--date", "1/01", "--title", "t", "--content", "c"}, {"show_board_article", "--board", "first", "--filename", "M.1.A.001"}}
	for i, c := range cmds {
		i, c := i, c
		r.Check(fmt.Sprintf("unusable home %d", i), func() error {
			d := r.Dir("bad")
			os.WriteFile(filepath.Join(d, "file"), []byte("x"), 0644)
			for _, sub := range []string{"none", "file", "none/deeper", "file/deeper"} {
				h := &home{dir: filepath.Join(d, sub)}
				before := pb.Tree(d)
				out, err := run(append([]string{"--bbshome=" + h.dir}, c...)...)
				if err != nil {
					return err
				}
				if strings.TrimSpace(strings.Join(lines(out), "")) == "" {
					return fmt.Errorf("%q with home %s prints no message", c, sub)
				}
				if err := pb.TreeDiff(before, pb.Tree(d)); err != nil {
					return fmt.Errorf("%q with home %s: %v", c, sub, err)
				}
			}
			// another driver than there is
			h := newHome(r, true)
			before := pb.Tree(h.dir)
			out, err := run(append([]string{"--bbshome=" + h.dir, "--driver=nosuch"}, c...)...)
			if err != nil {
				return err
			}
			if strings.TrimSpace(strings.Join(lines(out), "")) == "" || strings.Contains(out, "new filename") {
				return fmt.Errorf("%q with an unknown driver prints %.200q", c, out)
			}
			return pb.TreeDiff(before, pb.Tree(h.dir))
		})
	}
	r.Section("homes with something broken")
	addArt := []string{"add_board_article", "--board", "old", "--owner", "o", "--date", "1/01", "--title", "t", "--content", "c"}
	ofUser := [][]string{{"show_user_article_list", "--user_id", "tester"}, {"show_user_comment_list", "--user_id", "tester"}}
	for _, c := range []struct {
		what string
		path func(h *home) string
		cmds [][]string
	}{
		{"the board list", func(h *home) string { return filepath.Join(h.dir, ".BRD") }, append([][]string{{"show_board_list"}, {"add_board", "--board_id", "x", "--title", "y"}}, ofUser...)},
		{"the user list", func(h *home) string { return filepath.Join(h.dir, ".PASSWDS") }, [][]string{{"show_user_list"}}},
		{"the index", func(h *home) string { return pb.DirPath(h.dir, "old") }, append([][]string{{"show_board_article_list", "--board", "old"}, addArt}, ofUser...)},
		{"the board", func(h *home) string { return filepath.Dir(pb.DirPath(h.dir, "old")) }, append([][]string{{"show_board_article_list", "--board", "old"}, addArt, {"show_board_article", "--board", "old", "--filename", "M.1.A.001"}}, ofUser...)},
		{"the article", func(h *home) string { return pb.ArticlePath(h.dir, "old", "M.1.A.001") }, [][]string{{"show_board_article", "--board", "old", "--filename", "M.1.A.001"}, ofUser[1]}},
	} {
		for _, cmd := range c.cmds {
			for _, how := range []string{"a directory", "a file", "a dangling link", "a loop"} {
				c, cmd, how := c, cmd, how
				switch {
				case how == "a directory" && c.what == "the board", how == "a file" && c.what != "the board":
					continue
				case how == "a dangling link" && !strings.HasPrefix(cmd[0], "add"):
					continue // that is a file which does not exist
				}
				r.Check(fmt.Sprintf("%s is %s: %q", c.what, how, cmd[0]), func() error {
					h := newHome(r, true)
					good, err := run(append([]string{"--bbshome=" + h.dir}, cmd...)...)
					if err != nil {
						return err
					}
					h = newHome(r, true)
					p := c.path(h)
					os.RemoveAll(p)
					switch how {
					case "a directory":
						err = os.Mkdir(p, 0755)
					case "a file":
						err = os.WriteFile(p, []byte("x"), 0644)
					case "a dangling link":
						err = os.Symlink(filepath.Join(h.dir, "none", "deeper"), p)
					case "a loop":
						err = os.Symlink(filepath.Base(p), p)
					}
					if err != nil {
						panic(err)
					}
					before := pb.Tree(h.dir)
					out, err := run(append([]string{"--bbshome=" + h.dir}, cmd...)...)
					if err != nil {
						return err
					}
					g, w := strings.Join(lines(out), "\n"), strings.Join(lines(good), "\n")
					if strings.Contains(g, "new filename") || cmd[0] != "show_user_comment_list" && (g == w || strings.TrimSpace(g) == "") {
						return fmt.Errorf("it prints %q, and %q when nothing is broken", g, w)
					}
					after := pb.Tree(h.dir)
					for f, b := range before {
						if after[f] != b {
							return fmt.Errorf("%s changes", f)
						}
					}
					return nil
				})
			}
		}
	}
	r.Section("operations which fail")
	faulty := filepath.Join(os.Getenv("VERIF_SCRATCH"), "out", "c23fault")
	if _, err := os.Stat(faulty); err != nil {
		r.Note("operations which fail", "the tool could not be built with them")
		faulty = ""
	}
	withFile := append(append([]string{}, addArt[:9]...), "--content_file", "FILE")
	for i, c := range [][]string{{"show_board_list"}, {"show_user_list"}, {"show_user_article_list", "--user_id", "tester"}, {"show_user_comment_list", "--user_id", "tester"}, {"show_board_article_list", "--board", "old"}, {"show_board_article", "--board", "old", "--filename", "M.1.A.001"}, {"add_board", "--board_id", "x", "--title", "y"}, addArt, withFile} {
		if faulty == "" {
			continue
		}
		i, c := i, c
		r.Check(fmt.Sprintf("operations of command %d which fail: %q", i, c[0]), func() error {
			try := func(fault string) (h *home, out string, code int, err error) {
				h = newHome(r, true)
				args := []string{"--bbshome=" + h.dir}
				for _, a := range c {
					if a == "FILE" {
						a = filepath.Join(filepath.Dir(h.dir), "content")
						if err := os.WriteFile(a, []byte("c"), 0644); err != nil {
							return nil, "", 0, err
						}
					}
					args = append(args, a)
				}
				ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
				defer cancel()
				cmd := exec.CommandContext(ctx, faulty, args...)
				cmd.Env = append(os.Environ(), "C23_FAULT="+fault)
				var o, e bytes.Buffer
				cmd.Stdout, cmd.Stderr = &o, &e
				cmd.Run()
				story := ""
				for _, l := range strings.Split(e.String(), "\n") {
					if strings.HasPrefix(l, "FAULT ") {
						story = l
					}
				}
				if ctx.Err() != nil {
					return h, "", 0, fmt.Errorf("%s: it does not end", story)
				}
				if s := e.String(); strings.Contains(s, "goroutine ") || strings.Contains(s, "panic:") {
					return h, "", 0, fmt.Errorf("%s: it crashes: %.600s", story, s)
				}
				// the names of the scratch homes differ
				return h, strings.ReplaceAll(strings.Join(lines(o.String()), "\n"), filepath.Dir(h.dir), ""), cmd.ProcessState.ExitCode(), nil
			}
			good, want, code, err := try("-1:0")
			if err != nil {
				return err
			}
			if code != 0 {
				return fmt.Errorf("without a fault it exits with %d: %s", code, want)
			}
			done := pb.Tree(good.dir)
			said := map[string]bool{}
			for _, l := range strings.Split(want, "\n") {
				said[l] = true
			}
			for n := 0; ; n++ {
				for k := 0; ; k++ {
					h, out, code, err := try(fmt.Sprintf("%d:%d", n, k))
					if err != nil {
						return err
					}
					if code == 41 {
						r.Trace()
						return nil
					}
					if code == 40 {
						break
					}
					r.Eval(1)
					r.Trans(1)
					r.Distinct(kit.Hash(fmt.Sprint(i, n, k)))
					message := code != 0
					for _, l := range strings.Split(out, "\n") {
						message = message || !said[l]
					}
					if out != want && !message {
						return fmt.Errorf("operation %d fails (%d): it prints %q without a message, and %q without a fault", n, k, out, want)
					}
					if strings.Contains(out, "new filename") || !message {
						if err := pb.TreeDiff(done, pb.Tree(h.dir)); err != nil {
							return fmt.Errorf("operation %d fails (%d): it prints %q, but its change is not made: %v", n, k, out, err)
						}
					}
				}
			}
		})
	}
	r.Section("subsets of arguments")
	type cmd struct {
		name string
		args [][2]string
		ok   func(set int) bool // whether it has all it needs
	}
	for _, c := range []cmd{
		{"add_board", [][2]string{{"board_id", "first"}, {"title", "t"}}, func(s int) bool { return s == 3 }},
		{"add_board_article", [][2]string{{"board", "first"}, {"owner", "o"}, {"date", "1/01"}, {"title", "t"}, {"content", "c"}, {"content_file", "/dev/null"}}, func(s int) bool { return s&15 == 15 && s>>4 != 0 }},
		{"show_board_article", [][2]string{{"board", "old"}, {"filename", "M.1.A.001"}}, func(s int) bool { return s == 3 }},
	} {
		c := c
		for set := 0; set < 1<<uint(len(c.args)); set++ {
			set := set
			r.Check(fmt.Sprintf("%s with %b", c.name, set), func() error {
				for order := 0; order < 2; order++ {
					args := []string{c.name}
					for i := range c.args {
						k := i
						if order == 1 {
							k = len(c.args) - 1 - i
						}
						if set>>uint(k)&1 == 1 {
							args = append(args, "--"+c.args[k][0], c.args[k][1])
						}
					}
					h := newHome(r, true)
					if !c.ok(set) {
						if err := h.idle(args); err != nil {
							return err
						}
						if err := h.idle(append(args, "--content", "--board")[:len(args)+len(args)%2]); len(args) == 1 && err != nil {
							return err
						}
						continue
					}
					before := pb.Tree(h.dir)
					if _, err := run(append([]string{"--bbshome=" + h.dir}, args...)...); err != nil {
						return err
					}
					if changed := pb.TreeDiff(before, pb.Tree(h.dir)) != nil; changed != strings.HasPrefix(c.name, "add") {
						return fmt.Errorf("%q changes something: %v", args, changed)
					}
					r.Eval(1)
				}
				return nil
			})
		}
	}
}
