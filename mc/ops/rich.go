package ops

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verifmc/pb"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Rich adds to a home what can be read in it. The contents differ with the tag.
func Rich(home string, tag int) {
	write := func(name string, data []byte) {
		name = filepath.Join(home, name)
		must(os.MkdirAll(filepath.Dir(name), 0755))
		must(os.WriteFile(name, data, 0644))
	}
	pattern := func(n, seed int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*seed + i/7 + seed)
		}
		return b
	}
	var users []byte
	for i := 0; i < 3; i++ {
		u := pattern(512, 3+2*i+8*tag)
		copy(u[4:], fmt.Sprintf("user%d\x00", i))
		users = append(users, u...)
	}
	write(".PASSWDS", append(users, pattern(100, 9)...))
	var boards []byte
	none := fmt.Sprintf("none%d", tag)
	for _, n := range []string{"one", "ALLPOST", "", "two", none} {
		b := make([]byte, 256)
		copy(b, n)
		copy(b[13:], fmt.Sprintf("title%d", tag))
		boards = append(boards, b...)
	}
	write(".BRD", boards)
	for i, n := range []string{"one", "two", "ALLPOST"} {
		must(pb.MakeBoard(home, n))
		var dir []byte
		for j := 0; j < 3; j++ {
			b := make([]byte, 128)
			name := fmt.Sprintf("M.%d.A.000", 100+j)
			copy(b, name)
			copy(b[34:], []string{"commenter", "other"}[(i+j)%2])
			copy(b[54:], fmt.Sprintf("title %d of %d", j, tag))
			dir = append(dir, b...)
			if j == 2 && i == 0 {
				continue // this one was deleted
			}
			text := fmt.Sprintf("article %d\n\x1b[1;37m\xb1\xc0 \x1b[33mcommenter\x1b[m\x1b[33m: one more %d\x1b[m 01/02 03:04\n", j, j+10*tag) +
				"\x1b[1;31m\xa1\xf7 \x1b[33mother\x1b[m\x1b[33m: hm                        \x1b[m 01/02 03:05\n"
			must(os.WriteFile(pb.ArticlePath(home, n, name), []byte(text), 0644))
		}
		must(os.WriteFile(pb.DirPath(home, n), dir, 0644))
	}
	must(pb.MakeBoard(home, none))
	write("boards/t/test/long", []byte(strings.Repeat("0123456789abcde\n", 300)))
	tr := append(pb.N(5+2*tag).Bytes(), pb.N(6+2*tag).Bytes()...)
	write("man/boards/t/test/D1/D2/.DIR", tr)
	write("man/boards/t/test/D1/.DIR", tr[:128])
	write("man/boards/t/test/D1/M.5.A.005", []byte(fmt.Sprintf("treasure %d\n", tag)))
	write("home/t/tester/.fav", favorites())
	write("uinfo", pattern(3484*2+17, 5+2*tag))
	write("recent", []byte("01/02/2020 03:04:05 example.org\n01/03/2020 03:04:05 127.0.0.1\n01/04/2020 03:04:05 example.com\n"))
	write("logins.bad", []byte("-tester      [01/02/2020 03:04:05 Thu] ?@example.org\n tester      [01/02/2020 03:04:06 Thu] ?@example.com\n"))
	var fb []byte
	for i := 0; i < 3; i++ {
		b := make([]byte, 248)
		copy(b, fmt.Sprintf("M.%d.A", i))
		copy(b[len(b)-100:], "text")
		fb = append(fb, b...)
	}
	write("formosa", append(fb, 1, 2, 3))
}

// favorites is a file of favorites: boards 1 and 5, a line and a folder with board 2.
func favorites() []byte {
	board := func(id byte) []byte { return []byte{1, 1, id, 0, 0, 0, 0, 0, 0, 95, 0, 0, 0, 1} }
	folder := make([]byte, 52)
	folder[0], folder[1], folder[2] = 2, 1, 1
	copy(folder[3:], "folder")
	b := []byte{0x23, 0x0d, 2, 0, 1, 1}
	b = append(b, board(1)...)
	b = append(b, 3, 1, 1)
	b = append(b, folder...)
	b = append(b, board(5)...)
	b = append(b, 1, 0, 0, 0)
	return append(b, board(2)...)
}

// Large makes the files of a rich home large: beyond the sizes where buffers and pipes end.
func Large(home string) {
	file := func(name string) string { return filepath.Join(home, name) }
	grow := func(name string, n int) {
		b, err := os.ReadFile(file(name))
		must(err)
		var l []byte
		for len(l) < n {
			l = append(l, b...)
		}
		must(os.WriteFile(file(name), l, 0644))
	}
	records := func(name string, size, n int) {
		b, err := os.ReadFile(file(name))
		must(err)
		b = b[:len(b)/size*size]
		var l []byte
		for len(l) < n {
			l = append(l, b...)
		}
		must(os.WriteFile(file(name), append(l, 1, 2, 3), 0644))
	}
	records(".PASSWDS", 512, 70000)
	records("boards/t/test/.DIR", 128, 70000)
	records("man/boards/t/test/D1/D2/.DIR", 128, 70000)
	records("formosa", 248, 70000)
	records("uinfo", 3484, 70000)
	brd, err := os.ReadFile(file(".BRD"))
	must(err)
	must(os.WriteFile(file(".BRD"), append(brd, make([]byte, 70000/256*256)...), 0644))
	grow("boards/o/one/M.100.A.000", 20000)
	for _, name := range []string{"boards/t/test/long", "boards/t/test/" + ArticleName, "man/boards/t/test/D1/M.5.A.005", "home/t/tester/buf.3", "recent", "logins.bad"} {
		grow(name, 70000)
	}
	fav := []byte{0x23, 0x0d, 0, 5, 0, 0} // 1280 boards
	for i := 0; i < 1280; i++ {
		fav = append(fav, 1, 1, byte(i), byte(i>>8), 0, 0, 0, 0, 0, 95, 0, 0, 0, 1)
	}
	must(os.WriteFile(file("home/t/tester/.fav"), fav, 0644))
}
