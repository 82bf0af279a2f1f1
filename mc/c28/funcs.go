package main

import (
	"bytes"
	"fmt"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/crypt"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/kit"
	"verifmc/pb"
	"verifmc/show"
)

// function is a call which needs no files.
type function struct {
	name   string
	inputs [][]byte
	call   func(in []byte) (interface{}, error)
}

func texts(l ...string) (b [][]byte) {
	for _, s := range l {
		b = append(b, []byte(s))
	}
	return
}

func big5(l ...string) (b [][]byte) {
	for _, s := range l {
		b = append(b, pb.Big5(s))
	}
	return
}

func functions() (l []function) {
	add := func(name string, in [][]byte, f func(in []byte) (interface{}, error)) {
		l = append(l, function{name: name, inputs: in, call: f})
	}
	words := []string{"一個標題", "another title", "", "推 user: 中文 and ASCII", "二三四五六七八九十百千萬", "\x1b[1;31m紅\x1b[m"}
	add("Fcrypt", texts("secret", "Secret", "password", "", "123456789"), func(in []byte) (interface{}, error) { return crypt.Fcrypt(in, []byte("ab")) })
	add("Fcrypt with a stored hash", texts("ab", "cd", "..", "zz"), func(in []byte) (interface{}, error) { return crypt.Fcrypt([]byte("secret"), in) })
	add("Utf8ToBig5", texts(words...), func(in []byte) (interface{}, error) { return bbs.Utf8ToBig5(string(in)), nil })
	add("Big5ToUtf8", big5(words...), func(in []byte) (interface{}, error) { return bbs.Big5ToUtf8(in), nil })
	add("CstrToString", texts("one\x00two", "three", "\x00", "four\x00\x00"), func(in []byte) (interface{}, error) { return bbs.CstrToString(in), nil })
	add("FilterStringANSI", texts(words...), func(in []byte) (interface{}, error) { return bbs.FilterStringANSI(string(in)), nil })
	add("NewUserCommentRecord", texts("推 user: text one 01/02 03:04", "→ other: 中文 12/31 23:59", "噓 abc: : 02/29 00:00", "no comment"), func(in []byte) (interface{}, error) {
		a := pttbbs.NewFileHeader()
		a.SetFilename("M.1.A.001")
		return bbs.NewUserCommentRecord(7, string(in), "board", a)
	})
	add("paths", texts("tester", "Abc", "z9"), func(in []byte) (interface{}, error) {
		var out []string
		for _, f := range []func() (string, error){
			func() (string, error) { return pttbbs.GetUserFavoritePath("/home/bbs", string(in)) },
			func() (string, error) { return pttbbs.GetUserDraftPath("/home/bbs", string(in), "3") },
			func() (string, error) { return pttbbs.GetUserMailPath("/home/bbs", string(in), "M.1") },
			func() (string, error) { return pttbbs.GetLoginRecentPath("/home/bbs", string(in)) },
			func() (string, error) { return pttbbs.GetBoardArticlesDirectoryPath("/home/bbs", string(in)) },
			func() (string, error) { return pttbbs.GetBoardArticleFilePath("/home/bbs", string(in), "M.1") },
			func() (string, error) {
				return pttbbs.GetBoardTreasureFilePath("/home/bbs", string(in), []string{string(in)}, "M.1")
			},
		} {
			s, err := f()
			if err != nil {
				return nil, err
			}
			out = append(out, s)
		}
		return out, nil
	})
	for _, c := range codecs() {
		c := c
		in := inputs(c, false)
		if len(in) > 6 {
			var some [][]byte
			for i := 0; i < 6; i++ {
				some = append(some, in[i*len(in)/6])
			}
			in = some
		}
		add("decode "+c.name, in, c.decode)
		if c.encode != nil {
			add("encode "+c.name, in, func(in []byte) (interface{}, error) {
				v, err := c.decode(in)
				if err != nil {
					return nil, err
				}
				return c.encode(v)
			})
		}
	}
	return l
}

// manyCalls looks at a result after the function was called many times with other arguments.
func manyCalls(r *kit.Run) {
	n := kit.Pick(r, 300, 5000)
	r.Section(fmt.Sprintf("a function once, and then %d times with other arguments", n))
	for _, f := range functions() {
		f := f
		for i := range f.inputs {
			for j := range f.inputs {
				i, j := i, j
				if i == j {
					continue
				}
				r.Check(fmt.Sprintf("%s, argument %d, then argument %d and so on", f.name, i, j), func() error {
					arg := append([]byte{}, f.inputs[i]...)
					first, err := f.call(arg)
					was := show.Value(first) + fmt.Sprint(err)
					for k := 0; k < n; k++ {
						in := f.inputs[j]
						if x := (j + k/3) % len(f.inputs); k%3 > 0 && x != i {
							in = f.inputs[x]
						}
						f.call(append([]byte{}, in...))
						r.Eval(1)
					}
					if x := show.Value(first) + fmt.Sprint(err); x != was {
						return fmt.Errorf("the result has changed: %s", differ(x, was))
					}
					if !bytes.Equal(arg, f.inputs[i]) {
						return fmt.Errorf("the argument has changed")
					}
					for k := 0; k < 3; k++ {
						again, err := f.call(append([]byte{}, f.inputs[i]...))
						if x := show.Value(again) + fmt.Sprint(err); x != was {
							return fmt.Errorf("now it gives something else: %s", differ(x, was))
						}
						scribble(again)
					}
					if x := show.Value(first) + fmt.Sprint(err); x != was {
						return fmt.Errorf("the result has changed: %s", differ(x, was))
					}
					r.Trace()
					return nil
				})
			}
		}
	}
}
