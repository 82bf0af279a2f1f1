// C20: shared memory and mapped files are coherent between all users.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"unsafe"

	"github.com/Ptt-official-app/go-bbs/cache"

	"verifmc/kit"
)

func main() {
	if len(os.Args) == 4 && os.Args[1] == "peer" {
		peer(os.Args[2], os.Args[3])
		return
	}
	kit.Main(kit.Config{
		ID: "C20", Level: kit.ModelChecking,
		Rule:        "every history up to the depth in the notes over create, open, write, close (once and again) and remove of two objects (files, segments and both), with a comparison of all open handles and of an independent look (file read, raw system calls, another process) after every step; all sizes around pages, all keys and connection strings of the listed shapes; distinct by history",
		Assumptions: []string{"an object which is created again while it exists keeps its contents or becomes all zero, for every user alike; it is not created again with another size while it is open", "Linux"},
		Body:        body,
	})
}

// raw access to segments, not through the code under test.
func rawGet(key int32, size int, flag int) (int, error) {
	id, _, e := syscall.Syscall(syscall.SYS_SHMGET, uintptr(key), uintptr(size), uintptr(flag))
	if e != 0 {
		return 0, e
	}
	return int(id), nil
}

func rawRemove(key int32) {
	if id, err := rawGet(key, 0, 0); err == nil {
		syscall.Syscall(syscall.SYS_SHMCTL, uintptr(id), 0, 0)
	}
}

// rawAccess reads size bytes of a segment, and replaces them if put is not nil.
func rawAccess(key int32, size int, put []byte) ([]byte, error) {
	id, err := rawGet(key, size, 0)
	if err != nil {
		return nil, err
	}
	p, _, e := syscall.Syscall(syscall.SYS_SHMAT, uintptr(id), 0, 0)
	if e != 0 {
		return nil, e
	}
	mem := unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&p))), size)
	out := append([]byte{}, mem...)
	copy(mem, put)
	syscall.Syscall(syscall.SYS_SHMDT, p, 0, 0)
	return out, nil
}

// peer is another process: it opens conn, prints all bytes, and writes those given in hex at the start.
func peer(conn, put string) {
	c, err := cache.NewCache(conn)
	if err != nil {
		fmt.Println("error", err)
		return
	}
	fmt.Printf("%x\n", c.Bytes())
	var b []byte
	fmt.Sscanf(put, "%x", &b)
	copy(c.Bytes(), b)
	c.Close()
}

// ref is what an object is now.
type inst struct{ b []byte }

type handle struct {
	c      cache.Cache
	in     *inst
	closed bool
}

type object struct {
	path string
	key  int32
	size int
	in   *inst // nil: does not exist
	hs   []*handle
}

func (o *object) conn() string {
	if o.path != "" {
		return "file:" + o.path
	}
	return fmt.Sprintf("shmkey:%d", o.key)
}

func (o *object) create() (cache.Cache, error) {
	if o.path != "" {
		m, err := cache.CreateMmap(o.path, int64(o.size))
		if err != nil {
			return nil, err
		}
		return m, nil
	}
	s, err := cache.CreateKey(int(o.key), o.size)
	if err != nil {
		return nil, err
	}
	return s, nil
}

func (o *object) open(n int) (cache.Cache, error) {
	switch {
	case n%2 == 1:
		return cache.NewCache(o.conn())
	case o.path != "":
		if n%4 == 2 && !strings.Contains(o.path, ":") {
			return cache.NewCache(o.path)
		}
		m, err := cache.OpenMmap(o.path)
		if err != nil {
			return nil, err
		}
		return m, nil
	default:
		s, err := cache.OpenKey(int(o.key))
		if err != nil {
			return nil, err
		}
		return s, nil
	}
}

func (o *object) remove() error {
	if o.path != "" {
		return cache.RemoveMmap(o.path)
	}
	return cache.RemoveKey(int(o.key))
}

// look reads the object past the code under test.
func (o *object) look() ([]byte, bool) {
	if o.path != "" {
		b, err := os.ReadFile(o.path)
		return b, err == nil
	}
	b, err := rawAccess(o.key, o.size, nil)
	return b, err == nil
}

// compare checks all open handles and the look from outside.
func compare(objs []*object) error {
	for i, o := range objs {
		for j, h := range o.hs {
			if h.closed {
				continue
			}
			b := h.c.Bytes()
			if len(b) != len(h.in.b) {
				return fmt.Errorf("handle %d of object %d has %d bytes, want %d", j, i, len(b), len(h.in.b))
			}
			if !bytes.Equal(b, h.in.b) {
				return fmt.Errorf("handle %d of object %d sees %s", j, i, diff(b, h.in.b))
			}
		}
		b, ok := o.look()
		if ok != (o.in != nil) {
			return fmt.Errorf("object %d exists: %v, want %v", i, ok, o.in != nil)
		}
		if ok && !bytes.Equal(b, o.in.b) {
			return fmt.Errorf("object %d is %s", i, diff(b, o.in.b))
		}
	}
	return nil
}

func diff(got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d bytes, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("%02x at %d, want %02x", got[i], i, want[i])
		}
	}
	return "equal"
}

// step names one operation.
type step struct {
	obj  int
	kind byte // c create, o open, r remove, w/W write through oldest/newest, x/X close oldest/newest, d close again; by others: k remove, n replace by a new one, e write
}

func (o *object) pick(newest bool) *handle {
	var h *handle
	for _, x := range o.hs {
		if !x.closed {
			h = x
			if !newest {
				break
			}
		}
	}
	return h
}

// apply runs one operation, done is false if it is not possible here.
func apply(objs []*object, s step, n int) (done bool, err error) {
	o := objs[s.obj]
	switch s.kind {
	case 'c':
		c, err := o.create()
		if err != nil {
			return true, fmt.Errorf("create: %v", err)
		}
		b := c.Bytes()
		if len(b) != o.size {
			return true, fmt.Errorf("a new object has %d bytes, want %d", len(b), o.size)
		}
		zero := bytes.Equal(b, make([]byte, o.size))
		if o.in == nil {
			o.in = &inst{make([]byte, o.size)}
			if !zero {
				return true, fmt.Errorf("a new object is not zero")
			}
		} else if zero {
			o.in.b = make([]byte, o.size)
		}
		o.hs = append(o.hs, &handle{c: c, in: o.in})
	case 'o':
		c, err := o.open(n)
		if o.in == nil {
			if err == nil {
				return true, fmt.Errorf("opening an object which does not exist is no error")
			}
			return true, nil
		}
		if err != nil {
			return true, fmt.Errorf("open: %v", err)
		}
		o.hs = append(o.hs, &handle{c: c, in: o.in})
	case 'r':
		err := o.remove()
		if (err == nil) != (o.in != nil) {
			return true, fmt.Errorf("remove of an object which exists %v: %v", o.in != nil, err)
		}
		o.in = nil
	case 'w', 'W':
		h := o.pick(s.kind == 'W')
		if h == nil {
			return false, nil
		}
		for _, p := range []int{n * 7 % o.size, o.size - 1 - n%o.size, o.size / 2} {
			v := byte(0x10 + n + 16*s.obj)
			h.c.Bytes()[p] = v
			h.in.b[p] = v
		}
	case 'x', 'X':
		h := o.pick(s.kind == 'X')
		if h == nil {
			return false, nil
		}
		h.closed = true
		if err := h.c.Close(); err != nil {
			return true, fmt.Errorf("close: %v", err)
		}
	case 'd':
		var h *handle
		for _, x := range o.hs {
			if x.closed {
				h = x
			}
		}
		if h == nil {
			return false, nil
		}
		h.c.Close() // an error or not, others may not notice
	case 'k':
		if o.in == nil {
			return false, nil
		}
		if o.path != "" {
			os.Remove(o.path)
		} else {
			rawRemove(o.key)
		}
		o.in = nil
	case 'n':
		b := bytes.Repeat([]byte{byte(0x80 + n)}, o.size)
		if o.path != "" {
			if err := os.WriteFile(o.path+".new", b, 0644); err != nil {
				panic(err)
			}
			if err := os.Rename(o.path+".new", o.path); err != nil {
				panic(err)
			}
		} else {
			rawRemove(o.key)
			if _, err := rawGet(o.key, o.size, 01666); err != nil {
				panic(err)
			}
			if _, err := rawAccess(o.key, o.size, b); err != nil {
				panic(err)
			}
		}
		o.in = &inst{b}
	case 'e':
		if o.in == nil {
			return false, nil
		}
		b := []byte{byte(0xc0 + n)}
		if o.path != "" {
			f, err := os.OpenFile(o.path, os.O_WRONLY, 0)
			if err != nil {
				panic(err)
			}
			f.Write(b)
			f.Close()
		} else if _, err := rawAccess(o.key, o.size, b); err != nil {
			panic(err)
		}
		o.in.b[0] = b[0]
	}
	return true, nil
}

func history(r *kit.Run, objs []*object, seq []step) error {
	for _, o := range objs {
		o.in, o.hs = nil, nil
	}
	defer func() {
		for _, o := range objs {
			for _, h := range o.hs {
				if !h.closed {
					h.closed = true
					kit.Try(func() { h.c.Close() })
				}
			}
			if o.path != "" {
				os.Remove(o.path)
			} else {
				rawRemove(o.key)
			}
		}
	}()
	r.Eval(1)
	for n, s := range seq {
		done, err := apply(objs, s, n)
		if !done {
			continue
		}
		r.Trans(1)
		if err == nil {
			err = compare(objs)
			r.State(state(objs))
		}
		if err != nil {
			var names []string
			for _, t := range seq[:n+1] {
				names = append(names, fmt.Sprintf("%c%d", t.kind, t.obj))
			}
			return fmt.Errorf("%s (object 0: %s of %d, 1: %s of %d): %v", strings.Join(names, " "), objs[0].conn(), objs[0].size, objs[1].conn(), objs[1].size, err)
		}
	}
	return nil
}

// state is the model's state: which objects and handles there are and what is in them.
func state(objs []*object) uint64 {
	var b []byte
	for _, o := range objs {
		b = append(b, '|')
		if o.path != "" {
			b = append(b, 'f')
		}
		b = append(b, byte(o.size))
		if o.in != nil {
			b = append(b, o.in.b[:3]...)
		}
		for _, h := range o.hs {
			switch {
			case h.closed:
				b = append(b, 'x')
			case h.in == o.in:
				b = append(b, 'c')
			default:
				b = append(b, 'o', h.in.b[0], h.in.b[1], h.in.b[2])
			}
		}
	}
	return kit.HashB(b)
}

func key(n int) int32 { return int32(0x56000000 + os.Getpid()%100000*64 + n) }

func fds() int {
	l, _ := os.ReadDir("/proc/self/fd")
	return len(l)
}

func body(r *kit.Run) {
	runtime.GC()
	r.Section("histories")
	depth := kit.Pick(r, 6, 7)
	r.Note("operations per history", depth)
	dir := r.Dir("f")
	configs := map[string][]*object{
		"files":    {{path: filepath.Join(dir, "one"), size: 3}, {path: filepath.Join(dir, "two:x"), size: 3}},
		"segments": {{key: key(1), size: 3}, {key: key(2), size: 3}},
		"both":     {{path: filepath.Join(dir, "mapped"), size: 5000}, {key: key(3), size: 5000}},
	}
	var steps []step
	for i := 0; i < 2; i++ {
		for _, k := range "corwWxXd" {
			steps = append(steps, step{i, byte(k)})
		}
	}
	for _, name := range []string{"files", "segments", "both"} {
		for i := range steps {
			for j := range steps {
				if steps[i].kind != 'c' && steps[i].kind != 'o' && steps[i].kind != 'r' || steps[i].obj == 1 && name != "both" {
					continue
				}
				name, i, j := name, i, j
				r.Check(fmt.Sprintf("%s %d %d", name, i, j), func() error {
					d := depth
					if name == "both" {
						d--
					}
					objs := configs[name]
					var rec func(seq []step) error
					rec = func(seq []step) error {
						if len(seq) == d {
							r.Trace()
							return history(r, objs, seq)
						}
						for _, s := range steps {
							if !possible(append(seq[:len(seq):len(seq)], s)) {
								continue
							}
							if err := rec(append(seq[:len(seq):len(seq)], s)); err != nil {
								return err
							}
						}
						return nil
					}
					seq := []step{steps[i], steps[j]}
					if !possible(seq) {
						return nil
					}
					return rec(seq)
				})
			}
		}
	}
	r.Section("histories with changes by others")
	for _, o := range []*object{{path: filepath.Join(dir, "shared"), size: 3}, {key: key(13), size: 3}} {
		name, objs := "segment", []*object{o, {path: filepath.Join(dir, "idle"), size: 3}}
		if o.path != "" {
			name = "file"
		}
		all := "cornkewWxXd"
		for _, i := range "cornk" {
			for _, j := range all {
				seq := []step{{0, byte(i)}, {0, byte(j)}}
				r.Check(fmt.Sprintf("%s, changes by others, %c%c", name, i, j), func() error {
					var rec func(seq []step, others bool) error
					rec = func(seq []step, others bool) error {
						if !possible(seq) {
							return nil
						}
						if len(seq) == depth {
							if !others {
								return nil
							}
							r.Trace()
							return history(r, objs, seq)
						}
						for _, k := range all {
							if err := rec(append(seq[:len(seq):len(seq)], step{0, byte(k)}), others || strings.ContainsRune("kne", k)); err != nil {
								return err
							}
						}
						return nil
					}
					return rec(seq, strings.ContainsRune("kne", i) || strings.ContainsRune("kne", j))
				})
			}
		}
	}
	r.Section("many handles")
	for _, o := range []*object{{path: filepath.Join(dir, "handles"), size: 700}, {key: key(14), size: 700}} {
		o := o
		r.Check("many handles "+fmt.Sprint(o.path != ""), func() error {
			objs := []*object{o, {path: filepath.Join(dir, "idle"), size: 3}}
			// every number of handles, then closed from either end, with a write through one of them in between
			var seq []step
			add := func(k string) {
				for _, x := range k {
					seq = append(seq, step{0, byte(x)})
				}
			}
			add("c")
			for i := 0; i < 300; i++ {
				add("oW")
			}
			for i := 0; i < 100; i++ {
				add("xwXWow")
			}
			add("nwoWxw")
			for i := 0; i < 150; i++ {
				add("xwXW")
			}
			if err := history(r, objs, seq); err != nil {
				return err
			}
			// opened and closed over and over
			seq = nil
			add("co")
			for i := 0; i < 300; i++ {
				add("oWX")
			}
			add("ewoWroXnoW")
			return history(r, objs, seq)
		})
	}
	r.Check("many objects", func() error {
		var objs []*object
		for i := 0; i < 300; i++ {
			objs = append(objs, &object{path: filepath.Join(dir, fmt.Sprintf("many%d", i)), size: 10 + i})
			if i < 20 {
				objs = append(objs, &object{key: key(20 + i), size: 10 + i})
			}
		}
		var seq []step
		for _, k := range "cwoWxwrW" {
			for i := range objs {
				seq = append(seq, step{i, byte(k)})
			}
		}
		return history(r, objs, seq)
	})
	r.Check("other names of a file", func() error {
		p := filepath.Join(dir, "real")
		m, err := cache.CreateMmap(p, 10)
		if err != nil {
			return err
		}
		defer m.Close()
		os.Symlink(p, filepath.Join(dir, "symlink"))
		os.Link(p, filepath.Join(dir, "hard"))
		os.Chdir(dir)
		for i, name := range []string{filepath.Join(dir, "symlink"), filepath.Join(dir, "hard"), "real", "./real", dir + "/./real", dir + "//real", dir + "/../" + filepath.Base(dir) + "/real"} {
			c, err := cache.NewCache("file:" + name)
			if err != nil {
				return fmt.Errorf("%s: %v", name, err)
			}
			m.Bytes()[1] = byte(2 * i)
			c.Bytes()[0] = byte(i)
			if m.Bytes()[0] != byte(i) || c.Bytes()[1] != byte(2*i) {
				return fmt.Errorf("%s is not the same as %s", name, p)
			}
			c.Close()
			m.Bytes()[2] = 1
		}
		// the same name for another file
		other := filepath.Join(dir, "elsewhere")
		os.Mkdir(other, 0755)
		os.WriteFile(filepath.Join(other, "real"), []byte("another"), 0644)
		c, err := cache.NewCache("real")
		if err != nil {
			return err
		}
		defer c.Close()
		os.Chdir(other)
		defer os.Chdir(dir)
		d, err := cache.NewCache("real")
		if err != nil {
			return err
		}
		defer d.Close()
		if string(d.Bytes()) != "another" || len(c.Bytes()) != 10 {
			return fmt.Errorf("a name which is another file in another directory selects %q", d.Bytes())
		}
		os.Remove(filepath.Join(dir, "symlink"))
		os.Symlink(filepath.Join(other, "real"), filepath.Join(dir, "symlink"))
		e, err := cache.NewCache(filepath.Join(dir, "symlink"))
		if err != nil {
			return err
		}
		defer e.Close()
		if string(e.Bytes()) != "another" {
			return fmt.Errorf("a symbolic link which was changed selects %q", e.Bytes())
		}
		return nil
	})
	r.Section("sizes")
	var sizes []int
	for n := 1; n <= 300; n++ {
		sizes = append(sizes, n)
	}
	for _, c := range []int{512, 1024, 4096, 8192, 12288, 65536, 1 << 20, 4 << 20} {
		for d := -3; d <= 3; d++ {
			sizes = append(sizes, c+d)
		}
	}
	for _, n := range sizes {
		n := n
		r.Check(fmt.Sprintf("size %d", n), func() error {
			for _, o := range []*object{{path: filepath.Join(dir, "size"), size: n}, {key: key(4), size: n}} {
				if err := sized(o, n); err != nil {
					return fmt.Errorf("%s of %d bytes: %v", o.conn(), n, err)
				}
				if o.path == "" {
					rawRemove(o.key)
				}
			}
			return nil
		})
	}
	r.Section("large sizes")
	for k := 22; k <= 36; k++ {
		for _, d := range []int{-1, 0, 1, 8, 4096} {
			n := 1<<uint(k) + d
			r.Check(fmt.Sprintf("size %d", n), func() error {
				if err := large(r, &object{path: filepath.Join(r.Dir("large"), "f"), size: n}); err != nil {
					return fmt.Errorf("file of %d bytes: %v", n, err)
				}
				if err := large(r, &object{key: key(12), size: n}); err != nil {
					return fmt.Errorf("segment of %d bytes: %v", n, err)
				}
				return nil
			})
		}
	}
	r.Section("created again with another size")
	for a := 1; a <= 40; a++ {
		a := a * 977 % 9001
		r.Check(fmt.Sprintf("again %d", a), func() error {
			for b := 1; b <= 9001; b += 450 {
				p := filepath.Join(dir, "again")
				m, err := cache.CreateMmap(p, int64(a))
				if err != nil {
					return err
				}
				for i := range m.Bytes() {
					m.Bytes()[i] = 0xaa
				}
				m.Close()
				m, err = cache.CreateMmap(p, int64(b))
				if err != nil {
					return err
				}
				if len(m.Bytes()) != b {
					return fmt.Errorf("a file of %d created again with %d has %d", a, b, len(m.Bytes()))
				}
				m.Bytes()[b-1] = 1
				m.Close()
				if i, err := os.Stat(p); err != nil || i.Size() != int64(b) {
					return fmt.Errorf("a file of %d created again with %d: %v %v", a, b, i, err)
				}
				os.Remove(p)
				// segments: the size of an existing one does not change
				k := key(5)
				rawRemove(k)
				s, err := cache.CreateKey(int(k), a)
				if err != nil {
					return err
				}
				for i := range s.Bytes() {
					s.Bytes()[i] = 0xbb
				}
				t, err := cache.CreateKey(int(k), b)
				if err == nil {
					if len(t.Bytes()) > a && b <= a {
						return fmt.Errorf("a segment of %d opened with %d has %d bytes", a, b, len(t.Bytes()))
					}
					for i, v := range t.Bytes() {
						if v != 0xbb {
							return fmt.Errorf("a segment of %d opened with %d has %x at %d", a, b, v, i)
						}
					}
					t.Close()
				} else if b <= a {
					return fmt.Errorf("a segment of %d opened with %d: %v", a, b, err)
				}
				o, err := cache.OpenKey(int(k))
				if err != nil {
					return err
				}
				if len(o.Bytes()) != a {
					return fmt.Errorf("a segment of %d has %d bytes after an attempt with %d", a, len(o.Bytes()), b)
				}
				o.Close()
				s.Close()
				rawRemove(k)
				r.Eval(1)
			}
			return nil
		})
	}
	r.Section("keys")
	for bit := 0; bit < 32; bit++ {
		bit := bit
		r.Check(fmt.Sprintf("key bit %d", bit), func() error {
			base := key(6)
			k := int32(uint32(base) ^ 1<<uint(bit))
			for _, x := range []int32{k, -k, base ^ 1<<20} {
				if err := oneKey(base, x); err != nil {
					return err
				}
				r.Eval(1)
			}
			return nil
		})
	}
	r.Check("keys which are no keys", func() error {
		k := key(7)
		rawRemove(k)
		s, err := cache.CreateKey(int(k), 10)
		if err != nil {
			return err
		}
		defer rawRemove(k)
		defer s.Close()
		n := int64(k)
		bad := []string{fmt.Sprint(n + 1<<32), fmt.Sprint(n - 1<<32), fmt.Sprint(n + 1<<40), fmt.Sprintf("%dx", n), fmt.Sprintf("x%d", n), fmt.Sprintf("%d.0", n), fmt.Sprintf("%d:0", n), fmt.Sprintf("%d:", n), fmt.Sprint(n, " 1"), "", "x", fmt.Sprintf("%d%d", n, n), fmt.Sprintf("0x%xg", n)}
		for _, b := range bad {
			c, err := cache.NewCache("shmkey:" + b)
			if err == nil {
				c.Close()
				return fmt.Errorf("shmkey:%s selects a segment, those are %d", b, n)
			}
		}
		for _, b := range []string{"shm:", "key:", "SHMKEY", "shmkeys:", "File:", "mmap:", ":"} {
			for _, w := range []string{b + fmt.Sprint(n), b + ":" + fmt.Sprint(n)} {
				c, err := cache.NewCache(w)
				if err == nil {
					c.Close()
					return fmt.Errorf("%q selects a segment or file", w)
				}
			}
		}
		return nil
	})
	r.Section("status of a segment")
	for _, n := range []int{1, 3, 4096, 4097, 100000} {
		n := n
		r.Check(fmt.Sprintf("status %d", n), func() error {
			k := key(11)
			rawRemove(k)
			defer rawRemove(k)
			s, err := cache.CreateKey(int(k), n)
			if err != nil {
				return err
			}
			defer s.Close()
			id, err := cache.Shmget(int(k), 0, 0)
			if err != nil {
				return err
			}
			var ds [3]cache.ShmidDs
			all := unsafe.Slice((*byte)(unsafe.Pointer(&ds)), unsafe.Sizeof(ds))
			one := int(unsafe.Sizeof(ds[0]))
			for i := range all {
				all[i] = 0xa5
			}
			if _, err := cache.Shmctl(id, cache.IPCStat, &ds[1]); err != nil {
				return err
			}
			if int(ds[1].ShmSegsz) != n || int(ds[1].ShmCpid) != os.Getpid() || ds[1].ShmNattach != 1 {
				return fmt.Errorf("status of %d bytes by %d: %+v", n, os.Getpid(), ds[1])
			}
			for i, v := range all {
				if (i < one || i >= 2*one) && v != 0xa5 {
					return fmt.Errorf("the status is written to byte %d of a structure of %d", i-one, one)
				}
			}
			return nil
		})
	}
	r.Section("file names")
	names := []string{"plain", "with space", "a:b", ":", "::", "x:", ":x", "shmkey:1", "file:x", "檔案", "100%", "a=b&c", "-", "~", "123", strings.Repeat("n", 255)}
	for i, name := range names {
		i, name := i, name
		r.Check("file "+name, func() error {
			d := r.Dir("names")
			for j, other := range names {
				m, err := cache.CreateMmap(filepath.Join(d, other), int64(10+j))
				if err != nil {
					return err
				}
				m.Bytes()[0] = byte(j + 1)
				if err := m.Close(); err != nil {
					return err
				}
			}
			p := filepath.Join(d, name)
			conns := []string{"file:" + p}
			if !strings.Contains(p, ":") {
				conns = append(conns, p)
			}
			os.Chdir(d)
			conns = append(conns, "file:"+name)
			if !strings.Contains(name, ":") {
				conns = append(conns, name)
			}
			for _, s := range conns {
				c, err := cache.NewCache(s)
				if err != nil {
					return fmt.Errorf("%q: %v", s, err)
				}
				if len(c.Bytes()) != 10+i || c.Bytes()[0] != byte(i+1) {
					return fmt.Errorf("%q selects another file, of %d bytes", s, len(c.Bytes()))
				}
				c.Bytes()[1] = 77
				c.Close()
				b, _ := os.ReadFile(p)
				if b[1] != 77 {
					return fmt.Errorf("%q: writing does not change the file", s)
				}
				r.Eval(1)
			}
			if err := os.Remove(p); err != nil {
				return err
			}
			for _, s := range conns {
				if c, err := cache.NewCache(s); err == nil {
					c.Close()
					return fmt.Errorf("%q is opened after it was removed", s)
				}
				if _, err := os.Stat(p); err == nil {
					return fmt.Errorf("opening %q made it", s)
				}
			}
			return nil
		})
	}
	r.Section("errors")
	r.Check("errors leave nothing open", func() error {
		d := r.Dir("err")
		os.WriteFile(filepath.Join(d, "empty"), nil, 0644)
		os.WriteFile(filepath.Join(d, "file"), []byte("x"), 0644)
		k := int(key(8))
		rawRemove(int32(k))
		try := map[string]func() (cache.Cache, error){
			"missing":      func() (cache.Cache, error) { return wrap(cache.OpenMmap(filepath.Join(d, "none"))) },
			"directory":    func() (cache.Cache, error) { return wrap(cache.OpenMmap(d)) },
			"below a file": func() (cache.Cache, error) { return wrap(cache.OpenMmap(filepath.Join(d, "file", "x"))) },
			"no directory": func() (cache.Cache, error) { return wrap(cache.CreateMmap(filepath.Join(d, "none", "x"), 5)) },
			"negative":     func() (cache.Cache, error) { return wrap(cache.CreateMmap(filepath.Join(d, "neg"), -1)) },
			"no name":      func() (cache.Cache, error) { return wrap(cache.OpenMmap("")) },
			"no conn":      func() (cache.Cache, error) { return cache.NewCache("") },
			"no key":       func() (cache.Cache, error) { return cache.NewCache(fmt.Sprintf("shmkey:%d", k)) },
			"no key 2":     func() (cache.Cache, error) { return wrapS(cache.OpenKey(k)) },
			"neg key size": func() (cache.Cache, error) { return wrapS(cache.CreateKey(k, -5)) },
		}
		before := fds()
		for name, f := range try {
			for i := 0; i < 3; i++ {
				if c, err := f(); err == nil {
					c.Close()
					return fmt.Errorf("%s: no error", name)
				}
				r.Eval(1)
			}
		}
		if n := fds(); n > before {
			return fmt.Errorf("%d more open files after failures", n-before)
		}
		if c, err := wrap(cache.OpenMmap(filepath.Join(d, "empty"))); err == nil && len(c.Bytes()) != 0 {
			return fmt.Errorf("an empty file has %d bytes", len(c.Bytes()))
		}
		if _, err := rawGet(int32(k), 0, 0); err == nil {
			return fmt.Errorf("a failure made the segment")
		}
		if b, _ := os.ReadFile(filepath.Join(d, "file")); string(b) != "x" {
			return fmt.Errorf("a failure changed a file")
		}
		return nil
	})
	r.Check("closing leaves nothing open", func() error {
		p := filepath.Join(dir, "many")
		before := fds()
		for i := 0; i < 200; i++ {
			m, err := cache.CreateMmap(p, 10)
			if err != nil {
				return err
			}
			m.Close()
			c, err := cache.NewCache(p)
			if err != nil {
				return err
			}
			c.Close()
		}
		if n := fds(); n > before {
			return fmt.Errorf("%d more open files after opening and closing", n-before)
		}
		return nil
	})
	r.Section("another process")
	exe, _ := os.Executable()
	for n := 1; n <= kit.Pick(r, 20, 100); n++ {
		n := n
		r.Check(fmt.Sprintf("process %d", n), func() error {
			for _, o := range []*object{{path: filepath.Join(dir, "peer"), size: n * 300}, {key: key(9), size: n * 300}} {
				if o.path == "" {
					rawRemove(o.key)
				}
				c, err := o.create()
				if err != nil {
					return err
				}
				second, err := o.open(n)
				if err != nil {
					return err
				}
				for i := range c.Bytes() {
					c.Bytes()[i] = byte(i*3 + n)
				}
				want := fmt.Sprintf("%x\n", c.Bytes())
				out, err := exec.Command(exe, "peer", o.conn(), "c0ffee").Output()
				if err != nil {
					return err
				}
				if string(out) != want {
					return fmt.Errorf("%s: the other process sees %.80s, want %.80s", o.conn(), out, want)
				}
				for _, h := range []cache.Cache{c, second} {
					if !bytes.Equal(h.Bytes()[:3], []byte{0xc0, 0xff, 0xee}) || h.Bytes()[3] != byte(9+n) {
						return fmt.Errorf("%s: what the other process wrote is not seen: %x", o.conn(), h.Bytes()[:4])
					}
				}
				c.Close()
				out, err = exec.Command(exe, "peer", o.conn(), "01").Output()
				if err != nil || !strings.HasPrefix(string(out), "c0ffee") {
					return fmt.Errorf("%s: the other process sees %.80s after a close", o.conn(), out)
				}
				if second.Bytes()[0] != 1 {
					return fmt.Errorf("%s: what the other process wrote is not seen after a close", o.conn())
				}
				second.Close()
				if err := o.remove(); err != nil {
					return err
				}
				out, err = exec.Command(exe, "peer", o.conn(), "01").Output()
				if err != nil || !strings.HasPrefix(string(out), "error") {
					return fmt.Errorf("%s: the other process opens it after it was removed: %.80s", o.conn(), out)
				}
				r.Eval(1)
			}
			return nil
		})
	}
	r.Section("handles which are dropped")
	r.Check("garbage collection", func() error {
		p := filepath.Join(dir, "gc")
		keep, err := cache.CreateMmap(p, 100)
		if err != nil {
			return err
		}
		k := key(10)
		rawRemove(k)
		keepS, err := cache.CreateKey(int(k), 100)
		if err != nil {
			return err
		}
		for i := 0; i < 30; i++ {
			m, err := cache.OpenMmap(p)
			if err != nil {
				return err
			}
			m.Bytes()[i] = byte(i + 1)
			s, err := cache.OpenKey(int(k))
			if err != nil {
				return err
			}
			s.Bytes()[i] = byte(i + 2)
			m, s = nil, nil
			runtime.GC()
			runtime.GC()
			for j := 0; j <= i; j++ {
				if keep.Bytes()[j] != byte(j+1) || keepS.Bytes()[j] != byte(j+2) {
					return fmt.Errorf("byte %d is lost", j)
				}
			}
		}
		runtime.KeepAlive(keep)
		runtime.KeepAlive(keepS)
		keep.Close()
		keepS.Close()
		rawRemove(k)
		return nil
	})
}

func wrap(m *cache.Mmap, err error) (cache.Cache, error) {
	if err != nil {
		return nil, err
	}
	return m, nil
}

func wrapS(m *cache.SHM, err error) (cache.Cache, error) {
	if err != nil {
		return nil, err
	}
	return m, nil
}

// possible prunes histories which only repeat shorter ones: operations on handles which do not exist.
func possible(seq []step) bool {
	type st struct {
		exists       bool
		open, closed int
	}
	var s [2]st
	for i, x := range seq {
		o := &s[x.obj]
		switch x.kind {
		case 'c':
			o.exists = true
			o.open++
		case 'o':
			if o.exists {
				o.open++
			} else if i+1 < len(seq) && i > 0 && seq[i-1] == x {
				return false
			}
		case 'r':
			o.exists = false
		case 'k':
			if !o.exists {
				return false
			}
			o.exists = false
		case 'n':
			o.exists = true
		case 'e':
			if !o.exists {
				return false
			}
		case 'w':
			if o.open == 0 {
				return false
			}
		case 'W':
			if o.open < 2 {
				return false
			}
		case 'x':
			if o.open == 0 {
				return false
			}
			o.open--
			o.closed++
		case 'X':
			if o.open < 2 {
				return false
			}
			o.open--
			o.closed++
		case 'd':
			if o.closed == 0 {
				return false
			}
		}
	}
	return true
}

func sized(o *object, n int) error {
	if o.path == "" {
		rawRemove(o.key)
	}
	a, err := o.create()
	if err != nil {
		return err
	}
	b, err := o.open(1)
	if err != nil {
		return err
	}
	if len(a.Bytes()) != n || len(b.Bytes()) != n {
		return fmt.Errorf("handles have %d and %d bytes", len(a.Bytes()), len(b.Bytes()))
	}
	want := make([]byte, n)
	for i := 0; i < n; i++ {
		v := byte(i ^ i>>8 ^ n)
		want[i] = v
		if i%2 == 0 {
			a.Bytes()[i] = v
		} else {
			b.Bytes()[i] = v
		}
	}
	o.in = &inst{want}
	o.hs = []*handle{{c: a, in: o.in}, {c: b, in: o.in}}
	if err := compare([]*object{o}); err != nil {
		return err
	}
	a.Close()
	b.Close()
	o.hs = nil
	if err := compare([]*object{o}); err != nil {
		return fmt.Errorf("after closing: %v", err)
	}
	c, err := o.open(2)
	if err != nil {
		return err
	}
	o.hs = []*handle{{c: c, in: o.in}}
	if err := compare([]*object{o}); err != nil {
		return fmt.Errorf("after reopening: %v", err)
	}
	c.Close()
	o.hs = nil
	return o.remove()
}

// large checks an object of which only a few places are touched: those around the powers of two
// and at both ends.
func large(r *kit.Run, o *object) error {
	n := o.size
	var peek func(at int) (byte, error)
	var poke func(at int, v byte) error
	if o.path != "" { // the file system can?
		f, err := os.OpenFile(o.path, os.O_CREATE|os.O_RDWR, 0644)
		if err != nil {
			return err
		}
		defer f.Close()
		if err := f.Truncate(int64(n)); err != nil {
			r.Note("largest file", n)
			return nil
		}
		defer os.Remove(o.path)
		peek = func(at int) (byte, error) {
			var b [1]byte
			_, err := f.ReadAt(b[:], int64(at))
			return b[0], err
		}
		poke = func(at int, v byte) error {
			_, err := f.WriteAt([]byte{v}, int64(at))
			return err
		}
	} else {
		rawRemove(o.key)
		id, err := rawGet(o.key, n, 0x200|0x400|0600)
		if err != nil {
			return nil // the kernel has a limit
		}
		defer rawRemove(o.key)
		p, _, e := syscall.Syscall(syscall.SYS_SHMAT, uintptr(id), 0, 0)
		if e != 0 {
			return nil
		}
		defer syscall.Syscall(syscall.SYS_SHMDT, p, 0, 0)
		mem := unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&p))), n)
		peek = func(at int) (byte, error) { return mem[at], nil }
		poke = func(at int, v byte) error { mem[at] = v; return nil }
	}
	a, err := o.open(0)
	if err != nil {
		return err
	}
	defer a.Close()
	b, err := o.open(1)
	if err != nil {
		return err
	}
	defer b.Close()
	if len(a.Bytes()) != n || len(b.Bytes()) != n {
		return fmt.Errorf("handles have %d and %d bytes", len(a.Bytes()), len(b.Bytes()))
	}
	at := map[int]bool{0: true, n - 1: true, n / 2: true}
	for p := 1; p < n; p *= 2 {
		for d := -1; d <= 1; d++ {
			if q := p + d; q >= 0 && q < n && (p >= 4096 || d == 0) {
				at[q] = true
			}
			if q := n - p + d; q >= 0 && q < n {
				at[q] = true
			}
		}
	}
	i := 0
	for q := range at {
		if a.Bytes()[q] != 0 {
			return fmt.Errorf("byte %d is not zero", q)
		}
		i++
		v := byte(i%250 + 1)
		switch i % 3 {
		case 0:
			a.Bytes()[q] = v
		case 1:
			b.Bytes()[q] = v
		case 2:
			if err := poke(q, v); err != nil {
				return err
			}
		}
		g, err := peek(q)
		if err != nil {
			return err
		}
		if a.Bytes()[q] != v || b.Bytes()[q] != v || g != v {
			return fmt.Errorf("byte %d was set to %x and is %x, %x and %x outside", q, v, a.Bytes()[q], b.Bytes()[q], g)
		}
		a.Bytes()[q] = 0
	}
	// created through the code: an existing segment of this size, or a file cut to it
	c, err := o.create()
	if err != nil {
		return err
	}
	if len(c.Bytes()) != n {
		return fmt.Errorf("created with %d bytes", len(c.Bytes()))
	}
	c.Bytes()[n-1] = 9
	if g, err := peek(n - 1); err != nil || g != 9 {
		return fmt.Errorf("the last byte is %x: %v", g, err)
	}
	r.Eval(1)
	return c.Close()
}

// oneKey checks that the two keys are two objects with exactly these numbers.
func oneKey(base, x int32) error {
	if x == 0 || x == base {
		return nil
	}
	for _, k := range []int32{base, x} {
		if _, err := rawGet(k, 4, 0x200|0x400|0600); err != nil {
			if k == x { // somebody else's
				rawRemove(base)
				return nil
			}
			return err
		}
		defer rawRemove(k)
	}
	rawAccess(base, 4, []byte("base"))
	rawAccess(x, 4, []byte("xxxx"))
	for k, w := range map[int32]string{base: "base", x: "xxxx"} {
		for _, s := range []string{strconv.Itoa(int(k)), "+" + strconv.Itoa(int(k))} {
			if s[0] == '+' && k < 0 {
				continue
			}
			c, err := cache.NewCache("shmkey:" + s)
			if s[0] == '+' && err != nil {
				continue
			}
			if err != nil {
				return fmt.Errorf("key %d: %v", k, err)
			}
			if string(c.Bytes()) != w {
				return fmt.Errorf("key %d selects %q, want %q", k, c.Bytes(), w)
			}
			c.Close()
		}
		c, err := cache.CreateKey(int(k), 4)
		if err != nil {
			return err
		}
		if string(c.Bytes()) != w {
			return fmt.Errorf("creating existing key %d gives %q, want %q", k, c.Bytes(), w)
		}
		c.Close()
	}
	if err := cache.RemoveKey(int(x)); err != nil {
		return err
	}
	if _, err := rawGet(x, 0, 0); err == nil {
		return fmt.Errorf("key %d is still there after removal", x)
	}
	if _, err := rawGet(base, 0, 0); err != nil {
		return fmt.Errorf("removing key %d removed %d", x, base)
	}
	return nil
}
