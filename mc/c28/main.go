// C28: reading changes nothing, and what was read belongs to the reader.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"

	"verifmc/kit"
	"verifmc/pb"
	"verifmc/show"
)

func main() {
	if h := os.Getenv("C28_HOME"); h != "" {
		stranger(h)
		return
	}
	kit.Main(kit.Config{
		ID: "C28", Level: kit.Exploration,
		Rule:        "all sequences of the stated forms over the reading calls and changes in the notes, from each state of the home, once keeping all results and once overwriting all that a caller can; a state is a tree of files with the call which reads it",
		Assumptions: []string{"a draft made of a slice keeps that slice", "mapped files must be opened for writing as others write to them", "access times of files do not count"},
		CaseTimeout: 5 * time.Minute,
		Body:        body,
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---------------------------------------------------------------- what is stored

type snap map[string]string

func take(dir string) snap {
	s := snap{}
	for name, b := range pb.Tree(dir) {
		var st syscall.Stat_t
		must(syscall.Lstat(filepath.Join(dir, name), &st))
		s[name] = fmt.Sprintf("%o %d %d %d %d.%d %s", st.Mode, st.Uid, st.Nlink, st.Ino, st.Mtim.Sec, st.Mtim.Nsec, b)
	}
	return s
}

func (s snap) same(t snap) error { return pb.TreeDiff(s, t) }

func hashOf(t map[string]string) uint64 {
	var l []string
	for k := range t {
		l = append(l, k)
	}
	sort.Strings(l)
	var h []string
	for _, k := range l {
		h = append(h, k, t[k])
	}
	return kit.Hash(h...)
}

func restore(dir string, t map[string]string) {
	must(os.RemoveAll(dir))
	for k := range t {
		if strings.HasSuffix(k, "/") {
			must(os.MkdirAll(filepath.Join(dir, k), 0755))
		}
	}
	for k, v := range t {
		if !strings.HasSuffix(k, "/") {
			must(os.MkdirAll(filepath.Dir(filepath.Join(dir, k)), 0755))
			must(os.WriteFile(filepath.Join(dir, k), []byte(v), 0644))
		}
	}
}

// ---------------------------------------------------------------- looking at results

// render prints a value with all that its methods say. The home is at different places.
func render(home string, v interface{}, err error) string {
	var b strings.Builder
	if err != nil {
		// what the error says may differ, not that there is one
		b.WriteString("error ")
	}
	b.WriteString(show.Value(v))
	says(&b, reflect.ValueOf(&v).Elem(), 0)
	return strings.ReplaceAll(b.String(), home, "HOME")
}

var silent = map[string]bool{"Close": true}

func methods(v reflect.Value, f func(name string, m reflect.Value)) {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() || !v.CanInterface() || v.NumMethod() == 0 || v.Kind() == reflect.Ptr && v.IsNil() {
		return
	}
	if p := v.Type().PkgPath(); v.Kind() == reflect.Ptr {
		p = v.Type().Elem().PkgPath()
		if !strings.HasPrefix(p, "github.com/Ptt") {
			return
		}
	} else if !strings.HasPrefix(p, "github.com/Ptt") {
		return
	}
	for i := 0; i < v.NumMethod(); i++ {
		f(v.Type().Method(i).Name, v.Method(i))
	}
}

func says(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 8 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			says(b, v.Elem(), depth)
		}
		return
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			says(b, v.Index(i), depth+1)
		}
		return
	}
	methods(v, func(name string, m reflect.Value) {
		if m.Type().NumIn() != 0 || m.Type().NumOut() == 0 || silent[name] {
			return
		}
		fmt.Fprintf(b, " %s=", name)
		for _, x := range m.Call(nil) {
			if x.Kind() == reflect.Interface && x.Type() == reflect.TypeOf((*error)(nil)).Elem() {
				fmt.Fprint(b, !x.IsNil())
				continue
			}
			b.WriteString(show.Value(x.Interface()))
			if x.Kind() == reflect.Slice {
				says(b, x, depth+1)
			}
		}
	})
}

// ---------------------------------------------------------------- overwriting results

// scribble changes all of a value which a caller can.
func scribble(v interface{}) { overwrite(reflect.ValueOf(&v).Elem(), map[uintptr]bool{}, 0) }

// try calls a method of a value of which parts may be gone already.
func try(m reflect.Value, a ...reflect.Value) (out []reflect.Value) {
	defer func() { recover() }()
	return m.Call(a)
}

func overwrite(v reflect.Value, seen map[uintptr]bool, depth int) {
	if depth > 8 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			overwrite(v.Elem(), seen, depth)
		}
		return
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			all := v.Slice(0, v.Cap()).Bytes()
			for i := range all {
				all[i] ^= 0x5a
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			overwrite(v.Index(i), seen, depth+1)
		}
		all := v.Slice(0, v.Cap())
		for i := 0; i < all.Len(); i++ {
			if all.Index(i).CanSet() {
				all.Index(i).Set(reflect.Zero(all.Type().Elem()))
			}
		}
		return
	case reflect.Map:
		for _, k := range v.MapKeys() {
			overwrite(v.MapIndex(k), seen, depth+1)
			v.SetMapIndex(k, reflect.Value{})
		}
		return
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
	}
	methods(v, func(name string, m reflect.Value) {
		t := m.Type()
		if t.NumIn() == 0 && t.NumOut() > 0 && !silent[name] {
			// what it gives can be changed too
			for _, x := range try(m) {
				overwrite(x, seen, depth+1)
			}
			return
		}
		if t.NumIn() != 1 || !(strings.HasPrefix(name, "Set") || strings.HasPrefix(name, "Add")) {
			return
		}
		var a reflect.Value
		switch t.In(0).Kind() {
		case reflect.String:
			a = reflect.ValueOf("scribbled")
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint16, reflect.Uint32:
			a = reflect.ValueOf(77)
		case reflect.Bool:
			a = reflect.ValueOf(true)
		case reflect.Struct:
			if t.In(0) == reflect.TypeOf(time.Time{}) {
				a = reflect.ValueOf(time.Unix(77, 0))
			}
		}
		if a.IsValid() && a.Type().ConvertibleTo(t.In(0)) {
			try(m, a.Convert(t.In(0)))
		}
	})
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() == reflect.Struct && strings.HasPrefix(v.Type().PkgPath(), "github.com/Ptt") {
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			overwrite(f, seen, depth+1)
			if f.CanSet() {
				f.Set(reflect.Zero(f.Type()))
			}
		}
	}
}

// ---------------------------------------------------------------- histories

type world struct {
	home string
	db   *bbs.DB
	c    pb.Conn
	mem  *pttbbs.Cache
	// args are the arguments of the last call, with what they were
	args []arg
}

type arg struct {
	v   interface{}
	was string
}

// arg makes an argument of a call known: the call may not change it.
func (w *world) arg(v interface{}) { w.args = append(w.args, arg{v, show.Value(v)}) }

func (w *world) close() {
	if w.mem != nil {
		w.mem.Close()
		w.mem = nil
	}
}

func attach(home string) *world {
	w := &world{home: home}
	var err error
	w.db, w.c, err = pb.Open(home)
	must(err)
	return w
}

type seen struct {
	call int
	tree map[string]string
	got  string
}

type memo struct{ want map[uint64]string }

// alone is what a reading call gives where nothing else was called.
func (m *memo) alone(r *kit.Run, l []call, s seen) string {
	k := hashOf(s.tree)*1099511628211 ^ uint64(s.call)
	r.State(k)
	if x, ok := m.want[k]; ok {
		return x
	}
	fresh++
	home := filepath.Join(r.Dir("alone"), fmt.Sprintf("home%d", fresh))
	restore(home, s.tree)
	w := attach(home)
	defer w.close()
	v, err := l[s.call].run(w)
	x := render(home, v, err)
	must(os.RemoveAll(home))
	m.want[k] = x
	return x
}

var fresh int

func short(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func differ(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i > 100 {
		a, b = "..."+a[i-80:], "..."+b[i-80:]
	}
	return short(a) + ", not " + short(b)
}

// what is done with the results
const (
	keeping = iota
	overwriting
	moving // the elements of slices
	dropping
)

var doing = []string{"results kept", "results overwritten", "results moved", "results dropped"}

// shuffle leaves the elements of a slice as they are but not where they are.
func shuffle(v interface{}) {
	s := reflect.ValueOf(v)
	if s.Kind() != reflect.Slice {
		scribble(v)
		return
	}
	if s.Len() < 2 {
		scribble(v)
		return
	}
	swap := reflect.Swapper(v)
	for i := 0; i < s.Len()/2; i++ {
		swap(i, s.Len()-1-i)
	}
}

func history(r *kit.Run, m *memo, l []call, st state, seq []int, how int, watch bool) error {
	top := r.Dir("h")
	fresh++
	home := filepath.Join(top, fmt.Sprintf("home%d", fresh))
	cwd := filepath.Join(top, "cwd")
	must(os.MkdirAll(cwd, 0755))
	must(os.Chdir(cwd))
	st.setup(home)
	w := attach(home)
	defer w.close()
	type kept struct {
		call int
		v    interface{}
		err  error
		was  string
	}
	var results []kept
	var log []seen
	var tree map[string]string
	for i, n := range seq {
		c := l[n]
		w.args = nil
		var before snap
		if watch && !c.write {
			before = take(top)
		}
		v, err := c.run(w)
		r.Eval(1)
		r.Trans(1)
		if !c.write {
			if watch {
				if err := before.same(take(top)); err != nil {
					return fmt.Errorf("step %d, %s: %v", i, c.name, err)
				}
			}
			for _, a := range w.args {
				if x := show.Value(a.v); x != a.was {
					return fmt.Errorf("step %d, %s changed its argument: %s", i, c.name, differ(x, a.was))
				}
			}
			got := render(home, v, err)
			if tree == nil {
				tree = pb.Tree(home)
			}
			log = append(log, seen{n, tree, got})
			if again := render(home, v, err); again != got {
				return fmt.Errorf("step %d, %s: what it gave changes when it is looked at: %s", i, c.name, differ(again, got))
			}
			if how == dropping {
			} else if how != keeping {
				if how == moving {
					shuffle(v)
				} else {
					scribble(v)
				}
				if !watch {
				} else if err := before.same(take(top)); err != nil {
					return fmt.Errorf("step %d, changing what %s gave changed what is stored: %v", i, c.name, err)
				}
			} else {
				results = append(results, kept{n, v, err, got})
			}
		}
		if c.write {
			tree = nil
		}
		if how != keeping {
			for _, a := range w.args {
				scribble(a.v)
			}
		}
		for _, k := range results {
			if len(seq) > times && i < len(seq)-1 {
				break // it takes long
			}
			if x := render(home, k.v, k.err); x != k.was {
				return fmt.Errorf("step %d, %s changed what %s had given: %s", i, c.name, l[k.call].name, differ(x, k.was))
			}
		}
	}
	w.close()
	r.Trace()
	for i, s := range log {
		if want := m.alone(r, l, s); s.got != want {
			return fmt.Errorf("reading call %d, %s, gives %s", i, l[s.call].name, differ(s.got, want))
		}
	}
	must(os.RemoveAll(home))
	return nil
}

// times is how often a reading is made when it is made many times.
const times = 70

func names(l []call, seq []int) string {
	var s []string
	if len(seq) > times && seq[len(seq)-1] == seq[len(seq)-times-1] {
		return fmt.Sprintf("%s, %s %d times", names(l, seq[:len(seq)-times-1]), l[seq[len(seq)-1]].name, times+1)
	}
	if len(seq) > times {
		return fmt.Sprintf("%s %d times, %s", l[seq[0]].name, times+1, names(l, seq[times+1:]))
	}
	for _, n := range seq {
		s = append(s, l[n].name)
	}
	return strings.Join(s, ", ")
}

func body(r *kit.Run) {
	l := calls()
	var reads, writes []int
	for i, c := range l {
		if c.write {
			writes = append(writes, i)
		} else {
			reads = append(reads, i)
		}
	}
	r.Note("reading calls", len(reads))
	r.Note("changes", len(writes))
	m := &memo{map[uint64]string{}}
	defer os.Chdir("/")

	// watch: whether all files are compared before and after each reading
	type mode struct {
		how   int
		watch bool
	}
	all := func(section string, sts []state, form string, modes ...mode) {
		r.Section(section)
		for _, st := range sts {
			var walk func(k int, seq []int)
			walk = func(k int, seq []int) {
				if k == len(form) {
					s := append([]int{}, seq...)
					for _, o := range modes {
						o := o
						r.Check(fmt.Sprintf("%s, %s: %s", st.name, doing[o.how], names(l, s)), func() error { return history(r, m, l, st, s, o.how, o.watch) })
					}
					return
				}
				set := reads
				if form[k] == 'w' {
					set = writes
				}
				if form[k] == 'R' { // the first again
					set = seq[:1]
				}
				if form[k] == 'M' { // the last again, many times
					again := append([]int{}, seq...)
					for i := 0; i < times; i++ {
						again = append(again, seq[len(seq)-1])
					}
					walk(k+1, again)
					return
				}
				if form[k] == 'N' { // the first again, many times
					again := append([]int{}, seq...)
					for i := 0; i < times; i++ {
						again = append(again, seq[0])
					}
					walk(k+1, again)
					return
				}
				for _, n := range set {
					walk(k+1, append(seq, n))
				}
			}
			walk(0, nil)
		}
	}
	sts := states()
	all("a reading many times, a change, the same reading", sts[:2], "rNwR", mode{dropping, false})
	all("a reading many times", sts, "rN", mode{dropping, true}, mode{overwriting, true})
	all("a reading, then another one many times", sts[:kit.Pick(r, 1, len(sts))], "rrM", mode{keeping, false})
	all("two readings", sts, "rr", mode{keeping, true}, mode{overwriting, true}, mode{moving, false})
	if !r.Thorough {
		all("reading, a change, reading", sts[:1], "rwr", mode{keeping, false})
		all("reading, two changes, the same reading", sts[:1], "rwwR", mode{keeping, false})
		all("a change, reading", sts[1:], "wr", mode{keeping, true})
		all("reading, a change, the same reading", sts, "rwR", mode{keeping, false}, mode{overwriting, false}, mode{moving, false})
	} else {
		all("reading, a change, reading", sts, "rwr", mode{keeping, true}, mode{overwriting, true})
		all("reading, two changes, the same reading", sts, "rwwR", mode{keeping, false}, mode{overwriting, false})
		all("three readings", sts[:1], "rrr", mode{keeping, true}, mode{overwriting, false})
		all("two readings, a change, the first reading", sts[:1], "rrwR", mode{keeping, false}, mode{overwriting, false})
		all("reading between changes", sts[:1], "rwrwR", mode{keeping, false})
		all("a reading, three changes, the same reading", sts[:1], "rwwwR", mode{keeping, false})
	}
	everyByte(r, l, sts[0])
	decoders(r)
	manyCalls(r)
	strangers(r, l)
}

// everyByte changes single bytes of the files which a call reads, without a change of their sizes and times,
// and compares with the call at another place which nobody has read.
func everyByte(r *kit.Run, l []call, st state) {
	r.Section("every byte changes alone between two readings")
	size := map[string]int{}
	var files []string
	{
		home := filepath.Join(r.Dir("bytes"), "names")
		st.setup(home)
		for k, v := range pb.Tree(home) {
			if !strings.HasSuffix(k, "/") && len(v) > 0 {
				files = append(files, k)
				size[k] = len(v)
			}
		}
		must(os.RemoveAll(home))
	}
	sort.Strings(files)
	for _, c := range l {
		if c.write {
			continue
		}
		for _, f := range files {
			for from := 0; from < size[f]; from += 512 {
				c, f, from := c, f, from
				r.Check(fmt.Sprintf("every byte, %s, %s from %d", c.name, f, from), func() error {
					top := r.Dir("bytes")
					fresh++
					home, other := filepath.Join(top, fmt.Sprint("hot", fresh)), filepath.Join(top, fmt.Sprint("other", fresh))
					st.setup(home)
					defer func() { os.RemoveAll(home); os.RemoveAll(other) }()
					file := filepath.Join(home, f)
					b, err := os.ReadFile(file)
					must(err)
					look := func(home string) (string, *world) {
						w := attach(home)
						v, err := c.run(w)
						return render(home, v, err), w
					}
					// does it read this file at all
					was, w := look(home)
					w.close()
					bad := append([]byte{}, b...)
					for i := range bad {
						bad[i] ^= 0xff
					}
					must(os.WriteFile(file, bad, 0644))
					now, w := look(home)
					w.close()
					reads := was != now
					must(os.Remove(file))
					if !reads {
						now, w = look(home)
						w.close()
						if was == now {
							return nil
						}
					}
					must(os.RemoveAll(home))
					fresh++
					home = filepath.Join(top, fmt.Sprint("hot", fresh))
					st.setup(home)
					st.setup(other)
					file = filepath.Join(home, f)
					b, err = os.ReadFile(file)
					must(err)
					at := time.Unix(1500000000, 0)
					must(os.Chtimes(file, at, at))
					_, w = look(home)
					defer w.close()
					h, err := os.OpenFile(file, os.O_WRONLY, 0)
					must(err)
					defer h.Close()
					for i := from; i < from+512 && i < len(b); i++ {
						b[i] ^= 1 << uint(i%7)
						_, err := h.WriteAt(b[i:i+1], int64(i))
						must(err)
						must(os.Chtimes(file, at, at))
						v, err := c.run(w)
						got := render(home, v, err)
						r.Eval(1)
						fresh++
						next := filepath.Join(top, fmt.Sprint("other", fresh))
						must(os.Rename(other, next))
						other = next
						must(os.Remove(filepath.Join(other, f)))
						must(os.WriteFile(filepath.Join(other, f), b, 0644))
						want, x := look(other)
						x.close()
						if got != want {
							return fmt.Errorf("after a change of byte %d of %s: %s", i, f, differ(got, want))
						}
					}
					r.Trace()
					return nil
				})
			}
		}
	}
}

// ---------------------------------------------------------------- reading with the right to read only

func strangers(r *kit.Run, l []call) {
	r.Section("reading by a user who may only read")
	self, err := os.Executable()
	must(err)
	for _, st := range states() {
		st := st
		r.Check(st.name, func() error {
			base, err := os.MkdirTemp("/dev/shm", "verif-C28-reader-")
			if err != nil {
				base, err = os.MkdirTemp("/tmp", "verif-C28-reader-")
			}
			must(err)
			defer os.RemoveAll(base)
			must(os.Chmod(base, 0755))
			home := filepath.Join(base, "home")
			st.setup(home)
			want := map[string]string{}
			w := attach(home)
			for _, c := range l {
				if !c.write && !c.mapped {
					v, err := c.run(w)
					want[c.name] = render(home, v, err)
				}
			}
			w.close()
			must(filepath.Walk(home, func(p string, i os.FileInfo, err error) error {
				must(err)
				return os.Chmod(p, map[bool]os.FileMode{true: 0555, false: 0444}[i.IsDir()])
			}))
			b, err := os.ReadFile(self)
			must(err)
			bin := filepath.Join(base, "reader")
			must(os.WriteFile(bin, b, 0755))
			c := exec.Command(bin)
			c.Dir = home
			c.Env = append(os.Environ(), "C28_HOME="+home)
			c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
			out, err := c.Output()
			if err != nil {
				r.Note("a user who may only read", fmt.Sprint("could not be had: ", err))
				return nil
			}
			var got map[string]string
			i := strings.Index(string(out), marker)
			if i < 0 {
				return fmt.Errorf("no results: %s", short(string(out)))
			}
			must(json.Unmarshal(out[i+len(marker):], &got))
			for _, c := range l {
				if c.write || c.mapped {
					continue
				}
				r.Eval(1)
				if got[c.name] != quoted(want[c.name]) {
					return fmt.Errorf("%s gives a user who may only read %s", c.name, differ(got[c.name], want[c.name]))
				}
			}
			return nil
		})
	}
}

const marker = "\nRESULTS "

// quoted is s as JSON keeps it.
func quoted(s string) string { return fmt.Sprintf("%q", s) }

func stranger(home string) {
	w := attach(home)
	got := map[string]string{}
	for _, c := range calls() {
		if !c.write && !c.mapped {
			v, err := c.run(w)
			got[c.name] = quoted(render(home, v, err))
		}
	}
	b, err := json.Marshal(got)
	must(err)
	os.Stdout.WriteString(marker + string(b))
}
