// C29: calls may be made from several goroutines at once.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"syscall"
	"time"

	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"

	"verifmc/kit"
	"verifmc/show"
	"verifmc/vx"
)

func main() {
	if os.Getenv("GORACE") == "" {
		// a data race ends the process, which is a violation
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		panic(syscall.Exec(self, os.Args, append(os.Environ(), "GORACE=history_size=7 halt_on_error=1 exitcode=66 atexit_sleep_ms=0")))
	}
	if p := os.Getenv("C29_CALLS"); p != "" {
		fresh(p)
		return
	}
	kit.Main(kit.Config{
		ID: "C29", Level: kit.ModelChecking,
		Rule:        "every pair of the calls in the notes (and, in the thorough tier, every triple of the calls without files), each group in a process of its own in which nothing was called before, with every schedule of the stated number of preemptions, under the race detector; the results and the files are compared with those of the calls made alone; a state is what all threads have done so far",
		Assumptions: []string{"a call which changes something and one which looks at the same are C13; here they need only be free of data races and end", "two calls without synchronisation and without data race do not see the order in which their memory accesses take place"},
		CaseTimeout: 10 * time.Minute,
		Body:        body,
	})
}

type result struct {
	Value string
	Err   bool
}

func (r result) String() string { return fmt.Sprintf("%.700s (error %v)", r.Value, r.Err) }

// raw is what a call gave: it is looked at after all threads have ended, as looking at it might
// order the threads.
type raw struct {
	v   interface{}
	err error
}

func outcome(f func() (interface{}, error)) (r raw) {
	r.v, r.err = f()
	return r
}

func (r raw) result() result {
	if r.err != nil {
		return result{"", true}
	}
	return result{show.Value(r.v), false}
}

// clock gives times and random numbers.
func clock(o vsched.Op) vsched.Act {
	switch o.Kind {
	case "time":
		return vsched.Act{Do: vsched.Value, N: 1600000000}
	case "rand", "seed":
		return vsched.Act{Do: vsched.Value, N: 7 + 100*int64(o.ID)}
	}
	return vsched.Act{}
}

// group is what a fresh process does.
type group struct {
	Calls []int
	Bound int
	Times int // the calls behind the first are made, while that one is made once
	Dir   string
	Alone []result // of each call in its place
}

type report struct {
	Err                  string
	Evals, Trans, Traces int64
	States               int
}

// fresh runs a group of calls at the same time, before anything else is called.
func fresh(arg string) {
	var g group
	in, err := os.ReadFile(arg)
	must(err)
	must(json.Unmarshal(in, &g))
	r := kit.Bare(g.Dir)
	var rep report
	err = kit.Guard(func() error { return together(r, g) })
	if err != nil {
		rep.Err = err.Error()
	}
	rep.Evals, rep.Trans, rep.Traces, rep.States = r.Counts()
	b, err := json.Marshal(rep)
	must(err)
	must(os.WriteFile(filepath.Join(g.Dir, "report"), b, 0644))
}

func together(r *kit.Run, g group) error {
	all := calls()
	home := filepath.Join(g.Dir, "home")
	writes, looks := false, false
	for _, i := range g.Calls {
		writes = writes || all[i].write
		looks = looks || all[i].all
	}
	first := true
	return vx.Explore(r, 0, func(e *vx.Exec) error {
		if first || writes {
			// made by the parent, before the first call
			if !first {
				setup(home)
			}
			first = false
		}
		var l []call
		for _, i := range g.Calls {
			l = append(l, all[i])
		}
		w := attach(home, l...)
		defer w.close()
		got := make([]raw, len(g.Calls))
		var bodies []func()
		for k, i := range g.Calls {
			k, c := k, all[i]
			bodies = append(bodies, func() {
				for n := 1; k > 0 && n < g.Times; n++ {
					c.run(w, k)
				}
				got[k] = outcome(func() (interface{}, error) { return c.run(w, k) })
			})
		}
		vsched.Env = clock
		var out vsched.Outcome
		var tr *vx.Trace
		if g.Times > 0 {
			vsched.MaxSteps = 20000 * g.Times
			out, tr = vx.Interrupted(r, e, bodies...)
		} else {
			out, tr = vx.Threads(r, e, g.Bound, bodies...)
		}
		vsched.Env = nil
		vsched.Reset()
		if tr.Redundant {
			return nil
		}
		if err := vx.Failure(out); err != nil {
			return fmt.Errorf("%v\n    %v", err, tr)
		}
		r.Trace()
		if writes && looks {
			return nil
		}
		for k, i := range g.Calls {
			if x := got[k].result(); x != g.Alone[k] {
				return fmt.Errorf("%s gives %s, alone it gives %s\n    %v", all[i].name, x, g.Alone[k], tr)
			}
		}
		return nil
	})
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func body(r *kit.Run) {
	all := calls()
	r.Note("calls", len(all))
	self, err := os.Executable()
	must(err)
	// what each call gives in each place
	var alone [][]result
	one := func(i, place int) (result, error) {
		for len(alone) <= i {
			alone = append(alone, nil)
		}
		for len(alone[i]) <= place {
			home := filepath.Join(r.Dir("alone"), "home")
			setup(home)
			w := attach(home, all[i])
			var x raw
			k := len(alone[i])
			p := vx.Single(func(o vsched.Op) vsched.Act { o.ID = k; return clock(o) }, func() { x = outcome(func() (interface{}, error) { return all[i].run(w, k) }) })
			vsched.Reset()
			w.close()
			if f := p.Failure(); f != nil {
				return x.result(), fmt.Errorf("%s alone: %v", all[i].name, f)
			}
			alone[i] = append(alone[i], x.result())
		}
		return alone[i][place], nil
	}
	times := 0
	run := func(bound int, l ...int) {
		name := ""
		times := times
		if times > 0 {
			name = fmt.Sprintf("%d times during a call: ", times)
		}
		for _, i := range l {
			name += all[i].name + ", "
		}
		r.Check(fmt.Sprintf("%sat the same time, %d preemptions", name, bound), func() error {
			g := group{Calls: l, Bound: bound, Times: times, Dir: r.Dir("g")}
			for k, i := range l {
				x, err := one(i, k)
				if err != nil {
					return err
				}
				g.Alone = append(g.Alone, x)
			}
			setup(filepath.Join(g.Dir, "home"))
			b, err := json.Marshal(g)
			must(err)
			must(os.WriteFile(filepath.Join(g.Dir, "group"), b, 0644))
			c := exec.Command(self)
			var stderr bytes.Buffer
			c.Stderr = &stderr
			c.Dir = g.Dir
			c.Env = append(os.Environ(), "C29_CALLS="+filepath.Join(g.Dir, "group"), "GOMAXPROCS=2")
			if err := c.Run(); err != nil {
				s := stderr.String()
				if len(s) > 4000 {
					s = s[:4000]
				}
				return fmt.Errorf("%v\n%s", err, s)
			}
			var rep report
			b, err = os.ReadFile(filepath.Join(g.Dir, "report"))
			must(err)
			must(json.Unmarshal(b, &rep))
			r.Eval(int(rep.Evals))
			r.Trans(int(rep.Trans))
			for i := int64(0); i < rep.Traces; i++ {
				r.Trace()
			}
			for i := 0; i < rep.States; i++ {
				r.State(kit.Hash(name, strconv.Itoa(i)))
			}
			if rep.Err != "" {
				return fmt.Errorf("%s", rep.Err)
			}
			return nil
		})
	}
	r.Section("pairs")
	bound := kit.Pick(r, 1, 2)
	r.Note("preemptions", bound)
	r.Note("preemptions of calls with much to read", 1)
	for i := range all {
		for j := 0; j <= i; j++ {
			if all[i].long == all[j].long {
				if all[i].long {
					run(1, i, j)
				} else {
					run(bound, i, j)
				}
			}
		}
	}
	// a store of a number of buffers is used up
	r.Section("a call many times during another")
	for i := range all {
		if all[i].write {
			continue
		}
		times = kit.Pick(r, 100, 1000)
		if all[i].files {
			times = kit.Pick(r, 50, 500)
		}
		if all[i].long {
			times = kit.Pick(r, 10, 100)
		}
		run(1, i, i)
		times = 0
	}
	if r.Thorough {
		r.Section("triples of calls without files")
		for i := range all {
			for j := 0; j <= i; j++ {
				for k := 0; k <= j; k++ {
					if all[i].long || all[j].long || all[k].long || all[i].files || all[j].files || all[k].files {
						continue
					}
					run(1, i, j, k)
				}
			}
		}
	}
}
