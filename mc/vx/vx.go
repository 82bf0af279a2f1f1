// Package vx explores executions of the instrumented code: all choices of schedules, faults,
// crashes, clock values and random numbers are made in depth first order.
package vx

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"

	"verifmc/kit"
)

// Exec is one execution: the choices made so far and those to make again.
type Exec struct {
	pick, of []int
	pos      int
	changed  bool // the program did not repeat itself
}

// Choose returns one of 0..n-1.
func (e *Exec) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if e.pos < len(e.pick) {
		k := e.pick[e.pos]
		if e.of[e.pos] != n {
			e.changed = true
			e.of[e.pos] = n
			if k >= n {
				k = n - 1
				e.pick[e.pos] = k
			}
		}
		e.pos++
		return k
	}
	e.pick = append(e.pick, 0)
	e.of = append(e.of, n)
	e.pos++
	return 0
}

// next moves to the next execution.
func (e *Exec) next() bool {
	e.pick, e.of = e.pick[:e.pos], e.of[:e.pos]
	for i := len(e.pick) - 1; i >= 0; i-- {
		if e.pick[i]+1 < e.of[i] {
			e.pick, e.of = e.pick[:i+1], e.of[:i+1]
			e.pick[i]++
			e.pos = 0
			return true
		}
	}
	return false
}

// Path describes the choices.
func (e *Exec) Path() string { return strings.Trim(fmt.Sprint(e.pick[:e.pos]), "[]") }

// Explore runs f for all choices. max is the number of executions at which it stops (0: none).
func Explore(r *kit.Run, max int, f func(e *Exec) error) error {
	e := &Exec{}
	for n := 1; ; n++ {
		err := f(e)
		r.Eval(1)
		if err != nil {
			return fmt.Errorf("execution %d (choices %s): %w", n, e.Path(), err)
		}
		if e.changed {
			r.Note("executions which did not repeat", "yes")
		}
		if !e.next() {
			return nil
		}
		if max > 0 && n >= max {
			r.Capped()
			r.Note("executions capped at", max)
			return nil
		}
		if n&255 == 0 && r.Left() < 0 {
			r.Capped()
			return nil
		}
	}
}

// Trace is a schedule as it went.
type Trace struct {
	Steps []string
	hash  []uint64 // of what each thread did
	Pre   int
	// Redundant: another schedule has the same effects
	Redundant bool
}

func (t *Trace) String() string {
	s := t.Steps
	if len(s) > 80 {
		s = append(append([]string{}, s[:80]...), "...")
	}
	return strings.Join(s, "\n    ")
}

// Unbounded is a bound of preemptions which is none. Schedules which differ by the order of
// independent operations only are explored once then (sleep sets).
const Unbounded = 1 << 30

// Threads runs bodies as threads with all schedules of at most bound preemptions.
func Threads(r *kit.Run, e *Exec, bound int, bodies ...func()) (vsched.Outcome, *Trace) {
	tr := &Trace{hash: make([]uint64, len(bodies)+16)}
	sleep := map[int]bool{}
	out := vsched.Run(func(en []*vsched.Thread, runsOn bool) int {
		k := 0
		if bound == Unbounded {
			var awake []int
			for i, t := range en {
				if !sleep[t.ID] {
					awake = append(awake, i)
				}
			}
			if len(awake) == 0 {
				tr.Redundant = true
				return -1
			}
			n := e.Choose(len(awake))
			for _, i := range awake[:n] {
				sleep[en[i].ID] = true
			}
			k = awake[n]
			for _, t := range en {
				if sleep[t.ID] && Dependent(vsched.Pending(t), vsched.Pending(en[k])) {
					delete(sleep, t.ID)
				}
			}
		} else if !runsOn || tr.Pre < bound {
			k = e.Choose(len(en))
			if runsOn && k > 0 {
				tr.Pre++
			}
		}
		r.Trans(1)
		t := en[k]
		op := vsched.Pending(t).String()
		tr.Steps = append(tr.Steps, fmt.Sprintf("%d: %s", t.ID, op))
		id := t.ID % len(tr.hash)
		tr.hash[id] = tr.hash[id]*1099511628211 ^ kit.Hash(op)
		var h uint64
		for i, x := range tr.hash {
			h = h*31 + x*uint64(i*2+1)
		}
		r.State(h)
		return k
	}, bodies...)
	return out, tr
}

// Interrupted runs the first body until one of its operations, then the others to their end, then
// the rest of the first: with every operation there is.
func Interrupted(r *kit.Run, e *Exec, bodies ...func()) (vsched.Outcome, *Trace) {
	tr := &Trace{hash: make([]uint64, len(bodies)+16)}
	out := vsched.Run(func(en []*vsched.Thread, runsOn bool) int {
		k := 0
		if !runsOn || tr.Pre == 0 && en[0].ID == 0 {
			k = e.Choose(len(en))
			if runsOn && k > 0 {
				tr.Pre++
			}
		}
		r.Trans(1)
		if len(tr.Steps) < 200 {
			tr.Steps = append(tr.Steps, fmt.Sprintf("%d: %s", en[k].ID, vsched.Pending(en[k]).String()))
		}
		return k
	}, bodies...)
	return out, tr
}

// effect of an operation on its file.
type effect struct {
	reads, writes   bool // the content
	looks, enters   bool // the name
	locks           bool
	nothing, global bool
}

// What the clock and the random numbers of a thread give must be chosen for each thread apart.
func effectOf(o vsched.Op) effect {
	switch o.Kind {
	case "start", "seek", "sync", "chmod", "chtimes", "time", "rand", "seed":
		return effect{nothing: true}
	case "read", "readat", "fstat":
		return effect{reads: true}
	case "write", "writeat", "ftruncate":
		return effect{writes: true}
	case "open":
		return effect{looks: true}
	case "stat":
		return effect{looks: true, reads: true}
	case "create":
		return effect{looks: true, enters: true, reads: true, writes: o.N&int64(os.O_TRUNC) != 0}
	case "truncate":
		return effect{looks: true, writes: true}
	case "lock", "unlock", "wait", "close":
		return effect{locks: true}
	case "var":
		return effect{reads: true, writes: true}
	}
	return effect{global: true}
}

// Dependent says whether the order of two operations can make a difference. The names of the
// files are enough as no two of a home which matter have the same.
func Dependent(a, b vsched.Op) bool {
	x, y := effectOf(a), effectOf(b)
	switch {
	case x.nothing || y.nothing:
		return false
	case x.global || y.global:
		return true
	case a.Name != b.Name:
		return false
	}
	return x.writes && (y.writes || y.reads) || y.writes && x.reads || x.enters && (y.enters || y.looks) || y.enters && x.looks || x.locks && y.locks
}

// Failure says what went wrong with an execution as such.
func Failure(out vsched.Outcome) error {
	for _, t := range out.Threads {
		if t.Panic != nil {
			if _, ok := t.Panic.(vsched.Crashed); ok {
				continue
			}
			if x, ok := t.Panic.(vsched.Ended); ok {
				return fmt.Errorf("thread %d ends the program: %s", t.ID, x.What)
			}
			st := t.Stack
			if len(st) > 2500 {
				st = st[:2500]
			}
			return fmt.Errorf("thread %d panics: %v\n%s", t.ID, t.Panic, st)
		}
	}
	switch {
	case out.Deadlock:
		return fmt.Errorf("deadlock: %s", strings.Join(out.Where, ", "))
	case out.Endless:
		return fmt.Errorf("it does not come to an end: %s", strings.Join(out.Where, ", "))
	case out.Ended != "":
		return fmt.Errorf("the program is ended: %s", out.Ended)
	}
	return nil
}

// Panic is how an execution ended, if not by returning.
type Panic struct {
	What  interface{}
	Stack string
}

// Crashed says whether it was a crash which the explorer made.
func (p *Panic) Crashed() bool {
	if p == nil {
		return false
	}
	_, ok := p.What.(vsched.Crashed)
	return ok
}

// Failure is an error unless it was a crash which the explorer made.
func (p *Panic) Failure() error {
	if p == nil || p.Crashed() {
		return nil
	}
	switch w := p.What.(type) {
	case vsched.Ended:
		return fmt.Errorf("it ends the program: %s", w.What)
	case vsched.Budget:
		return fmt.Errorf("it does not come to an end")
	case vsched.Stuck:
		return fmt.Errorf("it waits for ever")
	}
	return fmt.Errorf("it panics: %v\n%s", p.What, p.Stack)
}

// Single runs f alone under env.
func Single(env func(vsched.Op) vsched.Act, f func()) (p *Panic) {
	vsched.Reset()
	vsched.Env = env
	defer func() {
		vsched.Env = nil
		if w := recover(); w != nil {
			st := string(debug.Stack())
			if len(st) > 2500 {
				st = st[:2500]
			}
			p = &Panic{w, st}
		}
	}()
	f()
	return nil
}
