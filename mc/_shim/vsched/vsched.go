// Package vsched runs the program under the control of the explorer: every operation on files,
// locks, the clock, random numbers and shared variables comes here before it takes place.
package vsched

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sync"
	"unsafe"
)

// Op is an operation which is about to take place.
type Op struct {
	Kind  string // open read write seek ...
	Name  string // of the file
	N     int64  // bytes, flags or the upper limit of a random number
	ID    int    // of the thread
	Ready func() bool
}

func (o Op) String() string { return fmt.Sprintf("%s %s %d", o.Kind, o.Name, o.N) }

// What is done to an operation.
const (
	Pass  = iota
	Fail  // with Err; reads and writes process N bytes before
	Short // processes N bytes only, without an error
	Crash // the process dies; a write has written N bytes
	Value // a number is chosen: N
)

// Act is the decision about an operation.
type Act struct {
	Do  int
	N   int64
	Err error
}

// Env decides about every operation, nil passes all.
var Env func(Op) Act

// Crashed is the panic of a crash, Ended of a program which ends itself, Budget of a call
// which does not come to an end, Stuck of one which waits for ever.
type (
	Crashed struct{}
	Ended   struct{ What string }
	Budget  struct{}
	Stuck   struct{}
	killed  struct{}
)

// MaxSteps is the number of operations after which an execution is given up as endless.
var MaxSteps = 20000

var (
	steps int
	dead  interface{} // why the execution is over
	gen   uint64      = 1

	// Processes is set when the threads stand for processes, which share files only.
	Processes bool
)

// Gen is the number of the execution.
//
//go:norace
func Gen() uint64 { return gen }

// Reset begins an execution.
//
//go:norace
func Reset() {
	steps, dead = 0, nil
	gen++
	resetFiles()
}

// Steps of this execution.
//
//go:norace
func Steps() int { return steps }

// Thread is a controlled thread.
type Thread struct {
	ID       int
	Body     func()
	wake     chan bool
	op       Op
	act      Act
	started  bool
	yielded  int // it goes on when another one has done a step after this one
	finished bool
	mark     byte
	ran, was int // its last step which got on, and the one before
	// Panic is what it ended with
	Panic interface{}
	Stack string
}

var (
	cur     *Thread
	back    chan *Thread
	threads []*Thread
	active  bool
	wg      *sync.WaitGroup
)

// Pending is what the thread is about to do.
func Pending(t *Thread) Op { return t.op }

// Active says whether threads are being explored.
//
//go:norace
func Active() bool { return cur != nil }

// Slot is the number of the process which runs.
//
//go:norace
func Slot() int {
	if Processes && cur != nil {
		return cur.ID & 15
	}
	return 0
}

// Point is called before every operation.
//
//go:norace
func Point(op Op) Act {
	t := cur
	if t == nil {
		return single(op)
	}
	if dead != nil {
		panic(killed{})
	}
	op.ID = t.ID
	t.op = op
	raceRelease(unsafe.Pointer(&t.mark))
	raceDisable()
	back <- t
	ok := <-t.wake
	raceEnable()
	if !ok {
		panic(killed{})
	}
	if t.act.Do == Crash && !isWrite(op.Kind) {
		panic(Crashed{})
	}
	return t.act
}

func isWrite(kind string) bool { return kind == "write" || kind == "writeat" }

func single(op Op) Act {
	if dead != nil {
		panic(dead)
	}
	steps++
	if steps > MaxSteps {
		over(Budget{})
	}
	if op.Ready != nil && !op.Ready() {
		over(Stuck{})
	}
	if Env == nil {
		return Act{}
	}
	a := Env(op)
	if a.Do == Crash {
		if !isWrite(op.Kind) {
			Die()
		}
	}
	return a
}

// Die is called when the process has crashed: nothing takes place any more.
func Die() { over(Crashed{}) }

func over(why interface{}) {
	dead = why
	panic(why)
}

// Exit is called when the program ends itself.
func Exit(what string) { over(Ended{what}) }

// Outcome of Run.
type Outcome struct {
	Deadlock, Endless bool
	Where             []string // what the threads wait for
	Threads           []*Thread
	Steps             int
	Crashed, Pruned   bool
	Ended             string
}

// Run runs the bodies as threads. choose is given the operations of the threads which can
// go on (the one which ran last first when runsOn is set) and returns the one which does.
//
//go:norace
func Run(choose func(enabled []*Thread, runsOn bool) int, bodies ...func()) Outcome {
	back = make(chan *Thread)
	threads = nil
	wg = &sync.WaitGroup{}
	for _, b := range bodies {
		spawn(b)
	}
	var last *Thread
	out := Outcome{}
	buf := make([]*Thread, 0, 8)
	for {
		enabled := buf[:0]
		runsOn := false
		left := 0
		for pass := 0; pass < 2 && len(enabled) == 0; pass++ {
			if last != nil && !last.finished && ready(last) && (pass > 0 || last.yielded == 0) {
				enabled = append(enabled, last)
				runsOn = last.yielded == 0
			}
			left = 0
			for i := 0; i < len(threads); i++ {
				t := threads[i]
				if t.finished {
					continue
				}
				left++
				if t != last && ready(t) && (pass > 0 || t.yielded == 0 || t.yielded < others(t)) {
					enabled = append(enabled, t)
				}
			}
		}
		if left == 0 {
			if e, ok := dead.(Ended); ok {
				out.Ended = e.What
			}
			_, out.Crashed = dead.(Crashed)
			break
		}
		steps++
		if len(enabled) == 0 || steps > MaxSteps || dead != nil {
			if dead != nil {
				_, out.Crashed = dead.(Crashed)
				if e, ok := dead.(Ended); ok {
					out.Ended = e.What
				}
			} else if len(enabled) == 0 {
				out.Deadlock = true
			} else {
				out.Endless = true
			}
			for _, t := range threads {
				if !t.finished {
					out.Where = append(out.Where, fmt.Sprintf("thread %d at %s", t.ID, t.op.String()))
				}
			}
			abort()
			break
		}
		next := choose(enabled, runsOn)
		if next < 0 { // not worth to go on
			out.Pruned = true
			abort()
			break
		}
		t := enabled[next]
		last = t
		t.was, t.ran = t.ran, steps
		t.yielded = 0
		t.act = Act{}
		if t.started && Env != nil && t.op.Kind != "start" {
			t.act = Env(t.op)
			if t.act.Do == Crash && !isWrite(t.op.Kind) {
				out.Crashed = true
				cur = nil
				abort()
				break
			}
		}
		resume(t)
	}
	cur = nil
	wg.Wait()
	out.Threads, out.Steps = threads, steps
	return out
}

// others is the last step of the other threads.
//
//go:norace
func others(t *Thread) (n int) {
	for i := 0; i < len(threads); i++ {
		if o := threads[i]; o != t && o.ran > n {
			n = o.ran
		}
	}
	return
}

// Yield is called before an operation which repeats one that failed: another thread goes first.
//
//go:norace
func Yield() {
	if cur != nil {
		cur.yielded, cur.ran = steps, cur.was
	}
}

//go:norace
func ready(t *Thread) bool { return t.op.Ready == nil || t.op.Ready() }

//go:norace
func resume(t *Thread) {
	cur = t
	t.started = true
	raceDisable()
	t.wake <- true
	t = <-back
	raceEnable()
	raceAcquire(unsafe.Pointer(&t.mark))
	cur = nil
}

// abort ends all threads.
//
//go:norace
func abort() {
	if dead == nil {
		dead = Crashed{}
	}
	for i := 0; i < len(threads); i++ {
		t := threads[i]
		for !t.finished {
			cur = t
			raceDisable()
			t.wake <- false
			<-back
			raceEnable()
		}
		t.finished = true
	}
	cur = nil
}

//go:norace
func spawn(f func()) *Thread {
	t := &Thread{ID: len(threads), Body: f, wake: make(chan bool), op: Op{Kind: "start"}}
	threads = append(threads, t)
	wg.Add(1)
	go thread(t)
	return t
}

//go:norace
func thread(t *Thread) {
	defer finish(t)
	raceDisable()
	ok := <-t.wake
	raceEnable()
	if !ok {
		panic(killed{})
	}
	t.Body()
}

//go:norace
func finish(t *Thread) {
	if p := recover(); p != nil {
		if _, ok := p.(killed); !ok {
			t.Panic = p
			t.Stack = string(debug.Stack())
		}
	}
	t.finished = true
	wg.Done()
	raceRelease(unsafe.Pointer(&t.mark))
	raceDisable()
	back <- t
	raceEnable()
}

// Go starts a goroutine of the program.
func Go(fn interface{}, args ...interface{}) {
	v := reflect.ValueOf(fn)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		ty := v.Type()
		var want reflect.Type
		if ty.IsVariadic() && i >= ty.NumIn()-1 {
			want = ty.In(ty.NumIn() - 1).Elem()
		} else {
			want = ty.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(want)
		} else {
			in[i] = reflect.ValueOf(a).Convert(want)
		}
	}
	body := func() { v.Call(in) }
	if cur == nil {
		go body()
		return
	}
	spawn(body)
	Point(Op{Kind: "go"})
}

// ---------------------------------------------------------------- open files

// File is what is closed when the process dies.
type File interface {
	RealClose() error
	Label() string
}

var files []File

// Opened notes an open file.
//
//go:norace
func Opened(f File) {
	if tracking {
		files = append(files, f)
	}
}

// Closed notes that it is closed.
//
//go:norace
func Closed(f File) {
	if tracking {
		for i, g := range files {
			if g == f {
				files = append(files[:i:i], files[i+1:]...)
				return
			}
		}
	}
}

// OpenFiles are the names of the open files.
func OpenFiles() (names []string) {
	for _, f := range files {
		names = append(names, f.Label())
	}
	return
}

func resetFiles() {
	for _, f := range files {
		f.RealClose()
	}
	files = nil
}

// CloseAll closes all files, as the end of a process does.
func CloseAll() { resetFiles() }
