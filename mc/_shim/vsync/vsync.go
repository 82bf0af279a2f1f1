// Package vsync is package sync with locks which the explorer waits for.
package vsync

import (
	"sync"
	"unsafe"

	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"
)

// slots: one state per process when the threads stand for processes.
type slots [16]struct {
	gen     uint64
	writer  bool
	readers int
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	s slots
}

//go:norace
func (m *RWMutex) state() (w *bool, r *int) {
	s := &m.s[vsched.Slot()]
	if g := vsched.Gen(); s.gen != g {
		s.gen, s.writer, s.readers = g, false, 0
	}
	return &s.writer, &s.readers
}

//go:norace
func (m *RWMutex) lock(kind string, read bool) {
	w, r := m.state()
	vsched.Point(vsched.Op{Kind: kind, Ready: func() bool { return !isSet(w) }})
	w, r = m.state()
	if !read && *r > 0 {
		// a writer which waits for the readers keeps new readers off
		*w = true
		vsched.Point(vsched.Op{Kind: kind, Ready: func() bool { return isZero(r) }})
	}
	if read {
		*r++
		acquire(unsafe.Pointer(&m.s[0]))
	} else {
		*w = true
		acquire(unsafe.Pointer(&m.s[0]))
		acquire(unsafe.Pointer(&m.s[1]))
	}
}

//go:norace
func isSet(w *bool) bool { return *w }

//go:norace
func isZero(r *int) bool { return *r == 0 }

//go:norace
func (m *RWMutex) Lock() { m.lock("mutex", false) }

//go:norace
func (m *RWMutex) RLock() { m.lock("rmutex", true) }

//go:norace
func (m *RWMutex) Unlock() {
	w, _ := m.state()
	if !*w {
		panic("sync: unlock of unlocked mutex")
	}
	release(unsafe.Pointer(&m.s[0]))
	*w = false
	vsched.Point(vsched.Op{Kind: "mutexunlock"})
}

//go:norace
func (m *RWMutex) RUnlock() {
	_, r := m.state()
	if *r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	releaseMerge(unsafe.Pointer(&m.s[1]))
	*r--
	vsched.Point(vsched.Op{Kind: "mutexunlock"})
}

//go:norace
func (m *RWMutex) TryLock() bool {
	vsched.Point(vsched.Op{Kind: "trymutex"})
	w, r := m.state()
	if *w || *r > 0 {
		vsched.Yield()
		return false
	}
	*w = true
	acquire(unsafe.Pointer(&m.s[0]))
	acquire(unsafe.Pointer(&m.s[1]))
	return true
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

func (m *RWMutex) RLocker() Locker { return &rlocker{m} }

type rlocker struct{ m *RWMutex }

func (l *rlocker) Lock()   { l.m.RLock() }
func (l *rlocker) Unlock() { l.m.RUnlock() }

// Mutex is sync.Mutex.
type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }

// Once is sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup is sync.WaitGroup.
type WaitGroup struct{ n int }

//go:norace
func (w *WaitGroup) Add(n int) {
	releaseMerge(unsafe.Pointer(w))
	w.n += n
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	vsched.Point(vsched.Op{Kind: "wg"})
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	vsched.Point(vsched.Op{Kind: "wgwait", Ready: func() bool { return zero(w) }})
	acquire(unsafe.Pointer(w))
}

//go:norace
func zero(w *WaitGroup) bool { return w.n == 0 }

// Cond is sync.Cond.
type Cond struct {
	L              Locker
	next, released int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	t := c.next
	c.next++
	c.L.Unlock()
	vsched.Point(vsched.Op{Kind: "cond", Ready: func() bool { return c.free(t) }})
	acquire(unsafe.Pointer(c))
	c.L.Lock()
}

//go:norace
func (c *Cond) free(t int) bool { return c.released > t }

//go:norace
func (c *Cond) Signal() {
	releaseMerge(unsafe.Pointer(c))
	if c.released < c.next {
		c.released++
	}
	vsched.Point(vsched.Op{Kind: "signal"})
}

//go:norace
func (c *Cond) Broadcast() {
	releaseMerge(unsafe.Pointer(c))
	c.released = c.next
	vsched.Point(vsched.Op{Kind: "signal"})
}

// Map is sync.Map.
type Map struct{ m sync.Map }

func point() { vsched.Point(vsched.Op{Kind: "syncmap"}) }

func (m *Map) Load(k interface{}) (interface{}, bool) { point(); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	point()
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) { point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k interface{})                            { point(); m.m.Delete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool)       { point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n interface{}) bool         { point(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o interface{}) bool          { point(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v interface{}) bool)             { point(); m.m.Range(f) }
func (m *Map) Clear()                                          { point(); m.m.Clear() }

// Pool is sync.Pool, which gives the object that was put last.
type Pool struct {
	New  func() interface{}
	head *pooled
	gen  uint64
}

type pooled struct {
	v    interface{}
	next *pooled
}

//go:norace
func (p *Pool) fresh() {
	if g := vsched.Gen(); p.gen != g {
		p.gen, p.head = g, nil
	}
}

//go:norace
func (p *Pool) Get() interface{} {
	vsched.Point(vsched.Op{Kind: "pool"})
	p.fresh()
	n := p.head
	if n == nil {
		if p.New == nil {
			return nil
		}
		return p.New()
	}
	p.head = n.next
	acquire(unsafe.Pointer(n))
	return n.v
}

//go:norace
func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	p.fresh()
	n := &pooled{v: v, next: p.head}
	release(unsafe.Pointer(n))
	p.head = n
	vsched.Point(vsched.Op{Kind: "pool"})
}
