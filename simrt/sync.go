package simrt

import (
	"time"
	"unsafe"
)

// Mutex replaces sync.Mutex.
type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	Sync()
	if S == nil {
		m.locked = true
		return
	}
	for m.locked {
		S.block("mutex", func() bool { return !m.locked })
	}
	m.locked = true
	holding(1)
	acquire(unsafe.Pointer(m))
}
func (m *Mutex) TryLock() bool {
	Sync()
	if m.locked {
		return false
	}
	m.locked = true
	holding(1)
	acquire(unsafe.Pointer(m))
	return true
}
func (m *Mutex) Unlock() {
	unlockPoint()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	release(unsafe.Pointer(m), false)
	m.locked = false
	holding(-1)
}

// holding counts the locks of the running task.
func holding(d int) {
	if s := S; s != nil && s.cur != nil {
		s.cur.held += d
	}
}

func unlockPoint() {
	if s := S; s != nil && !s.killed {
		s.point(kSync)
	}
}

// Locker replaces sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	Sync()
	if S != nil {
		for m.w || m.r > 0 {
			S.block("rwmutex", func() bool { return !m.w && m.r == 0 })
		}
	}
	m.w = true
	holding(1)
	m.acquired(true)
}

// acquired: readers are ordered after the last writer, writers after readers too.
func (m *RWMutex) acquired(write bool) {
	acquire(unsafe.Pointer(&m.w))
	if write {
		acquire(unsafe.Pointer(&m.r))
	}
}
func (m *RWMutex) TryLock() bool {
	Sync()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	holding(1)
	m.acquired(true)
	return true
}
func (m *RWMutex) Unlock() {
	unlockPoint()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	release(unsafe.Pointer(&m.w), true)
	m.w = false
	holding(-1)
}
func (m *RWMutex) RLock() {
	Sync()
	if S != nil {
		for m.w {
			S.block("rwmutex", func() bool { return !m.w })
		}
	}
	m.r++
	holding(1)
	m.acquired(false)
}
func (m *RWMutex) TryRLock() bool {
	Sync()
	if m.w {
		return false
	}
	m.r++
	holding(1)
	m.acquired(false)
	return true
}
func (m *RWMutex) RUnlock() {
	unlockPoint()
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	release(unsafe.Pointer(&m.r), true)
	m.r--
	holding(-1)
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	unlockPoint()
	release(unsafe.Pointer(w), true)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	Sync()
	if S != nil && w.n > 0 {
		S.block("waitgroup", func() bool { return w.n == 0 })
	}
	acquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	Sync()
	if o.done {
		acquire(unsafe.Pointer(&o.m))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Cond replaces sync.Cond.
type Cond struct {
	L Locker
	q []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	w := new(bool)
	c.q = append(c.q, w)
	c.L.Unlock()
	S.block("cond", func() bool { return *w })
	c.L.Lock()
}
func (c *Cond) Signal() {
	Sync()
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}
func (c *Cond) Broadcast() {
	Sync()
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
}

// Pool replaces sync.Pool: deterministic, emptied between runs.
type Pool struct {
	New   func() interface{}
	gen   uint64
	items []interface{}
}

func (p *Pool) Get() interface{} {
	Sync()
	if p.gen != generation {
		p.gen, p.items = generation, nil
	}
	mode := 0
	if S != nil {
		mode = S.policy.PoolMode
	}
	if n := len(p.items); n > 0 && mode != 1 {
		if mode == 2 {
			x := p.items[0]
			p.items = p.items[1:]
			acquire(itemAddr(x))
			return x
		}
		x := p.items[n-1]
		p.items = p.items[:n-1]
		acquire(itemAddr(x))
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x interface{}) {
	unlockPoint()
	if p.gen != generation {
		p.gen, p.items = generation, nil
	}
	if x == nil {
		return
	}
	release(itemAddr(x), false)
	p.items = append(p.items, x)
}

// itemAddr is the address held in an interface value.
func itemAddr(x interface{}) unsafe.Pointer {
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1]
}

// ---- clock ----

const nsPerStep = 50

var clockBase = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() time.Time {
	if S == nil {
		return clockBase
	}
	return clockBase.Add(time.Duration(S.step * nsPerStep))
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep advances simulated time for the calling task.
func Sleep(d time.Duration) {
	s := S
	if s == nil {
		return
	}
	if d <= 0 {
		s.point(kForced)
		return
	}
	t := s.cur
	end := s.step + 1 + uint64(d)/nsPerStep
	t.asleep = true
	for s.step < end {
		t.stallUntil = end
		s.point(kForced)
	}
	t.asleep = false
}

// After replaces time.After.
func After(d time.Duration) <-chan time.Time {
	return NewTimer(d).C
}
