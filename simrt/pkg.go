package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"time"
	"unsafe"
)

// Package runs the initialisation of the package under test. Tasks it starts
// belong to the program, not to a tree.
func Package(init func()) {
	S.pkg = true
	init()
	S.pkg = false
}

// Zero sets a variable to the zero value of its type.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// ---- maps ----

// MapEntry is one step of an iteration over a map.
type MapEntry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Load returns the value now stored for the key, if it was not deleted meanwhile.
func (e *MapEntry[K, V]) Load() (V, bool) {
	v, ok := e.m[e.K]
	return v, ok
}

// MapEntries returns the keys of a map in an order that depends on the run only.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []*MapEntry[K, V] {
	es := make([]*MapEntry[K, V], 0, len(m))
	for k := range m {
		es = append(es, &MapEntry[K, V]{k, m})
	}
	sort.Slice(es, func(i, j int) bool { return lessKey(reflect.ValueOf(es[i].K), reflect.ValueOf(es[j].K)) })
	if S != nil {
		r := NewRng(S.policy.Seed ^ S.step*0x9E3779B97F4A7C15)
		for i := len(es) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			es[i], es[j] = es[j], es[i]
		}
	}
	return es
}

func lessKey(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	case reflect.String:
		return a.String() < b.String()
	case reflect.Float32, reflect.Float64:
		return a.Float() < b.Float()
	case reflect.Invalid:
		return false
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// Map replaces sync.Map.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{} // in the order of insertion
}

// access: every call is ordered after those before it that it can see.
func (m *Map) access(write bool) {
	Sync()
	acquire(unsafe.Pointer(m))
	if write {
		release(unsafe.Pointer(m), true)
	}
}
func (m *Map) set(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) remove(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i := range m.keys {
		if m.keys[i] == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.access(false)
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v interface{}) { m.access(true); m.set(k, v) }
func (m *Map) Delete(k interface{})   { m.access(true); m.remove(k) }
func (m *Map) Clear()                 { m.access(true); m.m, m.keys = nil, nil }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.access(true)
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.access(true)
	v, ok := m.m[k]
	m.remove(k)
	return v, ok
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.access(true)
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.access(true)
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.set(k, n)
	return true
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.access(true)
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.remove(k)
	return true
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.access(false)
	for _, k := range append([]interface{}(nil), m.keys...) {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// SetFinalizer: finalizers need not run.
func SetFinalizer(obj, f interface{}) {}

// ---- timers ----

// Timer replaces time.Timer.
type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	run  int // the run in progress, if active
	last int
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) start(d time.Duration) {
	t.last++
	n := t.last
	t.run = n
	timer(func() {
		Sleep(d)
		if t.run != n {
			return
		}
		t.run = 0
		if t.f != nil {
			t.f()
			return
		}
		fire(t.c)
	})
}

// timer starts a task that is not one of the library.
func timer(f func()) {
	if S == nil {
		return
	}
	S.point(kSync)
	S.spawn("timer", false, f)
}

// fire sends the time if there is room.
func fire(c chan time.Time) {
	s := NewSend[time.Time](c)(Now())
	Select(true, s)
}

func (t *Timer) Stop() bool {
	Sync()
	was := t.run != 0
	t.run = 0
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

// Ticker replaces time.Ticker.
type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	n int
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}

func (t *Ticker) start(d time.Duration) {
	t.n++
	n := t.n
	timer(func() {
		S.cur.idle = true
		for {
			Sleep(d)
			if t.n != n {
				return
			}
			fire(t.c)
		}
	})
}

func (t *Ticker) Stop()                 { Sync(); t.n++ }
func (t *Ticker) Reset(d time.Duration) { Sync(); t.start(d) }

// TimeTick replaces time.Tick.
func TimeTick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// ---- math/rand ----

func random() uint64 {
	if S == nil {
		return 4
	}
	return S.draw.Uint64()
}
func below(n uint64) uint64 {
	if n == 0 {
		panic("invalid argument to Intn")
	}
	return random() % n
}
func RandSeed(int64)              {}
func RandInt() int                { return int(random() >> 1) }
func RandInt31() int32            { return int32(random() >> 33) }
func RandInt63() int64            { return int64(random() >> 1) }
func RandUint32() uint32          { return uint32(random()) }
func RandUint64() uint64          { return random() }
func RandFloat64() float64        { return float64(random()>>11) / (1 << 53) }
func RandFloat32() float32        { return float32(random()>>40) / (1 << 24) }
func RandIntn(n int) int          { return int(below(uint64(max(n, 0)))) }
func RandInt31n(n int32) int32    { return int32(below(uint64(max(n, 0)))) }
func RandInt63n(n int64) int64    { return int64(below(uint64(max(n, 0)))) }
func RandUintN(n uint) uint       { return uint(below(uint64(n))) }
func RandUint32N(n uint32) uint32 { return uint32(below(uint64(n))) }
func RandUint64N(n uint64) uint64 { return below(n) }
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	RandShuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, RandIntn(i+1))
	}
}
