package simrt

import "unsafe"

// Channels keep their static Go type and serve as identities only; their
// contents live here.

type waiter struct {
	fired int // index of the case that fired, -1 while waiting
	val   interface{}
	ok    bool
	shut  bool // fired because the channel was closed under a sender
}

type qent struct {
	w   *waiter
	idx int
	val interface{}
}

type chanState struct {
	keep   interface{}
	cap    int
	buf    []interface{}
	closed bool
	recvq  []qent
	sendq  []qent
}

func chanOf(p uintptr, keep interface{}, c int) *chanState {
	if p == 0 {
		return nil
	}
	s := S
	cs := s.chans[p]
	if cs == nil {
		cs = &chanState{keep: keep, cap: c}
		s.chans[p] = cs
	}
	return cs
}

func stateOf[T any](ch chan T) *chanState {
	return chanOf(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))), ch, cap(ch))
}
func stateOfS[T any](ch chan<- T) *chanState {
	return chanOf(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))), ch, cap(ch))
}
func stateOfR[T any](ch <-chan T) *chanState {
	return chanOf(uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))), ch, cap(ch))
}

func popq(q *[]qent) (qent, bool) {
	for len(*q) > 0 {
		e := (*q)[0]
		*q = (*q)[1:]
		if e.w.fired < 0 {
			return e, true
		}
	}
	return qent{}, false
}

func (c *chanState) trySend(v interface{}) bool {
	if c == nil {
		return false
	}
	if c.closed {
		panic("send on closed channel")
	}
	if e, ok := popq(&c.recvq); ok {
		e.w.fired, e.w.val, e.w.ok = e.idx, v, true
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *chanState) tryRecv() (v interface{}, ok, done bool) {
	if c == nil {
		return nil, false, false
	}
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if e, ok := popq(&c.sendq); ok {
			c.buf = append(c.buf, e.val)
			e.w.fired = e.idx
		}
		return v, true, true
	}
	if e, ok := popq(&c.sendq); ok {
		e.w.fired = e.idx
		return e.val, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

// Case is one case of a select.
type Case interface {
	try() bool
	enqueue(w *waiter, idx int)
	complete(w *waiter)
	edge()  // the operation took place
	offer() // the operation is waiting
}

// Operations on a channel are ordered with each other: sends before receives,
// and receives before the completion of sends.
func (c *chanState) edge() {
	if c != nil {
		acquire(unsafe.Pointer(c))
		release(unsafe.Pointer(c), true)
	}
}
func (c *chanState) offer() {
	if c != nil {
		release(unsafe.Pointer(c), true)
	}
}
func (r *RecvCase[T]) edge()  { r.c.edge() }
func (r *RecvCase[T]) offer() { r.c.offer() }
func (r *SendCase) edge()     { r.c.edge() }
func (r *SendCase) offer()    { r.c.offer() }

// RecvCase receives.
type RecvCase[T any] struct {
	c   *chanState
	Val T
	Ok  bool
}

func (r *RecvCase[T]) set(v interface{}, ok bool) {
	r.Ok = ok
	if v != nil {
		r.Val = v.(T)
	} else {
		var z T
		r.Val = z
	}
}
func (r *RecvCase[T]) try() bool {
	v, ok, done := r.c.tryRecv()
	if done {
		r.set(v, ok)
	}
	return done
}
func (r *RecvCase[T]) enqueue(w *waiter, idx int) {
	if r.c != nil {
		r.c.recvq = append(r.c.recvq, qent{w: w, idx: idx})
	}
}
func (r *RecvCase[T]) complete(w *waiter) { r.set(w.val, w.ok) }

// SendCase sends.
type SendCase struct {
	c *chanState
	v interface{}
}

func (r *SendCase) try() bool { return r.c.trySend(r.v) }
func (r *SendCase) enqueue(w *waiter, idx int) {
	if r.c != nil {
		r.c.sendq = append(r.c.sendq, qent{w: w, idx: idx, val: r.v})
	}
}
func (r *SendCase) complete(w *waiter) {
	if w.shut {
		panic("send on closed channel")
	}
}

// NewRecv makes a receive case.
func NewRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{c: stateOfR(ch)} }

// NewSend makes a send case, in two calls so that the value is converted to
// the element type by assignment.
func NewSend[T any](ch chan<- T) func(T) *SendCase {
	c := stateOfS(ch)
	return func(v T) *SendCase { return &SendCase{c: c, v: v} }
}

// Select runs a select statement and returns the index of the chosen case, or
// -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	s := S
	s.point(kSync)
	n := len(cases)
	if n > 0 {
		st := int(s.step % uint64(n))
		for i := 0; i < n; i++ {
			k := (st + i) % n
			if cases[k].try() {
				cases[k].edge()
				return k
			}
		}
	}
	if hasDefault {
		return -1
	}
	w := &waiter{fired: -1}
	for i, c := range cases {
		c.enqueue(w, i)
	}
	for _, c := range cases {
		c.offer()
	}
	s.block("chan", func() bool { return w.fired >= 0 })
	cases[w.fired].edge()
	cases[w.fired].complete(w)
	return w.fired
}

// ChanSend sends on a channel.
func ChanSend[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, NewSend(ch)(v)) }
}

// ChanRecv receives from a channel.
func ChanRecv[T any](ch <-chan T) T {
	r := NewRecv(ch)
	Select(false, r)
	return r.Val
}

// ChanRecv2 receives from a channel, reporting whether it delivered a value.
func ChanRecv2[T any](ch <-chan T) (T, bool) {
	r := NewRecv(ch)
	Select(false, r)
	return r.Val, r.Ok
}

// ChanClose closes a channel.
func ChanClose[T any](ch chan<- T) {
	S.point(kSync)
	c := stateOfS(ch)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.offer()
	c.closed = true
	for {
		e, ok := popq(&c.recvq)
		if !ok {
			break
		}
		e.w.fired, e.w.val, e.w.ok = e.idx, nil, false
	}
	for {
		e, ok := popq(&c.sendq)
		if !ok {
			break
		}
		e.w.fired, e.w.shut = e.idx, true
	}
}

// ChanLen is len of a channel.
func ChanLen[T any](ch <-chan T) int {
	S.point(kSync)
	if c := stateOfR(ch); c != nil {
		c.edge()
		return len(c.buf)
	}
	return 0
}
