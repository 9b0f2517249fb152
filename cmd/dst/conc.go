package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/jayloop/radix"
	"verif/simrt"
)

const absent = ^uint64(0)
const maxValue = 1<<55 - 1

// rec is one recorded operation.
type rec struct {
	c     int
	kind  string
	key   int // -1: outside the key set
	inv   uint64
	prep  uint64 // prepare returned
	fin   uint64 // finalize or abort called
	ret   uint64
	found bool
	cand  uint64
	match bool
	tried bool // finalize called
	done  bool // finalize returned true
	wrote uint64
	tree  bool // tree interface (an allocator is held between prep and fin)

	prefix   []byte
	vals     []uint64
	complete bool
	n        int
	alloc    *radix.Allocator
}

type vinfo struct {
	key    int
	w      *rec // nil: present before the phase
	failed bool
	dead   bool // overwritten or deleted before this phase
}

type world struct {
	cs     *Case
	or     int
	keys   [][]byte
	vals   map[uint64]*vinfo
	next   uint64
	ops    map[string]int
	hist   []*rec
	initSt map[int]uint64
	plain  bool // no extreme values: every value tells which tree it is from
	inner  bool // runs inside a concurrent phase
	atEnd  func(*seqRun)

	shared     [][]byte // keys all callers use at the same time
	ownFetched bool     // fetched keys are the caller's own memory
	owned      []ownedKey
	lent       []byte
	lentWant   []byte
}

type handle struct {
	t       *radix.Tree
	state   map[int]uint64
	counter *radix.Counter
	allocs  int // if not those of the case
	closed  bool
}

func newWorld(cs *Case, or int) *world {
	w := &world{cs: cs, or: or, keys: cs.Keys, vals: map[uint64]*vinfo{}, next: 1000, ops: map[string]int{}}
	if or&oArgs != 0 {
		w.ownFetched = cs.Seed%3 == 0
		if cs.Seed%2 == 0 && len(w.keys) < 25 {
			for _, k := range w.keys {
				b := make([]byte, len(k)+room)
				lend(b, k)
				w.shared = append(w.shared, b[:len(k)])
			}
		}
	}
	return w
}

// newVal returns a value never used before in this run; the extremes of the
// 55 bit range come first now and then.
func (w *world) newVal(key int, r *rec) uint64 {
	w.next++
	v := w.next
	x := w.next % 61
	if w.plain {
		x = 0
	}
	switch x {
	case 7:
		v = 0
	case 11:
		v = maxValue
	case 13:
		v = 1<<54 | w.next
	}
	for w.vals[v] != nil {
		w.next++
		v = w.next
	}
	w.vals[v] = &vinfo{key: key, w: r}
	return v
}

// keyOf is the caller's storage: the full key for a value.
func (w *world) keyOf(v uint64) []byte {
	i, ok := w.vals[v]
	if !ok {
		simrt.Fail("check", "value %d was never stored", v)
	}
	return w.keys[i.key]
}

type client struct {
	w    *world
	h    *handle
	id   int
	a    *radix.Allocator
	kbuf []byte
	want []byte // what was copied to kbuf
	hold *rec

	counter *radix.Counter
	ch      *handle
}

type updPrep interface {
	PrepareUpdate(key []byte) (bool, *radix.UpdateOperation)
	PrepareDelete(key []byte) (bool, *radix.DeleteOperation)
	Lookup(key []byte) (uint64, bool)
}

func (c *client) api() updPrep {
	if c.a != nil {
		return c.a
	}
	return c.h.t
}

// key returns the caller's copy of the key, overwritten after the operation:
// the library may not keep it.
func (c *client) key(op *Op) []byte {
	if op.Key < 0 {
		return c.arg(op.B)
	}
	if c.w.shared != nil {
		return c.w.shared[op.Key]
	}
	return c.arg(c.w.keys[op.Key])
}

// arg is the caller's copy of a key or prefix, with some room behind it.
func (c *client) arg(b []byte) []byte {
	c.want = b
	if b == nil {
		c.kbuf = c.kbuf[:0]
		return nil
	}
	if cap(c.kbuf) < len(b)+room {
		c.kbuf = make([]byte, len(b)+room+64)
	}
	lend(c.kbuf[:len(b)+room], b)
	c.kbuf = c.kbuf[:len(b)]
	return c.kbuf
}

const room = 24

// lend fills a buffer with b and a pattern behind it.
func lend(to, b []byte) {
	n := copy(to, b)
	for i := n; i < len(to); i++ {
		to[i] = 0x5A
	}
}

// intact: nobody wrote to a buffer filled with lend.
func (w *world) intact(buf, want []byte, what string) {
	if w.or&oArgs == 0 {
		return
	}
	w.ops["buffers_checked"]++
	full := buf[:len(want)+room]
	if !bytes.Equal(full[:len(want)], want) {
		simrt.Fail("check", "the caller's %s %q was changed to %q", what, want, full[:len(want)])
	}
	for i, x := range full[len(want):] {
		if x != 0x5A {
			simrt.Fail("check", "the call wrote behind the caller's %s %q (byte %d)", what, want, i)
		}
	}
}

// scribble: the call is over and the buffers are used for something else.
func (c *client) scribble() {
	if c.w.shared != nil {
		for k, b := range c.w.shared {
			c.w.intact(b, c.w.keys[k], "key")
		}
	}
	// those of earlier operations are still the caller's
	for i := len(c.w.owned) - 1; i >= 0 && i >= len(c.w.owned)-8; i-- {
		c.w.intact(c.w.owned[i].b, c.w.owned[i].want, "fetched key")
	}
	if c.want != nil && len(c.kbuf) == len(c.want) {
		c.w.intact(c.kbuf, c.want, "key or prefix")
		full := c.kbuf[:len(c.want)+room]
		for i := range full {
			full[i] = 0xEE
		}
	}
	c.want = nil
}

// fetched is the stored key for a value, in the slice of the operation or in
// one of the caller's own.
func (w *world) fetched(old []byte, v uint64) []byte {
	if !w.ownFetched {
		return append(old[:0], w.keyOf(v)...)
	}
	return w.ownKey(w.keyOf(v))
}

type ownedKey struct{ b, want []byte }

// ownKey is a key in memory of the caller which is not used for anything else.
func (w *world) ownKey(k []byte) []byte {
	b := make([]byte, len(k)+room)
	lend(b, k)
	w.owned = append(w.owned, ownedKey{b[:len(k)], k})
	return b[:len(k)]
}

func (w *world) ownedIntact() {
	for _, o := range w.owned {
		w.intact(o.b, o.want, "fetched key")
	}
	w.owned = nil
}

func (c *client) rec(kind string, key int) *rec {
	r := &rec{c: c.id, kind: kind, key: key, tree: c.a == nil}
	c.w.hist = append(c.w.hist, r)
	c.w.ops[kind]++
	r.inv = simrt.Stamp()
	return r
}

func (c *client) release() {
	if c.a != nil {
		a := c.a
		c.a = nil
		c.hold.fin = simrt.Stamp()
		c.h.t.ReleaseAllocator(a)
		c.hold.ret = simrt.Stamp()
		c.hold = nil
	}
}

func (c *client) acquire() {
	if c.a == nil {
		r := c.rec("reserve", -1)
		a := c.h.t.GetAllocator()
		r.prep = simrt.Stamp()
		r.alloc = a
		c.a, c.hold = a, r
	}
}

func (c *client) run(ops []Op) {
	for i := range ops {
		c.run1(&ops[i])
	}
	c.release()
}

func (c *client) run1(op *Op) {
	if op.Pre > 0 {
		simrt.Pause(op.Pre)
	}
	if op.SA > 0 {
		simrt.StallAfter(op.SA, op.SF)
	}
	c.do(op)
	if op.SA > 0 {
		simrt.StallAfter(0, 0)
	}
}

func (c *client) do(op *Op) {
	w := c.w
	switch op.K {
	case "acquire":
		c.acquire()
	case "release":
		c.release()
	case "acquirehi":
		// hold many for a moment: the one kept is one of the last
		if c.a == nil {
			var as []*radix.Allocator
			for i := uint64(0); i < op.N; i++ {
				as = append(as, c.h.t.GetAllocator())
			}
			c.acquire()
			for _, a := range as {
				if a == c.a {
					simrt.Fail("check", "an allocator was handed out twice")
				}
				c.h.t.ReleaseAllocator(a)
			}
			w.ops["acquirehi"]++
		}
	case "flush":
		if c.a != nil {
			c.a.FlushStats()
			w.ops["flush"]++
		}
	case "get":
		r := c.rec("get", op.Key)
		r.cand, r.found = c.api().Lookup(c.key(op))
		r.ret = simrt.Stamp()
		c.scribble()
		simrt.Note(r.cand)
		if r.found {
			w.keyOf(r.cand)
		}
	case "put", "ins", "upd", "rmw", "putab":
		for !c.update(op) {
		}
	case "del", "delab":
		for !c.delete(op) {
		}
	case "min", "max":
		had := c.a != nil
		c.release()
		r := c.rec(op.K, -1)
		r.prefix = op.B
		if op.K == "min" {
			r.cand, r.found = c.h.t.MinKey(c.arg(op.B))
		} else {
			r.cand, r.found = c.h.t.MaxKey(c.arg(op.B))
		}
		r.ret = simrt.Stamp()
		c.scribble()
		simrt.Note(r.cand)
		if r.found {
			w.keyOf(r.cand)
		}
		if had {
			c.acquire()
		}
	case "count":
		had := c.a != nil
		c.release()
		r := c.rec("count", -1)
		r.prefix = op.B
		if op.N%2 == 1 {
			if c.counter == nil || c.ch != c.h {
				c.counter, c.ch = radix.NewCounter(c.h.t), c.h
			}
			_, r.n = w.counted(c.counter, c.arg(op.B))
		} else {
			_, r.n = c.h.t.Count(c.arg(op.B))
		}
		r.ret = simrt.Stamp()
		c.scribble()
		simrt.Note(uint64(r.n))
		if had {
			c.acquire()
		}
	case "iter":
		had := c.a != nil
		c.release()
		c.iterate(op.B, int(op.N), op.V)
		if had {
			c.acquire()
		}
	case "iterown":
		// an iteration during which the caller itself removes or replaces keys
		c.release()
		r := c.rec("iter", -1)
		it := c.h.t.NewIterator(c.arg(op.B))
		c.scribble()
		c.scan2(it, r, op.B, 0, func(n int) {
			if n == int(op.N) {
				c.wipe(op)
			}
		})
		it.Close()
		w.ops["iterown"]++
	case "wipe":
		c.wipe(op)
		w.ops["wipe"]++
	case "iteropen":
		// an iterator nobody finishes
		it := c.h.t.NewIterator(c.arg(op.B))
		c.scribble()
		for i := uint64(0); i < op.N && it.Next(); i++ {
			w.keyOf(it.Value())
		}
		w.ops["iteropen"]++
	case "len":
		c.release()
		r := c.rec("len", -1)
		r.n = c.h.t.Len()
		r.ret = simrt.Stamp()
		simrt.Note(uint64(r.n))
	case "stop", "stop2", "stoplen", "stopadmin":
		c.release()
		r := c.rec("stop", -1)
		c.h.t.Stop()
		r.ret = simrt.Stamp()
		if op.K == "stop2" {
			r := c.rec("stop", -1)
			c.h.t.Stop()
			r.ret = simrt.Stamp()
		}
		if op.K == "stopadmin" {
			c.admin(&Op{N: op.V, B: op.B})
		}
		if op.K == "stoplen" {
			r := c.rec("len", -1)
			r.n = c.h.t.Len()
			r.ret = simrt.Stamp()
		}
		simrt.Pause(op.N)
		c.start()
		if op.K == "stop2" {
			c.start()
		}
	case "start":
		c.release()
		c.start()
	case "admin":
		had := c.a != nil
		c.release()
		c.admin(op)
		if had {
			c.acquire()
		}
	case "stats":
		m := map[string]interface{}{}
		c.h.t.Stats(m)
		w.ops["stats"]++
	case "sleep":
		simrt.Pause(op.N)
	default:
		panic("unknown operation " + op.K)
	}
}

func (c *client) start() {
	r := c.rec("start", -1)
	c.h.t.Start()
	r.ret = simrt.Stamp()
}

func (c *client) iterate(prefix []byte, max int, again uint64) {
	r := c.rec("iter", -1)
	it := c.newIterator(c.arg(prefix))
	c.scribble()
	c.scan(it, r, prefix, max)
	for ; again > 0; again-- {
		// used again from the start
		r := c.rec("iter", -1)
		it.Reset(c.arg(prefix))
		c.scribble()
		c.scan(it, r, prefix, 0)
	}
	it.Close()
}

// newIterator: there are two ways.
func (c *client) newIterator(prefix []byte) *radix.Iterator {
	if c.id%2 == 1 {
		return radix.NewIterator(c.h.t, prefix)
	}
	return c.h.t.NewIterator(prefix)
}

// wipe deletes the keys with the prefix, all or some, and may put some back.
func (c *client) wipe(op *Op) {
	keep := -1
	if op.Mode == "one" {
		// the first, the last, or any
		n := 0
		for k, key := range c.w.keys {
			if !bytes.HasPrefix(key, op.B) {
				continue
			}
			n++
			var better bool
			switch op.V % 3 {
			case 0:
				better = keep < 0 || bytes.Compare(key, c.w.keys[keep]) < 0
			case 1:
				better = keep < 0 || bytes.Compare(key, c.w.keys[keep]) > 0
			default:
				better = (op.V/3)%uint64(n) == 0
			}
			if better {
				keep = k
			}
		}
	}
	for k, key := range c.w.keys {
		if k == keep || !bytes.HasPrefix(key, op.B) || op.Mode == "some" && (uint64(k)+op.V)%4 == 0 {
			continue
		}
		c.do(&Op{K: "del", Key: k})
	}
	if op.Mode == "back" {
		for k, key := range c.w.keys {
			if bytes.HasPrefix(key, op.B) && (uint64(k)+op.V)%3 == 0 {
				c.do(&Op{K: "put", Key: k})
			}
		}
	}
}

func (c *client) scan(it *radix.Iterator, r *rec, prefix []byte, max int) {
	c.scan2(it, r, prefix, max, nil)
}

func (c *client) scan2(it *radix.Iterator, r *rec, prefix []byte, max int, each func(n int)) {
	w := c.w
	if each != nil {
		each(0)
	}
	r.prefix = prefix
	limit := 60*len(w.keys) + 2000
	for it.Next() {
		v := it.Value()
		w.keyOf(v)
		simrt.Note(v)
		r.vals = append(r.vals, v)
		if each != nil {
			each(len(r.vals))
		}
		if max > 0 && len(r.vals) >= max {
			break
		}
		if len(r.vals) > limit {
			simrt.Fail("hang", "iteration with prefix %q returned %d items over a set of %d keys and goes on", prefix, len(r.vals), len(w.keys))
		}
	}
	r.complete = max == 0 || len(r.vals) < max
	if r.complete && it.Next() {
		simrt.Fail("check", "Next returned true after it returned false")
	}
	r.ret = simrt.Stamp()
}

// update performs one attempt and reports whether it is settled.
func (c *client) update(op *Op) bool {
	w := c.w
	r := c.rec(op.K, op.Key)
	key := c.key(op)
	found, u := c.api().PrepareUpdate(key)
	r.prep = simrt.Stamp()
	r.found = found
	if found {
		r.cand = u.Value
		simrt.Note(r.cand)
		u.FetchedKey = w.fetched(u.FetchedKey, r.cand)
		if bytes.Equal(u.FetchedKey, u.Key) {
			r.match = true
			u.Match = true
		}
	}
	if op.Mode == "str" {
		describable(u, w)
	}
	if op.N > 0 {
		simrt.Pause(op.N)
	}
	abort := op.K == "putab" || op.K == "ins" && r.match || (op.K == "upd") && !r.match
	if abort {
		r.fin = simrt.Stamp()
		u.Abort()
		r.ret = simrt.Stamp()
		c.scribble()
		w.ops["abort"]++
		return true
	}
	r.tried = true
	r.wrote = w.newVal(op.Key, r)
	r.fin = simrt.Stamp()
	r.done = u.Finalize(r.wrote)
	r.ret = simrt.Stamp()
	c.scribble()
	if !r.done {
		w.vals[r.wrote].failed = true
		w.ops["conflict"]++
		return false
	}
	return true
}

// describable: a prepared operation can be printed.
func describable(op fmt.Stringer, w *world) {
	if op.String() == "" {
		simrt.Fail("check", "a prepared operation is printed as nothing")
	}
	w.ops["string"]++
}

func (c *client) delete(op *Op) bool {
	w := c.w
	r := c.rec(op.K, op.Key)
	key := c.key(op)
	found, d := c.api().PrepareDelete(key)
	r.prep = simrt.Stamp()
	r.found = found
	if !found {
		if d != nil {
			simrt.Fail("check", "PrepareDelete returned false and an operation")
		}
		r.fin, r.ret = r.prep, r.prep
		c.scribble()
		return true
	}
	r.cand = d.Value
	simrt.Note(r.cand)
	d.FetchedKey = w.fetched(d.FetchedKey, r.cand)
	r.match = bytes.Equal(d.FetchedKey, key)
	if op.Mode == "str" {
		describable(d, w)
	}
	if op.N > 0 {
		simrt.Pause(op.N)
	}
	if op.K == "delab" || !r.match {
		r.fin = simrt.Stamp()
		d.Abort()
		r.ret = simrt.Stamp()
		c.scribble()
		w.ops["abort"]++
		return true
	}
	r.tried = true
	r.wrote = absent
	r.fin = simrt.Stamp()
	r.done = d.Finalize()
	r.ret = simrt.Stamp()
	c.scribble()
	if !r.done {
		w.ops["conflict"]++
		return false
	}
	return true
}

// phase runs the clients, then reads everything back and checks the history.
func (w *world) phase(h *handle, p *Phase, n int) {
	w.begin(h)
	if p.Close > 0 {
		w.closing(h, p, n)
		return
	}
	if p.Freeze != nil {
		w.frozen(h, p, n)
		return
	}
	simrt.Arm(w.cs.FaultSteps)
	var ts []*simrt.Task
	for i, ops := range p.Tasks {
		c := &client{w: w, h: h, id: i}
		ops := ops
		ts = append(ts, simrt.Spawn(fmt.Sprintf("client%d.%d", n, i), func() { c.run(ops) }))
	}
	simrt.Join(ts...)
	simrt.Disarm()
	w.finish(h)
}

// frozen: some callers stop for ever in the middle of what they do. The
// others get everything done all the same.
func (w *world) frozen(h *handle, p *Phase, n int) {
	f := p.Freeze
	var cs []*client
	for i := range p.Tasks {
		cs = append(cs, &client{w: w, h: h, id: i})
	}
	held := map[int]bool{}
	for _, i := range f.Held {
		held[i] = true
		cs[i].acquire()
	}
	loose := map[int]bool{}
	for _, i := range f.Loose {
		loose[i] = true
	}
	simrt.Freezing(!f.Soft)
	simrt.Arm(w.cs.FaultSteps)
	if f.Lib {
		simrt.FreezeLib()
	}
	var all, must []*simrt.Task
	for i, ops := range p.Tasks {
		c, ops, held := cs[i], ops, held[i]
		t := simrt.Spawn(fmt.Sprintf("client%d.%d", n, i), func() {
			for i := range ops {
				c.run1(&ops[i])
			}
			if !held {
				c.release()
			}
		})
		all = append(all, t)
		if !loose[i] {
			must = append(must, t)
		}
	}
	simrt.Join(must...)
	for _, t := range all {
		if !t.Done() {
			w.ops["done_before_stopped"]++
			break
		}
	}
	simrt.Thaw()
	simrt.Join(all...)
	simrt.Disarm()
	for _, c := range cs {
		c.release()
	}
	w.finish(h)
}

// closing: the tree is closed while callers, who all have an allocator, are
// still at work. That waits for them, and lets them finish.
func (w *world) closing(h *handle, p *Phase, n int) {
	var cs []*client
	for i := range p.Tasks {
		c := &client{w: w, h: h, id: i}
		c.acquire()
		cs = append(cs, c)
	}
	simrt.Arm(w.cs.FaultSteps)
	var ts []*simrt.Task
	for i, ops := range p.Tasks {
		c, ops := cs[i], ops
		ts = append(ts, simrt.Spawn(fmt.Sprintf("client%d.%d", n, i), func() { c.run(ops) }))
	}
	check := func(name string) {
		for _, c := range cs {
			if c.a != nil {
				simrt.Fail("check", "%s returned while caller %d still had its allocator", name, c.id)
			}
		}
	}
	for i := 0; i < p.Closers; i++ {
		ts = append(ts, simrt.Spawn("stopper", func() {
			simrt.Pause(p.Close)
			h.t.Stop()
			check("Stop")
		}))
	}
	ts = append(ts, simrt.Spawn("closer", func() {
		simrt.Pause(p.Close)
		h.t.Close()
		check("Close")
	}))
	simrt.Join(ts...)
	simrt.Disarm()
	w.ops["closed_at_work"]++
	h.closed = true
	w.closeAndCheck(h)
	w.judge()
}

func (w *world) begin(h *handle) {
	w.hist = w.hist[:0]
	w.initSt = map[int]uint64{}
	for _, i := range w.vals {
		i.dead = true
	}
	for k, v := range h.state {
		w.initSt[k] = v
		w.vals[v] = &vinfo{key: k}
	}
}

// finish reads every key back with the clients gone, judges the history and
// makes the observed state the state of the handle.
func (w *world) finish(h *handle) {
	nHist := len(w.hist)
	c := &client{w: w, h: h, id: 1000}
	for k := range w.keys {
		c.do(&Op{K: "get", Key: k})
	}
	st := map[int]uint64{}
	for _, r := range w.hist[nHist:] {
		if r.found && w.vals[r.cand].key == r.key {
			st[r.key] = r.cand
		}
	}
	w.judge()
	w.quiet(h, st)
	if w.or&oSweep != 0 {
		w.sweep(h, st)
	}
	h.state = st
}

// quiet checks the scans and the length with no operation in progress.
func (w *world) quiet(h *handle, st map[int]uint64) {
	if w.or&oSweep != 0 {
		// every allocator was given back
		h.t.Stop()
		h.t.Start()
	}
	if w.or&oLen != 0 {
		if n := h.t.Len(); n != len(st) {
			simrt.Fail("check", "length %d with %d keys stored", n, len(st))
		}
	}
	w.scanAll(h, st, nil)
	if w.or&oAdmin != 0 {
		w.adminQuiet(h, st, false)
		if len(w.keys)%2 == 0 {
			h.t.Stop()
			w.adminQuiet(h, st, true)
			h.t.Start()
		}
		w.scanAll(h, st, nil)
	}
}

// counted counts with a counter used before.
func (w *world) counted(c *radix.Counter, prefix []byte) (nodes, leaves int) {
	nodes, leaves = c.Count(prefix)
	sum := 0
	for _, n := range c.NodeSizes {
		sum += n
	}
	if sum != nodes || c.NodesWithPrefix > nodes || c.LargePrefixes > c.NodesWithPrefix || c.TotalPrefixLength < c.NodesWithPrefix || c.TotalPrefixBytes < c.TotalPrefixLength {
		simrt.Fail("check", "count with prefix %q reports %d nodes and then describes %d of them (with a shared part %d, long %d, %d in %d bytes)", prefix, nodes, sum, c.NodesWithPrefix, c.LargePrefixes, c.TotalPrefixLength, c.TotalPrefixBytes)
	}
	return nodes, leaves
}

// shape compares what a count reports about the inner nodes with the
// branching points of the keys ks, given in order, that are there.
func (w *world) shape(c *radix.Counter, ks []int, nodes int, full bool) {
	// the branching points are the lengths of the parts shared by neighbours;
	// the enclosing ones are on the stack
	var stack []int
	n, withPrefix, long, total := 0, 0, 0, 0
	add := func(parent, l int) {
		n++
		if p := l - parent; p > 0 {
			withPrefix++
			total += p
			if p >= 255 {
				long++
			}
		}
	}
	closeTo := func(l int) {
		for len(stack) > 0 && stack[len(stack)-1] > l {
			top := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			parent := 0
			if len(stack) > 0 && stack[len(stack)-1] > l {
				parent = stack[len(stack)-1] + 1
			} else if l >= 0 {
				parent = l + 1
			}
			add(parent, top)
		}
	}
	for i := 1; i < len(ks); i++ {
		l := lcp(w.keys[ks[i-1]], w.keys[ks[i]])
		closeTo(l)
		if len(stack) == 0 || stack[len(stack)-1] < l {
			stack = append(stack, l)
		}
	}
	closeTo(-1)
	if nodes != n {
		simrt.Fail("check", "count reports %d nodes, the keys have %d branching points", nodes, n)
	}
	if full && (c.NodesWithPrefix != withPrefix || c.TotalPrefixLength != total || c.LargePrefixes != long) {
		simrt.Fail("check", "count reports %d nodes with a shared part, %d long ones and a total length of %d, the keys have %d, %d and %d", c.NodesWithPrefix, c.LargePrefixes, c.TotalPrefixLength, withPrefix, long, total)
	}
}

func (w *world) sorted(st map[int]uint64, prefix []byte) []int {
	var ks []int
	for k := range st {
		if bytes.HasPrefix(w.keys[k], prefix) {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return bytes.Compare(w.keys[ks[i]], w.keys[ks[j]]) < 0 })
	return ks
}

// scanAll compares iteration, count, minimum and maximum for a prefix with the expected state.
func (w *world) scanAll(h *handle, st map[int]uint64, prefix []byte) {
	ks := w.sorted(st, prefix)
	full := len(prefix) == 0
	if w.or&oIter != 0 && full || w.or&oPrefix != 0 && !full {
		it := h.t.NewIterator(w.lend(prefix))
		w.lentBack()
		i := 0
		for it.Next() {
			v := it.Value()
			k := w.keyOf(v)
			if !bytes.HasPrefix(k, prefix) && len(ks) == 0 && i == 0 {
				i++
				if it.Next() {
					simrt.Fail("check", "more than one candidate when no key has prefix %q", prefix)
				}
				i--
				break
			}
			if i >= len(ks) {
				simrt.Fail("check", "iteration with prefix %q returns more than the %d keys stored (key %q)", prefix, len(ks), k)
			}
			if v != st[ks[i]] {
				simrt.Fail("check", "iteration with prefix %q: item %d is key %q value %d, expected key %q value %d", prefix, i, k, v, w.keys[ks[i]], st[ks[i]])
			}
			i++
		}
		if i != len(ks) {
			simrt.Fail("check", "iteration with prefix %q returns %d of %d keys", prefix, i, len(ks))
		}
		it.Close()
	}
	if w.or&oCount != 0 && full || w.or&oPrefix != 0 && !full {
		nodes, n := h.t.Count(w.lend(prefix))
		w.lentBack()
		if n != len(ks) && !(len(ks) == 0 && n == 1 && !full && len(st) > 0) {
			simrt.Fail("check", "count with prefix %q is %d, expected %d", prefix, n, len(ks))
		}
		if w.or&oCount != 0 {
			if h.counter == nil {
				h.counter = radix.NewCounter(h.t)
			}
			nodes2, n2 := w.counted(h.counter, w.lend(prefix))
			w.lentBack()
			if nodes2 != nodes || n2 != n {
				simrt.Fail("check", "two counts with prefix %q differ: %d nodes, %d leaves and %d nodes, %d leaves", prefix, nodes, n, nodes2, n2)
			}
			// early builds left nodes with one child
			if !strings.Contains(w.cs.Golden, "v0-") {
				w.shape(h.counter, ks, nodes, full)
			}
		}
	}
	if w.or&oMinMax != 0 && full || w.or&oPrefix != 0 && !full {
		for _, name := range []string{"minimum", "maximum"} {
			var v uint64
			var ok bool
			e := -1
			if name == "minimum" {
				v, ok = h.t.MinKey(w.lend(prefix))
				if len(ks) > 0 {
					e = ks[0]
				}
			} else {
				v, ok = h.t.MaxKey(w.lend(prefix))
				if len(ks) > 0 {
					e = ks[len(ks)-1]
				}
			}
			w.lentBack()
			if e < 0 {
				if ok {
					k := w.keyOf(v)
					if full || st[w.vals[v].key] != v {
						simrt.Fail("check", "%s with prefix %q is key %q, which is not there", name, prefix, k)
					}
				}
				continue
			}
			if !ok || v != st[e] {
				simrt.Fail("check", "%s with prefix %q is value %d (found %v), expected key %q value %d", name, prefix, v, ok, w.keys[e], st[e])
			}
		}
	}
}

// sweep prepares and settles an operation on every key, in every way.
func (w *world) sweep(h *handle, st map[int]uint64) {
	stored := newOrdered()
	for k := range st {
		stored.insert(w.keys[k])
	}
	for round := 0; round < 2; round++ {
		for k := range w.keys {
			simrt.Bound(1_000_000)
			old, was := st[k]
			if !was && (len(w.keys[k]) == 0 || !stored.prefixFree(w.keys[k])) {
				continue
			}
			found, u := h.t.PrepareUpdate(w.lend(w.keys[k]))
			m := found && bytes.Equal(w.keyOf(u.Value), w.keys[k])
			if m != was || m && u.Value != old {
				simrt.Fail("check", "after all operations ended, key %q changed: present %v value %d, prepare reports %v value %d", w.keys[k], was, old, m, u.Value)
			}
			if round == 0 {
				u.Abort()
			} else {
				if found {
					u.FetchedKey = w.fetched(u.FetchedKey, u.Value)
					u.Match = m
				}
				nv := w.newVal(k, nil)
				if !u.Finalize(nv) {
					simrt.Fail("check", "conflict reported with no other operation in progress on key %q", w.keys[k])
				}
				st[k] = nv
				stored.insert(w.keys[k])
			}
			w.lentBack()
			found, d := h.t.PrepareDelete(w.lend(w.keys[k]))
			_, now := st[k]
			m = found && bytes.Equal(w.keyOf(d.Value), w.keys[k])
			if m != now || m && d.Value != st[k] {
				simrt.Fail("check", "after all operations ended, prepare delete of key %q reports %v, present %v", w.keys[k], m, now)
			}
			if found {
				if round == 1 && (!was || k%3 == 0) && m {
					if !d.Finalize() {
						simrt.Fail("check", "conflict reported with no other operation in progress on key %q", w.keys[k])
					}
					delete(st, k)
					stored.remove(w.keys[k])
				} else {
					d.Abort()
				}
			}
			w.lentBack()
		}
	}
	for k := range w.keys {
		simrt.Bound(1_000_000)
		v, found := h.t.Lookup(w.lend(w.keys[k]))
		w.lentBack()
		m := found && bytes.Equal(w.keyOf(v), w.keys[k])
		if nv, now := st[k]; m != now || m && nv != v {
			simrt.Fail("check", "lookup of key %q after the sweep: found %v value %d, expected %v %d", w.keys[k], m, v, now, nv)
		}
	}
	simrt.Bound(1_000_000)
	if n := h.t.Len(); w.or&oLen != 0 && n != len(st) {
		simrt.Fail("check", "length %d after the sweep, %d keys stored", n, len(st))
	}
}

// load builds the initial tree content with plain sequential operations.
func (w *world) load(h *handle) {
	w.hist = nil
	c := &client{w: w, h: h, id: 2000}
	for _, k := range w.cs.Init {
		c.do(&Op{K: "put", Key: k})
	}
	for i := range w.cs.Warm {
		c.do(&w.cs.Warm[i])
	}
	c.release()
	h.state = map[int]uint64{}
	for _, r := range w.hist {
		if r.done {
			if r.wrote == absent {
				delete(h.state, r.key)
			} else {
				h.state[r.key] = r.wrote
			}
		}
	}
}
