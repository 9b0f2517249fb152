package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"

	"github.com/jayloop/radix"
	"verif/simrt"
)

// ---- simulated disk ----

var errDisk = errors.New("simulated disk error")

// disk is the destination of a save: it takes the bytes, is slow at times and
// fails at a given byte.
type disk struct {
	buf    []byte
	failAt int // -1: never
	mode   string
	failed bool
	writes int
	slow   uint64
	bounds []int
}

func (d *disk) Write(p []byte) (int, error) {
	simrt.Sync()
	d.writes++
	if d.slow > 0 && d.writes%3 == 0 {
		simrt.Pause(d.slow)
	}
	d.bounds = append(d.bounds, len(d.buf))
	if d.failed && d.mode != "once" {
		return 0, errDisk
	}
	if d.failAt >= 0 && !d.failed && len(d.buf)+len(p) > d.failAt {
		d.failed = true
		switch d.mode {
		case "none": // nothing of this write arrives
			return 0, errDisk
		case "full": // everything arrives, and the error is reported all the same
			d.buf = append(d.buf, p...)
			return len(p), errDisk
		case "nospace":
			n := d.failAt - len(d.buf)
			d.buf = append(d.buf, p[:n]...)
			return n, io.ErrShortWrite
		default: // torn
			n := d.failAt - len(d.buf)
			d.buf = append(d.buf, p[:n]...)
			return n, errDisk
		}
	}
	d.buf = append(d.buf, p...)
	return len(p), nil
}

// source is where a saved state is read from.
type source struct {
	data  []byte
	pos   int
	chunk int // largest piece, 0: as asked
	var_  bool
	err   error // at the end of data instead of EOF
	late  bool  // deliver the end together with the last bytes
	slow  bool  // some reads take long
	n     int
}

func (s *source) Read(p []byte) (int, error) {
	simrt.Sync()
	s.n++
	if s.slow && s.n%4 == 0 {
		simrt.Pause(1 + uint64(s.n*7919)%400)
	}
	end := s.err
	if end == nil {
		end = io.EOF
	}
	if s.pos >= len(s.data) {
		return 0, end
	}
	n := len(p)
	c := s.chunk
	if s.var_ && c > 1 {
		c = 1 + (s.n*7919)%c
		if s.n%5 == 0 {
			return 0, nil
		}
	}
	if c > 0 && n > c {
		n = c
	}
	n = copy(p[:n], s.data[s.pos:])
	s.pos += n
	if s.late && s.pos == len(s.data) {
		return n, end
	}
	return n, nil
}

func newSource(data []byte, chunk int) *source {
	s := &source{data: data, chunk: chunk}
	if chunk < 0 {
		s.chunk, s.var_ = -chunk, true
	}
	s.late = chunk%2 != 0
	s.slow = chunk%3 != 0 || len(data)%2 == 0
	return s
}

// ---- sequential histories against an ordered map ----

type seqRun struct {
	w      *world
	h      *handle
	st     map[int]uint64
	allocs []*radix.Allocator
	sorted *ordered
	others []*handle
	last   []byte
	or     int
}

func (s *seqRun) releaseAll() {
	for i, a := range s.allocs {
		if a != nil {
			s.h.t.ReleaseAllocator(a)
			s.allocs[i] = nil
		}
	}
}

func (s *seqRun) api(a int) updPrep {
	if a <= 0 || s.w.cs.Allocs < 2 {
		return s.h.t
	}
	n := s.w.cs.Allocs - 1
	i := (a - 1) % n
	for len(s.allocs) < n {
		s.allocs = append(s.allocs, nil)
	}
	if s.allocs[i] == nil {
		s.allocs[i] = s.h.t.GetAllocator()
	}
	return s.allocs[i]
}

func (s *seqRun) value(key int, v uint64) uint64 {
	if v != 0 || key%7 == 3 {
		if i, ok := s.w.vals[v&maxValue]; !ok || i.key == key {
			s.w.vals[v&maxValue] = &vinfo{key: key}
			return v
		}
	}
	return s.w.newVal(key, nil)
}

// allowed: inserting key k keeps the set prefix-free.
func (s *seqRun) allowed(k int) bool {
	key := s.w.keys[k]
	if len(key) == 0 {
		return false
	}
	return s.sorted.prefixFree(key)
}

func (s *seqRun) checkRead(k int, v uint64, found bool, what string) bool {
	w := s.w
	want, there := s.st[k]
	if !found {
		if there {
			simrt.Fail("check", "%s of key %q finds nothing, expected value %d", what, w.keys[k], want)
		}
		return false
	}
	i := w.vals[v]
	if i == nil {
		simrt.Fail("check", "%s of key %q reports value %d, which was never stored", what, w.keys[k], v)
	}
	if cur, ok := s.st[i.key]; !ok || cur != v {
		simrt.Fail("check", "%s of key %q reports value %d of key %q, which is not stored now", what, w.keys[k], v, w.keys[i.key])
	}
	if bytes.Equal(w.keys[i.key], w.keys[k]) {
		if !there {
			simrt.Fail("check", "%s of absent key %q reports it", what, w.keys[k])
		}
		return true
	}
	if there {
		simrt.Fail("check", "%s of key %q reports key %q instead", what, w.keys[k], w.keys[i.key])
	}
	return false
}

// seqBound is far beyond what any one step of a sequential case takes.
func (w *world) seqBound() uint64 {
	n := uint64(3_000_000)
	for _, k := range w.keys {
		n += 20 * uint64(len(k))
	}
	if bigBlocks() {
		n *= 5 // blocks of 2 MiB
		if shippedBlock > 1<<21 {
			n *= uint64(shippedBlock >> 21)
		}
	}
	return n * uint64(1+w.cs.Allocs/4)
}

func (s *seqRun) do(op *Op) {
	w := s.w
	w.ops[op.K]++
	simrt.Bound(w.seqBound())
	defer w.lentBack()
	switch op.K {
	case "get":
		v, found := s.api(op.A).Lookup(w.lend(w.keys[op.Key]))
		simrt.Note(v)
		s.checkRead(op.Key, v, found, "lookup")
	case "put", "putab", "ins":
		_, there := s.st[op.Key]
		if !there && !s.allowed(op.Key) {
			return
		}
		kb := w.lend(w.keys[op.Key])
		found, u := s.api(op.A).PrepareUpdate(kb)
		m := s.checkRead(op.Key, u.Value, found, "prepare update")
		if found {
			u.FetchedKey = w.fetched(u.FetchedKey, u.Value)
			u.Match = m
		}
		if op.K == "putab" || op.K == "ins" && m {
			u.Abort()
		} else {
			v := s.value(op.Key, op.V)
			if !u.Finalize(v) {
				simrt.Fail("check", "conflict reported with no other caller, key %q", w.keys[op.Key])
			}
			s.st[op.Key] = v & maxValue
			if !there {
				s.sorted.insert(w.keys[op.Key])
			}
		}
	case "del", "delab":
		found, d := s.api(op.A).PrepareDelete(w.lend(w.keys[op.Key]))
		if found != (d != nil) {
			simrt.Fail("check", "PrepareDelete of key %q returns found %v and operation %v", w.keys[op.Key], found, d != nil)
		}
		if !found {
			s.checkRead(op.Key, 0, false, "prepare delete")
			return
		}
		m := s.checkRead(op.Key, d.Value, found, "prepare delete")
		if op.K == "delab" || !m {
			d.Abort()
			return
		}
		if !d.Finalize() {
			simrt.Fail("check", "conflict reported with no other caller, key %q", w.keys[op.Key])
		}
		delete(s.st, op.Key)
		s.sorted.remove(w.keys[op.Key])
	case "getraw", "delraw":
		var v uint64
		var found bool
		var d *radix.DeleteOperation
		if op.K == "getraw" {
			v, found = s.api(op.A).Lookup(w.lend(op.B))
		} else {
			found, d = s.api(op.A).PrepareDelete(w.lend(op.B))
			if d != nil {
				v = d.Value
			}
		}
		simrt.Note(v)
		if found {
			i := w.vals[v]
			if i == nil || s.st[i.key] != v {
				simrt.Fail("check", "%s of %q reports value %d, which is not stored", op.K, op.B, v)
			}
			if _, ok := s.st[i.key]; !ok {
				simrt.Fail("check", "%s of %q reports value %d, which is not stored", op.K, op.B, v)
			}
			if d != nil {
				d.Abort()
			}
		} else {
			for k := range s.st {
				if bytes.Equal(w.keys[k], op.B) {
					simrt.Fail("check", "%s of key %q finds nothing", op.K, op.B)
				}
			}
		}
	case "scan":
		w.scanAll(s.h, s.st, op.B)
	case "full":
		s.full(s.h, s.st)
	case "iterpart":
		if s.or&(oIter|oPrefix) != 0 {
			s.iterPart(op)
		}
	case "len":
		s.releaseAll()
		if s.or&oLen != 0 {
			if n := s.h.t.Len(); n != len(s.st) {
				simrt.Fail("check", "length %d with %d keys stored", n, len(s.st))
			}
		}
	case "flush":
		if a, ok := s.api(op.A).(*radix.Allocator); ok {
			a.FlushStats()
		}
	case "release":
		s.releaseAll()
	case "stopstart":
		s.releaseAll()
		s.h.t.Stop()
		if op.N%2 == 1 {
			s.h.t.Stop()
		}
		s.h.t.Start()
		if op.N%3 == 1 {
			s.h.t.Start()
		}
	case "restart":
		s.restart(op)
	case "savefail":
		s.saveFail(op)
	case "saveall":
		s.saveAll(op)
	case "loadcut":
		s.loadCut(op)
	default:
		panic("unknown operation " + op.K)
	}
}

// lend is a copy of a key in memory the caller uses again.
func (w *world) lend(b []byte) []byte {
	if b == nil {
		return nil
	}
	if cap(w.lent) < len(b)+room {
		w.lent = make([]byte, len(b)+room+64)
	}
	w.lent = w.lent[:len(b)+room]
	lend(w.lent, b)
	w.lentWant = b
	return w.lent[:len(b)]
}

func (w *world) lentBack() {
	if w.lentWant != nil {
		w.intact(w.lent[:len(w.lentWant)], w.lentWant, "key")
		w.lentWant = nil
		for i := range w.lent {
			w.lent[i] = 0xEE
		}
	}
	for i := len(w.owned) - 1; i >= 0 && i >= len(w.owned)-8; i-- {
		w.intact(w.owned[i].b, w.owned[i].want, "fetched key")
	}
}

// full compares everything observable with the map.
func (s *seqRun) full(h *handle, st map[int]uint64) {
	w := s.w
	old := s.st
	s.st = st
	for k := range w.keys {
		v, found := h.t.Lookup(w.lend(w.keys[k]))
		w.lentBack()
		s.checkRead(k, v, found, "lookup")
	}
	s.st = old
	w.scanAll(h, st, nil)
	if s.or&oLen != 0 && h != s.h || len(s.allocs) == 0 {
		if n := h.t.Len(); s.or&oLen != 0 && n != len(st) {
			simrt.Fail("check", "length %d with %d keys stored", n, len(st))
		}
	}
}

// iterPart reuses one iterator: part of one iteration, reset, part of another.
func (s *seqRun) iterPart(op *Op) {
	w := s.w
	it := s.h.t.NewIterator(nil)
	for i := uint64(0); i < op.N && it.Next(); i++ {
	}
	it.Reset(w.lend(op.B))
	w.lentBack()
	ks := w.sorted(s.st, op.B)
	n := int(op.V)
	for i := 0; i < n && i < len(ks); i++ {
		if !it.Next() {
			simrt.Fail("check", "iteration with prefix %q after a reset ends after %d of %d keys", op.B, i, len(ks))
		}
		if it.Value() != s.st[ks[i]] {
			simrt.Fail("check", "iteration with prefix %q after a reset: item %d is value %d, expected key %q", op.B, i, it.Value(), w.keys[ks[i]])
		}
	}
	if n >= len(ks) && len(ks) > 0 && it.Next() {
		simrt.Fail("check", "iteration with prefix %q after a reset returns more than %d keys", op.B, len(ks))
	}
	it.Close()
}

func cloneState(m map[int]uint64) map[int]uint64 {
	n := make(map[int]uint64, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// save writes the stopped tree and judges what the call reports.
func (w *world) save(h *handle, d *disk) []byte {
	armed := w.cs.FaultSteps > 0 && !w.inner
	if !w.inner {
		simrt.Bound(w.seqBound())
	}
	before := len(simrt.LiveLibTasks())
	w.ops["save"]++
	if armed {
		simrt.Arm(w.cs.FaultSteps)
		simrt.Drain(w.seqBound()) // the stream may come in single bytes
	}
	n, err := h.t.WriteState(d)
	if armed {
		simrt.Disarm()
	}
	if w.or&oIO != 0 {
		simrt.WaitIdle()
		if live := simrt.LiveLibTasks(); len(live) > before {
			simrt.Fail("check", "background work left after a save (error %v): %v", err, live)
		}
		if d.failed {
			w.ops["write_error"]++
			if err == nil {
				simrt.Fail("check", "the destination reported an error at byte %d (%s) and the save reported success", d.failAt, d.mode)
			}
			return nil
		}
	}
	if d.failed {
		return nil
	}
	if err != nil {
		simrt.Fail("check", "save failed without an error from the destination: %v", err)
	}
	if w.or&oIO != 0 && n != len(d.buf) {
		simrt.Fail("check", "save reports %d bytes, %d were written", n, len(d.buf))
	}
	return d.buf
}

// readState runs NewTreeFromState, with preemption and stalls where the case has
// them: the background work of the new tree runs alongside.
func (w *world) readState(src io.Reader) (*radix.Tree, error) {
	armed := w.cs.FaultSteps > 0 && !w.inner
	if armed {
		simrt.Arm(w.cs.FaultSteps)
		simrt.Drain(w.seqBound()) // the stream may come in single bytes
	}
	t, err := radix.NewTreeFromState(src)
	if armed {
		simrt.Disarm()
	}
	return t, err
}

// loadTree loads a saved state that must be accepted.
func (w *world) loadTree(data []byte, chunk int) *handle {
	w.ops["load"]++
	if !w.inner {
		simrt.Bound(w.seqBound())
	}
	t, err := w.readState(newSource(data, chunk))
	if err != nil {
		simrt.Fail("check", "loading a complete saved state (%d bytes, pieces of %d) failed: %v", len(data), chunk, err)
	}
	if t == nil {
		simrt.Fail("check", "loading returned no tree and no error")
	}
	return &handle{t: t}
}

// restart saves, loads and goes on with one of the trees; the other is checked
// at once and closed.
func (s *seqRun) restart(op *Op) {
	w := s.w
	s.releaseAll()
	s.h.t.Stop()
	d := &disk{failAt: -1, slow: op.Pre}
	data := w.save(s.h, d)
	nh := w.loadTree(data, int(op.N))
	s.last = data
	old := s.h
	switch op.Mode {
	case "saved":
		old.t.Start()
		s.full(nh, s.st)
		nh.t.Close()
	case "both":
		// the saved tree goes on as well, with its own content
		old.t.Start()
		s.full(old, s.st)
		s.side(old, cloneState(s.st))
		s.full(nh, s.st)
		s.h = nh
	default:
		s.h = nh
		old.t.Close()
	}
	s.allocs = nil
}

// side exercises a tree next to the main one.
func (s *seqRun) side(h *handle, st map[int]uint64) {
	sub := &seqRun{w: s.w, h: h, st: st, or: s.or, sorted: newOrdered()}
	for k := range st {
		sub.sorted.insert(s.w.keys[k])
	}
	for k := range s.w.keys {
		sub.do(&Op{K: "del", Key: k})
		if k%2 == 0 {
			sub.do(&Op{K: "put", Key: k})
		}
	}
	sub.full(h, sub.st)
	h.t.Close()
}

// saveFail saves to a destination failing at byte N.
func (s *seqRun) saveFail(op *Op) {
	w := s.w
	s.releaseAll()
	s.h.t.Stop()
	w.save(s.h, &disk{failAt: int(op.N), mode: op.Mode, slow: op.Pre})
	s.h.t.Start()
}

// saveAll fails a save at many positions: around every write and spread over
// the stream, every byte of it if it is short.
func (s *seqRun) saveAll(op *Op) {
	w := s.w
	s.releaseAll()
	s.h.t.Stop()
	ref := &disk{failAt: -1}
	data := w.save(s.h, ref)
	budget := int(op.N)
	pos := map[int]bool{}
	var list []int
	add := func(p int) {
		if p >= 0 && p < len(data) && !pos[p] && len(list) < budget {
			pos[p] = true
			list = append(list, p)
		}
	}
	if len(data) <= budget {
		for i := range data {
			add(i)
		}
	} else {
		r := simrt.NewRng(op.V)
		for i := 0; i < budget/2; i++ {
			b := ref.bounds[r.Intn(len(ref.bounds))]
			add(b + r.Intn(3) - 1)
		}
		for len(list) < budget {
			add(r.Intn(len(data)))
		}
	}
	modes := []string{"torn", "none", "once", "full", "nospace"}
	for i, p := range list {
		w.save(s.h, &disk{failAt: p, mode: modes[(i+int(op.V))%len(modes)]})
	}
	w.ops["write_error_positions"] += len(list)
	data = w.save(s.h, &disk{failAt: -1})
	nh := w.loadTree(data, 0)
	s.h.t.Start()
	s.full(nh, s.st)
	s.full(s.h, s.st)
	nh.t.Close()
}

// loadCut loads truncated and failing streams, all of which must be rejected.
func (s *seqRun) loadCut(op *Op) {
	w := s.w
	s.releaseAll()
	s.h.t.Stop()
	data := w.save(s.h, &disk{failAt: -1})
	s.h.t.Start()
	budget := int(op.N)
	r := simrt.NewRng(op.V)
	try := func(p int, mode int) {
		src := newSource(data[:p], []int{0, 1, 3, -17, 4096}[mode%5])
		what := "cut short"
		if mode%2 == 1 {
			src.err = errDisk
			what = "with a reader failing"
			w.ops["read_error"]++
		} else {
			w.ops["truncation"]++
		}
		simrt.Bound(w.seqBound())
		before := len(simrt.LiveLibTasks())
		t, err := w.readState(src)
		simrt.WaitIdle()
		if (err == nil || t != nil) && w.or&oIO != 0 {
			simrt.Fail("check", "loading a state of %d bytes %s at byte %d was accepted (error %v)", len(data), what, p, err)
		}
		if t != nil {
			t.Close()
			simrt.WaitIdle()
		}
		if n := len(simrt.LiveLibTasks()); n > before {
			simrt.Fail("check", "background work left after a rejected load")
		}
	}
	if len(data) <= budget {
		for p := range data {
			try(p, 2*r.Intn(5))
			try(p, 1+2*r.Intn(5))
		}
		w.ops["streams_cut_at_every_byte"]++
	} else {
		for i := 0; i < budget; i++ {
			try(r.Intn(len(data)), r.Intn(10))
		}
		// around the line and block boundaries
		for p := 1; p < len(data); p++ {
			if data[p-1] == '\n' && r.Intn(3) == 0 {
				try(p, r.Intn(10))
			}
		}
		for p := len(data) - 40; p < len(data); p++ {
			if p >= 0 {
				try(p, r.Intn(10))
			}
		}
	}
	if w.or&oIO == 0 {
		// only what the rejected loads leave behind matters
		return
	}
	// a state with blocks of another size
	if from := bytes.Index(data, []byte("\nblocksize ")); from >= 0 {
		from += len("\nblocksize ")
		to := from + bytes.IndexByte(data[from:], '\n')
		if size, err := strconv.Atoi(string(data[from:to])); err == nil {
			for _, n := range []int{size * 4, size * 8, size / 2, size * 2, size + 8, 0} {
				other := append(append(append([]byte(nil), data[:from]...), strconv.Itoa(n)...), data[to:]...)
				simrt.Bound(w.seqBound())
				t, err := w.readState(&source{data: other})
				if err == nil || t != nil {
					simrt.Fail("check", "loading a state saved with blocks of %d bytes was accepted (error %v)", n, err)
				}
				w.ops["other_block_size"]++
			}
		}
	}
	// states in which an earlier build left out a block that was in use
	for _, g := range loadGoldens() {
		if !g.incomplete() || g.BlockSize != shippedBlock || r.Intn(4) > 0 {
			continue
		}
		simrt.Bound(w.seqBound())
		t, err := w.readState(newSource(g.Data, []int{0, 100, -17, 4096}[r.Intn(4)]))
		if err == nil || t != nil {
			simrt.Fail("check", "loading a state without the last block in use (%s) was accepted (error %v)", g.Name, err)
		}
		w.ops["state_without_last_block"]++
	}
	// a reader that fails after delivering everything
	t, err := w.readState(&source{data: data, err: errDisk})
	if err == nil || t != nil {
		simrt.Fail("check", "loading from a reader failing after the last byte was accepted")
	}
	for _, c := range []int{1, 2, 7, -5, 0} {
		nh := w.loadTree(data, c)
		s.full(nh, s.st)
		nh.t.Close()
	}
}

func (w *world) runSeq(h *handle) {
	s := &seqRun{w: w, h: h, st: map[int]uint64{}, or: w.or, sorted: newOrdered()}
	for _, k := range w.cs.Init {
		s.do(&Op{K: "put", Key: k})
	}
	for i := range w.cs.Seq {
		op := &w.cs.Seq[i]
		s.do(op)
	}
	s.releaseAll()
	s.allocs = nil
	if w.atEnd != nil {
		w.atEnd(s)
		return
	}
	s.full(s.h, s.st)
	if w.or&oSweep != 0 {
		w.sweep(s.h, s.st)
	}
	if w.or&oLeak != 0 {
		w.closeAndCheck(s.h)
	}
}

func (w *world) closeAndCheck(hs ...*handle) {
	for _, h := range hs {
		if !h.closed {
			h.t.Close()
			h.closed = true
		}
	}
	simrt.WaitIdle()
	if live := simrt.LiveLibTasks(); len(live) > 0 {
		simrt.Fail("check", "background tasks left after Close: %v", live)
	}
}

// ---- memory cycling ----

// operations that go through the tree interface
var memNeedsTree = map[string]bool{"iter": true, "iteropen": true, "count": true, "min": true, "max": true}

func (w *world) runMem(h *handle) {
	m := w.cs.Mem
	groups := m.Clients
	per := make([][]int, groups)
	frame := map[int]bool{}
	for _, k := range w.cs.Init {
		frame[k] = true
	}
	for k := range w.keys {
		if frame[k] || int(w.keys[k][0]) >= groups {
			continue
		}
		g := int(w.keys[k][0])
		per[g] = append(per[g], k)
	}
	blocks := func() int {
		st := map[string]interface{}{}
		h.t.Stats(st)
		return st["blocks_allocated"].(int)
	}
	var reader *simrt.Task
	if m.StallLen > 0 {
		reader = simrt.Spawn("reader", func() {
			simrt.StallAfter(m.StallAt, m.StallLen)
			kind := m.Reader
			if kind == "" {
				kind = "get"
			}
			(&client{w: w, h: h, id: 3000}).do(&Op{K: kind, Key: per[0][0]})
			simrt.StallAfter(0, 0)
		})
	}
	cs := make([]*client, groups)
	idle := &client{w: w, id: 2001}
	reserve := func() {
		var held []*radix.Allocator
		for i := 0; i < m.Hold; i++ {
			held = append(held, h.t.GetAllocator())
		}
		for g := range cs {
			cs[g] = &client{w: w, h: h, id: g}
			if m.Reserved {
				cs[g].a = h.t.GetAllocator()
			}
		}
		idle.h = h
		if m.IdleHold {
			idle.a = h.t.GetAllocator()
		}
		for _, a := range held {
			h.t.ReleaseAllocator(a)
		}
	}
	reserve()
	begin := func() {
		for _, k := range w.cs.Init {
			cs[0].do(&Op{K: "put", Key: k})
		}
	}
	if !m.IdleFirst {
		begin()
	}
	for i := range m.Idle {
		hold := idle.a
		if memNeedsTree[m.Idle[i].K] {
			idle.a = nil
		}
		idle.do(&m.Idle[i])
		idle.a = hold
	}
	if m.IdleFirst {
		begin()
	}
	cycle := func(g, n int) {
		c := cs[g]
		ks := append([]int(nil), per[g]...)
		r := simrt.NewRng(w.cs.Seed ^ uint64(g*1000))
		if m.Order == 2 {
			r = simrt.NewRng(w.cs.Seed ^ uint64(g*1000+n+1))
		}
		shuffle := func() {
			if m.Order > 0 {
				for i := len(ks) - 1; i > 0; i-- {
					j := r.Intn(i + 1)
					ks[i], ks[j] = ks[j], ks[i]
				}
			}
		}
		mixed := 0
		mix := func(k int) {
			mixed++
			if m.Reads == 0 || mixed%m.Reads != 0 {
				return
			}
			kinds := []string{"get", "miss", "delab", "putab", "missdel"}
			if !m.Reserved {
				kinds = append(kinds, "iter", "count", "min", "max", "iteropen")
			}
			switch kind := kinds[r.Intn(len(kinds))]; kind {
			case "miss":
				c.do(&Op{K: "get", Key: -1, B: append([]byte{byte(g), 0x80, 0xfe, 0xfe}, w.keys[k]...)})
			case "missdel":
				c.do(&Op{K: "delab", Key: -1, B: append([]byte{byte(g), 0x80, 0xfe, 0xfe}, w.keys[k]...)})
			default:
				c.do(&Op{K: kind, Key: k, N: uint64(r.Intn(3))})
			}
		}
		shuffle()
		for _, k := range ks {
			c.do(&Op{K: "put", Key: k})
			mix(k)
		}
		if m.Update {
			for _, k := range ks {
				c.do(&Op{K: "put", Key: k})
			}
		}
		shuffle()
		for _, k := range ks {
			c.do(&Op{K: "del", Key: k})
			mix(k)
		}
	}
	total := 0
	n := 0
	round := func() {
		simrt.Bound(20_000_000)
		if groups == 1 {
			cycle(0, n)
		} else {
			simrt.Arm(200_000)
			var ts []*simrt.Task
			for g := 0; g < groups; g++ {
				g := g
				ts = append(ts, simrt.Spawn(fmt.Sprintf("cycle%d", g), func() { cycle(g, n) }))
			}
			simrt.Join(ts...)
			simrt.Disarm()
		}
		n++
		w.hist = w.hist[:0]
		for v, i := range w.vals {
			if i.w != nil && !frame[i.key] && (reader == nil || reader.Done()) {
				delete(w.vals, v)
			}
		}
		if m.Restart > 0 && n%m.Restart == 0 && (reader == nil || reader.Done()) {
			for _, c := range append(cs, idle) {
				if c.a != nil {
					h.t.ReleaseAllocator(c.a)
					c.a = nil
				}
			}
			h.t.Stop()
			data := w.save(h, &disk{failAt: -1})
			if m.Loaded {
				nh := w.loadTree(data, 0)
				h.t.Close()
				h = nh
			} else {
				h.t.Start()
			}
			reserve()
		}
	}
	if reader != nil {
		for i := 0; i < m.Cycles && !reader.Done(); i++ {
			round()
		}
		simrt.Join(reader)
		w.ops["stalled_reader"]++
	}
	// the memory must stop growing: growth in the second half of the cycles is
	// accepted only if it ends in a longer run
	var series []int
	cycles := m.Cycles
	for try := 0; ; try++ {
		half := 0
		for i := 0; i < cycles; i++ {
			round()
			total++
			if i == cycles/2 {
				half = blocks()
			}
			if i%(cycles/5+1) == 0 {
				series = append(series, blocks())
			}
		}
		end := blocks()
		if end-half <= 1+half/10 {
			break
		}
		if try >= m.Tries-1 {
			simrt.Fail("check", "the number of allocated blocks keeps growing over %d equal cycles of %d keys: %v, finally %d", total, len(w.keys)-len(w.cs.Init), series, end)
		}
		w.ops["memory_extended"]++
		cycles *= 2
	}
	w.ops["cycles"] += total
}
