package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"verif/simrt"
)

// judge evaluates the oracles over the history of a phase.
func (w *world) judge() {
	w.index()
	if w.or&(oLin|oStrong) != 0 {
		w.linearizable()
	}
	if w.or&oHold != 0 {
		w.holds()
	}
	if w.or&oWindow != 0 {
		w.windows()
	}
	if w.or&oLen != 0 {
		w.lengths()
	}
	if w.or&(oStop) != 0 {
		w.stops()
	}
	if w.or&oAlloc != 0 {
		w.exclusive()
	}
	if w.or&oAdmin != 0 {
		w.adminHistory()
	}
	for _, r := range w.hist {
		full := len(r.prefix) == 0
		switch r.kind {
		case "iter":
			if w.or&oIter != 0 && full || w.or&oPrefix != 0 && !full {
				w.iteration(r)
			}
		case "min", "max":
			if w.or&oMinMax != 0 && full || w.or&oPrefix != 0 && !full {
				w.minmax(r)
			}
		case "count":
			if w.or&oCount != 0 && full || w.or&oPrefix != 0 && !full {
				w.count(r)
			}
		}
	}
}

var writes map[int][]*rec // successful writes per key
var over map[uint64]*rec  // successful operation that replaced a value

func (w *world) index() {
	writes = map[int][]*rec{}
	over = map[uint64]*rec{}
	for _, r := range w.hist {
		if r.done {
			writes[r.key] = append(writes[r.key], r)
			if r.match {
				over[r.cand] = r
			}
		}
	}
}

// describe lists the operations on a key, for the report.
func (w *world) describe(key int) string {
	var out []string
	for _, r := range w.hist {
		if r.key != key || r.kind == "reserve" {
			continue
		}
		s := fmt.Sprintf("c%d %s[%d..%d", r.c, r.kind, r.inv, r.ret)
		if r.prep != 0 {
			s = fmt.Sprintf("c%d %s[%d prep %d fin %d ret %d", r.c, r.kind, r.inv, r.prep, r.fin, r.ret)
		}
		s += "]"
		switch {
		case r.found && w.vals[r.cand].key == key:
			s += fmt.Sprintf(" saw %d", r.cand)
		default:
			s += " saw none"
		}
		if r.tried {
			switch {
			case !r.done:
				s += " conflict"
			case r.wrote == absent:
				s += " deleted"
			default:
				s += fmt.Sprintf(" wrote %d", r.wrote)
			}
		}
		out = append(out, s)
		if len(out) >= 40 {
			out = append(out, "...")
			break
		}
	}
	return strings.Join(out, "; ")
}

// ---- linearizability per key ----

type lop struct {
	inv, ret uint64
	old, new uint64 // a read has old == new
}

func (w *world) linearizable() {
	per := map[int][]lop{}
	add := func(k int, o lop) { per[k] = append(per[k], o) }
	strong := w.or&oStrong != 0
	for _, r := range w.hist {
		switch r.kind {
		case "get":
			if r.found {
				k := w.vals[r.cand].key
				add(k, lop{r.inv, r.ret, r.cand, r.cand})
				if k == r.key {
					continue
				}
			}
			if r.key >= 0 {
				add(r.key, lop{r.inv, r.ret, absent, absent})
			}
		case "put", "ins", "upd", "rmw", "putab", "del", "delab":
			old := absent
			if r.found {
				k := w.vals[r.cand].key
				if k == r.key {
					old = r.cand
				} else {
					add(k, lop{r.inv, r.prep, r.cand, r.cand})
				}
			}
			if r.key < 0 {
				continue
			}
			if !r.done || strong {
				add(r.key, lop{r.inv, r.prep, old, old})
			}
			if r.done {
				o := lop{r.inv, r.ret, old, r.wrote}
				if strong {
					o.inv = r.fin
				}
				add(r.key, o)
			}
		}
	}
	var ks []int
	for k := range per {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		init, ok := w.initSt[k]
		if !ok {
			init = absent
		}
		if !wgl(per[k], init) {
			simrt.Fail("check", "no linearization of the operations on key %q (initially %s): %s", w.keys[k], valStr(init), w.describe(k))
		}
	}
}

func valStr(v uint64) string {
	if v == absent {
		return "none"
	}
	return fmt.Sprint(v)
}

type mask [4]uint64

func (m *mask) set(i int)      { m[i>>6] |= 1 << (i & 63) }
func (m *mask) has(i int) bool { return m[i>>6]>>(i&63)&1 == 1 }

// wgl decides linearizability of a register with compare-and-swap, splitting
// the history where no operation is pending.
func wgl(ops []lop, init uint64) bool {
	sort.Slice(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	states := []uint64{init}
	for i := 0; i < len(ops); {
		j := i + 1
		end := ops[i].ret
		for j < len(ops) && ops[j].inv < end {
			if ops[j].ret > end {
				end = ops[j].ret
			}
			j++
		}
		seg := ops[i:j]
		i = j
		if len(seg) > 250 {
			return wglLong(seg, states, ops[i:])
		}
		out := map[uint64]bool{}
		wglGaveUp = false
		for _, s := range states {
			wglSeg(seg, s, out)
		}
		if wglGaveUp {
			return wglLong(seg, states, ops[i:])
		}
		if len(out) == 0 {
			return false
		}
		states = states[:0]
		for s := range out {
			states = append(states, s)
		}
	}
	return true
}

// wglLong: too long for the bit mask or the search; counted, never judged.
var wglSkipped int
var wglGaveUp bool

func wglLong([]lop, []uint64, []lop) bool { wglSkipped++; return true }

func wglSeg(seg []lop, init uint64, out map[uint64]bool) {
	type node struct {
		m mask
		s uint64
	}
	n := len(seg)
	if n == 1 {
		if seg[0].old == init {
			out[seg[0].new] = true
		}
		return
	}
	seen := map[node]bool{}
	var dfs func(m mask, s uint64, done int)
	dfs = func(m mask, s uint64, done int) {
		if done == n {
			out[s] = true
			return
		}
		nd := node{m, s}
		if seen[nd] || len(seen) > 300_000 {
			return
		}
		seen[nd] = true
		minRet := ^uint64(0)
		for i := 0; i < n; i++ {
			if !m.has(i) {
				if seg[i].inv > minRet {
					break
				}
				if seg[i].ret < minRet {
					minRet = seg[i].ret
				}
			}
		}
		for i := 0; i < n; i++ {
			if m.has(i) {
				continue
			}
			if seg[i].inv > minRet {
				break
			}
			if seg[i].old == s {
				m2 := m
				m2.set(i)
				dfs(m2, seg[i].new, done+1)
				if seg[i].old == seg[i].new {
					return // a read that fits can always go first
				}
			}
		}
	}
	dfs(mask{}, init, 0)
	if len(seen) > 300_000 {
		wglGaveUp = true
	}
}

// ---- exclusive access between prepare and finalize ----

func (w *world) holds() {
	for _, r := range w.hist {
		if !r.done {
			if r.tried && !w.disturbed(r) {
				simrt.Fail("check", "client %d is refused a change of key %q [%d..%d] while nobody else changed anything: %s", r.c, w.keyName(r), r.inv, r.ret, w.describe(r.key))
			}
			continue
		}
		for _, o := range writes[r.key] {
			if o != r && o.fin > r.prep && o.ret < r.fin {
				simrt.Fail("check", "client %d changed key %q [%d..%d] while client %d held it prepared [%d..%d], and both succeeded: %s", o.c, w.keys[r.key], o.fin, o.ret, r.c, r.prep, r.fin, w.describe(r.key))
			}
		}
	}
}

// disturbed: another operation changed, during r, what r was about to change.
func (w *world) disturbed(r *rec) bool {
	for _, o := range w.hist {
		if o.done && o != r && o.fin < r.ret && o.ret > r.inv {
			if !r.found || o.key == r.key || o.key == w.vals[r.cand].key || o.found && o.cand == r.cand {
				return true
			}
		}
	}
	return false
}

// ---- presence windows ----

func (w *world) initial(k int) int {
	if _, ok := w.initSt[k]; ok {
		return 1
	}
	return 0
}

// stable: key k is present at every moment of [s, e].
func (w *world) stable(k int, s, e uint64) bool {
	n := w.initial(k)
	for _, r := range writes[k] {
		if r.wrote == absent {
			if r.fin < e && r.ret > s {
				return false
			}
			if r.ret < s {
				n--
			}
		} else if !r.match && r.ret < s {
			n++
		}
	}
	return n == 1
}

// possible: value v may have been stored at some moment of [s, e].
func (w *world) possible(v uint64, s, e uint64) bool {
	i := w.vals[v]
	if i == nil || i.failed || i.dead {
		return false
	}
	if i.w != nil && !(i.w.done && i.w.fin < e) {
		return false
	}
	if o := over[v]; o != nil && o.ret < s {
		return false
	}
	return true
}

func (w *world) possibleKey(k int, s, e uint64) bool {
	if v, ok := w.initSt[k]; ok && w.possible(v, s, e) {
		return true
	}
	for _, r := range writes[k] {
		if r.wrote != absent && w.possible(r.wrote, s, e) {
			return true
		}
	}
	return false
}

func (w *world) windows() {
	for _, r := range w.hist {
		e := r.ret
		if r.prep != 0 {
			e = r.prep
		}
		switch r.kind {
		case "get", "put", "ins", "upd", "rmw", "putab", "del", "delab":
			if r.found && !w.possible(r.cand, r.inv, e) {
				simrt.Fail("check", "%s of key %s by client %d in [%d..%d] saw value %d, which was not stored then: %s", r.kind, w.keyName(r), r.c, r.inv, e, r.cand, w.describe(w.vals[r.cand].key))
			}
			if r.key >= 0 && !(r.found && w.vals[r.cand].key == r.key) && w.stable(r.key, r.inv, e) {
				simrt.Fail("check", "%s of key %s by client %d in [%d..%d] did not find it although it was there: %s", r.kind, w.keyName(r), r.c, r.inv, e, w.describe(r.key))
			}
		}
	}
}

func (w *world) keyName(r *rec) string {
	if r.key < 0 {
		return "outside the set"
	}
	return fmt.Sprintf("%q", w.keys[r.key])
}

// ---- scans ----

func lcp(a, b []byte) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func (w *world) iteration(r *rec) {
	var stable []int
	for k := range w.keys {
		if bytes.HasPrefix(w.keys[k], r.prefix) && w.stable(k, r.inv, r.ret) {
			stable = append(stable, k)
		}
	}
	got := map[int]bool{}
	strays := 0
	max := -1
	for i, v := range r.vals {
		k := w.vals[v].key
		if !w.possible(v, r.inv, r.ret) {
			simrt.Fail("check", "iteration with prefix %q in [%d..%d] returned value %d of key %q, which was not stored then: %s", r.prefix, r.inv, r.ret, v, w.keys[k], w.describe(k))
		}
		if !bytes.HasPrefix(w.keys[k], r.prefix) {
			strays++
			if strays > 1 || len(stable) > 0 || i != len(r.vals)-1 {
				simrt.Fail("check", "iteration with prefix %q returned key %q (%d keys with the prefix were there throughout)", r.prefix, w.keys[k], len(stable))
			}
			continue
		}
		got[k] = true
		if max >= 0 && bytes.Compare(w.keys[k], w.keys[max]) <= 0 {
			if !w.mayRepeat(k, r.inv, r.ret) {
				simrt.Fail("check", "iteration with prefix %q in [%d..%d] returned key %q after key %q: %s", r.prefix, r.inv, r.ret, w.keys[k], w.keys[max], w.valsNames(r.vals))
			}
			continue
		}
		max = k
	}
	if r.complete {
		for _, k := range stable {
			if !got[k] {
				simrt.Fail("check", "iteration with prefix %q in [%d..%d] missed key %q, which was there throughout; returned %s; %s", r.prefix, r.inv, r.ret, w.keys[k], w.valsNames(r.vals), w.describe(k))
			}
		}
	} else if max >= 0 {
		for _, k := range stable {
			if !got[k] && bytes.Compare(w.keys[k], w.keys[max]) < 0 {
				simrt.Fail("check", "iteration with prefix %q in [%d..%d] skipped key %q, which was there throughout; returned %s", r.prefix, r.inv, r.ret, w.keys[k], w.valsNames(r.vals))
			}
		}
	}
}

func (w *world) valsNames(vs []uint64) string {
	var out []string
	for i, v := range vs {
		if i == 60 {
			out = append(out, "...")
			break
		}
		out = append(out, fmt.Sprintf("%q", w.keys[w.vals[v].key]))
	}
	return strings.Join(out, " ")
}

// mayRepeat: the one case in which a key may come late or again: a later key was deleted which shares
// a longer beginning (at least one byte) with it than any remaining key.
func (w *world) mayRepeat(k int, s, e uint64) bool {
	l := 0
	for o := range w.keys {
		if o != k && w.stable(o, s, e) {
			if x := lcp(w.keys[k], w.keys[o]); x > l {
				l = x
			}
		}
	}
	for d, ws := range writes {
		if d == k || bytes.Compare(w.keys[d], w.keys[k]) <= 0 || lcp(w.keys[d], w.keys[k]) <= l {
			continue
		}
		for _, r := range ws {
			if r.wrote == absent && r.fin < e && r.ret > s {
				return true
			}
		}
	}
	return false
}

func (w *world) minmax(r *rec) {
	var stable []int
	for k := range w.keys {
		if bytes.HasPrefix(w.keys[k], r.prefix) && w.stable(k, r.inv, r.ret) {
			stable = append(stable, k)
		}
	}
	if !r.found {
		if len(stable) > 0 {
			simrt.Fail("check", "%s with prefix %q in [%d..%d] reports no key although key %q was there throughout: %s", r.kind, r.prefix, r.inv, r.ret, w.keys[stable[0]], w.describe(stable[0]))
		}
		return
	}
	k := w.vals[r.cand].key
	if !w.possible(r.cand, r.inv, r.ret) {
		simrt.Fail("check", "%s with prefix %q in [%d..%d] returned value %d of key %q, which was not stored then: %s", r.kind, r.prefix, r.inv, r.ret, r.cand, w.keys[k], w.describe(k))
	}
	if !bytes.HasPrefix(w.keys[k], r.prefix) {
		if len(stable) > 0 {
			simrt.Fail("check", "%s with prefix %q returned key %q although key %q was there throughout", r.kind, r.prefix, w.keys[k], w.keys[stable[0]])
		}
		return
	}
	for _, s := range stable {
		c := bytes.Compare(w.keys[s], w.keys[k])
		if r.kind == "min" && c < 0 || r.kind == "max" && c > 0 {
			simrt.Fail("check", "%s with prefix %q in [%d..%d] returned key %q although key %q was there throughout", r.kind, r.prefix, r.inv, r.ret, w.keys[k], w.keys[s])
		}
	}
}

func (w *world) count(r *rec) {
	lo, hi := 0, 0
	any := false
	for k := range w.keys {
		p := w.possibleKey(k, r.inv, r.ret)
		any = any || p
		if !bytes.HasPrefix(w.keys[k], r.prefix) {
			continue
		}
		if w.stable(k, r.inv, r.ret) {
			lo++
		}
		if p {
			hi++
		}
	}
	if lo == 0 && hi == 0 && any && len(r.prefix) > 0 {
		hi = 1 // an unverified candidate
	}
	if r.n < lo || r.n > hi {
		simrt.Fail("check", "count with prefix %q in [%d..%d] is %d: %d keys were there throughout, %d at some time", r.prefix, r.inv, r.ret, r.n, lo, hi)
	}
}

// ---- length ----

func (w *world) lengths() {
	for _, r := range w.hist {
		if r.kind != "len" {
			continue
		}
		lo, hi := len(w.initSt), len(w.initSt)
		for _, ws := range writes {
			for _, o := range ws {
				if o.wrote == absent {
					if o.fin < r.ret {
						lo--
					}
					if o.ret < r.inv {
						hi--
					}
				} else if !o.match {
					if o.ret < r.inv {
						lo++
					}
					if o.fin < r.ret {
						hi++
					}
				}
			}
		}
		if r.n < lo || r.n > hi {
			simrt.Fail("check", "length query in [%d..%d] returned %d, outside %d..%d", r.inv, r.ret, r.n, lo, hi)
		}
	}
}

// ---- stop and start ----

func (w *world) stops() {
	var starts []*rec
	for _, r := range w.hist {
		if r.kind == "start" {
			starts = append(starts, r)
		}
	}
	for _, s := range w.hist {
		if s.kind != "stop" {
			continue
		}
		from, to := s.ret, ^uint64(0)
		ok := true
		for _, t := range starts {
			if t.inv < s.ret && t.ret > s.inv {
				ok = false
				break
			}
			if t.inv > s.ret && t.inv < to {
				to = t.inv
			}
		}
		if !ok {
			continue
		}
		for _, r := range w.hist {
			switch r.kind {
			case "get", "put", "ins", "upd", "rmw", "putab", "del", "delab", "reserve", "count":
				if r.inv > from && r.ret != 0 && r.ret < to && !(r.kind == "reserve") {
					simrt.Fail("check", "client %d did %s in [%d..%d] while the tree was stopped [%d..%d] by client %d", r.c, r.kind, r.inv, r.ret, from, to, s.c)
				}
				if r.prep != 0 {
					held := r.tree && r.kind != "get" && r.kind != "count" || r.kind == "reserve"
					if held && r.prep < r.fin && r.prep < from && (r.fin > from || r.fin == 0) {
						simrt.Fail("check", "Stop by client %d returned at %d while client %d was inside %s [%d..%d]", s.c, from, r.c, r.kind, r.prep, r.fin)
					}
					if r.inv > from && r.prep < to {
						simrt.Fail("check", "client %d started %s at %d, reserved at %d, while the tree was stopped [%d..%d] by client %d", r.c, r.kind, r.inv, r.prep, from, to, s.c)
					}
				}
			}
		}
	}
}

// ---- allocators ----

func (w *world) exclusive() {
	type ev struct {
		at uint64
		d  int
		r  *rec
	}
	var evs []ev
	var res []*rec
	for _, r := range w.hist {
		switch r.kind {
		case "reserve":
			res = append(res, r)
			evs = append(evs, ev{r.prep, 1, r}, ev{r.fin, -1, r})
		case "put", "ins", "upd", "rmw", "putab", "del", "delab":
			if r.tree && r.prep < r.fin {
				evs = append(evs, ev{r.prep, 1, r}, ev{r.fin, -1, r})
			}
		}
	}
	for i, a := range res {
		for _, b := range res[i+1:] {
			if a.alloc == b.alloc && a.prep < b.fin && b.prep < a.fin {
				simrt.Fail("check", "one allocator reserved by client %d [%d..%d] and client %d [%d..%d]", a.c, a.prep, a.fin, b.c, b.prep, b.fin)
			}
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	n := 0
	for _, e := range evs {
		n += e.d
		if n > w.cs.Allocs {
			simrt.Fail("check", "%d allocators in use at once, the tree has %d (at %d, client %d, %s)", n, w.cs.Allocs, e.at, e.r.c, e.r.kind)
		}
	}
}
