package simrt

import (
	"fmt"
	"unsafe"
)

// Race detection: happens-before over the simulated execution, by vector
// clocks. Accesses are reported by the instrumented code (variants built with
// -race only); edges come from the synchronisation operations as the Go memory
// model defines them. A pair of conflicting accesses that are not both atomic
// and not ordered is reported whichever of them came first in this schedule.

// Sites names the accesses: set by the instrumented package.
var Sites []string

type access struct {
	t    int32
	site int32
	c    uint32
	d    int32
}

type shadow struct {
	w      access // last plain write
	hasW   bool
	r      []access // plain reads since, and atomic reads and writes
	ar, aw []access
}

type vclock []uint32

func (v vclock) covers(a access) bool { return int(a.t) < len(v) && v[a.t] >= a.c }

type raceState struct {
	mem   map[unsafe.Pointer]*shadow
	sync  map[unsafe.Pointer]vclock
	vc    []vclock
	found int
	n     uint64

	across bool // report only accesses made on behalf of different domains
}

// RaceBuild is set by packages instrumented for race detection.
var RaceBuild bool

func (s *Sim) raceInit() {
	if RaceBuild {
		s.race = &raceState{mem: map[unsafe.Pointer]*shadow{}, sync: map[unsafe.Pointer]vclock{}}
	}
}

func (r *raceState) clock(t int) vclock {
	for len(r.vc) <= t {
		v := make(vclock, len(r.vc)+1)
		v[len(r.vc)] = 1
		r.vc = append(r.vc, v)
	}
	return r.vc[t]
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

// spawned orders everything before the go statement before the new task.
func (s *Sim) raceSpawn(child int) {
	r := s.race
	if r == nil {
		return
	}
	r.clock(child)
	if s.cur != nil {
		p := s.cur.id
		r.vc[child].join(r.clock(p))
		r.vc[p][p]++
	}
}

func (s *Sim) raceJoin(t *Task) {
	if r := s.race; r != nil {
		c := s.cur.id
		r.clock(c)
		r.vc[c].join(r.clock(t.id))
	}
}

// acquire: what was released at p happens before what follows.
func acquire(p unsafe.Pointer) {
	s := S
	if s == nil || s.race == nil {
		return
	}
	r, c := s.race, s.cur.id
	r.clock(c)
	if v, ok := r.sync[p]; ok {
		r.vc[c].join(v)
	}
}

// release publishes the clock at p; with merge, in addition to earlier ones.
func release(p unsafe.Pointer, merge bool) {
	s := S
	if s == nil || s.race == nil {
		return
	}
	r, c := s.race, s.cur.id
	v := r.clock(c)
	o := r.sync[p]
	if !merge {
		o = o[:0]
	}
	o.join(v)
	r.sync[p] = o
	v[c]++
}

func (s *Sim) raced(what string, site int, a access, was string) {
	name := func(i int32) string {
		switch {
		case i < 0:
			return "an atomic operation"
		case int(i) < len(Sites):
			return Sites[i]
		}
		return "?"
	}
	if s.race.across && (a.d == 0 || s.cur.domain == 0 || a.d == s.cur.domain) {
		return
	}
	if s.race.found++; s.race.found > 1 {
		return
	}
	other := fmt.Sprint(a.t)
	if int(a.t) < len(s.tasks) {
		other = s.tasks[a.t].name
	}
	s.fail("race", fmt.Sprintf("unsynchronised access to shared memory%s: %s (%s) by %s is not ordered with %s (%s) by %s", map[bool]string{true: " on behalf of different trees"}[s.race.across], what, name(int32(site)), s.cur.name, was, name(a.site), other))
	panic(killSig{})
}

// RacesAcross restricts the reports to pairs of different domains.
func RacesAcross() {
	if S.race != nil {
		S.race.across = true
	}
}

func (r *raceState) at(p unsafe.Pointer) *shadow {
	sh := r.mem[p]
	if sh == nil {
		sh = &shadow{}
		r.mem[p] = sh
	}
	return sh
}

// put records an access, dropping those it is ordered after.
func put(l []access, a access, v vclock) []access {
	n := 0
	for _, o := range l {
		if o.t != a.t && !v.covers(o) {
			l[n] = o
			n++
		}
	}
	return append(l[:n], a)
}

func (s *Sim) raceAccess(p unsafe.Pointer, write, atomic bool, site int) {
	if s.killed || s.failure != nil {
		return
	}
	r := s.race
	c := s.cur.id
	v := r.clock(c)
	r.n++
	sh := r.at(p)
	me := access{int32(c), int32(site), v[c], s.cur.domain}
	if !atomic {
		// seen already since the last synchronisation
		if sh.hasW && sh.w.t == me.t && sh.w.c == me.c && sh.w.d == me.d && len(sh.r) == 0 && len(sh.aw) == 0 && len(sh.ar) == 0 {
			return
		}
		if n := len(sh.r); !write && n > 0 && sh.r[n-1].t == me.t && sh.r[n-1].c == me.c && sh.r[n-1].d == me.d && len(sh.aw) == 0 {
			return
		}
	}
	what := "a read"
	if write {
		what = "a write"
	}
	if sh.hasW && int(sh.w.t) != c && !v.covers(sh.w) {
		s.raced(what, site, sh.w, "a write")
	}
	if !atomic {
		for _, a := range sh.aw {
			if int(a.t) != c && !v.covers(a) {
				s.raced(what, site, a, "an atomic write")
			}
		}
	}
	if write {
		for _, a := range sh.r {
			if int(a.t) != c && !v.covers(a) {
				s.raced(what, site, a, "a read")
			}
		}
		if !atomic {
			for _, a := range sh.ar {
				if int(a.t) != c && !v.covers(a) {
					s.raced(what, site, a, "an atomic read")
				}
			}
		}
	}
	switch {
	case write && !atomic:
		sh.w, sh.hasW = me, true
		sh.r, sh.ar, sh.aw = sh.r[:0], sh.ar[:0], sh.aw[:0]
	case write:
		sh.aw = put(sh.aw, me, v)
	case atomic:
		sh.ar = put(sh.ar, me, v)
	default:
		sh.r = put(sh.r, me, v)
	}
}

func atomicAccess[T any](p *T, write bool) {
	if s := S; s != nil && s.race != nil {
		s.raceAccess(unsafe.Pointer(p), write, true, -1)
	}
}

// words marks a region, by words.
func (s *Sim) words(p unsafe.Pointer, n uintptr, write bool, site int) {
	if n == 0 {
		return
	}
	s.raceAccess(p, write, false, site)
	for o := uintptr(8); o < n; o += 8 {
		s.raceAccess(unsafe.Add(p, o), write, false, site)
	}
}

// R is a plain read of *p.
func R[T any](p *T, site int) *T {
	if s := S; s != nil && s.race != nil && p != nil {
		s.words(unsafe.Pointer(p), min(unsafe.Sizeof(*p), 64), false, site)
	}
	return p
}

// W is a plain write of *p.
func W[T any](p *T, site int) *T {
	if s := S; s != nil && s.race != nil && p != nil {
		s.words(unsafe.Pointer(p), min(unsafe.Sizeof(*p), 64), true, site)
	}
	return p
}

// RS is a read of all elements.
func RS[E any](v []E, site int) []E {
	if s := S; s != nil && s.race != nil {
		for i := range v {
			s.raceAccess(unsafe.Pointer(&v[i]), false, false, site)
		}
	}
	return v
}

// Copy is the builtin, with its accesses.
func Copy[E any](dst, src []E, site int) int {
	if s := S; s != nil && s.race != nil {
		n := min(len(dst), len(src))
		for i := 0; i < n; i++ {
			s.raceAccess(unsafe.Pointer(&src[i]), false, false, site)
		}
		for i := 0; i < n; i++ {
			s.raceAccess(unsafe.Pointer(&dst[i]), true, false, site)
		}
	}
	return copy(dst, src)
}

// Move is a memmove, with its accesses.
func Move(f func(to, from unsafe.Pointer, n uintptr), to, from unsafe.Pointer, n uintptr, site int) {
	if s := S; s != nil && s.race != nil && n > 0 {
		if uintptr(from)%8 == 0 {
			s.words(from, n, false, site)
		}
		if uintptr(to)%8 == 0 {
			s.words(to, n, true, site)
		}
	}
	f(to, from, n)
}

// MR and MW are accesses to a map.
func MR[M ~map[K]V, K comparable, V any](m M, site int) M { return mapAccess(m, false, site) }
func MW[M ~map[K]V, K comparable, V any](m M, site int) M { return mapAccess(m, true, site) }

func mapAccess[M ~map[K]V, K comparable, V any](m M, write bool, site int) M {
	if s := S; s != nil && s.race != nil && m != nil {
		s.raceAccess(*(*unsafe.Pointer)(unsafe.Pointer(&m)), write, false, site)
	}
	return m
}
