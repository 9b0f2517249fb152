// Package simrt is a deterministic cooperative scheduler. The library under
// test is compiled against it (see cmd/instrument): every synchronisation
// operation, goroutine start, channel operation, yield, clock read, loop and
// access to shared slots calls in here. Exactly one task runs at a time; which
// one runs next is a pure function of the policy (seed) or of a recorded list
// of deviations from the default schedule.
package simrt

import (
	"fmt"
	"iter"
	"runtime/debug"
	"strings"
)

// Kinds of scheduling points.
const (
	kSync = iota
	kPlain
	kForced // yield, blocked, stalled: the current task should not simply go on
)

// Switch is one recorded deviation from the default schedule: at scheduling
// point Step the current task is stalled for Stall steps (if non-zero) and
// Task runs next.
type Switch struct {
	Step  uint64 `json:"s"`
	Task  int    `json:"t"`
	Stall uint64 `json:"stall,omitempty"`
}

// Policy decides the schedule.
type Policy struct {
	Mode     string   `json:"mode"` // "default", "random", "pct", "replay"
	Seed     uint64   `json:"seed"`
	P        float64  `json:"p,omitempty"`         // preemption probability at synchronisation points
	PlainP   float64  `json:"plain_p,omitempty"`   // preemption probability at plain accesses
	StallP   float64  `json:"stall_p,omitempty"`   // probability of a stall at a synchronisation point
	StallMax uint64   `json:"stall_max,omitempty"` // longest stall in steps
	Changes  int      `json:"changes,omitempty"`   // pct: number of priority changes
	Horizon  uint64   `json:"horizon,omitempty"`   // pct: estimated length
	PoolMode int      `json:"pool_mode,omitempty"` // 0 lifo, 1 always new, 2 fifo
	CPUs     int      `json:"cpus,omitempty"`
	LibStall uint64   `json:"lib_stall,omitempty"` // steps by which library tasks are late to start
	Trace    []Switch `json:"trace,omitempty"`     // replay
}

// Failure describes why a simulated run was stopped.
type Failure struct {
	Kind string // "panic", "hang", "check"
	Msg  string
	Task string
}

// Stats counts what happened in a run.
type Stats struct {
	Steps       uint64
	Preemptions uint64
	Spins       uint64
	Stalls      uint64
	StallSteps  uint64
	Blocks      uint64
	Scripted    uint64 // stalls injected at a scripted point inside an operation
	LateStarts  uint64
	Freezes     uint64
	Tasks       int
	SchedHash   uint64
}

type Task struct {
	id         int
	name       string
	lib        bool
	fn         func()
	next       func() (struct{}, bool)
	stop       func()
	yieldFn    func(struct{}) bool
	ready      func() bool
	why        string
	stallUntil uint64
	done       bool
	started    bool
	prio       int
	stallIn    uint64 // scripted stall: at the stallIn-th scheduling point from now
	stallLen   uint64
	domain     int32
	idle       bool // a ticker
	asleep     bool // on its own account, not by a fault
	frozen     bool // until Thaw
	held       int  // locks of the library
}

// Done reports whether the task has finished.
func (t *Task) Done() bool { return t.done }

type killSig struct{}

// Sim is one simulated execution.
type Sim struct {
	tasks   []*Task
	cur     *Task
	nextT   *Task
	step    uint64
	stamp   uint64
	ticks   uint64
	runLen  uint64
	preempt bool
	killed  bool
	fair    bool
	pkg     bool // the package level state is being set up
	thawed  bool // no more freezes
	soft    bool // tasks that hold a lock freeze later

	drain    uint64 // steps allowed after the faults have stopped
	faultEnd uint64 // step at which faults stop and the fair schedule starts (0: not armed)
	limit    uint64 // step at which the run counts as hung

	policy   Policy
	rng      Rng
	draw     Rng // random numbers of the library
	changeAt map[uint64]bool
	lowPrio  int
	ti       int
	trace    []Switch

	failure *Failure
	chans   map[uintptr]*chanState
	stats   Stats
	hash    uint64
	race    *raceState
}

// S is the simulation in progress (one per process).
var S *Sim
var generation uint64

const (
	quantumDefault = 3000
	quantumFair    = 40
	tickLimit      = 60_000_000
	phaseLimit     = 30_000_000
	drainLimit     = 4_000_000
)

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }
func (r *Rng) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *Rng) Float() float64        { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *Rng) Chance(p float64) bool { return r.Float() < p }

// NewSim returns a simulation with the given schedule policy.
func NewSim(p Policy) *Sim {
	s := &Sim{policy: p, chans: map[uintptr]*chanState{}, hash: 1469598103934665603}
	s.rng.s = p.Seed
	s.draw.s = p.Seed ^ 0x72616e64
	s.limit = phaseLimit
	s.thawed = true
	s.raceInit()
	return s
}

// Run executes root as the first task until it returns or the run fails.
func (s *Sim) Run(root func()) *Failure {
	if S != nil {
		panic("nested simulation")
	}
	S = s
	generation++
	r := s.spawn("root", false, root)
	s.cur = r
	s.nextT = r
	for s.failure == nil && !r.done {
		t := s.nextT
		if t == nil || t.done {
			s.step++ // a decision of its own: the task before it has just ended
			t = s.pick()
			if t == nil {
				break
			}
		}
		s.nextT = nil
		s.cur = t
		t.started = true
		t.next()
	}
	s.killed = true
	for _, t := range s.tasks {
		if !t.done {
			s.cur = t
			t.stop()
		}
	}
	s.stats.Steps = s.step
	s.stats.Tasks = len(s.tasks)
	s.stats.SchedHash = s.hash
	S = nil
	return s.failure
}

func (s *Sim) mix(v uint64) {
	s.hash ^= v
	s.hash *= 1099511628211
}

// RaceAccesses returns how many accesses the race detection looked at.
func (s *Sim) RaceAccesses() uint64 {
	if s.race == nil {
		return 0
	}
	return s.race.n
}

// Stats of the finished run.
func (s *Sim) Stats() Stats { return s.stats }

// Trace returns the recorded deviations from the default schedule.
func (s *Sim) Trace() []Switch { return s.trace }

// Hash identifies the execution: schedule, event stamps and noted results.
func (s *Sim) Hash() uint64 { return s.hash }

func (s *Sim) spawn(name string, lib bool, fn func()) *Task {
	t := &Task{id: len(s.tasks), name: name, lib: lib, fn: fn}
	if s.cur != nil {
		t.domain = s.cur.domain
	}
	t.prio = int(s.rng.Uint64()>>40) + 1000
	if lib && s.policy.LibStall > 0 && !s.fair {
		t.stallUntil = s.step + s.policy.LibStall
		s.stats.LateStarts++
	}
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yieldFn = yield
		debug.SetPanicOnFault(true)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killSig); !ok && !s.killed {
					w := where(string(debug.Stack()))
					if w == "" {
						s.fail("harness", fmt.Sprintf("%v\n%s", r, debug.Stack()))
					} else {
						s.fail("panic", fmt.Sprintf("%v%s", r, w))
					}
				}
			}
			t.done = true
		}()
		t.fn()
	})
	s.tasks = append(s.tasks, t)
	s.raceSpawn(t.id)
	return t
}

// where extracts the innermost frames of the library from a stack dump.
func where(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/jayloop/radix.") {
			l = strings.TrimPrefix(l, "github.com/jayloop/")
			// drop the argument values: they are addresses and not reproducible
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) == 3 {
				break
			}
		}
	}
	if len(out) == 0 {
		return ""
	}
	return " in " + strings.Join(out, " < ")
}

// Debug prints the stack of the task a failure is found in.
var Debug bool

func (s *Sim) fail(kind, msg string) {
	if s.failure == nil {
		s.failure = &Failure{Kind: kind, Msg: msg, Task: s.cur.name}
		if Debug {
			fmt.Printf("%s: %s in task %s\n%s\n", kind, msg, s.cur.name, debug.Stack())
		}
	}
}

// Fail stops the run, reporting a violation found by a check.
func Fail(kind, format string, args ...interface{}) {
	s := S
	s.fail(kind, fmt.Sprintf(format, args...))
	panic(killSig{})
}

func (s *Sim) runnable(t *Task) bool {
	return !t.done && !t.frozen && t.stallUntil <= s.step && (t.ready == nil || t.ready())
}

// pick chooses the task to run when the current one cannot simply go on, and
// advances simulated time when every task is asleep.
func (s *Sim) pick() *Task {
	for {
		def := s.defaultNext()
		if def != nil {
			return s.choose(def)
		}
		// nobody can run: jump to the end of the earliest stall
		var min uint64
		for _, t := range s.tasks {
			if !t.done && !t.frozen && t.stallUntil > s.step && (t.ready == nil || t.ready()) {
				if min == 0 || t.stallUntil < min {
					min = t.stallUntil
				}
			}
		}
		if min == 0 {
			s.fail("hang", "deadlock: "+s.describe())
			return nil
		}
		s.limit += min - s.step
		s.step = min
	}
}

func (s *Sim) describe() string {
	var out []string
	for _, t := range s.tasks {
		if t.done {
			continue
		}
		w := t.why
		if t.frozen {
			w = "stopped"
		} else if w == "" {
			w = "running"
		}
		out = append(out, t.name+"="+w)
	}
	return strings.Join(out, " ")
}

// defaultNext is the next runnable task after the current one, in order of creation.
func (s *Sim) defaultNext() *Task {
	n := len(s.tasks)
	c := s.cur.id
	for i := 1; i <= n; i++ {
		t := s.tasks[(c+i)%n]
		if s.runnable(t) {
			return t
		}
	}
	return nil
}

func (s *Sim) choose(def *Task) *Task {
	if s.policy.Mode == "replay" {
		if sw := s.traceAt(); sw != nil {
			if sw.Task >= 0 && sw.Task < len(s.tasks) && s.runnable(s.tasks[sw.Task]) {
				return s.tasks[sw.Task]
			}
		}
		return def
	}
	if !s.preempt || s.fair || s.policy.Mode == "default" {
		return def
	}
	var t *Task
	switch s.policy.Mode {
	case "pct":
		t = def
		for _, o := range s.tasks {
			if o != t && o != s.cur && s.runnable(o) && o.prio > t.prio {
				t = o
			}
		}
	default:
		var cand [64]*Task
		n := 0
		for _, o := range s.tasks {
			if o != s.cur && n < len(cand) && s.runnable(o) {
				cand[n] = o
				n++
			}
		}
		if n == 0 {
			t = def
		} else {
			t = cand[s.rng.Intn(n)]
		}
	}
	if t != def {
		s.record(t.id, 0)
	}
	return t
}

func (s *Sim) traceAt() *Switch {
	tr := s.policy.Trace
	for s.ti < len(tr) && tr[s.ti].Step < s.step {
		s.ti++
	}
	if s.ti < len(tr) && tr[s.ti].Step == s.step {
		return &tr[s.ti]
	}
	return nil
}

func (s *Sim) record(task int, stall uint64) {
	if n := len(s.trace); n > 0 && s.trace[n-1].Step == s.step {
		s.trace[n-1].Task = task
		if stall > 0 {
			s.trace[n-1].Stall = stall
		}
		return
	}
	s.trace = append(s.trace, Switch{s.step, task, stall})
}

// point is a scheduling point of the current task.
func (s *Sim) point(kind int) {
	if s.killed {
		panic(killSig{})
	}
	s.step++
	s.ticks = 0
	s.runLen++
	if s.step >= s.limit {
		s.fail("hang", "no completion within the step bound: "+s.describe())
		s.switchTo(nil)
	}
	if s.faultEnd != 0 && !s.fair && s.step >= s.faultEnd {
		s.fair = true
		s.limit = s.step + s.drain
		for _, t := range s.tasks {
			if t.stallUntil <= s.step {
				continue
			}
			if !t.asleep {
				t.stallUntil = s.step
			} else if !t.idle && s.limit < t.stallUntil+s.drain {
				s.limit = t.stallUntil + s.drain
			}
		}
	}
	if c := s.cur; c.stallIn > 0 {
		c.stallIn--
		if c.stallIn > 0 || s.fair {
		} else if c.stallLen == Forever {
			if s.soft && c.held > 0 {
				c.stallIn = 1
			} else if s.freeze(c) {
				kind = kForced
			}
		} else {
			c.stallUntil = s.step + c.stallLen
			s.stats.Scripted++
			s.stats.StallSteps += c.stallLen
			kind = kForced
		}
	}
	if kind == kForced {
		t := s.pick()
		if t != s.cur {
			s.switchTo(t)
		}
		return
	}
	q := uint64(quantumDefault)
	if s.fair {
		q = quantumFair
	}
	if s.policy.Mode == "replay" {
		if sw := s.traceAt(); sw != nil {
			over := s.runLen > q
			if sw.Stall > 0 {
				s.stall(sw.Stall)
			}
			if t := s.pick(); t != s.cur {
				s.stats.Preemptions++
				s.switchTo(t)
			}
			if over {
				s.runLen = 0
			}
			return
		}
	}
	if s.runLen > q {
		if t := s.pick(); t != s.cur {
			s.switchTo(t)
		}
		s.runLen = 0
		return
	}
	if !s.preempt || s.fair {
		return
	}
	switch s.policy.Mode {
	case "random":
		p := s.policy.P
		if kind == kPlain {
			p = s.policy.PlainP
		}
		if p <= 0 {
			return
		}
		x := s.rng.Float()
		if kind == kSync && s.policy.StallP > 0 && x > 1-s.policy.StallP {
			n := 1 + s.rng.Uint64()%s.policy.StallMax
			if s.rng.Intn(3) > 0 {
				n = 1 + n/16
			}
			s.record(-1, n)
			s.stall(n)
			if t := s.pick(); t != s.cur {
				s.switchTo(t)
			}
			return
		}
		if x >= p {
			return
		}
		var cand [64]*Task
		n := 0
		for _, o := range s.tasks {
			if o != s.cur && n < len(cand) && s.runnable(o) {
				cand[n] = o
				n++
			}
		}
		if n == 0 {
			return
		}
		t := cand[s.rng.Intn(n)]
		s.record(t.id, 0)
		s.stats.Preemptions++
		s.switchTo(t)
	case "pct":
		if s.changeAt == nil {
			s.changeAt = map[uint64]bool{}
			h := s.policy.Horizon
			if h < 10 {
				h = 10
			}
			for i := 0; i < s.policy.Changes; i++ {
				s.changeAt[s.step+1+s.rng.Uint64()%h] = true
			}
		}
		if s.changeAt[s.step] {
			s.lowPrio++
			s.cur.prio = -s.lowPrio
			t := s.cur
			for _, o := range s.tasks {
				if o != t && s.runnable(o) && o.prio > t.prio {
					t = o
				}
			}
			if t != s.cur {
				s.record(t.id, 0)
				s.stats.Preemptions++
				s.switchTo(t)
			}
		}
	}
}

// freeze stops a task until Thaw.
func (s *Sim) freeze(t *Task) bool {
	if s.thawed || t.done {
		return false
	}
	t.frozen = true
	s.stats.Freezes++
	return true
}

func (s *Sim) stall(n uint64) {
	s.cur.stallUntil = s.step + n
	s.stats.Stalls++
	s.stats.StallSteps += n
}

func (s *Sim) switchTo(t *Task) {
	s.nextT = t
	s.runLen = 0
	c := s.cur
	if t != nil {
		s.mix(s.step<<8 | uint64(t.id))
	}
	if s.failure != nil || t == nil {
		s.killed = true
		panic(killSig{})
	}
	if !c.yieldFn(struct{}{}) {
		panic(killSig{})
	}
	if s.killed {
		panic(killSig{})
	}
}

// block parks the current task until ready returns true.
func (s *Sim) block(why string, ready func() bool) {
	if s.killed {
		panic(killSig{})
	}
	if ready() {
		return
	}
	t := s.cur
	t.ready, t.why = ready, why
	s.stats.Blocks++
	for !ready() {
		s.point(kForced)
	}
	t.ready, t.why = nil, ""
}

// ---- interface for the instrumented code ----

// Sync is a scheduling point before a synchronisation operation.
func Sync() {
	if s := S; s != nil {
		s.point(kSync)
	}
}

// Tick bounds loops that contain no scheduling point.
func Tick() {
	s := S
	if s == nil {
		return
	}
	s.ticks++
	if s.ticks > tickLimit {
		if s.killed {
			panic(killSig{})
		}
		s.fail("hang", "loop without end")
		s.killed = true
		panic(killSig{})
	}
}

// Pt is a scheduling point before a plain access to shared slots.
func Pt[T any](v T) T {
	if s := S; s != nil {
		s.point(kPlain)
	}
	return v
}

// Rd separates the read and the write of a plain read-modify-write, and marks
// plain reads of fields that are elsewhere accessed atomically.
func Rd[T any](v T) T {
	if s := S; s != nil {
		s.point(kSync)
	}
	return v
}

// Go starts a task of the library.
func Go(fn func()) {
	s := S
	if s == nil {
		// while the process starts; Package starts it again in every execution
		return
	}
	if s.pkg {
		s.spawn("package", false, fn)
		return
	}
	s.point(kSync)
	n := 0
	for _, t := range s.tasks {
		if t.lib {
			n++
		}
	}
	s.spawn(fmt.Sprintf("lib%d", n), true, fn)
}

// Gosched yields.
func Gosched() {
	s := S
	if s == nil {
		return
	}
	s.stats.Spins++
	if s.preempt && !s.fair && s.policy.Mode == "pct" {
		s.lowPrio++
		s.cur.prio = -s.lowPrio
	}
	s.point(kForced)
}

// NumCPU is a knob of the run.
func NumCPU() int {
	if s := S; s != nil && s.policy.CPUs > 0 {
		return s.policy.CPUs
	}
	return 2
}

func GOMAXPROCS(int) int { return NumCPU() }

// ---- interface for the harness ----

// Spawn starts a client task.
func Spawn(name string, fn func()) *Task { return S.spawn(name, false, fn) }

// Join waits for tasks to finish.
func Join(ts ...*Task) {
	S.block("join", func() bool {
		for _, t := range ts {
			if !t.done {
				return false
			}
		}
		return true
	})
	for _, t := range ts {
		S.raceJoin(t)
	}
}

// WaitIdle waits until every other task is finished or blocked.
func WaitIdle() {
	s := S
	me := s.cur
	s.block("idle", func() bool {
		for _, t := range s.tasks {
			if t == me || t.done || t.idle {
				continue
			}
			if t.stallUntil > s.step || t.ready == nil || t.ready() {
				return false
			}
		}
		return true
	})
}

// LiveLibTasks returns the names of unfinished tasks started by the library.
func LiveLibTasks() (out []string) {
	for _, t := range S.tasks {
		if t.lib && !t.done {
			out = append(out, t.name+"("+t.why+")")
		}
	}
	return
}

// Arm starts the concurrent phase: preemption on, and after the given number
// of further steps faults stop and the schedule becomes fair.
func Arm(faultSteps uint64) {
	s := S
	s.preempt = true
	s.fair = false
	s.faultEnd = s.step + faultSteps
	s.drain = drainLimit
	s.limit = s.step + faultSteps + s.drain
	s.changeAt = nil
}

// Drain sets the number of steps allowed after the faults have stopped.
func Drain(steps uint64) {
	s := S
	if steps > s.drain {
		s.limit += steps - s.drain
		s.drain = steps
	}
}

// Disarm ends the concurrent phase.
func Disarm() {
	s := S
	s.preempt = false
	s.fair = false
	s.faultEnd = 0
	s.limit = s.step + phaseLimit
	for _, t := range s.tasks {
		if t.stallUntil > s.step {
			t.stallUntil = s.step
		}
	}
}

// Bound sets the step bound for what follows.
func Bound(steps uint64) { S.limit = S.step + steps }

// InFault reports whether the fault phase is still on.
func InFault() bool { return S.preempt && !S.fair }

// Pause stalls the calling task for n steps (ignored once faults have stopped).
func Pause(n uint64) {
	s := S
	if n == 0 || s.fair || !s.preempt {
		return
	}
	if n == Forever {
		if !s.freeze(s.cur) {
			return
		}
	} else {
		s.stall(n)
	}
	s.point(kForced)
}

// Forever is a stall that ends with Thaw.
const Forever = ^uint64(0)

// Thaw lets the tasks go on that were stopped for ever, and ends such faults.
func Thaw() {
	S.thawed = true
	for _, t := range S.tasks {
		t.frozen = false
	}
}

// Freezing says whether tasks that hold locks may be stopped for ever too.
func Freezing(locked bool) { S.soft, S.thawed = !locked, false }

// FreezeLib stops the tasks of the library until Thaw.
func FreezeLib() {
	for _, t := range S.tasks {
		if t.lib {
			S.freeze(t)
		}
	}
}

// StallAfter arranges for the calling task to stall for n steps at its k-th
// scheduling point from now; k = 0 cancels.
func StallAfter(k, n uint64) {
	S.cur.stallIn, S.cur.stallLen = k, n
}

// Stamp returns the next event number.
func Stamp() uint64 {
	s := S
	s.stamp++
	s.mix(s.stamp<<20 | s.step&0xfffff)
	return s.stamp
}

// Note mixes an observed result into the execution hash.
func Note(v uint64) { S.mix(v ^ 0xabcdef) }

// Step returns the number of scheduling points passed.
func Step() uint64 { return S.step }

// SetDomain says which of several independent objects the calling task works
// on from now; tasks it starts inherit it.
func SetDomain(d int) { S.cur.domain = int32(d) }

// CurTask returns the number of the running task.
func CurTask() int { return S.cur.id }
