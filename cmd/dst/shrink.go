package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"verif/simrt"
)

// shrink minimises a failing case: first the workload, looking for a failing
// schedule of every smaller one, then the schedule itself.
type shrinker struct {
	best  *Case // in replay form
	until time.Time
	runs  int
}

func shrink(file, out string, secs float64) {
	c, err := readCase(file)
	if err != nil {
		fmt.Println("shrink:", err)
		os.Exit(2)
	}
	s := &shrinker{best: c, until: time.Now().Add(time.Duration(secs * float64(time.Second)))}
	r := runCase(c)
	if r.Fail == nil || r.Fail.Kind == "harness" {
		fmt.Println("shrink: does not reproduce")
		os.Exit(2)
	}
	s.best = withTrace(c, r)
	s.workload()
	s.schedule()
	b, err := json.MarshalIndent(s.best, "", " ")
	if err == nil {
		err = os.WriteFile(out, b, 0o644)
	}
	if err != nil {
		fmt.Println("shrink:", err)
		os.Exit(2)
	}
	fmt.Printf("shrunk in %d runs: %d operations, %d schedule deviations\n", s.runs, s.best.size(), len(s.best.Policy.Trace))
}

func (c *Case) size() int {
	n := len(c.Init) + len(c.Warm) + len(c.Seq)
	for _, p := range c.Phases {
		for _, t := range p.Tasks {
			n += len(t)
		}
	}
	return n
}

func (s *shrinker) over() bool { return time.Now().After(s.until) }

// accept runs a case and keeps it if it fails in the same way.
func (s *shrinker) accept(c *Case) bool {
	s.runs++
	r := runCase(c)
	if r.Fail == nil || r.Fail.Kind != s.best.Kind {
		return false
	}
	s.best = withTrace(c, r)
	return true
}

// try looks for a failing schedule of a smaller case.
func (s *shrinker) try(c *Case) bool {
	if s.over() {
		return false
	}
	c.Hash, c.Violation, c.Kind = "", "", ""
	if s.accept(c) {
		return true
	}
	p := c.Search
	if p == nil || p.Mode == "default" {
		return false
	}
	for i := uint64(0); i < 12 && !s.over(); i++ {
		c.Policy = *p
		c.Policy.Seed = p.Seed + i*7919
		if i > 5 && c.FaultSteps > 4000 {
			c.FaultSteps = 4000
		}
		if s.accept(c) {
			return true
		}
	}
	return false
}

// chunks removes pieces of a list of n elements, large ones first.
func (s *shrinker) chunks(n func() int, remove func(c *Case, from, to int) bool) bool {
	progress := false
	for size := (n() + 1) / 2; size >= 1 && !s.over(); size /= 2 {
		for from := 0; from < n() && !s.over(); {
			to := from + size
			if to > n() {
				to = n()
			}
			c := s.best.clone()
			if remove(c, from, to) && s.try(c) {
				progress = true
			} else {
				from += size
			}
		}
	}
	return progress
}

func cut(ops []Op, from, to int) []Op {
	return append(append([]Op(nil), ops[:from]...), ops[to:]...)
}

func (s *shrinker) workload() {
	if s.best.Mem != nil {
		// fewer keys or cycles would be another claim
		return
	}
	for progress := true; progress && !s.over(); {
		progress = false
		for p := len(s.best.Phases) - 1; p >= 0; p-- {
			c := s.best.clone()
			c.Phases = append(c.Phases[:p:p], c.Phases[p+1:]...)
			if p == 0 && len(c.Phases) > 0 {
				continue
			}
			progress = s.try(c) || progress
		}
		for p := range s.best.Phases {
			for t := len(s.best.Phases[p].Tasks) - 1; t >= 0; t-- {
				if p >= len(s.best.Phases) || t >= len(s.best.Phases[p].Tasks) {
					continue
				}
				c := s.best.clone()
				ts := c.Phases[p].Tasks
				if c.Phases[p].Freeze == nil {
					c.Phases[p].Tasks = append(ts[:t:t], ts[t+1:]...)
				} else if len(ts[t]) > 0 {
					ts[t] = nil
				} else {
					continue
				}
				progress = s.try(c) || progress
			}
			for t := range s.best.Phases[p].Tasks {
				if t >= len(s.best.Phases[p].Tasks) {
					continue
				}
				progress = s.chunks(func() int { return len(s.best.Phases[p].Tasks[t]) }, func(c *Case, from, to int) bool {
					c.Phases[p].Tasks[t] = cut(c.Phases[p].Tasks[t], from, to)
					return true
				}) || progress
			}
		}
		progress = s.chunks(func() int { return len(s.best.Seq) }, func(c *Case, from, to int) bool {
			c.Seq = cut(c.Seq, from, to)
			return true
		}) || progress
		progress = s.chunks(func() int { return len(s.best.Warm) }, func(c *Case, from, to int) bool {
			c.Warm = cut(c.Warm, from, to)
			return true
		}) || progress
		progress = s.chunks(func() int { return len(s.best.Init) }, func(c *Case, from, to int) bool {
			c.Init = append(append([]int(nil), c.Init[:from]...), c.Init[to:]...)
			return true
		}) || progress
		progress = s.chunks(func() int { return len(s.best.Keys) }, func(c *Case, from, to int) bool {
			return c.dropKeys(from, to)
		}) || progress
		if s.simplify() {
			progress = true
		}
	}
}

// dropKeys removes unused keys and renumbers the rest.
func (c *Case) dropKeys(from, to int) bool {
	if c.Golden != "" {
		return false // the keys are those of the recorded state
	}
	used := map[int]bool{}
	c.eachKey(func(k *int) { used[*k] = true })
	re := make([]int, len(c.Keys))
	var keys [][]byte
	for i, k := range c.Keys {
		re[i] = len(keys)
		if i < from || i >= to || used[i] {
			keys = append(keys, k)
		}
	}
	if len(keys) == len(c.Keys) || len(keys) == 0 {
		return false
	}
	c.eachKey(func(k *int) {
		if *k < len(re) {
			*k = re[*k]
		}
	})
	c.Keys = keys
	return true
}

func (c *Case) eachKey(f func(k *int)) {
	for i := range c.Init {
		f(&c.Init[i])
	}
	ops := func(l []Op) {
		for i := range l {
			if l[i].Key >= 0 {
				f(&l[i].Key)
			}
		}
	}
	ops(c.Warm)
	ops(c.Seq)
	for _, p := range c.Phases {
		for _, t := range p.Tasks {
			ops(t)
		}
	}
}

// simplify drops the pauses and stalls of operations that do not need them.
func (s *shrinker) simplify() bool {
	progress := false
	for p := range s.best.Phases {
		for t := range s.best.Phases[p].Tasks {
			for i := range s.best.Phases[p].Tasks[t] {
				if s.over() || p >= len(s.best.Phases) || t >= len(s.best.Phases[p].Tasks) || i >= len(s.best.Phases[p].Tasks[t]) {
					return progress
				}
				o := s.best.Phases[p].Tasks[t][i]
				if o.Pre > 0 || o.SA > 0 {
					c := s.best.clone()
					c.Phases[p].Tasks[t][i].Pre = 0
					c.Phases[p].Tasks[t][i].SA = 0
					c.Phases[p].Tasks[t][i].SF = 0
					progress = s.try(c) || progress
				}
			}
		}
	}
	return progress
}

// schedule removes deviations from the default schedule.
func (s *shrinker) schedule() {
	for progress := true; progress && !s.over(); {
		progress = false
		for size := (len(s.best.Policy.Trace) + 1) / 2; size >= 1 && !s.over(); size /= 2 {
			for from := 0; from < len(s.best.Policy.Trace) && !s.over(); {
				c := s.best.clone()
				tr := c.Policy.Trace
				to := from + size
				if to > len(tr) {
					to = len(tr)
				}
				n := len(tr)
				c.Policy.Trace = append(append([]simrt.Switch(nil), tr[:from]...), tr[to:]...)
				old := s.best
				if s.accept(c) && len(s.best.Policy.Trace) < n {
					progress = true
				} else {
					s.best = old
					from += size
				}
			}
			if size == 1 {
				break
			}
		}
	}
}
