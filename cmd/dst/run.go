package main

import (
	"sync"

	"github.com/jayloop/radix"
	"verif/simrt"
)

// bigBlocks: the tree has blocks of the size it is shipped with, or similar. This is so in the variant
// named for it, and in others if the code does not name the constant any more.
func bigBlocks() bool {
	sizeOnce.Do(func() {
		size := 0
		simrt.NewSim(simrt.Policy{Mode: "default"}).Run(func() {
			simrt.SetDomain(1)
			radix.ZZReset()
			t := radix.NewTree(&radix.Options{NumAllocators: 1})
			m := map[string]interface{}{}
			t.Stats(m)
			size, _ = m["block_size"].(int)
			shippedBlock = size
			t.Close()
		})
		big = size >= 1<<17
	})
	return big
}

var (
	sizeOnce sync.Once
	big      bool
	// the block size of this build
	shippedBlock int
)

// runCase executes a case.
func runCase(c *Case) *Result {
	bigBlocks()
	sim := simrt.NewSim(c.Policy)
	w := newWorld(c, oraclesOf(c))
	res := &Result{}
	res.Fail = sim.Run(func() { w.main() })
	res.Hash = sim.Hash()
	res.Stats = sim.Stats()
	res.Trace = sim.Trace()
	res.Ops = w.ops
	return res
}

func (w *world) main() {
	c := w.cs
	simrt.SetDomain(1)
	radix.ZZReset()
	if c.Family == "golden" {
		if h := w.golden(); h != nil {
			w.phases(h)
		}
		return
	}
	opts := &radix.Options{NumAllocators: c.Allocs}
	if c.Allocs == 0 && c.Seed%2 == 0 {
		opts = nil
	}
	h := &handle{t: radix.NewTree(opts), state: map[int]uint64{}}
	if c.First > 0 && radix.ZZFirstBlock(h.t, c.First) {
		w.ops["high_blocks"]++
	}
	switch c.Family {
	case "seq", "seqsave", "seqload":
		w.runSeq(h)
		return
	case "mem":
		w.runMem(h)
		return
	case "twin":
		w.runTwin(h)
		return
	}
	w.load(h)
	w.phases(h)
}

func (w *world) phases(h *handle) {
	c := w.cs
	hs := []*handle{h}
	for i := range c.Phases {
		p := &c.Phases[i]
		if p.Restart != "" {
			hs = w.restart(hs, p)
		}
		for _, h := range hs {
			w.phase(h, p, i)
		}
	}
	w.ownedIntact()
	if w.or&oLeak != 0 {
		w.closeAndCheck(hs...)
	}
}

func (w *world) restart(hs []*handle, p *Phase) []*handle {
	h := hs[len(hs)-1]
	for _, o := range hs[:len(hs)-1] {
		o.t.Close()
	}
	h.t.Stop()
	data := w.save(h, &disk{failAt: -1})
	nh := w.loadTree(data, p.Chunk)
	nh.state = cloneState(h.state)
	w.ops["restart_"+p.Restart]++
	switch p.Restart {
	case "saved":
		h.t.Start()
		w.verify(nh)
		nh.t.Close()
		return []*handle{h}
	case "loaded":
		h.t.Close()
		return []*handle{nh}
	}
	h.t.Start()
	return []*handle{h, nh}
}

// verify compares a quiet tree with its expected content.
func (w *world) verify(h *handle) {
	w.begin(h)
	c := &client{w: w, h: h, id: 1001}
	for k := range w.keys {
		c.do(&Op{K: "get", Key: k})
	}
	w.judge()
	w.quiet(h, h.state)
}
