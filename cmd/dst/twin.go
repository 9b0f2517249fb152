package main

import (
	"fmt"

	"github.com/jayloop/radix"
	"verif/simrt"
)

// Several trees in one program: two live ones used by the same clients at the
// same time, and short-lived ones that are created, saved, loaded and closed
// meanwhile. Each has its own world, with values no other tree ever holds.

func (w *world) sibling(first uint64) *world {
	n := newWorld(w.cs, w.or)
	n.ops = w.ops
	n.next = first
	n.plain = true
	return n
}

func (w *world) runTwin(h *handle) {
	c := w.cs
	w.plain = true
	// tree 1 was made already, by this task
	simrt.RacesAcross()
	simrt.SetDomain(2)
	ws := []*world{w, w.sibling(1 << 40)}
	hs := []*handle{h, {t: radix.NewTree(&radix.Options{NumAllocators: 1 + c.Allocs/2}), allocs: 1 + c.Allocs/2}}
	for i := range ws {
		simrt.SetDomain(1 + i)
		ws[i].load(hs[i])
		ws[i].begin(hs[i])
	}
	simrt.Arm(c.FaultSteps)
	var ts []*simrt.Task
	for i, ops := range c.Phases[0].Tasks {
		i, ops := i, ops
		ts = append(ts, simrt.Spawn(fmt.Sprintf("client%d", i), func() {
			cl := []*client{{w: ws[0], h: hs[0], id: i}, {w: ws[1], h: hs[1], id: i}}
			tmp := 0
			for j := range ops {
				op := &ops[j]
				// a caller that waits for one tree holds nothing of the other
				simrt.SetDomain(2 - op.T)
				cl[1-op.T].release()
				simrt.SetDomain(1 + op.T)
				if op.K == "tmp" {
					cl[op.T].release()
					tmp++
					simrt.SetDomain(100*(i+1) + tmp)
					w.sibling(uint64(2+i)<<40 | uint64(tmp)<<20).temporary(op)
					continue
				}
				cl[op.T].run1(op)
			}
			for i, c := range cl {
				simrt.SetDomain(1 + i)
				c.release()
			}
		}))
	}
	simrt.Join(ts...)
	simrt.Disarm()
	for i := range ws {
		simrt.SetDomain(1 + i)
		ws[i].finish(hs[i])
	}
	if w.or&oLeak != 0 {
		w.closeAndCheck(hs...)
	}
}

// temporary is the whole life of a tree, while other trees are in use.
func (w *world) temporary(op *Op) {
	w.inner = true
	w.or &^= oSweep | oIO
	w.ops["tmp"]++
	r := simrt.NewRng(op.V)
	h := &handle{t: radix.NewTree(&radix.Options{NumAllocators: 1}), state: map[int]uint64{}, allocs: 1}
	w.begin(h)
	c := &client{w: w, h: h, id: 3000}
	for i := uint64(0); i < op.N; i++ {
		kind := []string{"put", "put", "put", "del", "get", "putab", "iter", "min"}[r.Intn(8)]
		c.do(&Op{K: kind, Key: r.Intn(len(w.keys))})
	}
	w.finish(h)
	if op.Mode == "save" {
		h.t.Stop()
		data := w.save(h, &disk{failAt: -1})
		n := w.loadTree(data, 0)
		n.allocs = 1
		n.state = cloneState(h.state)
		w.verify(n)
		n.t.Close()
		h.t.Start()
		w.verify(h)
	}
	h.t.Close()
}
