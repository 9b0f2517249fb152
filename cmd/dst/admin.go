package main

import (
	"bytes"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/jayloop/radix"
	"verif/simrt"
)

// console is where administrative output goes; it may be slow and it may fail.
type console struct {
	buf    bytes.Buffer
	failAt int // fails from this byte on, 0: never
}

func (o *console) Write(p []byte) (int, error) {
	simrt.Sync()
	if o.failAt > 0 && o.buf.Len()+len(p) > o.failAt {
		return 0, errDisk
	}
	if o.buf.Len() > 1<<22 {
		simrt.Fail("check", "administrative output does not end")
	}
	return o.buf.Write(p)
}

var adminCommands = [][]string{{"allocators"}, {"info"}, {"blocks"}, {"root"}, {"node"}, {"node", "?"}, {}, {"nonsense", "1", "2"}, {"walk"}, {"allocators", "1"}, {"root", "2"}}

var childLine = regexp.MustCompile(`(LEAF|NODE): 0x([0-9a-f]{16}) ([0-9]+) \((?:value|data)=([0-9]+)`)

// listed returns the leaf values and the node ids of the children printed.
func listed(out string) (vals []uint64, nodes []string) {
	for _, m := range childLine.FindAllStringSubmatch(out, -1) {
		if m[1] == "LEAF" {
			v, _ := strconv.ParseUint(m[4], 10, 64)
			vals = append(vals, v)
		} else if m[3] != "0" {
			nodes = append(nodes, m[3])
		}
	}
	return
}

func (w *world) adminRun(t *radix.Tree, failAt int, argv ...string) string {
	o := &console{failAt: failAt}
	t.Admin(o, argv)
	if o.buf.Len() == 0 && failAt == 0 && len(argv) == 1 {
		simrt.Fail("check", "administrative command %q prints nothing", argv)
	}
	return o.buf.String()
}

// admin issues the administrative command of an operation, at any time.
func (c *client) admin(op *Op) {
	w := c.w
	argv := adminCommands[op.N%uint64(len(adminCommands))]
	fail := 0
	if op.V > 0 {
		fail = int(op.V)
	}
	if len(argv) == 2 && argv[1] == "?" {
		argv = []string{"node", string(op.B)}
	}
	if w.or&oAdmin == 0 {
		w.ops["admin"]++
		if len(argv) > 0 && argv[0] == "walk" {
			argv = []string{"root"}
		}
		w.adminRun(c.h.t, fail, argv...)
		return
	}
	cmd := ""
	if len(argv) > 0 {
		cmd = argv[0]
	}
	r := c.rec("admin", -1)
	switch cmd {
	case "root", "walk":
		// every key printed is one stored during the command
		out := w.adminRun(c.h.t, fail, "root")
		var nodes []string
		r.vals, nodes = listed(out)
		r.ret = simrt.Stamp()
		simrt.Note(uint64(len(out)))
		if cmd == "walk" {
			// the nodes may be gone by then: anything may be printed
			for i, id := range nodes {
				if i == 6 {
					break
				}
				w.adminRun(c.h.t, 0, "node", id)
			}
		}
	default:
		out := w.adminRun(c.h.t, fail, argv...)
		r.ret = simrt.Stamp()
		if cmd == "allocators" && len(argv) == 1 && fail == 0 {
			if n := strings.Count(out, "Allocator "); n != w.allocs(c.h) {
				simrt.Fail("check", "%d allocators listed, there are %d", n, w.allocs(c.h))
			}
		}
	}
}

func (w *world) allocs(h *handle) int {
	if h.allocs > 0 {
		return h.allocs
	}
	return w.cs.Allocs
}

// adminHistory judges what was printed while others worked.
func (w *world) adminHistory() {
	for _, r := range w.hist {
		if r.kind != "admin" {
			continue
		}
		for _, v := range r.vals {
			if w.vals[v] == nil || !w.possible(v, r.inv, r.ret) {
				simrt.Fail("check", "the root printed in [%d..%d] lists value %d, which was not stored then", r.inv, r.ret, v)
			}
		}
	}
}

// adminQuiet compares everything that can be asked with the expected state.
func (w *world) adminQuiet(h *handle, st map[int]uint64, stopped bool) {
	want := map[uint64]int{}
	for k, v := range st {
		want[v] = k
	}
	got := map[uint64]bool{}
	out := w.adminRun(h.t, 0, "root")
	if (len(st) == 0) != strings.Contains(out, "empty") {
		simrt.Fail("check", "%d keys are stored, and the root is printed as %q", len(st), out)
	}
	vals, nodes := listed(out)
	count := 0
	if len(vals)+len(nodes) > 1 {
		count++
	}
	for {
		for _, v := range vals {
			if _, ok := want[v]; !ok || got[v] {
				simrt.Fail("check", "the nodes printed list value %d, which is not stored or listed already", v)
			}
			got[v] = true
		}
		if len(nodes) == 0 {
			break
		}
		id := nodes[len(nodes)-1]
		nodes = nodes[:len(nodes)-1]
		count++
		if count > 2*len(w.keys)+2 {
			simrt.Fail("check", "the nodes printed lead to more nodes than there are keys")
		}
		var more []string
		vals, more = listed(w.adminRun(h.t, 0, "node", id))
		if len(vals)+len(more) < 2 {
			simrt.Fail("check", "node %s is printed with %d children", id, len(vals)+len(more))
		}
		nodes = append(nodes, more...)
	}
	for v, k := range want {
		if !got[v] {
			simrt.Fail("check", "the nodes printed do not list key %q", w.keys[k])
		}
	}
	if n := strings.Count(w.adminRun(h.t, 0, "allocators"), "Allocator "); n != w.allocs(h) {
		simrt.Fail("check", "%d allocators listed, there are %d", n, w.allocs(h))
	}
	if stopped {
		return
	}
	// with every caller's counter flushed the statistics are exact
	as := make([]*radix.Allocator, w.allocs(h))
	for i := range as {
		as[i] = h.t.GetAllocator()
	}
	for _, a := range as {
		a.FlushStats()
	}
	for _, a := range as {
		h.t.ReleaseAllocator(a)
	}
	stats := func() map[string]interface{} {
		m := map[string]interface{}{}
		h.t.Stats(m)
		return m
	}
	m := stats()
	num := func(name string) int64 {
		v, err := strconv.ParseInt(fmt.Sprint(m[name]), 10, 64)
		if err != nil {
			simrt.Fail("check", "statistics give %v for %s", m[name], name)
		}
		return v
	}
	if n := num("objects_approx"); n != int64(len(st)) {
		simrt.Fail("check", "statistics give %d objects after all counters were flushed, %d keys are stored", n, len(st))
	}
	if n := num("allocators"); n != int64(w.allocs(h)) {
		simrt.Fail("check", "statistics give %d allocators, there are %d", n, w.allocs(h))
	}
	if (fmt.Sprint(m["root_node"]) == "0") != (len(st) == 0) {
		simrt.Fail("check", "statistics give root %v, %d keys are stored", m["root_node"], len(st))
	}
	blocks, size, bytes := num("blocks_allocated"), num("block_size"), num("bytes_allocated")
	if blocks < 1 || bytes != blocks*size {
		simrt.Fail("check", "statistics give %d blocks of %d bytes, %d bytes in all", blocks, size, bytes)
	}
	if per, ok := m["bytes_per_key"].(float64); ok != (len(st) > 0) || ok && math.Abs(per*float64(len(st))-float64(bytes)) > 1e-3*float64(bytes) {
		simrt.Fail("check", "statistics give %v bytes per key for %d bytes and %d keys", m["bytes_per_key"], bytes, len(st))
	}
	out = w.adminRun(h.t, 0, "info")
	for name := range m {
		if !strings.Contains(out, name) {
			simrt.Fail("check", "info does not list %s", name)
		}
	}
	out = w.adminRun(h.t, 0, "blocks")
	before := blocks
	m = stats()
	if after := num("blocks_allocated"); after == before {
		if n := strings.Count(out, "in use") + strings.Count(out, "allocated"); int64(n) != blocks {
			simrt.Fail("check", "blocks lists %d blocks, statistics give %d", n, blocks)
		}
	}
}
