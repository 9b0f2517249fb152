package main

import (
	"bytes"
	"compress/gzip"
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/jayloop/radix"
	"verif/simrt"
)

// States saved by earlier builds, with what is in them.
//
//go:embed golden/*.gz
var goldenFiles embed.FS

type golden struct {
	Name      string
	BlockSize int
	Allocs    int
	Keys      [][]byte
	Present   []int
	Values    []uint64
	Data      []byte
}

var goldenOnce sync.Once
var goldens []*golden

func loadGoldens() []*golden {
	goldenOnce.Do(func() {
		es, err := goldenFiles.ReadDir("golden")
		if err != nil {
			panic(err)
		}
		for _, e := range es {
			f, err := goldenFiles.Open("golden/" + e.Name())
			if err != nil {
				panic(err)
			}
			g := new(golden)
			z, err := gzip.NewReader(f)
			if err == nil {
				err = json.NewDecoder(z).Decode(g)
			}
			if err != nil {
				panic(err)
			}
			g.Name = strings.TrimSuffix(e.Name(), ".gz")
			set := newOrdered()
			for _, k := range g.Present {
				set.insert(g.Keys[k])
			}
			// keys that can be stored together with those
			val := map[int]uint64{}
			for i, k := range g.Present {
				val[k] = g.Values[i]
			}
			keys := g.Keys
			g.Keys, g.Present, g.Values = nil, nil, nil
			for k, key := range keys {
				if v, there := val[k]; there {
					g.Present = append(g.Present, len(g.Keys))
					g.Values = append(g.Values, v)
				} else if len(key) == 0 || !set.prefixFree(key) {
					continue
				} else {
					set.insert(key)
				}
				g.Keys = append(g.Keys, key)
			}
			if len(g.Keys) == 0 {
				g.Keys = [][]byte{[]byte("k")}
			}
			goldens = append(goldens, g)
		}
		sort.Slice(goldens, func(i, j int) bool { return goldens[i].Name < goldens[j].Name })
	})
	return goldens
}

// variant is the one whose block size the state has.
func (g *golden) variant() string {
	switch g.Name[:2] {
	case "s8":
		return "s8"
	case "s1":
		return "s16"
	}
	return "ship"
}

// incomplete: a block in use was left out when the state was saved.
func (g *golden) incomplete() bool { return strings.Contains(g.Name, "v0-m") }

// writeGoldens records the states at the end of n histories.
func writeGoldens(dir, tag, vname string, base, n uint64) {
	for i := uint64(0); i < n; i++ {
		g := &gen{r: simrt.NewRng(caseSeed(base, "golden", i)), v: variants[vname]}
		g.c = &Case{Prop: "C17", Variant: vname, Family: "seq"}
		g.seq(&profile{mix: seqMix.without("restart", "stopstart")})
		if g.c.Allocs == 0 {
			g.c.Allocs = 2
		}
		switch {
		case strings.HasSuffix(tag, "w"):
			g.limits(int(i))
		case strings.HasSuffix(tag, "m"):
			// a block may be taken into use right before saving
			g.c.Keys, g.c.Seq, g.c.Allocs = nil, nil, 2
			g.c.Policy = simrt.Policy{Mode: "default"}
			for k := 0; k < int(i)+2; k++ {
				g.c.Seq = append(g.c.Seq, Op{K: "put", Key: k, V: uint64(k), A: int(i) % 2 * (k & 2)})
				key := append([]byte{byte(k / 2)}, bytes.Repeat([]byte{byte(i)}, 60000)...)
				g.c.Keys = append(g.c.Keys, append(key, byte(k)))
			}
		case strings.HasSuffix(tag, "e"):
			g.emptied(int(i))
		case i == 0:
			g.c.Seq = nil
		case i == 1:
			g.c.Seq = []Op{{K: "put", Key: 0, V: 1 << 54}}
		}
		var out *golden
		w := newWorld(g.c, 0)
		sim := simrt.NewSim(g.c.Policy)
		fail := sim.Run(func() {
			simrt.SetDomain(1)
			radix.ZZReset()
			h := &handle{t: radix.NewTree(&radix.Options{NumAllocators: g.c.Allocs}), state: map[int]uint64{}}
			w.atEnd = func(s *seqRun) {
				out = &golden{Allocs: g.c.Allocs, Keys: w.keys}
				// older builds forget counts that are not flushed, and blocks not yet made
				if !strings.HasSuffix(tag, "m") {
					simrt.WaitIdle()
				}
				var as []*radix.Allocator
				for range make([]int, g.c.Allocs) {
					as = append(as, s.h.t.GetAllocator())
				}
				for _, a := range as {
					a.FlushStats()
					s.h.t.ReleaseAllocator(a)
				}
				m := map[string]interface{}{}
				s.h.t.Stats(m)
				out.BlockSize = m["block_size"].(int)
				s.h.t.Stop()
				d := &disk{failAt: -1}
				if _, err := s.h.t.WriteState(d); err != nil {
					panic(err)
				}
				out.Data = d.buf
				if strings.HasSuffix(tag, "m") && !blockMissing(d.buf) {
					out = nil
					return
				}
				for k := range w.keys {
					if v, ok := s.st[k]; ok {
						out.Present = append(out.Present, k)
						out.Values = append(out.Values, v)
					}
				}
			}
			w.runSeq(h)
		})
		if fail != nil || out == nil {
			fmt.Println(i, "not recorded:", fail)
			continue
		}
		var b bytes.Buffer
		z, _ := gzip.NewWriterLevel(&b, 9)
		j, _ := json.Marshal(out)
		z.Write(j)
		z.Close()
		name := fmt.Sprintf("%s%03d.gz", tag, i)
		if err := os.WriteFile(filepath.Join(dir, name), b.Bytes(), 0o644); err != nil {
			panic(err)
		}
		fmt.Println(name, len(out.Keys), "keys", len(out.Present), "present", len(out.Data), "bytes", b.Len(), "packed")
	}
}

// blockMissing reports if an allocator uses a block that the state does not have.
func blockMissing(state []byte) bool {
	blocks, block, empty := 0, 0, false
	for _, l := range bytes.Split(state, []byte("\n")) {
		switch {
		case bytes.HasPrefix(l, []byte("allocated_blocks ")):
			blocks, _ = strconv.Atoi(string(l[17:]))
		case bytes.HasPrefix(l, []byte("empty ")):
			empty = string(l) == "empty true"
		case bytes.HasPrefix(l, []byte("block ")):
			block, _ = strconv.Atoi(string(l[6:]))
			if !empty && block >= blocks {
				return true
			}
		}
	}
	return false
}

// limits: nodes with every number of children near where their layout
// changes, and prefixes with every length near where theirs does.
func (g *gen) limits(i int) {
	r := g.r
	c := g.c
	c.Keys, c.Seq, c.Allocs = nil, nil, 1+i%3
	insert := func(k []byte) {
		c.Seq = append(c.Seq, Op{K: "put", Key: len(c.Keys), V: r.Uint64() >> 9, A: r.Intn(c.Allocs + 1)})
		c.Keys = append(c.Keys, k)
	}
	sizes := []int{2, 3, 7, 8, 9, 16, 17, 32, 33, 48, 49, 63, 64, 65, 66}
	switch i % 8 {
	case 1:
		sizes = []int{90, 99, 100, 101, 126, 127, 128, 129, 130, 131}
	case 2:
		sizes = []int{127, 128, 129, 159, 160, 161, 191, 192, 193}
	case 3:
		sizes = []int{128, 200, 223, 224, 225, 253, 254, 255, 256}
	case 4, 5:
		// full once, with these left
		sizes = []int{1, 2, 30, 60, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129}
		if i%8 == 5 {
			sizes = []int{63, 64, 65, 127, 128, 129, 150}
		}
	case 6, 7:
		lens := []int{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 247, 248, 249}
		if i%8 == 7 {
			lens = []int{240, 248, 253, 254, 255, 256, 257, 263, 264, 265, 300, 511, 512, 513, 1000, 1024}
		}
		for g, n := range lens {
			k := append([]byte{byte(g)}, make([]byte, n)...)
			for i := range k[1:] {
				k[1+i] = byte(r.Intn(256))
			}
			for j := 0; j < 2+r.Intn(3); j++ {
				insert(append(append([]byte(nil), k...), byte(j*50), byte(r.Intn(256))))
			}
		}
		sizes = nil
	}
	for g, n := range sizes {
		head := []byte{byte(g * 7)}
		for j := r.Intn(12); j > 0; j-- {
			head = append(head, byte(r.Intn(256)))
		}
		first := len(c.Keys)
		most := n
		if i%8 == 4 || i%8 == 5 {
			most = 256 - r.Intn(2)*r.Intn(60)
			if most < n {
				most = n
			}
		}
		for j, b := range perm(r, 256)[:most] {
			if i%16 < 8 {
				b = j * 255 / most
				if most == 256 {
					b = j
				}
			}
			insert(append(append([]byte(nil), head...), byte(b), byte(r.Intn(256))))
		}
		for _, k := range perm(r, most)[:most-n] {
			c.Seq = append(c.Seq, Op{K: "del", Key: first + k})
		}
	}
}

// emptied: nodes that were large once and have none, one or few keys left.
func (g *gen) emptied(i int) {
	r := g.r
	c := g.c
	c.Keys, c.Seq, c.Allocs = nil, nil, 1+i%3
	fill := func(head []byte, left int) {
		first := len(c.Keys)
		n := 256 - r.Intn(2)*r.Intn(120)
		if n < left {
			n = left
		}
		for _, b := range perm(r, 256)[:n] {
			c.Seq = append(c.Seq, Op{K: "put", Key: len(c.Keys), V: r.Uint64() >> 9, A: r.Intn(c.Allocs + 1)})
			k := append(append([]byte(nil), head...), byte(b))
			c.Keys = append(c.Keys, append(k, byte(r.Intn(256))))
		}
		for _, k := range perm(r, n)[:n-left] {
			c.Seq = append(c.Seq, Op{K: "del", Key: first + k, A: r.Intn(c.Allocs + 1)})
		}
	}
	some := func() int { return pick(r, 0, 0, 1, 1, 2, 3) }
	rest := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return b
	}
	switch i % 6 {
	case 0: // all of the tree
		fill(rest(pick(r, 0, 1, 8, 300)), i/6%3)
	case 1, 2: // below one node
		n := pick(r, 2, 2, 3, 4, 9)
		for j := 0; j < n; j++ {
			fill(append([]byte{byte(j * 20)}, rest(r.Intn(10))...), some())
		}
		if i%6 == 2 {
			for j := r.Intn(4); j >= 0; j-- {
				c.Seq = append(c.Seq, Op{K: "put", Key: len(c.Keys), V: r.Uint64() >> 9})
				c.Keys = append(c.Keys, []byte{byte(7 + 20*r.Intn(12)), byte(j)})
			}
			c.Keys = dedup(c.Keys)
		}
	case 3: // below each other
		for j := 0; j < 256; j++ {
			if k := rest(1); j%50 == 7 || j == 0 && k[0] < 128 || j == 255 && k[0] < 128 {
				fill([]byte{5, byte(j)}, some())
			} else if j%50 != 7 {
				c.Seq = append(c.Seq, Op{K: "put", Key: len(c.Keys), V: r.Uint64() >> 9})
				c.Keys = append(c.Keys, []byte{5, byte(j), k[0]})
				if j%9 != 4 {
					c.Seq = append(c.Seq, Op{K: "del", Key: len(c.Keys) - 1})
				}
			}
		}
	case 4: // two levels of small nodes
		for j := 0; j < 4; j++ {
			head := append([]byte{byte(j / 2 * 9)}, rest(r.Intn(3)*4)...)
			fill(append(append([]byte(nil), head...), byte(j%2), byte(r.Intn(256))), some())
		}
	case 5: // with long shared parts
		fill(append([]byte{1}, rest(pick(r, 253, 254, 255, 256, 300))...), some())
		fill(append([]byte{2}, rest(pick(r, 247, 255, 7, 8, 9))...), some())
		fill([]byte{3}, some())
	}
}

// earlier: one of the recorded states is loaded, used, and saved again.
func (g *gen) earlier() {
	r := g.r
	c := g.c
	var gs []*golden
	for _, s := range loadGoldens() {
		if s.variant() == g.v.name && !s.incomplete() {
			gs = append(gs, s)
		}
	}
	s := gs[r.Intn(len(gs))]
	p := &profile{family: "save", mix: baseMix.with(mix{"iter": 1, "min": 1, "max": 1, "count": 1, "len": 1})}
	g.conc(p)
	c.Init, c.Warm = nil, nil
	c.Golden = s.Name
	old := len(c.Keys)
	c.Keys = s.Keys
	c.Allocs = s.Allocs
	c.Chunk = pick(r, 0, 1, 3, 100, 4096, -9, -500)
	if len(s.Data) > 200_000 && (c.Chunk == 1 || c.Chunk == 3) {
		c.Chunk = 4096
	}
	// the operations were made up for other keys
	move := make([]int, old)
	for i := range move {
		move[i] = r.Intn(len(c.Keys))
	}
	c.eachKey(func(k *int) { *k = move[*k] })
	long := len(c.Keys)
	for _, k := range c.Keys {
		long += len(k) / 100
	}
	for i := range c.Phases {
		p := &c.Phases[i]
		for t, ops := range p.Tasks {
			var keep []Op
			for _, o := range ops {
				if long > 40 && (o.K == "wipe" || o.K == "iterown") || long > 300 && o.K == "iter" && len(o.B) == 0 && r.Intn(4) > 0 {
					continue
				}
				keep = append(keep, o)
			}
			p.Tasks[t] = keep
		}
		if p.Chunk == 1 || p.Chunk == 3 {
			p.Chunk = 100
		}
		if i > 0 && r.Intn(3) > 0 {
			c.Phases = c.Phases[:i]
			break
		}
	}
}

// runGolden starts with a state saved by an earlier build.
func (w *world) golden() *handle {
	var s *golden
	for _, g := range loadGoldens() {
		if g.Name == w.cs.Golden {
			s = g
		}
	}
	if s == nil {
		panic("no such state: " + w.cs.Golden)
	}
	realSize := shippedBlock
	if realSize != s.BlockSize {
		w.ops["other_block_size"]++
		return nil
	}
	w.ops["state_of_earlier_build"]++
	simrt.Bound(w.seqBound())
	t, err := w.readState(newSource(s.Data, w.cs.Chunk))
	if err != nil {
		simrt.Fail("check", "a state saved by an earlier build (%s, %d bytes, pieces of %d) is rejected: %v", s.Name, len(s.Data), w.cs.Chunk, err)
	}
	if t == nil {
		simrt.Fail("check", "loading returned no tree and no error")
	}
	h := &handle{t: t, state: map[int]uint64{}}
	for i, k := range s.Present {
		h.state[k] = s.Values[i]
		w.vals[s.Values[i]] = &vinfo{key: k}
	}
	w.verify(h)
	return h
}

func perm(r *simrt.Rng, n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
