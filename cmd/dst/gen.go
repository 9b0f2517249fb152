package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/jayloop/radix"
	"verif/simrt"
)

type rng = simrt.Rng

func pick(r *rng, xs ...int) int { return xs[r.Intn(len(xs))] }

// ---- key sets ----

type shape struct {
	max      int // number of keys
	maxSeg   int // longest shared segment
	longP    float64
	fan      int
	alpha    int // 0 any byte, 1 few letters, 2 extremes and neighbours
	depth    int
	suffix   int
	maxTotal int // bound on key length
}

func segLen(r *rng, s *shape) int {
	x := r.Float()
	switch {
	case x < 0.45:
		return 0
	case x < 0.75:
		return 1 + r.Intn(3)
	case x < 0.75+0.25*(1-s.longP):
		return pick(r, 4, 6, 7, 8, 9, 15, 16, 17, 24)
	}
	n := pick(r, 31, 64, 200, 247, 248, 249, 253, 254, 255, 256, 257, 260, 263, 264, 265, 272, 300, 511, 1000)
	if n > s.maxSeg {
		n = s.maxSeg
	}
	return n
}

func randBytes(r *rng, n int, s *shape) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = randByte(r, s)
	}
	return b
}

func randByte(r *rng, s *shape) byte {
	switch s.alpha {
	case 1:
		return "abcdefgh"[r.Intn(8)]
	case 2:
		return []byte{0, 1, 2, 127, 128, 253, 254, 255}[r.Intn(8)]
	}
	return byte(r.Uint64())
}

// trie builds a prefix-free set as the leaves of a random tree.
func trie(r *rng, s *shape) [][]byte {
	var out [][]byte
	var build func(path []byte, budget, depth int)
	build = func(path []byte, budget, depth int) {
		if budget <= 0 {
			return
		}
		leaf := func() {
			k := append([]byte(nil), path...)
			n := r.Intn(s.suffix + 1)
			if r.Intn(12) == 0 {
				n = pick(r, 7, 8, 9, 20)
			}
			k = append(k, randBytes(r, n, s)...)
			if len(k) == 0 {
				k = []byte{randByte(r, s)}
			}
			out = append(out, k)
		}
		if budget == 1 || depth <= 0 || len(path) > s.maxTotal {
			leaf()
			return
		}
		p := append(append([]byte(nil), path...), randBytes(r, segLen(r, s), s)...)
		f := 2 + r.Intn(s.fan-1)
		if f > budget {
			f = budget
		}
		chars := map[byte]bool{}
		for tries := 0; len(chars) < f && tries < 20*f+50; tries++ {
			if s.fan > 60 || s.alpha == 0 && r.Intn(4) > 0 {
				chars[byte(r.Uint64())] = true
			} else {
				chars[randByte(r, s)] = true
			}
		}
		for c := 0; len(chars) < f && c < 256; c++ {
			chars[byte(c)] = true
		}
		var cs []int
		for c := range chars {
			cs = append(cs, int(c))
		}
		sort.Ints(cs)
		// share the budget
		share := make([]int, len(cs))
		for i := range share {
			share[i] = 1
		}
		for i := len(cs); i < budget; i++ {
			j := r.Intn(len(cs))
			if r.Intn(2) == 0 {
				j = 0
			}
			share[j]++
		}
		for i, c := range cs {
			build(append(append([]byte(nil), p...), byte(c)), share[i], depth-1)
		}
	}
	build(nil, s.max, s.depth)
	// shuffle
	for i := len(out) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return dedup(out)
}

func dedup(ks [][]byte) [][]byte {
	var out [][]byte
	seen := map[string]bool{}
	for _, k := range ks {
		if !seen[string(k)] {
			seen[string(k)] = true
			out = append(out, k)
		}
	}
	return out
}

// fanKeys: one node with n children, some of which go deeper.
func fanKeys(r *rng, s *shape, n int) [][]byte {
	p := randBytes(r, segLen(r, s), s)
	perm := make([]int, 256)
	for i := range perm {
		perm[i] = i
	}
	for i := 255; i > 0; i-- {
		j := r.Intn(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	if n > 256 {
		n = 256
	}
	var out [][]byte
	for _, c := range perm[:n] {
		k := append(append([]byte(nil), p...), byte(c))
		switch r.Intn(8) {
		case 0:
			q := append(append([]byte(nil), k...), randBytes(r, segLen(r, s), s)...)
			out = append(out, append(append([]byte(nil), q...), 'x'), append(append([]byte(nil), q...), 'y'))
		case 1:
			out = append(out, append(k, randBytes(r, r.Intn(4), s)...))
		default:
			out = append(out, k)
		}
	}
	return dedup(out)
}

// intKeys: fixed-length big-endian integers.
func intKeys(r *rng, n int) [][]byte {
	l := pick(r, 1, 2, 2, 3, 4, 8)
	stride := uint64(pick(r, 1, 1, 2, 3, 16, 17, 255, 256, 257))
	base := r.Uint64() % 1000
	var out [][]byte
	for i := 0; i < n; i++ {
		v := base + uint64(i)*stride
		if l == 1 && i >= 256 {
			break
		}
		k := make([]byte, l)
		for j := l - 1; j >= 0; j-- {
			k[j] = byte(v)
			v >>= 8
		}
		out = append(out, k)
	}
	return dedup(out)
}

// stringKeys: words of few letters, zero-terminated.
func stringKeys(r *rng, n int) [][]byte {
	var out [][]byte
	for i := 0; i < n; i++ {
		l := r.Intn(8)
		var k []byte
		if len(out) > 0 && r.Intn(2) == 0 {
			o := out[r.Intn(len(out))]
			k = append(k, o[:r.Intn(len(o))]...)
		}
		for j := 0; j < l; j++ {
			k = append(k, "abc"[r.Intn(3)])
		}
		out = append(out, append(k, 0))
	}
	return dedup(out)
}

// longKeys share beginnings of lengths around the encoding limits.
func longKeys(r *rng, n int, maxLen int) [][]byte {
	base := make([]byte, maxLen)
	for i := range base {
		base[i] = byte('a' + i%17)
	}
	var out [][]byte
	for i := 0; i < n; i++ {
		l := pick(r, 0, 1, 7, 8, 246, 247, 248, 252, 253, 254, 255, 256, 257, 262, 263, 264, 510, 511, 1000, maxLen-2)
		if l > maxLen-2 {
			l = maxLen - 2
		}
		k := append([]byte(nil), base[:l]...)
		// branch away from the common beginning
		k = append(k, byte('A'+r.Intn(20)))
		if r.Intn(2) == 0 {
			k = append(k, randBytes(r, pick(r, 0, 1, 2, 8, 255, 256), &shape{alpha: 1})...)
		}
		out = append(out, append(k, 0))
	}
	// a later key may have an earlier one as its beginning: keep the set prefix-free
	set := newOrdered()
	var res [][]byte
	for _, k := range out {
		if set.prefixFree(k) {
			set.insert(k)
			res = append(res, k)
		}
	}
	return dedup(res)
}

func prefixFreeSubset(ks [][]byte) [][]byte {
	set := newOrdered()
	var res [][]byte
	for _, k := range ks {
		if len(k) > 0 && set.prefixFree(k) {
			set.insert(k)
			res = append(res, k)
		}
	}
	return res
}

// concKeys: a small contended set, prefix-free as a whole.
func concKeys(r *rng, v *variant, n int) [][]byte {
	s := &shape{max: n, fan: 2 + r.Intn(v.fan), alpha: r.Intn(3), depth: 1 + r.Intn(5), suffix: r.Intn(3), maxSeg: 300, longP: 0.05, maxTotal: 700}
	if r.Intn(5) == 0 {
		s.longP = 0.5
	}
	var ks [][]byte
	switch r.Intn(8) {
	case 0, 1, 2, 3:
		ks = trie(r, s)
	case 4:
		ks = fanKeys(r, s, n)
	case 5:
		ks = intKeys(r, n)
	case 6:
		ks = stringKeys(r, n)
	case 7:
		// a spine: each branch point has one leaf and the rest below
		var p []byte
		for i := 0; i < n; i++ {
			k := append(append([]byte(nil), p...), byte('a'+r.Intn(3)*2))
			ks = append(ks, k)
			p = append(p, byte('b'+r.Intn(2)*2))
			if r.Intn(3) == 0 {
				p = append(p, randBytes(r, segLen(r, s), s)...)
			}
		}
	}
	return prefixFreeSubset(ks)
}

// spineKeys: a tree as deep as it has keys.
func spineKeys(r *rng, n int) [][]byte {
	var ks [][]byte
	var p []byte
	down := byte('b' + r.Intn(2)*2)
	for i := 0; i < n; i++ {
		ks = append(ks, append(append([]byte(nil), p...), byte('a'+r.Intn(3)*2)))
		p = append(p, down)
		if r.Intn(40) == 0 {
			p = append(p, "xyzxyzxyzxyz"[:1+r.Intn(10)]...)
		}
	}
	if r.Intn(2) == 0 {
		for i := len(ks) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return prefixFreeSubset(ks)
}

// seqKeys: any shape; as a whole it need not be prefix-free.
func seqKeys(r *rng, v *variant, n int) [][]byte {
	s := &shape{max: n, fan: 2 + r.Intn(pick(r, 3, 10, 40, 200, 255)), alpha: r.Intn(3), depth: 1 + r.Intn(7), suffix: r.Intn(4), maxSeg: 1000, longP: 0.1, maxTotal: 3000}
	var ks [][]byte
	if v.limit > 70000 && r.Intn(12) == 0 {
		return longKeys(r, 2+r.Intn(8), pick(r, 32768, 65535, 65536, 65537, 70000)+pick(r, 1, 2, 3, 10))
	}
	switch r.Intn(9) {
	case 0, 1, 2:
		ks = trie(r, s)
	case 3:
		ks = fanKeys(r, s, pick(r, 3, 7, 20, 126, 127, 128, 129, 130, 200, 255, 256))
	case 4:
		ks = intKeys(r, n)
	case 5:
		ks = stringKeys(r, n)
	case 6:
		ks = longKeys(r, n, pick(r, 20, 260, 270, 600, 1600))
	case 7:
		ks = append(trie(r, &shape{max: n / 2, fan: 6, depth: 4, suffix: 2, maxSeg: 300, longP: 0.3, maxTotal: 900, alpha: 1}), stringKeys(r, n/2)...)
	case 8:
		ks = fanKeys(r, s, pick(r, 20, 126, 127, 128, 129, 200))
		ks = append(ks, trie(r, s)...)
	}
	// keys that are the beginning of others, to be used when the others are gone
	for i := 0; i < len(ks)/6; i++ {
		k := ks[r.Intn(len(ks))]
		if len(k) > 1 {
			ks = append(ks, append([]byte(nil), k[:1+r.Intn(len(k)-1)]...))
		}
	}
	ks = dedup(ks)
	if len(ks) > n+300 {
		ks = ks[:n+300]
	}
	return ks
}

func (g *gen) prefixArg() []byte {
	r := g.r
	if len(g.c.Keys) == 0 {
		return nil
	}
	k := g.c.Keys[r.Intn(len(g.c.Keys))]
	n := r.Intn(len(k) + 1)
	if r.Intn(6) == 0 {
		n = len(k)
	}
	if n == 0 {
		n = 1
	}
	p := append([]byte(nil), k[:n]...)
	switch r.Intn(12) {
	case 0:
		p[len(p)-1] ^= byte(1 + r.Intn(255))
	case 1:
		p = append(p, byte(r.Uint64()))
	case 2:
		p = append(p[:r.Intn(len(p))], byte(r.Uint64()))
	}
	return p
}

func (g *gen) rawArg() []byte {
	r := g.r
	switch r.Intn(6) {
	case 0:
		return []byte{}
	case 1:
		return randBytes(r, r.Intn(6), &shape{alpha: r.Intn(3)})
	}
	p := g.prefixArg()
	if r.Intn(3) == 0 {
		p = append(p, randBytes(r, r.Intn(4), &shape{alpha: 1})...)
	}
	return p
}

// ---- cases ----

type variant struct {
	name  string
	fan   int // largest interesting fan-out in contended sets
	limit int // longest shared beginning that fits in a block
	costM int // relative cost
}

var variants = map[string]*variant{
	"a":    {name: "a", fan: 8, limit: 1600},
	"b":    {name: "b", fan: 12, limit: 1600},
	"mid":  {name: "mid", fan: 10, limit: 1600},
	"ra":   {name: "ra", fan: 8, limit: 1600},
	"rm":   {name: "rm", fan: 10, limit: 1600},
	"ship": {name: "ship", fan: 10, limit: 100000},
	"s8":   {name: "s8", fan: 10, limit: 100000},
	"s16":  {name: "s16", fan: 10, limit: 100000},
}

type gen struct {
	r *rng
	v *variant
	c *Case
}

// wide: nodes get their fixed array of children late, as shipped.
func (g *gen) wide() bool { return g.v.name == "mid" || g.v.name == "rm" || g.v.name[0] == 's' }

type mix map[string]int

func (m mix) without(ks ...string) mix {
	n := mix{}
	for k, v := range m {
		n[k] = v
	}
	for _, k := range ks {
		delete(n, k)
	}
	return n
}

func (m mix) with(o mix) mix {
	n := m.without()
	for k, v := range o {
		n[k] = v
	}
	return n
}

var baseMix = mix{"get": 10, "put": 8, "ins": 5, "upd": 3, "del": 10, "rmw": 3, "putab": 1, "delab": 1, "getraw": 1}

type profile struct {
	or     int
	family string // "conc", "seq", "mem", ...
	mix    mix
	focus  []string // at least one of these is kept
	weight int
	gen    func(g *gen)
}

func caseSeed(base uint64, prop string, i uint64) uint64 {
	h := base*0x9E3779B97F4A7C15 + i*0xD1342543DE82EF95 + 12345
	for _, c := range []byte(prop) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	return h ^ h>>32
}

// genCase is a pure function of its arguments.
func genCase(prop, vname string, base, i uint64) *Case {
	seed := caseSeed(base, prop+vname, i)
	g := &gen{r: simrt.NewRng(seed), v: variants[vname]}
	g.c = &Case{Prop: prop, Variant: vname, Seed: seed, Index: i}
	ps := profiles[prop]
	if ps == nil {
		panic("no such property: " + prop)
	}
	total := 0
	for _, p := range ps {
		total += p.weight
	}
	x := g.r.Intn(total)
	for _, p := range ps {
		if x -= p.weight; x < 0 {
			g.c.Family = p.family
			p.gen2(g)
			break
		}
	}
	g.high()
	return g.c
}

// high moves some cases to the upper end of the address space and to the last
// of many allocators.
func (g *gen) high() {
	r := simrt.NewRng(g.c.Seed ^ 0x68696768)
	c := g.c
	switch c.Family {
	case "conc", "churn", "migrate", "seq", "fresh":
	default:
		return
	}
	ops := 0
	withdraws, saves := false, len(c.Phases) > 1
	visit := func(os []Op) {
		for _, o := range os {
			ops++
			switch o.K {
			case "len", "stop", "stop2", "stoplen", "start", "stopstart":
				withdraws = true
			case "admin", "stopadmin", "restart", "savefail", "saveall", "loadcut":
				withdraws, saves = true, true
			}
		}
	}
	for _, p := range c.Phases {
		for _, t := range p.Tasks {
			visit(t)
		}
	}
	visit(c.Seq)
	max := uint64(radix.ZZMaxBlocks)
	if room := uint64(600); !saves && oraclesOf(c)&oAdmin == 0 && max > 2*room && r.Intn(10) == 0 {
		c.First = max - room - 1 - r.Uint64()%4
		for r.Intn(2) == 0 && c.First/2 > 1 {
			c.First /= 2
		}
	}
	if len(c.Phases) == 0 {
		return
	}
	n := len(c.Phases[0].Tasks)
	if !withdraws && !saves && n > 0 && r.Intn(12) == 0 {
		m := 1 + r.Intn(8)
		if r.Intn(3) == 0 {
			m = 160 / n
		}
		c.Allocs = n * (m + 1)
		for i, t := range c.Phases[0].Tasks {
			acq := false
			for j := range t {
				if t[j].K == "acquire" {
					t[j].K, t[j].N = "acquirehi", uint64(m)
					acq = true
				}
			}
			if !acq && r.Intn(2) == 0 {
				c.Phases[0].Tasks[i] = append([]Op{{K: "acquirehi", N: uint64(m)}}, t...)
			}
		}
	}
}

// twin: two trees used by the same clients, and others coming and going.
func (g *gen) twin(p *profile) {
	g.conc(p)
	r := g.r
	for i, t := range g.c.Phases[0].Tasks {
		cur := r.Intn(2)
		stay := r.Intn(4) == 0
		var out []Op
		for _, o := range t {
			if !stay && r.Intn(3) == 0 {
				cur = 1 - cur
			}
			o.T = cur
			if r.Intn(40) == 0 {
				t := Op{K: "tmp", T: cur, N: uint64(1 + r.Intn(12)), V: r.Uint64() >> 1}
				if r.Intn(2) == 0 {
					t.Mode = "save"
				}
				out = append(out, t)
			}
			out = append(out, o)
		}
		g.c.Phases[0].Tasks[i] = out
	}
}

func (p *profile) gen2(g *gen) {
	if p.gen != nil {
		p.gen(g)
		return
	}
	switch p.family {
	case "conc":
		g.conc(p)
	case "seq":
		g.seq(p)
	case "mem":
		g.mem()
	default:
		panic(p.family)
	}
}

// policy draws the schedule policy.
func (g *gen) policy(steps uint64) {
	r := g.r
	p := simrt.Policy{Seed: r.Uint64(), CPUs: 1 + r.Intn(4), PoolMode: r.Intn(3)}
	if r.Intn(4) == 0 {
		p.Mode = "pct"
		p.Changes = 1 + r.Intn(8)
		p.Horizon = steps/4 + r.Uint64()%(steps+1)
	} else {
		p.Mode = "random"
		p.P = []float64{0.01, 0.03, 0.1, 0.2, 0.4, 0.7}[r.Intn(6)]
		p.PlainP = []float64{0, p.P, p.P, 0.5}[r.Intn(4)]
		if r.Intn(2) == 0 {
			p.StallP = []float64{0.0005, 0.002, 0.01, 0.03}[r.Intn(4)]
			p.StallMax = []uint64{100, 1000, 5000, 40000}[r.Intn(4)]
		}
	}
	if r.Intn(4) == 0 {
		p.LibStall = []uint64{20, 200, 2000}[r.Intn(3)]
	}
	g.c.Policy = p
	g.c.FaultSteps = steps*2 + r.Uint64()%(steps*20+1)
}

// choose keeps a random part of a mix (swarm testing).
func (g *gen) choose(m mix, focus []string) ([]string, []int) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var names []string
	var ws []int
	drop := g.r.Float() * 0.6
	for _, k := range ks {
		keep := !g.r.Chance(drop)
		if keep {
			names = append(names, k)
			w := m[k]
			if g.r.Intn(3) == 0 {
				w = 1 + w*g.r.Intn(4)
			}
			ws = append(ws, w)
		}
	}
	if len(focus) > 0 {
		f := focus[g.r.Intn(len(focus))]
		has := false
		for _, n := range names {
			has = has || n == f
		}
		if !has {
			names = append(names, f)
			ws = append(ws, 1+m[f])
		}
	}
	hasW := false
	for _, n := range names {
		if n == "put" || n == "ins" {
			hasW = true
		}
	}
	if !hasW {
		names = append(names, "put")
		ws = append(ws, 5)
	}
	return names, ws
}

func weighted(r *rng, names []string, ws []int) string {
	t := 0
	for _, w := range ws {
		t += w
	}
	x := r.Intn(t)
	for i, w := range ws {
		if x -= w; x < 0 {
			return names[i]
		}
	}
	return names[0]
}

// op fills in the arguments of an operation kind.
func (g *gen) op(kind string, hot []int, hotP float64) Op {
	r := g.r
	o := Op{K: kind}
	switch kind {
	case "get", "put", "ins", "upd", "rmw", "putab", "del", "delab":
		if len(hot) > 0 && r.Chance(hotP) {
			o.Key = hot[r.Intn(len(hot))]
		} else {
			o.Key = r.Intn(len(g.c.Keys))
		}
		if kind != "get" && r.Intn(20) == 0 {
			o.Mode = "str"
		}
		if kind != "get" && r.Intn(4) == 0 {
			o.N = 1 + r.Uint64()%[]uint64{3, 30, 300, 3000}[r.Intn(4)]
		}
	case "getraw":
		o.K = "get"
		o.Key = -1
		o.B = g.rawArg()
		for _, k := range g.c.Keys {
			if bytes.Equal(k, o.B) {
				o.B = append(o.B, 'q')
			}
		}
	case "min", "max", "count", "iter", "minp", "maxp", "countp", "iterp":
		if kind[len(kind)-1] == 'p' {
			o.K = kind[:len(kind)-1]
			o.B = g.prefixArg()
		}
		if o.K == "iter" && r.Intn(6) == 0 {
			o.N = uint64(1 + r.Intn(6))
		}
		if o.K == "iter" && r.Intn(8) == 0 {
			o.V = 1
		}
		if o.K == "count" {
			o.N = uint64(r.Intn(2))
		}
	case "stop", "stop2", "stoplen", "sleep":
		o.N = r.Uint64() % []uint64{2, 30, 300, 3000}[r.Intn(4)]
	case "admin", "stopadmin":
		n := r.Uint64() % uint64(len(adminCommands))
		if r.Intn(3) == 0 {
			n = 0
		}
		o.B = g.nodeArg()
		if kind == "admin" {
			o.N = n
			if r.Intn(12) == 0 {
				o.V = uint64(1 + r.Intn(200))
			}
		} else {
			o.V = n
			o.N = r.Uint64() % []uint64{2, 30, 300}[r.Intn(3)]
		}
	}
	if r.Intn(10) == 0 {
		o.Pre = 1 + r.Uint64()%[]uint64{3, 50, 500}[r.Intn(3)]
	}
	if r.Intn(12) == 0 {
		o.SA = 1 + r.Uint64()%[]uint64{4, 15, 60}[r.Intn(3)]
		o.SF = 1 + r.Uint64()%[]uint64{30, 300, 3000, 30000}[r.Intn(4)]
	}
	return o
}

// nodeArg is the argument of the command that prints a node: anything.
func (g *gen) nodeArg() []byte {
	r := g.r
	switch r.Intn(8) {
	case 0:
		return []byte([]string{"", "-1", "0", "abc", "18446744073709551615", "18446744073709551616", "9223372036854775808", "9223372036854775807", "1e3", " 1", "256", "512"}[r.Intn(12)])
	case 1:
		return []byte(fmt.Sprint(r.Uint64()))
	case 2:
		return []byte(fmt.Sprint(r.Uint64() &^ 0x100))
	}
	// near memory that is in use, with any number of children and any shared part
	slot := r.Uint64() % []uint64{10, 100, 600, 3000, 300000}[r.Intn(5)]
	if r.Intn(10) == 0 {
		slot = r.Uint64() % (1 << 39)
	}
	children := r.Uint64() % []uint64{2, 8, 256}[r.Intn(3)]
	prefix := r.Uint64() % []uint64{1, 4, 256}[r.Intn(3)]
	if r.Intn(6) == 0 {
		prefix = 255
	}
	return []byte(fmt.Sprint(children<<56 | prefix<<48 | slot<<9 | r.Uint64()%256))
}

// conc generates concurrent clients over a small contended key set.
func (g *gen) conc(p *profile) {
	r := g.r
	c := g.c
	n := pick(r, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20, 30)
	c.Keys = concKeys(r, g.v, n)
	big := g.wide()
	if big && r.Intn(2) == 0 {
		// bring one node near the switch to and from 256 children
		s := &shape{alpha: r.Intn(3), maxSeg: 20}
		c.Keys = prefixFreeSubset(fanKeys(r, s, pick(r, 60, 62, 64, 66, 126, 127, 128, 129, 131)))
	}
	var hot []int
	for i := 0; i < 1+r.Intn(4); i++ {
		hot = append(hot, r.Intn(len(c.Keys)))
	}
	fill := r.Float()
	if r.Intn(4) == 0 {
		fill = 1
	}
	if len(c.Keys) > 50 {
		fill = 0.9 + 0.1*r.Float()
	}
	for k := range c.Keys {
		if r.Chance(fill) {
			c.Init = append(c.Init, k)
		}
	}
	if len(c.Init) > 0 && r.Intn(3) == 0 {
		for i := r.Intn(8); i > 0; i-- {
			k := c.Init[r.Intn(len(c.Init))]
			c.Warm = append(c.Warm, Op{K: "del", Key: k})
			if r.Intn(2) == 0 {
				c.Warm = append(c.Warm, Op{K: "put", Key: k})
			}
		}
	}
	names, ws := g.choose(p.mix, p.focus)
	scans := false
	for _, n := range names {
		switch n {
		case "iter", "iterp", "min", "max", "minp", "maxp", "count", "countp":
			scans = true
		}
	}
	clients := 2 + r.Intn(4)
	c.Allocs = 1 + r.Intn(clients+1)
	if r.Intn(20) == 0 {
		c.Allocs = clients + pick(r, 4, 7, 10)
	}
	phases := 1
	if p.family == "save" {
		phases = 2 + r.Intn(2)
	}
	var steps uint64
	for ph := 0; ph < phases; ph++ {
		var P Phase
		if ph > 0 {
			P.Restart = []string{"saved", "loaded", "both"}[r.Intn(3)]
			P.Chunk = pick(r, 0, 1, 3, 100, 4096, -9, -500)
		}
		if ph == 0 && p.family == "save" && r.Intn(6) == 0 {
			P.Tasks = nil
		}
		per := 2 + r.Intn(pick(r, 6, 15, 30))
		hotP := r.Float()
		for cl := 0; cl < clients; cl++ {
			var ops []Op
			nm, w := names, ws
			if r.Intn(3) == 0 && len(names) > 1 {
				// a specialised client
				k := r.Intn(len(names))
				nm, w = names[k:k+1], ws[k:k+1]
			}
			held := false
			useAlloc := r.Intn(3) == 0
			for i := 0; i < per; i++ {
				if useAlloc && r.Intn(6) == 0 {
					if held {
						if r.Intn(3) == 0 {
							ops = append(ops, Op{K: "flush"})
						} else {
							ops = append(ops, Op{K: "release"})
							held = false
						}
					} else {
						ops = append(ops, Op{K: "acquire"})
						held = true
					}
				}
				o := g.op(weighted(r, nm, w), hot, hotP)
				if o.K == "iter" && r.Intn(6) == 0 {
					o = Op{K: "iterown", B: o.B, N: uint64(r.Intn(1 + r.Intn(len(c.Keys)+1))), Mode: []string{"", "some", "back", "one"}[r.Intn(4)], V: uint64(r.Intn(1000))}
					held = false
					steps += uint64(len(c.Keys)) * 60
				} else if scans && r.Intn(25) == 0 {
					ops = append(ops, Op{K: "wipe", B: o.B, Mode: []string{"", "some", "back", "one"}[r.Intn(4)], V: uint64(r.Intn(1000))})
					steps += uint64(len(c.Keys)) * 60
				}
				ops = append(ops, o)
			}
			steps += uint64(per * 60)
			P.Tasks = append(P.Tasks, ops)
		}
		c.Phases = append(c.Phases, P)
	}
	g.policy(steps/uint64(phases) + 100)
}

// counted: callers fill and empty nodes side by side, passing few allocators
// from one to the other.
func (g *gen) counted() {
	r := g.r
	c := g.c
	s := &shape{alpha: r.Intn(3), maxSeg: 20}
	n := pick(r, 6, 9, 12, 20)
	if g.wide() {
		n = pick(r, 64, 66, 129, 131, 140)
	}
	c.Keys = prefixFreeSubset(fanKeys(r, s, n))
	fill := []float64{0.5, 0.6, 0.8, 1}[r.Intn(4)]
	if g.wide() {
		fill = 0.95
	}
	for k := range c.Keys {
		if r.Chance(fill) {
			c.Init = append(c.Init, k)
		}
	}
	clients := 2 + r.Intn(3)
	c.Allocs = 1 + r.Intn(2)
	var P Phase
	per := 3 + r.Intn(pick(r, 5, 15, 30))
	own := r.Intn(3) > 0
	for cl := 0; cl < clients; cl++ {
		var ops []Op
		for i := 0; i < per; i++ {
			k := r.Intn(len(c.Keys))
			if own {
				k -= k % clients
				if k += cl; k >= len(c.Keys) {
					k = r.Intn(len(c.Keys))
				}
			}
			o := Op{K: []string{"put", "put", "del", "del", "ins"}[r.Intn(5)], Key: k}
			if r.Intn(per) == 0 {
				o = Op{K: "len"}
			}
			ops = append(ops, o)
		}
		P.Tasks = append(P.Tasks, ops)
	}
	c.Phases = []Phase{P}
	g.policy(uint64(per*clients*60) + 100)
}

// churn: readers that stall inside an operation while writers replace and
// reuse the memory they are visiting.
func (g *gen) churn(readers mix) {
	r := g.r
	c := g.c
	c.Keys = concKeys(r, g.v, pick(r, 2, 3, 4, 6, 8, 10, 16))
	if (g.wide()) && r.Intn(3) == 0 {
		c.Keys = prefixFreeSubset(fanKeys(r, &shape{alpha: r.Intn(3), maxSeg: 20}, pick(r, 60, 64, 66, 127, 128, 130)))
	}
	for k := range c.Keys {
		if r.Intn(4) > 0 {
			c.Init = append(c.Init, k)
		}
	}
	nr, nw := 1+r.Intn(3), 1+r.Intn(2)
	c.Allocs = 1 + nw + r.Intn(nr+1)
	names, ws := g.readersOnly(readers)
	var P Phase
	per := 20 + r.Intn(60)
	for i := 0; i < nw; i++ {
		var ops []Op
		if r.Intn(2) == 0 {
			ops = append(ops, Op{K: "acquire"})
		}
		style := r.Intn(3)
		for j := 0; j < per; j++ {
			k := r.Intn(len(c.Keys))
			switch style {
			case 0:
				ops = append(ops, Op{K: []string{"put", "del"}[r.Intn(2)], Key: k})
			case 1: // alternate on one key: the same nodes again and again
				k = (j / 8) % len(c.Keys)
				ops = append(ops, Op{K: []string{"del", "put"}[j%2], Key: k})
			default:
				ops = append(ops, Op{K: []string{"put", "del", "del", "ins", "upd"}[r.Intn(5)], Key: k})
			}
		}
		if r.Intn(2) == 0 {
			// the writers pause inside their changes as well, but not as long as the readers
			some := 1 + r.Intn(8)
			for j := range ops {
				if ops[j].K != "acquire" && r.Intn(some) == 0 {
					ops[j].SA = 1 + r.Uint64()%[]uint64{20, 60, 100}[r.Intn(3)]
					ops[j].SF = 1 + r.Uint64()%[]uint64{50, 200, 1000}[r.Intn(3)]
				}
			}
		}
		P.Tasks = append(P.Tasks, ops)
	}
	for i := 0; i < nr; i++ {
		var ops []Op
		for j := 0; j < 2+r.Intn(10); j++ {
			kind := weighted(r, names, ws)
			o := g.op(kind, nil, 0)
			if r.Intn(3) > 0 {
				o.SA = 1 + r.Uint64()%[]uint64{4, 15, 40, 150}[r.Intn(4)]
				o.SF = 1 + r.Uint64()%[]uint64{300, 3000, 10000}[r.Intn(3)]
			}
			ops = append(ops, o)
		}
		P.Tasks = append(P.Tasks, ops)
	}
	c.Phases = []Phase{P}
	g.policy(uint64(per*nw*60) + 500)
}

// frozen: callers that stop for ever, and others that must not notice.
func (g *gen) frozen(scans mix) {
	r := g.r
	c := g.c
	c.Keys = concKeys(r, g.v, pick(r, 1, 2, 3, 4, 6, 8, 12, 20))
	if g.wide() && r.Intn(3) == 0 {
		c.Keys = prefixFreeSubset(fanKeys(r, &shape{alpha: r.Intn(3), maxSeg: 20}, pick(r, 60, 64, 66, 127, 128, 130)))
	}
	for k := range c.Keys {
		if r.Intn(4) > 0 || len(c.Keys) > 50 {
			c.Init = append(c.Init, k)
		}
	}
	var hot []int
	for i := 0; i < 1+r.Intn(3); i++ {
		hot = append(hot, r.Intn(len(c.Keys)))
	}
	kind := r.Intn(8)
	lookups := kind < 3 // nobody but lookups has to be done, but whatever the others hold
	writers := kind >= 6
	f := &Freeze{Soft: !lookups}
	var P Phase
	per := 2 + r.Intn(pick(r, 4, 12, 25))
	hotP := r.Float()
	write := func() Op {
		o := g.op([]string{"put", "put", "del", "del", "ins", "upd", "rmw", "putab", "delab"}[r.Intn(9)], hot, hotP)
		return o
	}
	rm := scans.with(mix{"get": 6, "getraw": 2})
	if lookups {
		rm = mix{"get": 6, "getraw": 1}
	}
	names, ws := g.readersOnly(rm)
	if names[0] == "put" || names[0] == "ins" {
		names, ws = []string{"get"}, []int{1}
	}
	read := func() Op { return g.op(weighted(r, names, ws), hot, hotP) }
	add := func(loose, held bool, ops []Op) {
		if loose {
			f.Loose = append(f.Loose, len(P.Tasks))
		}
		if held {
			f.Held = append(f.Held, len(P.Tasks))
		}
		P.Tasks = append(P.Tasks, ops)
	}
	stop := func(ops []Op, from int) {
		// all from here on are places to stop: the first that is reached counts
		for i := from; i < len(ops); i++ {
			o := &ops[i]
			switch o.K {
			case "put", "del", "ins", "upd", "rmw", "putab", "delab":
				if r.Intn(4) == 0 {
					o.N = simrt.Forever // between the two halves
					continue
				}
			}
			o.SA, o.SF = 1+r.Uint64()%[]uint64{4, 20, 60, 150}[r.Intn(4)], simrt.Forever
		}
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		var ops []Op
		for j := 0; j < per; j++ {
			if writers {
				ops = append(ops, read())
			} else {
				ops = append(ops, write())
			}
		}
		if r.Intn(6) > 0 {
			stop(ops, r.Intn(len(ops)))
		}
		add(true, r.Intn(3) == 0, ops)
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		var ops []Op
		for j := 0; j < per; j++ {
			o := read()
			if writers && r.Intn(4) > 0 {
				o = write()
			}
			if j == 0 && r.Intn(2) == 0 || r.Intn(10) == 0 {
				o.Pre = 1 + r.Uint64()%uint64(per*40)
			}
			ops = append(ops, o)
		}
		// a query takes an allocator of its own
		held := lookups || r.Intn(4) == 0 && scanless(ops)
		add(false, held, ops)
	}
	f.Lib = !writers && r.Intn(4) == 0
	P.Freeze = f
	c.Allocs = len(P.Tasks) + r.Intn(3)
	c.Phases = []Phase{P}
	g.policy(uint64(per*len(P.Tasks)*60) + 200)
}

// scanless: nothing among these gives the reserved allocator back for a moment.
func scanless(ops []Op) bool {
	for _, o := range ops {
		switch o.K {
		case "iter", "min", "max", "count":
			return false
		}
	}
	return true
}

// closing: the tree is closed under callers who have reserved an allocator.
func (g *gen) closing() {
	r := g.r
	c := g.c
	c.Keys = concKeys(r, g.v, pick(r, 2, 4, 8, 16, 40))
	for k := range c.Keys {
		if r.Intn(2) == 0 {
			c.Init = append(c.Init, k)
		}
	}
	clients := 1 + r.Intn(4)
	c.Allocs = clients + r.Intn(3)
	m := baseMix
	if r.Intn(2) == 0 {
		m = mix{"put": 10, "ins": 3, "del": 8}
	}
	names, ws := g.choose(m, nil)
	per := 1 + r.Intn(pick(r, 5, 20, 60))
	var P Phase
	for i := 0; i < clients; i++ {
		var ops []Op
		for j := 0; j < per; j++ {
			ops = append(ops, g.op(weighted(r, names, ws), nil, 0))
		}
		P.Tasks = append(P.Tasks, ops)
	}
	P.Close = 1 + r.Uint64()%uint64(40+per*60)
	P.Closers = pick(r, 0, 0, 0, 1, 2)
	c.Phases = []Phase{P}
	g.policy(uint64(clients*per*60) + 100)
	if r.Intn(2) == 0 {
		c.Policy.LibStall = []uint64{5, 30, 200, 2000}[r.Intn(4)]
	}
}

// migrate: the stored keys move through one wide node, so that a scan which
// stalls inside it finds them before or behind it.
func (g *gen) migrate(readers mix) {
	r := g.r
	c := g.c
	s := &shape{alpha: r.Intn(3), maxSeg: 300, longP: 0.05}
	p := randBytes(r, segLen(r, s), s)
	if r.Intn(3) == 0 {
		p = nil
	}
	// the wide node's children, in order
	n := pick(r, 4, 8, 16, 40)
	if g.wide() {
		n = pick(r, 8, 80, 140, 200)
	}
	chars := map[byte]bool{}
	for len(chars) < n {
		chars[byte(r.Uint64())] = true
	}
	for _, b := range []byte{0, 1, 254, 255} {
		if r.Intn(3) == 0 {
			chars[b] = true
		}
	}
	var groups [][]int // keys below each child
	deep := r.Intn(4)
	for b := 0; b < 256; b++ {
		if !chars[byte(b)] {
			continue
		}
		k := append(append([]byte(nil), p...), byte(b))
		var grp []int
		add := func(k []byte) {
			grp = append(grp, len(c.Keys))
			c.Keys = append(c.Keys, k)
		}
		switch {
		case deep > 0 && r.Intn(4) < deep:
			k = append(k, randBytes(r, segLen(r, s), s)...)
			for _, x := range []byte("axz")[:2+r.Intn(2)] {
				add(append(append([]byte(nil), k...), x))
			}
		default:
			add(append(k, randBytes(r, r.Intn(3), s)...))
		}
		groups = append(groups, grp)
	}
	out := len(c.Keys)
	outside := [][]byte{}
	if len(p) > 0 && r.Intn(2) == 0 {
		q := append([]byte(nil), p...)
		q[len(q)-1] ^= 1
		outside = append(outside, q)
		c.Keys = append(c.Keys, q)
	}
	width := pick(r, 1, 1, 2, 3, 4, 5, 7, 9)
	if g.wide() {
		width = pick(r, 1, 3, 62, 64, 65, 66, 126, 127, 128, 129)
	}
	if width > len(groups) {
		width = len(groups)
	}
	at := r.Intn(len(groups) - width + 1)
	for i := at; i < at+width; i++ {
		c.Init = append(c.Init, groups[i]...)
	}
	for i := range outside {
		if r.Intn(2) == 0 {
			c.Init = append(c.Init, out+i)
		}
	}
	// the writer moves the window, adding on one side before removing on the other
	var ops []Op
	lo, hi := at, at+width // present: [lo, hi)
	style := r.Intn(4)
	total := 40 + r.Intn(160)
	dir := 1 - 2*r.Intn(2)
	put := func(i int) {
		for _, k := range groups[i] {
			ops = append(ops, Op{K: []string{"put", "ins"}[r.Intn(2)], Key: k})
		}
	}
	del := func(i int) {
		gr := groups[i]
		for j := range gr {
			ops = append(ops, Op{K: "del", Key: gr[len(gr)-1-j]})
		}
	}
	for len(ops) < total {
		step := 1
		if style == 1 {
			step = 1 + r.Intn(width+1)
		}
		if style == 2 {
			step = width
		}
		if dir > 0 {
			if hi+step > len(groups) {
				dir = -1
				if hi == len(groups) && lo == 0 {
					break
				}
				step = len(groups) - hi
			}
			for i := 0; i < step; i++ {
				put(hi)
				hi++
			}
			for i := 0; i < step; i++ {
				del(lo)
				lo++
			}
		} else {
			if lo < step {
				dir = 1
				step = lo
			}
			for i := 0; i < step; i++ {
				lo--
				put(lo)
			}
			for i := 0; i < step; i++ {
				hi--
				del(hi)
			}
		}
		if style == 3 && r.Intn(8) == 0 {
			dir = -dir
		}
	}
	var P Phase
	nr := 1 + r.Intn(3)
	if r.Intn(2) == 0 {
		ops = append([]Op{{K: "acquire"}}, ops...)
	}
	P.Tasks = append(P.Tasks, ops)
	c.Allocs = 2 + r.Intn(nr+1)
	names, ws := g.readersOnly(readers)
	for i := 0; i < nr; i++ {
		var ops []Op
		for j := 0; j < 2+r.Intn(10); j++ {
			o := g.op(weighted(r, names, ws), nil, 0)
			if len(o.B) > 0 && r.Intn(2) == 0 {
				o.B = append([]byte(nil), p...)
				if len(o.B) > 0 && r.Intn(3) == 0 {
					o.B = o.B[:1+r.Intn(len(o.B))]
				}
			}
			o.SA, o.SF = 0, 0
			if r.Intn(4) > 0 {
				o.SA = 1 + r.Uint64()%[]uint64{8, 20, 60, 150, 300}[r.Intn(5)]
				o.SF = 1 + r.Uint64()%[]uint64{100, 400, 1500, 5000}[r.Intn(4)]
			}
			ops = append(ops, o)
		}
		P.Tasks = append(P.Tasks, ops)
	}
	c.Phases = []Phase{P}
	g.policy(uint64(len(P.Tasks[0])*60) + 500)
}

// readersOnly keeps a random part of a mix without writers.
func (g *gen) readersOnly(readers mix) ([]string, []int) {
	names, ws := g.choose(readers, nil)
	if len(names) > 1 {
		// choose adds writers; readers only here
		var nn []string
		var nws []int
		for i, n := range names {
			if n != "put" && n != "ins" {
				nn, nws = append(nn, n), append(nws, ws[i])
			}
		}
		if len(nn) > 0 {
			names, ws = nn, nws
		}
	}
	return names, ws
}

// ---- sequential histories ----

func (g *gen) someAllocs() int {
	r := g.r
	if r.Intn(12) == 0 {
		if bigBlocks() {
			return pick(r, 8, 9, 10, 11, 12, 16, 17)
		}
		return pick(r, 8, 9, 10, 11, 12, 16, 17, 33, 64, 65, 101, 129)
	}
	return 1 + r.Intn(4)
}

func (g *gen) seq(p *profile) {
	r := g.r
	c := g.c
	small := !bigBlocks()
	n := pick(r, 2, 5, 10, 20, 40, 80, 150)
	if r.Intn(6) == 0 {
		n = 400
	}
	spine := r.Intn(30) == 0
	if spine {
		n = pick(r, 40, 70, 140, 270, 530, 1050)
		c.Keys = g.cap(spineKeys(r, n))
	} else {
		c.Keys = g.cap(seqKeys(r, g.v, n))
	}
	c.Allocs = g.someAllocs()
	g.seqPolicy()
	nops := len(c.Keys) * (1 + r.Intn(5))
	if nops > 1500 {
		nops = 1500
	}
	names, ws := g.choose(p.mix, p.focus)
	if spine || r.Intn(6) == 0 {
		// start from the full tree
		for k := range c.Keys {
			c.Seq = append(c.Seq, Op{K: "put", Key: k, V: r.Uint64() >> uint(r.Intn(64))})
		}
		if nops > 300 {
			nops = 300
		}
	}
	// growth and shrinking in turns, so that every node size is passed in both directions
	bias := 0
	for i := 0; i < nops; i++ {
		if i%(1+len(c.Keys)/2) == 0 {
			bias = r.Intn(5)
		}
		k := r.Intn(len(c.Keys))
		kind := weighted(r, names, ws)
		switch bias {
		case 0:
			if r.Intn(3) > 0 {
				kind = "put"
			}
		case 1:
			if r.Intn(3) > 0 {
				kind = "del"
			}
		case 2:
			if r.Intn(2) == 0 {
				kind = "put"
				k = i % len(c.Keys)
			}
		case 3:
			if r.Intn(2) == 0 {
				kind = "del"
				k = i % len(c.Keys)
			}
		}
		o := Op{K: kind, Key: k}
		if c.Allocs > 1 && r.Intn(2) == 0 {
			o.A = r.Intn(c.Allocs)
		}
		switch kind {
		case "put", "ins":
			switch r.Intn(4) {
			case 0:
				o.V = r.Uint64() // often more than 55 bits
			case 1:
				o.V = r.Uint64() >> uint(r.Intn(64))
			}
		case "getraw", "delraw":
			o.B = g.rawArg()
			o.Key = 0
		case "scan":
			o.Key = 0
			if r.Intn(4) > 0 {
				o.B = g.prefixArg()
			}
		case "iterpart":
			o.Key = 0
			o.N = r.Uint64() % 400
			o.V = r.Uint64() % 600
			if r.Intn(2) == 0 {
				o.B = g.prefixArg()
			}
		case "flush":
			o.Key = 0
			o.A = 1
		case "restart":
			o.Key = 0
			o.N = uint64(pick(r, 0, 1, 5, 100, 4096))
			o.Mode = []string{"loaded", "saved", "both"}[r.Intn(3)]
			if !small && r.Intn(4) > 0 {
				continue
			}
		case "stopstart":
			o.Key, o.N = 0, r.Uint64()%6
		}
		c.Seq = append(c.Seq, o)
	}
}

// cap drops keys whose nodes could not be stored in a block of this variant.
func (g *gen) cap(ks [][]byte) [][]byte {
	var out [][]byte
	for _, k := range ks {
		if len(k) <= g.v.limit {
			out = append(out, k)
		}
	}
	if len(out) == 0 {
		out = [][]byte{[]byte("k0"), []byte("k1")}
	}
	return out
}

func (g *gen) seqPolicy() {
	r := g.r
	g.c.Policy = simrt.Policy{Mode: "default", Seed: r.Uint64(), CPUs: 1 + r.Intn(4), PoolMode: r.Intn(3)}
	if r.Intn(3) == 0 {
		g.c.Policy.LibStall = []uint64{20, 500, 5000}[r.Intn(3)]
	}
	g.c.FaultSteps = 0
	if r.Intn(2) == 0 {
		// explore the schedule inside saves
		g.c.Policy.Mode = "random"
		g.c.Policy.P = []float64{0.02, 0.1, 0.4}[r.Intn(3)]
		g.c.Policy.PlainP = 0
		if r.Intn(2) == 0 {
			g.c.Policy.StallP = []float64{0.002, 0.02}[r.Intn(2)]
			g.c.Policy.StallMax = []uint64{100, 2000}[r.Intn(2)]
		}
		g.c.FaultSteps = 20000
	}
}

// mem: cycles over a fixed working set.
func (g *gen) mem() {
	r := g.r
	c := g.c
	m := &MemCfg{Clients: pick(r, 1, 1, 1, 2, 3), Reserved: r.Intn(2) == 0, Order: r.Intn(3), Update: r.Intn(3) == 0}
	if m.Clients > 1 {
		m.Reserved = true
	}
	c.Allocs = m.Clients
	if !m.Reserved {
		c.Allocs = 1
	}
	if m.Clients == 1 && r.Intn(3) == 0 {
		m.StallAt = 1 + r.Uint64()%12
		m.StallLen = 2000 + r.Uint64()%60000
		m.Reader = []string{"get", "iter", "count", "min", "max", "delab", "putab", "iteropen"}[r.Intn(8)]
		c.Allocs++
	}
	per := pick(r, 2, 3, 4, 6, 10, 20, 40)
	if r.Intn(30) == 0 {
		g.bulk(m)
		return
	}
	m.Cycles = 4000 / per
	m.Tries = 3
	if r.Intn(3) > 0 {
		// a slow leak needs many cycles, but most show in few
		m.Cycles /= 6
		m.Tries = 6
	}
	if g.v.name == "mid" {
		m.Cycles *= 2
	}
	for cl := 0; cl < m.Clients; cl++ {
		ks := g.cap(concKeys(r, g.v, per))
		for _, k := range ks {
			c.Keys = append(c.Keys, append([]byte{byte(cl), 0x80}, k...))
		}
	}
	if m.Clients > 1 || r.Intn(2) == 0 {
		// a fixed frame: every caller replaces only nodes it made itself
		for cl := 0; cl < m.Clients; cl++ {
			for _, b := range []byte{0, 0xff} {
				c.Init = append(c.Init, len(c.Keys))
				c.Keys = append(c.Keys, []byte{byte(cl), b})
			}
		}
	}
	if r.Intn(2) == 0 {
		m.Reads = pick(r, 1, 2, 3, 7)
	}
	if r.Intn(2) == 0 {
		// another caller, with keys of its own, who then does nothing for ever
		c.Allocs++
		if m.IdleHold = r.Intn(2) == 0; m.IdleHold {
			c.Allocs++
		}
		base := len(c.Keys)
		for i := 0; i < 3; i++ {
			c.Keys = append(c.Keys, []byte{0xf0, byte(i * 7), byte(r.Intn(256))})
		}
		for i := r.Intn(5) + 1; i > 0; i-- {
			kind := []string{"get", "put", "del", "delab", "putab", "iter", "iteropen", "count", "min", "max", "missdel", "missget"}[r.Intn(12)]
			op := Op{K: kind, Key: base + r.Intn(3), N: uint64(r.Intn(3))}
			switch kind {
			case "iter", "iteropen", "count", "min", "max":
				// the whole tree, or a part with or without keys
				op.B = [][]byte{nil, nil, {0xf0}, {0xf1}, {0xf0, 0xff}, {0, 0x80}, {0xf0, 7, 1, 2, 3}}[r.Intn(7)]
			}
			if kind == "missdel" || kind == "missget" {
				op.Key, op.B = -1, [][]byte{{0xf1}, {0xf0}, {0xf0, 0xff}, {}, {0xf0, 7, 1, 2}}[r.Intn(5)]
				op.K = map[string]string{"missdel": "delab", "missget": "get"}[kind]
			}
			m.Idle = append(m.Idle, op)
		}
		m.IdleFirst = r.Intn(4) == 0
		// what is left of its keys belongs to the frame
		for i := base; i < len(c.Keys); i++ {
			c.Init = append(c.Init, i)
		}
	}
	if r.Intn(3) == 0 {
		m.Restart = m.Cycles/(1+r.Intn(6)) + 1
		m.Loaded = r.Intn(3) > 0
	}
	if r.Intn(8) == 0 {
		// more allocators, without use except that the callers get theirs last
		m.Hold = pick(r, 1, 3, 9, 10, 11, 15, 33, 64, 100)
		c.Allocs += m.Hold
	}
	c.Mem = m
	g.policy(100000)
	c.Policy.StallMax /= 20
	if m.Clients == 1 {
		c.Policy.Mode = "default"
	}
}

// bulk: many nodes of the same size are removed before any is needed again.
func (g *gen) bulk(m *MemCfg) {
	r := g.r
	c := g.c
	n := pick(r, 700, 1500, 1500, 5500, 5500)
	*m = MemCfg{Clients: 1, Reserved: r.Intn(2) == 0, Order: r.Intn(2), Cycles: 10, Tries: 3, Bulk: n}
	c.Allocs = 1
	c.Keys = [][]byte{{0, 0x7f}, {0, 0xff}}
	c.Init = []int{0, 1}
	w := pick(r, 2, 2, 2, 3, 5)
	if n > 2000 {
		w = 2
	}
	l := pick(r, 0, 0, 0, 3, 9)
	for i := 0; len(c.Keys) < 2*n; i++ {
		for j := 0; j < w; j++ {
			k := []byte{0, 0x80, byte(i >> 8), byte(i)}
			k = append(k, "prefixprefix"[:l]...)
			c.Keys = append(c.Keys, append(k, byte(j)))
		}
	}
	if r.Intn(3) == 0 {
		m.Restart = 1 + r.Intn(4)
		m.Loaded = r.Intn(3) > 0
	}
	c.Mem = m
	g.policy(100000)
	c.Policy.Mode = "default"
}

// saves: histories with failing destinations.
func (g *gen) saves(kind string) {
	r := g.r
	c := g.c
	n := pick(r, 0, 1, 2, 5, 10, 30)
	c.Keys = g.cap(seqKeys(r, g.v, n+2))
	c.Allocs = g.someAllocs()
	if r.Intn(2) == 0 {
		// many blocks: long shared beginnings take up space fast
		l := 1000 + r.Intn(500)
		if bigBlocks() {
			l = 100000
		}
		nb := pick(r, 3, 10, 40, 90)
		if bigBlocks() {
			nb = pick(r, 3, 25, 50)
		}
		for i := 0; i < nb; i++ {
			p := []byte{byte('A' + i%26), byte(i)}
			p = append(p, bytes.Repeat([]byte{byte(i)}, l)...)
			c.Keys = append(c.Keys, append(append([]byte(nil), p...), 'x'), append(append([]byte(nil), p...), 'y'))
		}
		c.Keys = dedup(c.Keys)
	}
	for i := range c.Keys {
		c.Seq = append(c.Seq, Op{K: "put", Key: i, A: r.Intn(3)})
		if r.Intn(3) == 0 {
			c.Seq = append(c.Seq, Op{K: "del", Key: r.Intn(i + 1), A: r.Intn(3)})
		}
	}
	budget := uint64(pick(r, 30, 100, 300))
	if bigBlocks() {
		budget = 12
	} else if g.v.name[0] == 'r' {
		budget = 3
	} else if r.Intn(5) == 0 {
		budget = 1500
	}
	if len(c.Keys) > 60 && budget > 200 {
		budget = 200 // every save is long
	}
	for i := 0; i < 1+r.Intn(2); i++ {
		c.Seq = append(c.Seq, Op{K: kind, N: budget, V: r.Uint64() >> 1})
		for j := 0; j < 10; j++ {
			k := r.Intn(len(c.Keys))
			c.Seq = append(c.Seq, Op{K: []string{"put", "del"}[r.Intn(2)], Key: k, A: r.Intn(3)})
		}
	}
	c.Seq = append(c.Seq, Op{K: "full"})
	g.seqPolicy()
}

// fresh: a new or just loaded tree used at once, whatever its background task does.
func (g *gen) fresh(p *profile) {
	r := g.r
	g.conc(p)
	c := g.c
	c.Init = nil
	c.Warm = nil
	if r.Intn(3) == 0 && len(c.Keys) > 0 {
		c.Init = []int{0}
	}
	if r.Intn(2) == 0 {
		c.Phases = append(c.Phases, Phase{Restart: "loaded", Tasks: c.Phases[0].Tasks})
	}
	if r.Intn(3) > 0 {
		c.Policy.LibStall = []uint64{1, 5, 30, 200, 2000, 20000}[r.Intn(6)]
	}
	if r.Intn(10) == 0 {
		c.Phases = nil
	}
	if p.or&oAdmin == 0 && r.Intn(8) == 0 {
		c.Allocs = 0 // as many as the tree likes
	}
}

var seqMix = mix{"get": 10, "put": 20, "ins": 5, "del": 18, "putab": 3, "delab": 3, "getraw": 5, "delraw": 4, "scan": 2, "full": 1, "iterpart": 1, "len": 1, "flush": 2, "release": 2, "stopstart": 1, "restart": 1}

var profiles map[string][]*profile

func init() {
	scans := mix{"iter": 3, "iterp": 2, "min": 2, "max": 2, "minp": 1, "maxp": 1, "count": 2, "countp": 1}
	admin := mix{"len": 3, "stop": 3, "stop2": 1, "stoplen": 1, "start": 1, "admin": 2, "stopadmin": 1, "stats": 1}
	all := baseMix.with(scans).with(admin)
	seqGen := func(or int, w int, focus ...string) *profile {
		return &profile{or: or, family: "seq", mix: seqMix, focus: focus, weight: w}
	}
	churn := func(or, w int, m mix) *profile {
		return &profile{or: or, family: "churn", weight: w, gen: func(g *gen) { g.churn(m) }}
	}
	migrate := func(or, w int, m mix) *profile {
		return &profile{or: or, family: "migrate", weight: w, gen: func(g *gen) { g.migrate(m) }}
	}
	profiles = map[string][]*profile{
		"C01": {
			{or: oLin, family: "conc", mix: baseMix, weight: 8},
			{or: oLin, family: "conc", mix: baseMix.with(mix{"len": 1, "stop": 1, "iter": 1, "min": 1}), weight: 2},
			churn(oLin, 2, mix{"get": 1}),
		},
		"C02": {
			{or: oStrong | oHold | oSweep, family: "conc", mix: mix{"rmw": 20, "del": 10, "put": 6, "upd": 4, "ins": 6, "putab": 1, "delab": 1, "get": 3}, focus: []string{"rmw", "del", "upd"}, weight: 8},
			{or: oStrong | oHold, family: "conc", mix: baseMix.with(mix{"rmw": 10, "len": 1}), weight: 3},
		},
		"C03": {
			{or: oStrong | oLen | oSweep, family: "conc", mix: baseMix.with(mix{"putab": 10, "delab": 14, "del": 10}), focus: []string{"putab", "delab"}, weight: 6},
			seqGen(oContent|oLen|oSweep, 2, "putab", "delab"),
		},
		"C04": {
			{or: oSweep, family: "conc", mix: all, weight: 8},
			{or: oSweep, family: "conc", mix: baseMix.with(mix{"putab": 4, "delab": 6}), weight: 4},
			churn(0, 1, all),
			{family: "closing", weight: 1, gen: func(g *gen) { g.closing() }},
		},
		"C05": {
			{or: oStop | oAlloc | oSweep, family: "conc", mix: baseMix.with(scans.with(admin)).with(mix{"len": 6, "stop": 6, "stop2": 3, "stoplen": 3, "start": 4, "admin": 3, "rmw": 6, "count": 2}), focus: []string{"stop", "len", "stop2", "stoplen", "start", "admin"}, weight: 1},
		},
		"C06": {
			{or: oLen, family: "conc", mix: baseMix.with(mix{"len": 8, "del": 14, "stoplen": 1, "admin": 1, "iter": 1}), focus: []string{"len"}, weight: 6},
			{or: oLen, family: "conc", mix: baseMix.with(mix{"del": 14}), weight: 3},
			{or: oLen, family: "counted", weight: 3, gen: func(g *gen) { g.counted() }},
			seqGen(oContent|oLen, 2, "len"),
		},
		"C07": {
			churn(oWindow|oIter|oPrefix|oMinMax|oCount, 8, scans.with(mix{"get": 10, "getraw": 2})),
			migrate(oWindow|oIter|oPrefix|oMinMax|oCount, 2, scans.with(mix{"get": 10, "getraw": 2})),
			{or: oWindow | oIter | oPrefix | oMinMax | oCount, family: "conc", mix: baseMix.with(scans), weight: 2},
		},
		"C08": {
			{or: oMem, family: "mem", weight: 1},
		},
		"C09": {
			{or: oIter, family: "conc", mix: baseMix.with(mix{"iter": 12}), focus: []string{"iter"}, weight: 5},
			churn(oIter, 4, mix{"iter": 1}),
			migrate(oIter, 3, mix{"iter": 1}),
			seqGen(oContent|oIter, 4, "full", "iterpart"),
		},
		"C10": {
			{or: oPrefix, family: "conc", mix: baseMix.with(mix{"iterp": 8, "minp": 4, "maxp": 4, "countp": 4}), focus: []string{"iterp", "minp", "maxp", "countp"}, weight: 5},
			churn(oPrefix, 4, mix{"iterp": 4, "minp": 1, "maxp": 1, "countp": 1}),
			migrate(oPrefix, 3, mix{"iterp": 4, "minp": 1, "maxp": 1, "countp": 1}),
			seqGen(oContent|oPrefix, 4, "scan"),
		},
		"C11": {
			{or: oMinMax, family: "conc", mix: baseMix.with(mix{"min": 8, "max": 8}), focus: []string{"min", "max"}, weight: 5},
			churn(oMinMax, 4, mix{"min": 1, "max": 1}),
			migrate(oMinMax, 4, mix{"min": 1, "max": 1}),
			seqGen(oContent|oMinMax, 3, "scan"),
		},
		"C12": {
			{or: oCount, family: "conc", mix: baseMix.with(mix{"count": 10}), focus: []string{"count"}, weight: 5},
			churn(oCount, 4, mix{"count": 1}),
			migrate(oCount, 2, mix{"count": 1}),
			seqGen(oContent|oCount, 3, "scan"),
		},
		"C13": {
			{or: oLin | oLen | oIter | oCount | oMinMax | oSweep, family: "save", mix: baseMix, weight: 5, gen: nil},
			seqGen(oContent|oLen|oIter|oCount|oMinMax|oIO, 3, "restart"),
		},
		"C14": {
			{or: oIO | oLen | oIter, family: "seqsave", weight: 1, gen: func(g *gen) { g.saves("saveall") }},
		},
		"C15": {
			{or: oIO | oLen | oIter, family: "seqload", weight: 1, gen: func(g *gen) { g.saves("loadcut") }},
		},
		"C16": {
			{or: oLeak | oLin | oIter | oMinMax | oCount | oLen, family: "fresh", mix: all, weight: 6},
			seqGen(oContent|oLeak, 1, "restart"),
			{or: oLeak, family: "seqload", weight: 1, gen: func(g *gen) { g.saves("loadcut") }},
			{or: oLeak | oLin, family: "closing", weight: 2, gen: func(g *gen) { g.closing() }},
		},
		"C18": {
			{family: "conc", mix: all, weight: 6},
			{family: "conc", mix: baseMix, weight: 4},
			churn(0, 3, all),
			migrate(0, 2, scans.with(mix{"get": 2})),
			{family: "fresh", mix: all, weight: 2},
			{family: "save", mix: all, weight: 2},
			{family: "seqsave", weight: 1, gen: func(g *gen) { g.saves("saveall") }},
		},
		"C19": {
			{or: oAdmin | oLin | oLen | oIter | oStop | oMinMax, family: "conc", mix: baseMix.with(mix{"admin": 8, "stopadmin": 3, "stats": 2, "len": 1, "stop": 1, "iter": 1, "count": 1}), focus: []string{"admin", "stopadmin"}, weight: 6},
			{or: oAdmin | oLin | oLen | oIter | oStop | oMinMax, family: "fresh", mix: baseMix.with(mix{"admin": 10, "stopadmin": 3, "stats": 4}), weight: 2},
			{or: oAdmin | oLin | oLen | oIter | oStop | oMinMax, family: "save", mix: baseMix.with(mix{"admin": 4, "stopadmin": 2, "stats": 2}), weight: 1},
			churn(oAdmin|oWindow, 2, mix{"admin": 1}),
		},
		"C20": {
			{or: oLin | oLen | oIter | oMinMax | oCount | oStop | oAlloc | oLeak | oPrefix | oAdmin, family: "twin", mix: all.with(mix{"iter": 4, "iterp": 3}), weight: 3},
			{or: oLin | oLen | oSweep | oIter | oLeak, family: "twin", mix: baseMix.with(mix{"putab": 4, "delab": 4, "iter": 1}), weight: 3},
		},
		"C21": {
			{or: oLin | oLen | oIter | oPrefix | oMinMax | oCount | oSweep, family: "frozen", weight: 1, gen: func(g *gen) { g.frozen(scans) }},
		},
		"C22": {
			{or: oArgs | oLin | oIter | oPrefix | oMinMax | oCount, family: "conc", mix: baseMix.with(scans), weight: 5},
			churn(oArgs|oIter|oPrefix, 2, scans.with(mix{"get": 10, "getraw": 2})),
			seqGen(oArgs|oContent|oPrefix|oIter, 3, "scan", "putab", "delab"),
		},
		"C23": {
			{or: oLin | oLen | oIter | oMinMax | oCount | oSweep, family: "golden", weight: 1, gen: func(g *gen) { g.earlier() }},
		},
		"C17": {
			{or: oContent, family: "seq", mix: seqMix, weight: 1},
			{or: oContent, family: "seq", mix: seqMix.without("restart", "full", "scan"), weight: 1},
		},
	}
	for prop, ps := range profiles {
		for _, p := range ps {
			p := p
			switch p.family {
			case "save":
				p.gen = func(g *gen) { g.conc(p) }
			case "twin":
				p.gen = func(g *gen) { g.twin(p) }
			case "fresh":
				p.gen = func(g *gen) { g.fresh(p) }
			case "mem", "closing", "counted", "conc", "seq", "churn", "migrate", "frozen", "golden", "seqsave", "seqload":
			default:
				panic(fmt.Sprint(prop, p.family))
			}
		}
	}
}

// oracles of a case: those of the profile that generated it.
func oraclesOf(c *Case) int {
	or := 0
	for _, p := range profiles[c.Prop] {
		if p.family == c.Family {
			or |= p.or
		}
	}
	return or
}
