package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"time"

	"verif/simrt"
)

// Report is what a worker hands to the parent.
type Report struct {
	Prop, Variant string
	Runs          uint64
	Distinct      []uint64 // schedule hashes of runs with at least one preemption or fault
	Steps         uint64
	Preempt       uint64
	Stalls        uint64
	Scripted      uint64
	StallSteps    uint64
	LateStarts    uint64
	Freezes       uint64
	Spins         uint64
	Blocks        uint64
	Ops           map[string]int
	Families      map[string]uint64
	Samples       []*Case
	Wall          float64
	WglSkipped    int
	Violation     *Case
	Harness       string
	HashSum       uint64
}

func main() {
	prop := flag.String("prop", "", "property")
	vname := flag.String("variant", "a", "variant")
	base := flag.Uint64("seed", 1, "base seed")
	from := flag.Uint64("from", 0, "first case")
	stride := flag.Uint64("stride", 1, "stride")
	secs := flag.Float64("secs", 5, "time budget")
	maxRuns := flag.Uint64("n", 0, "number of cases (0: until the time is up)")
	out := flag.String("out", "", "report file")
	progress := flag.String("progress", "", "progress file")
	mode := flag.String("mode", "search", "search, replay, shrink, dump, selftest")
	file := flag.String("file", "", "case file")
	flag.Parse()
	simrt.Debug = os.Getenv("SIM_DEBUG") != ""
	switch *mode {
	case "search":
		search(*prop, *vname, *base, *from, *stride, *secs, *maxRuns, *out, *progress)
	case "replay":
		replay(*file)
	case "shrink":
		shrink(*file, *out, *secs)
	case "dump":
		c := genCase(*prop, *vname, *base, *from)
		b, _ := json.MarshalIndent(c, "", " ")
		fmt.Println(string(b))
	case "goldencheck":
		for _, g := range loadGoldens() {
			if g.variant() != *vname || g.incomplete() {
				continue
			}
			c := &Case{Prop: "C23", Variant: *vname, Family: "golden", Golden: g.Name, Keys: g.Keys, Allocs: g.Allocs}
			c.Policy.Mode = "default"
			if r := runCase(c); r.Fail != nil {
				fmt.Println(g.Name, r.Fail.Kind, r.Fail.Msg)
			}
		}
	case "golden":
		writeGoldens(*out, *file, *vname, *base, *maxRuns)
	case "selftest":
		selftest(*prop, *vname, *base, *maxRuns)
	}
}

func search(prop, vname string, base, from, stride uint64, secs float64, maxRuns uint64, out, progress string) {
	rep := &Report{Prop: prop, Variant: vname, Ops: map[string]int{}, Families: map[string]uint64{}}
	start := time.Now()
	var pf *os.File
	if progress != "" {
		var err error
		pf, err = os.Create(progress)
		if err != nil {
			panic(err)
		}
	}
	distinct := map[uint64]bool{}
	for i := from; ; i += stride {
		if maxRuns > 0 && rep.Runs >= maxRuns {
			break
		}
		if time.Since(start).Seconds() > secs {
			break
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%20d", i)), 0)
		}
		c := genCase(prop, vname, base, i)
		r := runCase(c)
		rep.Runs++
		rep.add(c, r)
		rep.HashSum ^= r.Hash * (i + 1)
		if r.Stats.Preemptions+r.Stats.Stalls+r.Stats.Scripted+r.Stats.LateStarts+r.Stats.Freezes+uint64(r.Ops["write_error"]+r.Ops["truncation"]+r.Ops["restart"]+r.Ops["cycles"]) > 0 && len(distinct) < 3_000_000 {
			distinct[r.Hash] = true
		}
		if r.Fail != nil {
			if r.Fail.Kind == "harness" {
				rep.Harness = fmt.Sprintf("case %d: %s", i, r.Fail.Msg)
				break
			}
			rep.Violation = withTrace(c, r)
			break
		}
	}
	for h := range distinct {
		rep.Distinct = append(rep.Distinct, h)
	}
	sort.Slice(rep.Distinct, func(i, j int) bool { return rep.Distinct[i] < rep.Distinct[j] })
	rep.Wall = time.Since(start).Seconds()
	rep.WglSkipped = wglSkipped
	b, err := json.Marshal(rep)
	if err != nil {
		panic(err)
	}
	if out == "" {
		fmt.Printf("runs %d in %.1fs, steps %d, distinct %d, ops %v, hash %x\n", rep.Runs, rep.Wall, rep.Steps, len(distinct), rep.Ops, rep.HashSum)
		fmt.Println("families", rep.Families, "skipped", wglSkipped, "harness", rep.Harness)
		if rep.Violation != nil {
			fmt.Println("VIOLATION", rep.Violation.Index, rep.Violation.Kind, rep.Violation.Violation)
		}
		return
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		panic(err)
	}
}

func (rep *Report) add(c *Case, r *Result) {
	rep.Steps += r.Stats.Steps
	rep.Preempt += r.Stats.Preemptions
	rep.Stalls += r.Stats.Stalls
	rep.Scripted += r.Stats.Scripted
	rep.StallSteps += r.Stats.StallSteps
	rep.LateStarts += r.Stats.LateStarts
	rep.Freezes += r.Stats.Freezes
	rep.Spins += r.Stats.Spins
	rep.Blocks += r.Stats.Blocks
	for k, v := range r.Ops {
		rep.Ops[k] += v
	}
	rep.Families[c.Family]++
	if len(rep.Samples) < 1 && r.Stats.Preemptions > 0 && r.Stats.Preemptions < 40 {
		b, _ := json.Marshal(c)
		if len(b) < 6000 {
			rep.Samples = append(rep.Samples, withTrace(c, r))
		}
	}
}

// withTrace turns a case and its result into a replay file.
func withTrace(c *Case, r *Result) *Case {
	n := c.clone()
	if n.Policy.Mode != "replay" {
		p := n.Policy
		n.Search = &p
	}
	n.Policy.Mode = "replay"
	n.Policy.Trace = r.Trace
	n.Hash = fmt.Sprintf("%016x", r.Hash)
	if r.Fail != nil {
		n.Kind, n.Violation = r.Fail.Kind, r.Fail.Msg
	}
	return n
}

// replay runs a case file and reports: exit 1 with the violation if it
// reproduces exactly, 0 if the run passes, 4 if it fails in another way.
func replay(file string) {
	c, err := readCase(file)
	if err != nil {
		fmt.Println("replay:", err)
		os.Exit(2)
	}
	r := runCase(c)
	if r.Fail == nil {
		fmt.Printf("replay: no violation (execution %016x, recorded %s)\n", r.Hash, c.Hash)
		os.Exit(0)
	}
	fmt.Printf("replay: %s: %s\nexecution %016x, recorded %s\n", r.Fail.Kind, r.Fail.Msg, r.Hash, c.Hash)
	if r.Fail.Kind == "harness" {
		os.Exit(2)
	}
	if c.Hash != "" && fmt.Sprintf("%016x", r.Hash) != c.Hash {
		os.Exit(4)
	}
	os.Exit(1)
}

// selftest: every case run twice, and a third time from its recorded trace,
// must be the same execution.
func selftest(prop, vname string, base, n uint64) {
	var sum uint64
	bad := 0
	for i := uint64(0); i < n; i++ {
		c := genCase(prop, vname, base, i)
		r1 := runCase(c)
		r2 := runCase(genCase(prop, vname, base, i))
		r3 := runCase(withTrace(c, r1))
		if r1.Hash != r2.Hash || r1.Hash != r3.Hash {
			bad++
			fmt.Printf("case %d differs: %x %x %x fail %v\n", i, r1.Hash, r2.Hash, r3.Hash, r1.Fail)
			if bad > 5 {
				break
			}
		}
		sum ^= r1.Hash * (i + 1)
	}
	fmt.Printf("selftest %s %s: %d cases, %d differ, sum %x\n", prop, vname, n, bad, sum)
	if bad > 0 {
		os.Exit(2)
	}
}

var _ = simrt.Step
