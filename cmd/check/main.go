// Command check decides one property: it instruments a scratch copy of the
// working tree of /repo, builds the simulation harness over it, searches
// schedules, workloads and faults with several worker processes, and reports
// and minimises what it finds.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type variantDef struct {
	set   string
	epoch string
	race  bool
	tags  string // build tags
}

// The constants of the built variants. They are knobs of capacity and of how
// often things happen; the code is the same.
var variantDefs = map[string]variantDef{
	"a":    {"blockSizeShift=12,maxBlockCount=4096,defaultPrefetchLength=2,fullAllocFrom=5", "2", false, ""},
	"b":    {"blockSizeShift=12,maxBlockCount=4096,defaultPrefetchLength=3,fullAllocFrom=8,locksShift=2", "5", false, ""},
	"mid":  {"blockSizeShift=13,maxBlockCount=4096,defaultPrefetchLength=16", "8", false, ""},
	"ship": {"", "", false, ""},
	// the other block sizes the code can be built with
	"s8":  {"", "", false, "blocksize8"},
	"s16": {"", "", false, "blocksize16"},
	// with race detection
	"ra": {"blockSizeShift=12,maxBlockCount=4096,defaultPrefetchLength=2,fullAllocFrom=5", "2", true, ""},
	"rm": {"blockSizeShift=13,maxBlockCount=4096,defaultPrefetchLength=16", "8", true, ""},
}

// share of the workers per variant
var weights = map[string]map[string]int{
	"":    {"a": 3, "b": 2, "mid": 2, "ship": 1},
	"C08": {"a": 3, "b": 2, "mid": 3},
	"C13": {"a": 2, "b": 2, "mid": 1, "ship": 1, "s8": 1, "s16": 1},
	"C17": {"a": 2, "b": 1, "mid": 1, "ship": 2, "s8": 1, "s16": 1},
	"C23": {"ship": 6, "s8": 1, "s16": 1},
	"C18": {"ra": 5, "rm": 3},
	"C20": {"a": 3, "b": 2, "mid": 1, "ship": 1, "ra": 1},
	"C19": {"a": 4, "b": 3, "mid": 2, "ship": 1},
}

var stubs = []string{
	"real: the whole package github.com/jayloop/radix from the working tree (operations, locks, epochs, allocators, iterator, counter, save and load, admin, stats), github.com/golang/snappy, github.com/jayloop/table, bufio, fmt",
	"simulated: goroutine scheduling, sync/atomic, sync, channels and select, runtime.Gosched and NumCPU, time, the destination and source of saved states, the callers and their key storage",
}

func die(format string, a ...interface{}) {
	fmt.Printf("ERROR: "+format+"\n", a...)
	os.Exit(2)
}

var root, repo, build string

type report struct {
	Prop, Variant string
	Runs          uint64
	Distinct      []uint64
	Steps         uint64
	Preempt       uint64
	Stalls        uint64
	Scripted      uint64
	StallSteps    uint64
	LateStarts    uint64
	Freezes       uint64
	Spins         uint64
	Blocks        uint64
	Ops           map[string]int
	Families      map[string]uint64
	Samples       []json.RawMessage
	Wall          float64
	WglSkipped    int
	Violation     json.RawMessage
	Harness       string
}

type caseHead struct {
	Prop      string `json:"prop"`
	Variant   string `json:"variant"`
	Family    string `json:"family"`
	Seed      uint64 `json:"seed"`
	Index     uint64 `json:"index"`
	Violation string `json:"violation"`
	Kind      string `json:"kind"`
	Hash      string `json:"hash"`
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "", "quick or thorough")
	replay := flag.String("replay", "", "replay file")
	secs := flag.Float64("secs", 0, "search time, 0 for the default of the tier")
	selftest := flag.Uint64("selftest", 0, "check that so many cases per variant are deterministic")
	setup := flag.Bool("setup", false, "build everything once")
	only := flag.String("variant", "", "only these variants")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.Atoi(s)
		if err == nil {
			seed = n
		}
	}
	exe, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	root = filepath.Dir(filepath.Dir(filepath.Dir(exe)))
	repo = os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	build = filepath.Join(root, "build")
	lock, err := os.OpenFile(filepath.Join(build, "lock"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		die("%v", err)
	}
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		die("%v", err)
	}

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			die("%v", err)
		}
		var h caseHead
		if err := json.Unmarshal(b, &h); err != nil {
			die("%v", err)
		}
		prepare(h.Variant)
		out, code := run(600, bin(h.Variant), "-mode", "replay", "-file", *replay)
		fmt.Print(out)
		if code == 1 || code > 2 && code != 4 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", h.Prop, *replay)
			os.Exit(1)
		}
		os.Exit(code)
	}
	ws := weights[*prop]
	if ws == nil {
		ws = weights[""]
	}
	if *only != "" {
		ws = map[string]int{}
		for _, v := range strings.Split(*only, ",") {
			ws[v] = 1
		}
	}
	var vs []string
	for v := range ws {
		vs = append(vs, v)
	}
	sort.Strings(vs)
	t0 := time.Now()
	prepare(vs...)
	buildTime := time.Since(t0).Seconds()
	if *setup {
		fmt.Printf("built %v in %.1fs\n", vs, buildTime)
		return
	}
	if *selftest > 0 {
		props := strings.Split(*prop, ",")
		bad := false
		for _, p := range props {
			for _, v := range vs {
				out, code := run(3600, bin(v), "-mode", "selftest", "-variant", v, "-prop", p, "-seed", fmt.Sprint(seed), "-n", fmt.Sprint(*selftest))
				fmt.Print(out)
				bad = bad || code != 0
			}
		}
		if bad {
			os.Exit(2)
		}
		return
	}
	budget := *secs
	if budget == 0 {
		budget = 32
		if *tier == "thorough" {
			budget = 600
		}
	}
	search(*prop, *tier, seed, budget, vs, ws, t0, buildTime)
}

func bin(v string) string { return filepath.Join(build, "bin", "dst-"+v) }

// run executes a command with a time limit and returns its output and exit code.
func run(secs float64, name string, args ...string) (string, int) {
	cmd := exec.Command(name, args...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Dir = root
	if err := cmd.Start(); err != nil {
		die("%s: %v", name, err)
	}
	t := time.AfterFunc(time.Duration(secs*float64(time.Second)), func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	if err == nil {
		return out.String(), 0
	}
	if e, ok := err.(*exec.ExitError); ok {
		if e.ExitCode() < 0 {
			return out.String(), 137
		}
		return out.String(), e.ExitCode()
	}
	return out.String() + err.Error(), 2
}

func must(dir string, name string, args ...string) string {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err != nil {
		die("%s %s: %v\n%s", name, strings.Join(args, " "), err, out)
	}
	return string(out)
}

func write(path, content string) {
	if old, err := os.ReadFile(path); err == nil && string(old) == content {
		return
	}
	if err := os.WriteFile(path, []byte(content), 0o644); err != nil {
		die("%v", err)
	}
}

var instrumented = map[string]string{}

// prepare copies the sources, instruments them and builds the harness.
func prepare(vs ...string) {
	src := filepath.Join(build, "src")
	for _, d := range []string{src, filepath.Join(build, "bin")} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			die("%v", err)
		}
	}
	clearGo(src)
	ents, err := os.ReadDir(repo)
	if err != nil {
		die("%v", err)
	}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() {
			sub := filepath.Join(repo, n)
			if strings.HasPrefix(n, ".") {
				continue
			}
			copyDir(sub, filepath.Join(src, n))
			continue
		}
		if n == "go.mod" || n == "go.sum" || (strings.HasSuffix(n, ".go") || strings.HasSuffix(n, ".s")) && !strings.HasSuffix(n, "_test.go") {
			copyFile(filepath.Join(repo, n), filepath.Join(src, n))
		}
	}
	must(root, "go", "build", "-o", filepath.Join(build, "bin", "instrument"), "./cmd/instrument")
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	sum, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	var requires string
	if m := regexp.MustCompile(`(?s)require.*`).FindString(string(mod)); m != "" {
		requires = m
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, v := range vs {
		v := v
		wg.Add(1)
		go func() {
			defer wg.Done()
			d := variantDefs[v]
			dir := filepath.Join(build, "radix-"+v)
			if err := os.MkdirAll(dir, 0o755); err != nil {
				die("%v", err)
			}
			clearGo(dir)
			args := []string{"-src", src, "-out", dir}
			if d.set != "" {
				args = append(args, "-set", d.set)
			}
			if d.epoch != "" {
				args = append(args, "-epoch", d.epoch)
			}
			if d.race {
				args = append(args, "-race")
			}
			if d.tags != "" {
				args = append(args, "-tags", d.tags)
			}
			out := must(root, filepath.Join(build, "bin", "instrument"), args...)
			mu.Lock()
			instrumented[v] = strings.TrimSpace(out)
			mu.Unlock()
			// packages next to the root one are used as they are
			for _, e := range ents {
				if e.IsDir() && !strings.HasPrefix(e.Name(), ".") {
					copyDir(filepath.Join(repo, e.Name()), filepath.Join(dir, e.Name()))
				}
			}
			write(filepath.Join(dir, "go.mod"), "module github.com/jayloop/radix\n\ngo 1.21\n\n"+requires)
			write(filepath.Join(build, "go."+v+".mod"), "module verif\n\ngo 1.23\n\nrequire github.com/jayloop/radix v0.0.0\n\nreplace github.com/jayloop/radix => "+dir+"\n\n"+requires)
			write(filepath.Join(build, "go."+v+".sum"), string(sum))
			must(root, "go", "build", "-modfile", filepath.Join(build, "go."+v+".mod"), "-o", bin(v), "./cmd/dst")
		}()
	}
	wg.Wait()
}

func clearGo(dir string) {
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if n := e.Name(); strings.HasSuffix(n, ".go") || strings.HasSuffix(n, ".s") {
			os.Remove(filepath.Join(dir, n))
		}
	}
}

func copyFile(from, to string) {
	b, err := os.ReadFile(from)
	if err == nil {
		err = os.WriteFile(to, b, 0o644)
	}
	if err != nil {
		die("%v", err)
	}
}

func copyDir(from, to string) {
	ents, err := os.ReadDir(from)
	if err != nil {
		return
	}
	made := false
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() {
			copyDir(filepath.Join(from, n), filepath.Join(to, n))
			continue
		}
		if (strings.HasSuffix(n, ".go") || strings.HasSuffix(n, ".s")) && !strings.HasSuffix(n, "_test.go") {
			if !made {
				os.MkdirAll(to, 0o755)
				made = true
			}
			copyFile(filepath.Join(from, n), filepath.Join(to, n))
		}
	}
}

type worker struct {
	variant  string
	from     int
	stride   int
	cmd      *exec.Cmd
	out, pro string
	err      bytes.Buffer
	rep      *report
	dead     bool
	late     bool
}

func search(prop, tier string, seed int, budget float64, vs []string, ws map[string]int, t0 time.Time, buildTime float64) {
	work := filepath.Join(build, "run-"+prop)
	if err := os.MkdirAll(work, 0o755); err != nil {
		die("%v", err)
	}
	total := 0
	for _, v := range vs {
		total += ws[v]
	}
	n := runtime.NumCPU()
	if n > 16 {
		n = 16
	}
	if n < len(vs) {
		n = len(vs)
	}
	var list []*worker
	per := map[string]int{}
	left := n
	for i, v := range vs {
		k := n * ws[v] / total
		if k < 1 {
			k = 1
		}
		if i == len(vs)-1 && left > k {
			k = left
		}
		per[v] = k
		left -= k
	}
	for _, v := range vs {
		for i := 0; i < per[v]; i++ {
			w := &worker{variant: v, from: i, stride: per[v]}
			w.out = filepath.Join(work, fmt.Sprintf("%s-%d.json", v, i))
			w.pro = filepath.Join(work, fmt.Sprintf("%s-%d.progress", v, i))
			os.Remove(w.out)
			os.Remove(w.pro)
			list = append(list, w)
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	stop := false
	for _, w := range list {
		w := w
		w.cmd = exec.Command(bin(w.variant), "-variant", w.variant, "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(w.from), "-stride", fmt.Sprint(w.stride),
			"-secs", fmt.Sprint(budget), "-out", w.out, "-progress", w.pro)
		w.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=200", "GOMEMLIMIT=2500MiB")
		w.cmd.Stderr = &w.err
		w.cmd.Dir = root
		if err := w.cmd.Start(); err != nil {
			die("%v", err)
		}
	}
	for _, w := range list {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := time.AfterFunc(time.Duration((budget+120)*float64(time.Second)), func() {
				w.late = true
				w.cmd.Process.Signal(syscall.SIGQUIT)
				time.AfterFunc(5*time.Second, func() { w.cmd.Process.Kill() })
			})
			err := w.cmd.Wait()
			t.Stop()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				w.dead = true
				if !stop {
					stop = true
					killOthers(list, w)
				}
				return
			}
			b, err := os.ReadFile(w.out)
			if err == nil {
				w.rep = new(report)
				err = json.Unmarshal(b, w.rep)
			}
			if err != nil {
				w.dead = true
				return
			}
			if (len(w.rep.Violation) > 0 && string(w.rep.Violation) != "null" || w.rep.Harness != "") && !stop {
				stop = true
				killOthers(list, w)
			}
		}()
	}
	wg.Wait()

	var failing *worker
	for _, w := range list {
		if w.rep != nil && len(w.rep.Violation) > 0 && string(w.rep.Violation) != "null" {
			failing = w
			break
		}
	}
	violation := false
	var harness string
	if failing != nil {
		violation = confirm(prop, seed, failing, work, &harness)
	} else {
		for _, w := range list {
			if w.rep != nil && w.rep.Harness != "" {
				harness = w.rep.Harness
			}
			if w.dead && !w.killed() {
				if v, h := crashed(prop, seed, w, work); v {
					violation = true
				} else if h != "" {
					harness = h
				}
				break
			}
		}
	}
	evidence(prop, tier, seed, list, vs, t0, buildTime, violation)
	if violation {
		os.Exit(1)
	}
	if harness != "" {
		die("the harness failed: %s", harness)
	}
}

var killedSet = map[*worker]bool{}

func (w *worker) killed() bool { return killedSet[w] }

func killOthers(list []*worker, me *worker) {
	for _, w := range list {
		if w != me && w.rep == nil && !w.dead {
			killedSet[w] = true
			w.cmd.Process.Kill()
		}
	}
}

// confirm minimises a violation, replays it in a fresh process and reports it.
func confirm(prop string, seed int, w *worker, work string, harness *string) bool {
	var h caseHead
	if err := json.Unmarshal(w.rep.Violation, &h); err != nil {
		die("%v", err)
	}
	rdir := filepath.Join(root, "replays")
	os.MkdirAll(rdir, 0o755)
	raw := filepath.Join(work, "violation.json")
	small := filepath.Join(work, "small.json")
	os.Remove(small)
	final := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d-%d.json", prop, h.Variant, seed, h.Index))
	var ind bytes.Buffer
	json.Indent(&ind, w.rep.Violation, "", " ")
	if err := os.WriteFile(raw, ind.Bytes(), 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("violation in case %d of variant %s (%s): %s\n", h.Index, h.Variant, h.Kind, h.Violation)
	out, code := run(90, bin(w.variant), "-mode", "shrink", "-file", raw, "-out", small, "-secs", "25")
	if code == 0 {
		fmt.Print(out)
		if _, c := run(120, bin(w.variant), "-mode", "replay", "-file", small); c == 1 {
			return announce(prop, small, final)
		}
	} else {
		fmt.Print("minimisation failed: ", out)
	}
	for i := 0; i < 4; i++ {
		if _, c := run(120, bin(w.variant), "-mode", "replay", "-file", raw); c == 1 {
			return announce(prop, raw, final)
		}
	}
	// by its seed, instead of its recorded schedule
	var m map[string]json.RawMessage
	if json.Unmarshal(w.rep.Violation, &m) == nil && m["search"] != nil {
		m["policy"] = m["search"]
		delete(m, "search")
		b, _ := json.MarshalIndent(m, "", " ")
		if os.WriteFile(raw, b, 0o644) == nil {
			if _, c := run(120, bin(w.variant), "-mode", "replay", "-file", raw); c == 1 {
				return announce(prop, raw, final)
			}
		}
	}
	*harness = "the violation did not reproduce: " + h.Violation
	return false
}

func announce(prop, file, final string) bool {
	b, err := os.ReadFile(file)
	if err == nil {
		err = os.WriteFile(final, b, 0o644)
	}
	if err != nil {
		die("%v", err)
	}
	var h caseHead
	json.Unmarshal(b, &h)
	msg := h.Violation
	if len(msg) > 1500 {
		msg = msg[:1500] + "..."
	}
	fmt.Printf("%s: %s\n", h.Kind, msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, final)
	return true
}

// crashed: a worker died without a report. If the same case brings the
// process down again, inside the library, it is a violation.
func crashed(prop string, seed int, w *worker, work string) (bool, string) {
	b, _ := os.ReadFile(w.pro)
	idx := strings.TrimSpace(string(b))
	if idx == "" {
		return false, "worker died at the start: " + tail(w.err.String())
	}
	if w.late {
		return false, "worker stuck in case " + idx + " of variant " + w.variant + ": " + tail(w.err.String())
	}
	var last string
	for i := 0; i < 2; i++ {
		out, code := run(120, bin(w.variant), "-variant", w.variant, "-prop", prop, "-seed", fmt.Sprint(seed), "-from", idx, "-n", "1", "-out", filepath.Join(work, "again.json"))
		if code == 0 {
			return false, "worker died in case " + idx + " of variant " + w.variant + " and it does not repeat: " + tail(w.err.String())
		}
		last = out
	}
	if !strings.Contains(last, "fatal error") && !strings.Contains(last, "goroutine stack exceeds") || !strings.Contains(last, "github.com/jayloop/radix.") {
		return false, "worker dies in case " + idx + " of variant " + w.variant + ": " + tail(last)
	}
	out, code := run(60, bin(w.variant), "-mode", "dump", "-variant", w.variant, "-prop", prop, "-seed", fmt.Sprint(seed), "-from", idx)
	if code != 0 {
		return false, "dump failed: " + out
	}
	rdir := filepath.Join(root, "replays")
	os.MkdirAll(rdir, 0o755)
	final := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d-%s.json", prop, w.variant, seed, idx))
	if err := os.WriteFile(final, []byte(out), 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("the process dies in case %s of variant %s: %s\n", idx, w.variant, tail(last))
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, final)
	return true, ""
}

func tail(s string) string {
	if len(s) > 1200 {
		s = s[:1200]
	}
	return s
}

func evidence(prop, tier string, seed int, list []*worker, vs []string, t0 time.Time, buildTime float64, violation bool) {
	var runs, steps, pre, stalls, scripted, stallSteps, late, spins, blocks, frozen uint64
	ops := map[string]int{}
	fams := map[string]uint64{}
	byVariant := map[string]uint64{}
	distinct := map[uint64]bool{}
	skipped := 0
	var samples []json.RawMessage
	var wall float64
	for _, w := range list {
		r := w.rep
		if r == nil {
			continue
		}
		runs += r.Runs
		byVariant[w.variant] += r.Runs
		steps += r.Steps
		pre += r.Preempt
		stalls += r.Stalls
		scripted += r.Scripted
		stallSteps += r.StallSteps
		late += r.LateStarts
		frozen += r.Freezes
		spins += r.Spins
		blocks += r.Blocks
		skipped += r.WglSkipped
		for k, v := range r.Ops {
			ops[k] += v
		}
		for k, v := range r.Families {
			fams[k] += v
		}
		for _, h := range r.Distinct {
			distinct[h] = true
		}
		if len(samples) < 2 {
			samples = append(samples, r.Samples...)
		}
		if r.Wall > wall {
			wall = r.Wall
		}
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	if len(samples) > 2 {
		samples = samples[:2]
	}
	level := "exploration"
	viol := 0
	if violation {
		viol = 1
	}
	faults := map[string]uint64{"preemptions": pre, "random_stalls": stalls, "scripted_stalls_inside_an_operation": scripted, "stalled_steps": stallSteps, "late_background_tasks": late}
	if frozen > 0 {
		faults["callers_stopped_for_ever"] = frozen
	}
	for _, k := range []string{"write_error", "truncation", "read_error", "restart_saved", "restart_loaded", "restart_both", "restart", "abort", "conflict", "stalled_reader", "stop", "len", "admin"} {
		if ops[k] > 0 {
			faults[k] = uint64(ops[k])
		}
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(runs) / wall * 3600
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": time.Since(t0).Seconds(), "violations": viol,
		"coverage": map[string]interface{}{
			"evaluations":         runs,
			"distinct_nontrivial": len(distinct),
			"rule": "a case is a key set, an initial content, one list of operations per client (or one long history), injected faults and a schedule policy, all derived from the seed and the case number; " +
				"an execution counts as non-trivial if at least one preemption, stall, late task, restart or I/O fault took place in it, and as distinct by the hash of all scheduling decisions, event order and results",
			"samples":                 samples,
			"runs_per_variant":        byVariant,
			"runs_per_family":         fams,
			"variants":                instrumented,
			"simulated_runs_per_hour": perHour,
			"scheduling_steps":        steps,
			"simulated_time_s":        float64(steps) * 50e-9,
			"simulated_time_rule":     "one scheduling step is 50 ns",
			"faults_injected":         faults,
			"operations":              ops,
			"blocked_waits":           blocks,
			"spin_yields":             spins,
			"histories_not_judged":    skipped,
			"components":              stubs,
			"build_s":                 buildTime,
			"search_s":                wall,
			"worker_processes":        len(list),
			"variant_constants":       variantDefs2(vs),
			"working_tree_compiled":   repo,
		},
		"assumptions": []string{
			"executions are sequentially consistent at the granularity of atomic operations, slot accesses and slot copies; weaker orderings matter only where plain accesses race, which C18 decides",
			"callers obey the documented protocol: keys present at the same time are prefix-free, every prepared operation is finalized or aborted, Match and the verification are set truthfully",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s: %d simulated runs (%v), %d distinct non-trivial, %d steps, build %.1fs, search %.1fs\n", prop, runs, byVariant, len(distinct), steps, buildTime, wall)
}

func variantDefs2(vs []string) map[string]string {
	m := map[string]string{}
	for _, v := range vs {
		d := variantDefs[v]
		m[v] = d.set
		if d.epoch != "" {
			m[v] += " removals_per_epoch=" + d.epoch
		}
		if d.tags != "" {
			m[v] += "build tag " + d.tags
		}
		if m[v] == "" {
			m[v] = "as shipped"
		}
	}
	return m
}
