package main

import (
	"encoding/json"
	"os"

	"verif/simrt"
)

// A Case is one simulated execution, written out: workload, faults and
// schedule. Running the same case twice is the same execution.
type Case struct {
	Prop    string `json:"prop"`
	Variant string `json:"variant"`
	Family  string `json:"family"`
	Seed    uint64 `json:"seed"`
	Index   uint64 `json:"index"`

	First  uint64   `json:"first,omitempty"` // blocks below this one are taken to be used up
	Allocs int      `json:"allocs"`
	Golden string   `json:"golden,omitempty"` // starts from this recorded state
	Keys   [][]byte `json:"keys,omitempty"`
	Init   []int    `json:"init,omitempty"` // keys inserted before the phases
	Warm   []Op     `json:"warm,omitempty"` // sequential operations after that
	Phases []Phase  `json:"phases,omitempty"`
	Seq    []Op     `json:"seq,omitempty"`
	Mem    *MemCfg  `json:"mem,omitempty"`

	Policy simrt.Policy `json:"policy"`
	// the policy that found the failure, in replay files
	Search     *simrt.Policy `json:"search,omitempty"`
	FaultSteps uint64        `json:"fault_steps"`
	Chunk      int           `json:"chunk,omitempty"`

	// filled in for replay files
	Violation string `json:"violation,omitempty"`
	Kind      string `json:"kind,omitempty"`
	Hash      string `json:"hash,omitempty"`
}

// A Phase runs one list of operations per client concurrently, after an
// optional restart of the tree.
type Phase struct {
	Restart string  `json:"restart,omitempty"` // "", "saved" (go on with the saved tree), "loaded", "both"
	Chunk   int     `json:"chunk,omitempty"`   // piece size of the streams
	Close   uint64  `json:"close,omitempty"`   // the tree is closed so many steps later, while the clients work
	Closers int     `json:"closers,omitempty"` // other callers who stop the tree at that time
	Freeze  *Freeze `json:"freeze,omitempty"`
	Tasks   [][]Op  `json:"tasks"`
}

// Freeze: some callers stop for ever, until all others are done.
type Freeze struct {
	Loose []int `json:"loose"`          // these callers may stop, or wait for one that did
	Held  []int `json:"held,omitempty"` // these have an allocator all the time
	Soft  bool  `json:"soft,omitempty"` // nobody stops while holding a lock of the library
	Lib   bool  `json:"lib,omitempty"`  // the background task stops too
}

// Op is one client operation.
type Op struct {
	K    string `json:"k"`
	Key  int    `json:"key,omitempty"`
	B    []byte `json:"b,omitempty"`    // prefix, or a key outside the set (Key < 0)
	N    uint64 `json:"n,omitempty"`    // pause in steps between the two halves, or a count
	Pre  uint64 `json:"pre,omitempty"`  // pause before
	SA   uint64 `json:"sa,omitempty"`   // stall at this scheduling point inside the operation
	SF   uint64 `json:"sf,omitempty"`   // for so many steps
	V    uint64 `json:"v,omitempty"`    // value (sequential family)
	T    int    `json:"t,omitempty"`    // tree (twin family)
	A    int    `json:"a,omitempty"`    // allocator (sequential family), 0 = tree interface
	Mode string `json:"mode,omitempty"` // fault mode
}

// MemCfg is the memory cycling scenario.
type MemCfg struct {
	Cycles    int    `json:"cycles"`
	Clients   int    `json:"clients"`
	Reserved  bool   `json:"reserved"`
	Order     int    `json:"order"`
	Update    bool   `json:"update"`
	StallAt   uint64 `json:"stall_at,omitempty"`
	StallLen  uint64 `json:"stall_len,omitempty"`
	Reader    string `json:"reader,omitempty"`     // what the stalled caller does
	Idle      []Op   `json:"idle,omitempty"`       // done first by another caller, which is idle from then on
	Tries     int    `json:"tries,omitempty"`      // how often the cycles are doubled before growth counts
	IdleHold  bool   `json:"idle_hold,omitempty"`  // and keeps its allocator
	IdleFirst bool   `json:"idle_first,omitempty"` // before the keys are put that stay
	Reads     int    `json:"reads,omitempty"`      // other operations mixed into the cycles: one per so many updates
	Restart   int    `json:"restart,omitempty"`    // saved and loaded every so many cycles
	Bulk      int    `json:"bulk,omitempty"`
	Hold      int    `json:"hold,omitempty"`   // allocators taken before those that are used, and given back after
	Loaded    bool   `json:"loaded,omitempty"` // goes on with the loaded tree
}

func (c *Case) clone() *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	n := new(Case)
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	return n
}

func readCase(path string) (*Case, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	c := new(Case)
	return c, json.Unmarshal(b, c)
}

// Result of running a case.
type Result struct {
	Fail  *simrt.Failure
	Hash  uint64
	Stats simrt.Stats
	Trace []simrt.Switch
	Ops   map[string]int
}

// Oracles evaluated by a check.
const (
	oLin    = 1 << iota // keyed operations linearizable, call to return
	oStrong             // effects between finalize call and return, prepare as a read
	oHold               // no foreign change between prepare and finalize
	oLen                // length bounds and final length
	oStop               // stopped intervals
	oAlloc              // exclusive allocators
	oIter               // full iteration
	oPrefix             // prefix iteration, count, min, max
	oMinMax
	oCount
	oSweep   // every key can be prepared and finalized at the end
	oWindow  // values of lookups were stored for some key during the call
	oLeak    // background tasks gone after Close
	oContent // sequential: lookups against the map
	oMem
	oIO
	oAdmin // administrative output and statistics
	oArgs  // keys and prefixes are not written to
)
