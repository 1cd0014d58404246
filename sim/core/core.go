// Package core holds what the driver and the workers share: the random
// generator every choice comes from, and the exchange formats.
package core

import (
	"encoding/json"
	"math/bits"
)

// Rand is a splitmix64 generator: the only source of random choices.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

// Mix derives an independent seed.
func Mix(parts ...uint64) uint64 {
	h := uint64(0x6a09e667f3bcc909)
	for _, p := range parts {
		h = (h ^ p) * 0xff51afd7ed558ccd
		h ^= h >> 32
		h = (h + 0x9e3779b97f4a7c15) * 0xc4ceb9fe1a85ec53
		h ^= h >> 29
	}
	return h
}

func MixStr(seed uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		seed = (seed ^ uint64(s[i])) * 1099511628211
	}
	return Mix(seed)
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}

// Range returns a number in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true in num out of den cases.
func (r *Rand) P(num, den int) bool { return r.N(den) < num }

func Pick[T any](r *Rand, l []T) T { return l[r.N(len(l))] }

// Sched describes how the interleaving of a run is chosen.
type Sched struct {
	Policy   string     `json:"policy"` // explicit, random, pct, sites
	Seed     uint64     `json:"seed,omitempty"`
	Prob     uint32     `json:"prob,omitempty"`
	Depth    int        `json:"depth,omitempty"`
	Length   int64      `json:"length,omitempty"`
	Switches [][3]int32 `json:"switches,omitempty"`
}

// Outcome is the result of one run.
type Outcome struct {
	Class   string   `json:"class,omitempty"` // kind of violation, "" if none
	Msg     string   `json:"msg,omitempty"`
	Key     string   `json:"key,omitempty"` // identity for known findings
	Hash    string   `json:"hash,omitempty"`
	Trace   []string `json:"trace,omitempty"`
	Invalid string   `json:"invalid,omitempty"`
}

// Report is a line a worker sends to the driver.
type Report struct {
	Index    int64           `json:"index"`
	Scenario json.RawMessage `json:"scenario,omitempty"`
	Sched    *Sched          `json:"sched,omitempty"` // explicit schedule as taken
	Outcome  *Outcome        `json:"outcome,omitempty"`
	Summary  *Summary        `json:"summary,omitempty"`
	Begin    bool            `json:"begin,omitempty"`
}

// Summary is what a worker measured over a batch.
type Summary struct {
	Runs       int64             `json:"runs"`
	Nontrivial []uint64          `json:"nontrivial"` // hashes of the non-trivial runs
	IL         []uint64          `json:"il"`         // hashes of interleavings
	Faults     map[string]int64  `json:"faults"`     // fired
	Probes     map[string]int64  `json:"probes"`
	Ops        int64             `json:"ops"`
	Steps      int64             `json:"steps"`
	MaxSteps   int64             `json:"max_steps"` // of one scheduled section, to see the margin below the limit
	Switches   int64             `json:"switches"`
	SimNS      int64             `json:"sim_ns"`
	Samples    []json.RawMessage `json:"samples"`
	LogHash    uint64            `json:"log_hash"` // over all event logs, in order
	Known      map[string]int64  `json:"known"`
	KnownMsg   map[string]string `json:"known_msg"`
	Sites      []uint32          `json:"sites"` // decision points passed
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property string            `json:"property"`
	Binary   string            `json:"binary"` // plain, race or xt
	Seed     uint64            `json:"seed"`
	Index    int64             `json:"index"`
	Class    string            `json:"class"`
	Key      string            `json:"key,omitempty"`
	Msg      string            `json:"msg"`
	Prelude  []json.RawMessage `json:"prelude,omitempty"` // runs before it in the same process
	Scenario json.RawMessage   `json:"scenario"`
	Trace    []string          `json:"trace,omitempty"`
	Hash     string            `json:"hash,omitempty"`
	Shrunk   string            `json:"shrunk,omitempty"`
	Original json.RawMessage   `json:"original,omitempty"`
}
