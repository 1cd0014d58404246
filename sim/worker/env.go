package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"

	"verif.local/sim/core"
)

// Base is the part of a scenario every property has.
type Base struct {
	HashSeed uint64     `json:"hash_seed"`
	Sched    core.Sched `json:"sched"`
}

func (b *Base) base() *Base { return b }

type scenario interface{ base() *Base }

// prop is a property the worker can simulate.
type prop struct {
	gen      func(r *core.Rand) scenario
	new      func() scenario
	run      func(sc scenario, e *Env)
	maxSteps int64
	// whole says that a run is one simulated section, in which goroutines the
	// code under test starts are tasks; other runs begin sections themselves
	whole func(sc scenario) bool
	// demos are fixed scenarios of listed known findings: key -> scenario
	demos map[string]func() scenario
}

var props = map[string]*prop{}

// Env is one run.
type Env struct {
	out     core.Outcome
	sum     *core.Summary
	base    *Base
	tasks   []func()
	panics  []string
	logh    uint64
	ops     int64
	trivial bool
	il      uint64
	steps   int64
	taken   [][3]int32
	full    bool // the schedule was recorded completely
	dirty   bool // the process cannot be used any more
	trace   []string
	tracing bool
	max     int64
	races   int
	known   map[string]bool // listed findings: counted, not failed on
}

// failed is the panic value that ends a run at its first violation.
type failed struct{}

// Fail records a violation. The first one counts. Main goroutine only.
func (e *Env) Fail(class, key, format string, a ...any) {
	if key != "" && e.known[key] {
		e.sum.Known[key]++
		e.sum.KnownMsg[key] = fmt.Sprintf(format, a...)
		return
	}
	if e.out.Class == "" {
		e.out.Class = class
		e.out.Key = key
		e.out.Msg = fmt.Sprintf(format, a...)
	}
}

func (e *Env) Failed() bool { return e.out.Class != "" }

func (e *Env) Fault(kind string) { e.sum.Faults[kind]++ }
func (e *Env) FaultN(kind string, n int) {
	if n > 0 {
		e.sum.Faults[kind] += int64(n)
	}
}
func (e *Env) Probe(name string) { e.sum.Probes[name]++ }
func (e *Env) Op()               { e.ops++ }

// Log folds an observed value into the event log hash.
func (e *Env) Log(s string) {
	h := e.logh
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	e.logh = (h ^ 0xff) * 1099511628211
	if e.tracing {
		e.trace = append(e.trace, s)
	}
}

func (e *Env) Logf(f string, a ...any) { e.Log(fmt.Sprintf(f, a...)) }

// Go adds a task.
func (e *Env) Go(f func()) { e.tasks = append(e.tasks, f) }

var policies = map[string]int{"explicit": runtime.VerifExplicit, "random": runtime.VerifRandom,
	"pct": runtime.VerifPCT, "sites": runtime.VerifSites, "": runtime.VerifExplicit}

// Run runs the tasks under the scheduler; afterwards everything they did
// happened before what follows.
func (e *Env) Run() runtime.VerifResult {
	s := e.base.Sched
	cfg := runtime.VerifConfig{Policy: policies[s.Policy], Seed: s.Seed, Prob: s.Prob, Depth: s.Depth,
		Length: s.Length, MaxSteps: e.max, MaxTrace: 4096}
	for _, w := range s.Switches {
		cfg.Switches = append(cfg.Switches, runtime.VerifSwitch{From: w[0], Local: w[1], To: w[2]})
	}
	tasks := e.tasks
	e.tasks = nil
	pan := make([]string, len(tasks))
	runtime.VerifBegin(cfg)
	for i, f := range tasks {
		go func() {
			defer func() {
				if r := recover(); r != nil {
					pan[i] = fmt.Sprintf("%v", r) + panicSite()
				}
			}()
			f()
		}()
	}
	res := runtime.VerifRun()
	e.steps += res.Steps
	e.logh = core.Mix(e.logh, res.Hash)
	e.il = core.Mix(e.il, res.ILHash)
	e.sum.Steps += res.Steps
	e.sum.MaxSteps = max(e.sum.MaxSteps, res.Steps)
	e.sum.Switches += res.NSwitch
	e.sum.SimNS += res.Now
	e.taken = nil
	for _, w := range res.Switches {
		e.taken = append(e.taken, [3]int32{w.From, w.Local, w.To})
	}
	e.full = int64(len(res.Switches)) == res.NSwitch
	if res.Status == runtime.VerifOK {
		e.panics = append(e.panics, pan...)
	}
	switch res.Status {
	case runtime.VerifDeadlock:
		e.dirty = true
		e.Fail("deadlock", "", "no goroutine can go on: %s", describe(res))
	case runtime.VerifStepLimit:
		e.dirty = true
		e.Fail("livelock", "", "still running after %d steps: %s", res.Steps, describe(res))
	}
	return res
}

// CheckPanics fails the run if a task panicked.
func (e *Env) CheckPanics() {
	for i, p := range e.panics {
		if p != "" {
			e.Fail("panic", "", "goroutine %d panicked: %s", i, p)
		}
	}
}

// Solo runs f as the only task: for its step limit and virtual clock.
func (e *Env) Solo(f func()) (panicked string) {
	e.Go(f)
	n := len(e.panics)
	e.Run()
	if len(e.panics) > n {
		panicked = e.panics[n]
		e.panics = e.panics[:n]
	}
	return
}

func describe(res runtime.VerifResult) string {
	var l []string
	for i := 0; i < res.Tasks && i < len(res.State); i++ {
		st := []string{"ready", "blocked", "sleeping", "done"}[res.State[i]]
		l = append(l, fmt.Sprintf("goroutine %d %s %s last at site %s", i, st, res.Reason[i], siteName(res.LastSite[i])))
	}
	return strings.Join(l, "; ")
}

var siteNames []string

func siteName(s uint32) string {
	if i := int(s) - 100; i >= 0 && i < len(siteNames) {
		return siteNames[i]
	}
	return fmt.Sprint(s)
}

// panicSite names the innermost functions of the repository on the stack.
func panicSite() string {
	var l []string
	for _, line := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(line, "github.com/youthlin/t") {
			if i := strings.LastIndex(line, "("); i > 0 {
				line = line[:i]
			}
			l = append(l, line)
			if len(l) == 3 {
				break
			}
		}
	}
	if len(l) == 0 {
		return ""
	}
	return " in " + strings.Join(l, " < ")
}

// genSched draws how the run is scheduled.
func genSched(r *core.Rand) core.Sched {
	s := core.Sched{Seed: r.U64()}
	switch r.N(8) {
	case 0, 1, 2:
		s.Policy = "random"
		s.Prob = 65536 >> uint(r.N(9)+1)
	case 3, 4:
		s.Policy = "sites"
		s.Prob = 65536 >> uint(r.N(3))
	default:
		s.Policy = "pct"
		s.Depth = r.Range(1, 4)
		s.Length = int64(64) << uint(r.N(9))
	}
	return s
}
