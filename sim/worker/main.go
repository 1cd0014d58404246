// Command worker runs simulations of one property in one process. It is built
// from the working tree of the repository with the simulator's overlay.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"

	"verif.local/sim/core"
)

func newSummary() *core.Summary {
	return &core.Summary{Faults: map[string]int64{}, Probes: map[string]int64{}, Known: map[string]int64{}, KnownMsg: map[string]string{}}
}

// allocLimit bounds a single allocation of a slice: more is out of proportion
// to anything the scenarios hold.
const allocLimit = 256 << 20

// mainLimit bounds the decision points of a run outside simulated sections.
const mainLimit = 300_000_000

func runSeed(seed uint64, prop string, index int64) uint64 {
	return core.Mix(core.MixStr(seed, prop), uint64(index))
}

// runOne runs one scenario and returns its environment.
func runOne(p *prop, sc scenario, sum *core.Summary, tracing bool, known map[string]bool) *Env {
	e := &Env{sum: sum, known: known, base: sc.base(), tracing: tracing, max: p.maxSteps}
	if e.max == 0 {
		e.max = 60_000_000
	}
	runtime.VerifResetPools()
	runtime.VerifSeed(true, sc.base().HashSeed)
	runtime.VerifClock(true, 1_700_000_000)
	runtime.VerifCPUs(1 + int(sc.base().HashSeed%13))
	e.races = raceErrors()
	body := func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(failed); ok {
					return
				}
				site := panicSite()
				if r == runtime.VerifStuck {
					runtime.VerifMainLimit(0)
					e.dirty = true
					e.Fail("livelock", "", "still running after %d steps%s", mainLimit, site)
					return
				}
				if site == "" {
					panic(r) // the simulator's own
				}
				e.Fail("panic", "", "%v%s", r, site)
			}
		}()
		p.run(sc, e)
	}
	runtime.VerifAllocLimit(allocLimit)
	if p.whole != nil && p.whole(sc) {
		e.max = max(e.max, mainLimit)
		if s := e.Solo(body); s != "" {
			panic(s) // the simulator's own
		}
	} else {
		runtime.VerifMainLimit(mainLimit)
		body()
	}
	runtime.VerifMainLimit(0)
	runtime.VerifAllocLimit(0)
	runtime.VerifClock(false, 0)
	runtime.VerifSeed(false, 0)
	if n := raceErrors() - e.races; n > 0 {
		e.Fail("race", "", "%d data race(s) reported by the race detector", n)
	}
	e.out.Hash = fmt.Sprintf("%016x", e.logh)
	e.out.Trace = e.trace
	sum.Runs++
	sum.Ops += e.ops
	sum.LogHash = core.Mix(sum.LogHash, e.logh)
	if !e.trivial {
		sum.Nontrivial = append(sum.Nontrivial, e.logh)
	}
	sum.IL = append(sum.IL, e.il)
	return e
}

func main() {
	var (
		propID  = flag.String("prop", "", "property")
		seed    = flag.Uint64("seed", 1, "seed")
		from    = flag.Int64("from", 0, "first run")
		count   = flag.Int64("count", 1, "number of runs")
		replay  = flag.String("replay", "", "replay file")
		known   = flag.String("known", "", "keys of known findings, comma separated")
		sites   = flag.String("sites", "", "site table")
		samples = flag.Int("samples", 0, "scenarios to show in full")
		demo    = flag.String("demo", "", "run the fixed scenario of a known finding")
		trace   = flag.Bool("trace", false, "keep event logs")
		dumpOne = flag.Bool("dump", false, "print the scenarios instead of running them")
	)
	flag.Parse()
	debug.SetGCPercent(-1)
	runtime.GOMAXPROCS(1)
	runtime.GC() // its workers are there before anything is simulated
	if *sites != "" {
		if c, err := os.ReadFile(*sites); err == nil {
			siteNames = strings.Split(string(c), "\n")
		}
	}
	out := os.NewFile(3, "report")
	if _, err := out.Stat(); err != nil {
		out = os.Stdout
	}
	w := bufio.NewWriterSize(out, 1<<16)
	send := func(r core.Report) {
		b, err := json.Marshal(r)
		if err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(3)
		}
		w.Write(append(b, '\n'))
		w.Flush()
	}
	// the marker of the run in progress, for the driver in case of a crash
	marker := func(i int64) {
		syscall.Pwrite(4, []byte(fmt.Sprintf("%-20d", i)), 0)
	}
	sum := newSummary()
	kn := map[string]bool{}
	for _, k := range strings.Split(*known, ",") {
		if k != "" {
			kn[k] = true
		}
	}
	if *replay != "" {
		c, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(3)
		}
		var rp core.Replay
		if err := json.Unmarshal(c, &rp); err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(3)
		}
		p := props[rp.Property]
		if p == nil {
			fmt.Fprintln(os.Stderr, "worker: unknown property", rp.Property)
			os.Exit(3)
		}
		for i, raw := range rp.Prelude {
			sc := p.new()
			if json.Unmarshal(raw, sc) != nil {
				continue
			}
			marker(int64(-2 - i))
			e := runOne(p, sc, sum, false, kn)
			if e.dirty {
				break
			}
		}
		sc := p.new()
		if err := json.Unmarshal(rp.Scenario, sc); err != nil {
			send(core.Report{Outcome: &core.Outcome{Invalid: err.Error()}})
			return
		}
		marker(0)
		e := runOne(p, sc, sum, true, kn)
		rep := core.Report{Outcome: &e.out, Sched: taken(e)}
		send(rep)
		return
	}
	p := props[*propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "worker: unknown property", *propID)
		os.Exit(3)
	}
	if *demo != "" {
		d := p.demos[*demo]
		if d == nil {
			fmt.Fprintln(os.Stderr, "worker: no demonstration of", *demo)
			os.Exit(3)
		}
		sc := d()
		raw, _ := json.Marshal(sc)
		e := runOne(p, sc, sum, true, nil)
		send(core.Report{Outcome: &e.out, Scenario: raw, Sched: taken(e)})
		return
	}
	stride := int64(0)
	if *samples > 0 {
		stride = (*count + int64(*samples) - 1) / int64(*samples)
	}
	for i := int64(0); i < *count; i++ {
		idx := *from + i
		r := core.NewRand(runSeed(*seed, *propID, idx))
		sc := p.gen(r)
		b := sc.base()
		b.HashSeed = r.U64()
		if b.Sched.Policy == "" {
			b.Sched = genSched(r)
		}
		raw, err := json.Marshal(sc)
		if err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(3)
		}
		if *dumpOne {
			send(core.Report{Index: idx, Scenario: raw})
			continue
		}
		// run what the file says: what is replayed is what ran
		sc = p.new()
		if err := json.Unmarshal(raw, sc); err != nil {
			fmt.Fprintln(os.Stderr, "worker:", err)
			os.Exit(3)
		}
		marker(idx)
		e := runOne(p, sc, sum, *trace, kn)
		if stride > 0 && i%stride == 0 {
			sum.Samples = append(sum.Samples, raw)
		}
		if *trace {
			send(core.Report{Index: idx, Outcome: &e.out})
		}
		if e.out.Class != "" {
			send(core.Report{Index: idx, Scenario: raw, Outcome: &e.out, Sched: taken(e)})
			break
		}
		if i%4 == 3 {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 256<<20 {
				runtime.GC()
			}
		}
	}
	marker(-1)
	sort.Slice(sum.IL, func(i, j int) bool { return sum.IL[i] < sum.IL[j] })
	sum.Sites = runtime.VerifHits()
	for n := range xtSites {
		sum.Sites = append(sum.Sites, n)
	}
	send(core.Report{Summary: sum})
}

func taken(e *Env) *core.Sched {
	if !e.full || len(e.taken) == 0 {
		return nil
	}
	return &core.Sched{Policy: "explicit", Switches: e.taken}
}
