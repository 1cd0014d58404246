// Command vsim decides the properties of youthlin/t by deterministic
// simulation: it builds simulation workers from the working tree, runs seeded
// scenarios in them, and reports, minimises and replays violations.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif.local/sim/core"
)

var (
	verifDir string
	repoDir  = "/repo"
)

func main() {
	exe, _ := os.Getwd()
	verifDir = os.Getenv("VSIM_DIR")
	if verifDir == "" {
		verifDir = exe
	}
	if r := os.Getenv("VSIM_REPO"); r != "" {
		repoDir = r // development only: try a scratch copy
	}
	if len(os.Args) < 2 {
		fatalf("usage: vsim check ID | replay FILE | selftest [ID...] | run ID FROM COUNT | build DIR TARGET...")
	}
	code := 3
	switch os.Args[1] {
	case "check":
		if len(os.Args) != 3 {
			fatalf("usage: vsim check ID")
		}
		code = check(os.Args[2])
	case "replay":
		if len(os.Args) != 3 {
			fatalf("usage: vsim replay FILE")
		}
		code = replayFile(os.Args[2])
	case "selftest":
		code = selftest(os.Args[2:])
	case "run":
		code = runSome(os.Args[2:])
	case "build":
		s := newSession(os.Args[2], os.Args[3:]...)
		s.keep = true
		code = 0
	default:
		fatalf("unknown command %q", os.Args[1])
	}
	os.Exit(code)
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

// watchdog is how long a worker may take for one run.
func watchdog() time.Duration { return time.Duration(envInt("VSIM_WATCHDOG", 240)) * time.Second }

// session is one build of the workers.
type session struct {
	dir     string
	keep    bool
	buildS  float64
	reduced map[string]bool
	sites   []string // the decision points of the repository
}

func newSession(dir string, targets ...string) *session {
	s := &session{dir: dir}
	if dir == "" {
		d, err := os.MkdirTemp("", "vsim-")
		if err != nil {
			fatalf("%v", err)
		}
		s.dir = d
	} else {
		os.MkdirAll(dir, 0o755)
		s.dir, _ = filepath.Abs(dir)
	}
	t0 := time.Now()
	b := &builder{simDir: filepath.Join(verifDir, "sim"), repo: repoDir, out: s.dir}
	var ts []target
	for _, t := range targets {
		ts = append(ts, target{name: t, race: strings.HasPrefix(t, "race")})
	}
	cleanup = append(cleanup, func() {
		if !s.keep && dir == "" {
			os.RemoveAll(s.dir)
		}
	})
	b.build(ts)
	s.reduced = b.reduced
	s.sites = b.sites
	if err := os.WriteFile(filepath.Join(s.dir, "sites"), []byte(strings.Join(b.sites, "\n")), 0o644); err != nil {
		fatalf("%v", err)
	}
	s.buildS = time.Since(t0).Seconds()
	return s
}

var cleanup []func()

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+f+"\n", a...)
	for _, c := range cleanup {
		c()
	}
	os.Exit(3)
}

func (s *session) close() {
	for _, c := range cleanup {
		c()
	}
	cleanup = nil
}

// result is what one worker process said.
type result struct {
	from, count int64
	reports     []core.Report
	crash       string // last words of a worker that died
	crashAt     int64
	timeout     bool
	elapsed     time.Duration
}

var workerEnv = []string{
	"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TMPDIR=/nonexistent", "TZ=UTC", "LANG=en_US.UTF-8",
	"GODEBUG=asyncpreemptoff=1",
	"GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4 exitcode=0 atexit_sleep_ms=0",
	"GOTRACEBACK=all",
}

func (s *session) worker(bin string, timeout time.Duration, args ...string) result {
	res := result{}
	dir, err := os.MkdirTemp(s.dir, "w-")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(dir)
	rep, _ := os.Create(filepath.Join(dir, "report"))
	mark, _ := os.Create(filepath.Join(dir, "mark"))
	errf, _ := os.Create(filepath.Join(dir, "stderr"))
	defer rep.Close()
	defer mark.Close()
	defer errf.Close()
	cmd := exec.Command(filepath.Join(s.dir, bin), append([]string{"-sites", filepath.Join(s.dir, "sites")}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(append([]string{}, workerEnv...), "VSIM_XT="+filepath.Join(s.dir, "xt"))
	cmd.Stdout = errf
	cmd.Stderr = errf
	cmd.ExtraFiles = []*os.File{rep, mark}
	t0 := time.Now()
	if err := cmd.Start(); err != nil {
		fatalf("cannot start the worker: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, lastT := "", time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-tick.C:
			c, _ := os.ReadFile(filepath.Join(dir, "mark"))
			if string(c) != last {
				last, lastT = string(c), time.Now()
			} else if time.Since(lastT) > timeout {
				res.timeout = true
				cmd.Process.Kill()
			}
		}
	}
	res.elapsed = time.Since(t0)
	c, _ := os.ReadFile(filepath.Join(dir, "report"))
	for _, line := range strings.Split(string(c), "\n") {
		if line == "" {
			continue
		}
		var r core.Report
		if json.Unmarshal([]byte(line), &r) == nil {
			res.reports = append(res.reports, r)
		}
	}
	m, _ := os.ReadFile(filepath.Join(dir, "mark"))
	res.crashAt, _ = strconv.ParseInt(strings.TrimSpace(string(m)), 10, 64)
	if werr != nil {
		e, _ := os.ReadFile(filepath.Join(dir, "stderr"))
		res.crash = string(e)
		if res.crash == "" {
			res.crash = werr.Error()
		}
	} else if os.Getenv("VSIM_STDERR") != "" {
		e, _ := os.ReadFile(filepath.Join(dir, "stderr"))
		os.Stderr.Write(e)
	}
	return res
}

// fatalErr is the runtime's reason for a worker's death, if the code under
// test can be the cause.
func fatalErr(crash string) string {
	// a panic in a goroutine the code under test has started
	if i := strings.Index("\n"+crash, "\npanic: "); i >= 0 {
		msg, trace, _ := strings.Cut(crash[i:], "\n\n")
		first, _, _ := strings.Cut(trace, "\n\n")
		if strings.Contains(first, "\ncreated by github.com/youthlin/t") {
			line, _, _ := strings.Cut(msg, "\n")
			return line
		}
	}
	for _, l := range strings.Split(crash, "\n") {
		if strings.HasPrefix(l, "fatal error: verif:") {
			return ""
		}
		if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return l
		}
	}
	return ""
}

type violation struct {
	rp       core.Replay
	observed core.Outcome
}

// outcomeOf runs a scenario in a fresh process.
func (s *session) outcomeOf(rp *core.Replay) (core.Outcome, *core.Sched, string) {
	raw, _ := json.Marshal(rp)
	f, err := os.CreateTemp(s.dir, "r-*.json")
	if err != nil {
		fatalf("%v", err)
	}
	f.Write(raw)
	f.Close()
	defer os.Remove(f.Name())
	var keys []string
	for _, k := range knownFindings(rp.Property) {
		if k.key != rp.Key {
			keys = append(keys, k.key)
		}
	}
	res := s.worker(rp.Binary, 120*time.Second, "-prop", rp.Property, "-replay", f.Name(), "-known", strings.Join(keys, ","))
	if res.timeout {
		return core.Outcome{}, nil, "the worker made no progress for 120 s"
	}
	if res.crash != "" {
		if fe := fatalErr(res.crash); fe != "" {
			return core.Outcome{Class: "crash", Msg: fe + crashSite(res.crash)}, nil, ""
		}
		return core.Outcome{}, nil, "the worker failed: " + tail(res.crash)
	}
	for _, r := range res.reports {
		if r.Outcome != nil {
			return *r.Outcome, r.Sched, ""
		}
	}
	return core.Outcome{}, nil, "the worker reported nothing"
}

func crashSite(crash string) string {
	for _, l := range strings.Split(crash, "\n") {
		if strings.HasPrefix(l, "github.com/youthlin/t") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return " in " + l
		}
	}
	return ""
}

func tail(s string) string {
	if len(s) > 3000 {
		s = s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

// total is what all workers of a check measured.
type total struct {
	core.Summary
	nontrivial map[uint64]bool
	il         map[uint64]bool
	sites      map[uint32]bool
	procs      int
}

func newTotal() *total {
	t := &total{nontrivial: map[uint64]bool{}, il: map[uint64]bool{}, sites: map[uint32]bool{}}
	t.Faults, t.Probes, t.Known, t.KnownMsg = map[string]int64{}, map[string]int64{}, map[string]int64{}, map[string]string{}
	return t
}

func (t *total) add(s *core.Summary) {
	t.Runs += s.Runs
	t.Ops += s.Ops
	t.Steps += s.Steps
	t.MaxSteps = max(t.MaxSteps, s.MaxSteps)
	t.Switches += s.Switches
	t.SimNS += s.SimNS
	for _, h := range s.Nontrivial {
		t.nontrivial[h] = true
	}
	for _, h := range s.IL {
		t.il[h] = true
	}
	for _, n := range s.Sites {
		t.sites[n] = true
	}
	for k, v := range s.Faults {
		t.Faults[k] += v
	}
	for k, v := range s.Probes {
		t.Probes[k] += v
	}
	for k, v := range s.Known {
		t.Known[k] += v
		t.KnownMsg[k] = s.KnownMsg[k]
	}
	t.Samples = append(t.Samples, s.Samples...)
}

type batch struct{ from, count int64 }

// explore runs batches of scenarios on all cores until one violates the
// property. The violation with the lowest index is returned.
func (s *session) explore(bin, prop string, seed uint64, batches []batch, keys []string, deadline time.Time, tot *total, samples int) *violation {
	type msg struct {
		b   batch
		res result
	}
	n := runtime.NumCPU()
	if s.oneProc(bin) {
		n = n * 3 / 2
	}
	ch := make(chan msg)
	next, running := 0, 0
	var best *violation
	bestFrom := int64(-1)
	start := func() {
		for running < n && next < len(batches) {
			b := batches[next]
			if best != nil && b.from > bestFrom || time.Now().After(deadline) {
				next = len(batches)
				return
			}
			ns := 0
			if next < samples {
				ns = 1
			}
			next++
			running++
			go func() {
				res := s.worker(bin, watchdog(), "-prop", prop, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(b.from),
					"-count", fmt.Sprint(b.count), "-known", strings.Join(keys, ","), "-samples", fmt.Sprint(ns))
				ch <- msg{b, res}
			}()
		}
	}
	start()
	for running > 0 {
		m := <-ch
		running--
		tot.procs++
		if m.res.timeout {
			fatalf("%s: a worker (runs %d to %d) made no progress for %v at run %d: watchdog", prop, m.b.from, m.b.from+m.b.count-1, watchdog(), m.res.crashAt)
		}
		consider := func(v *violation) {
			v.rp.Property, v.rp.Binary, v.rp.Seed = prop, bin, seed
			if best == nil || v.rp.Index < best.rp.Index {
				best, bestFrom = v, m.b.from
			}
		}
		if m.res.crash != "" {
			fe := fatalErr(m.res.crash)
			if fe == "" || m.res.crashAt < 0 {
				fatalf("%s: a worker (runs %d to %d) failed at run %d:\n%s", prop, m.b.from, m.b.from+m.b.count-1, m.res.crashAt, tail(m.res.crash))
			}
			v := &violation{observed: core.Outcome{Class: "crash", Msg: fe + crashSite(m.res.crash)}}
			v.rp.Index = m.res.crashAt
			v.rp.Prelude = nil
			consider(v)
			v.rp.Original = nil
		}
		for _, r := range m.res.reports {
			if r.Summary != nil {
				tot.add(r.Summary)
			}
			if r.Outcome != nil && r.Outcome.Class != "" {
				v := &violation{observed: *r.Outcome}
				v.rp.Index = r.Index
				v.rp.Scenario = r.Scenario
				consider(v)
			}
		}
		start()
	}
	if best != nil && bestFrom >= 0 {
		s.scenarioOf(best, bestFrom)
	}
	return best
}

func (s *session) oneProc(bin string) bool { return bin == "xt" }

// scenarioOf fills in the scenario and those run before it in its process.
func (s *session) scenarioOf(v *violation, from int64) {
	res := s.worker(v.rp.Binary, watchdog(), "-prop", v.rp.Property, "-seed", fmt.Sprint(v.rp.Seed), "-from", fmt.Sprint(from),
		"-count", fmt.Sprint(v.rp.Index-from+1), "-dump")
	var all []json.RawMessage
	for _, r := range res.reports {
		if r.Scenario != nil {
			all = append(all, r.Scenario)
		}
	}
	if len(all) == 0 || res.crash != "" {
		fatalf("cannot regenerate run %d of %s: %s", v.rp.Index, v.rp.Property, tail(res.crash))
	}
	v.rp.Scenario = all[len(all)-1]
	v.rp.Prelude = all[:len(all)-1]
}

type knownFinding struct{ prop, key, what string }

// knownFindings reads the committed list of defects that are not repaired.
func knownFindings(prop string) (l []knownFinding) {
	c, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(c), "\n") {
		rest, ok := strings.CutPrefix(line, "KNOWN-FINDING: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " ")
		k, what, _ := strings.Cut(rest, " ")
		k, ok = strings.CutPrefix(k, "key=")
		if ok && id == prop {
			l = append(l, knownFinding{id, k, what})
		}
	}
	return
}

func check(id string) int {
	p, ok := plans[id]
	if !ok {
		fatalf("no check for property %q", id)
	}
	t0 := time.Now()
	seed := uint64(envInt("VERIF_SEED", 1))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var bins []string
	for _, ph := range p.phases {
		bins = append(bins, ph.bin)
	}
	bins = append(bins, p.needs...)
	sort.Strings(bins)
	var uniq []string
	for i, b := range bins {
		if i == 0 || bins[i-1] != b {
			uniq = append(uniq, b)
		}
	}
	fmt.Printf("%s: seed %d, tier %s\n", id, seed, tier)
	s := newSession("", uniq...)
	defer s.close()
	t1 := time.Now()
	tot := newTotal()
	known := knownFindings(id)
	var keys []string
	for _, k := range known {
		keys = append(keys, k.key)
	}
	// a listed finding is demonstrated by its fixed scenario
	for _, k := range known {
		res := s.worker(p.phases[0].bin, 120*time.Second, "-prop", id, "-demo", k.key)
		if res.crash != "" || res.timeout {
			fatalf("%s: demonstration of %s failed:\n%s", id, k.key, tail(res.crash))
		}
		for _, r := range res.reports {
			if r.Outcome != nil && r.Outcome.Class != "" && r.Outcome.Key == k.key {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
			} else if r.Outcome != nil && r.Outcome.Class != "" {
				v := &violation{observed: *r.Outcome, rp: core.Replay{Property: id, Binary: p.phases[0].bin, Seed: seed, Index: -1, Scenario: r.Scenario}}
				return s.report(p, v, tot, seed, tier, t0, t1, keys)
			} else if r.Outcome != nil {
				fmt.Printf("%s: the listed finding %q does not show any more\n", id, k.key)
			}
		}
	}
	var v *violation
	budget := time.Duration(envInt("VSIM_BUDGET", 420)) * time.Second
	if tier == "thorough" {
		budget = time.Duration(envInt("VSIM_BUDGET", 3000)) * time.Second
	}
	perPhase := map[string]int64{}
	base := int64(0)
	for i, ph := range p.phases {
		n := ph.quick
		if tier == "thorough" {
			n = ph.thorough
		}
		if f := envInt("VSIM_SCALE", 100); f != 100 {
			n = n * f / 100
		}
		before := tot.Runs
		deadline := t1.Add(budget * time.Duration(i+1) / time.Duration(len(p.phases)))
		v = s.explore(ph.bin, id, seed, p.batches(ph, base, n), keys, deadline, tot, 2)
		perPhase[ph.name()] += tot.Runs - before
		base += 1 << 32
		if v != nil {
			break
		}
	}
	if v != nil {
		return s.report(p, v, tot, seed, tier, t0, t1, keys)
	}
	for k, c := range tot.Known {
		fmt.Printf("%s: %d runs met the listed finding %s\n", id, c, k)
	}
	writeEvidence(p, tot, seed, tier, t0, t1, perPhase, 0, s)
	fmt.Printf("%s: held in %d runs (%d distinct), %d interleavings, %.0f s\n", id, tot.Runs, len(tot.nontrivial), len(tot.il), time.Since(t0).Seconds())
	return 0
}

// report reproduces, minimises and writes down a violation.
func (s *session) report(p *plan, v *violation, tot *total, seed uint64, tier string, t0, t1 time.Time, keys []string) int {
	fmt.Printf("%s: run %d: %s: %s\n", p.id, v.rp.Index, v.observed.Class, v.observed.Msg)
	rp := s.minimise(v)
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", p.id, seed, v.rp.Index))
	js, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, append(js, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
	writeEvidence(p, tot, seed, tier, t0, t1, nil, 1, s)
	fmt.Printf("%s: %s: %s\n", p.id, rp.Class, rp.Msg)
	for i, l := range rp.Trace {
		if i > 60 {
			fmt.Println("  ...")
			break
		}
		fmt.Println("  " + l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
	return 1
}

func replayFile(path string) int {
	c, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	var rp core.Replay
	if err := json.Unmarshal(c, &rp); err != nil {
		fatalf("%v", err)
	}
	bins := []string{rp.Binary}
	if p := plans[rp.Property]; p != nil {
		bins = append(bins, p.needs...)
	}
	s := newSession("", bins...)
	defer s.close()
	o, _, bad := s.outcomeOf(&rp)
	if bad != "" {
		fatalf("%s", bad)
	}
	for _, l := range o.Trace {
		fmt.Println("  " + l)
	}
	if o.Class == "" {
		fmt.Printf("%s: no violation\n", rp.Property)
		return 0
	}
	fmt.Printf("%s: %s: %s\n", rp.Property, o.Class, o.Msg)
	switch {
	case o.Class != rp.Class:
		fmt.Printf("differs from the recorded violation, which is: %s: %s\n", rp.Class, rp.Msg)
	case rp.Hash != "" && o.Hash != rp.Hash:
		fmt.Printf("same violation, but the execution differs from the recorded one (%s, recorded %s)\n", o.Hash, rp.Hash)
	default:
		fmt.Println("same execution as recorded")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
	return 1
}

// runSome is for development: runs without minimising.
func runSome(args []string) int {
	if len(args) < 3 {
		fatalf("usage: vsim run ID FROM COUNT [BIN]")
	}
	p, ok := plans[args[0]]
	if !ok {
		fatalf("no such property")
	}
	from, _ := strconv.ParseInt(args[1], 10, 64)
	count, _ := strconv.ParseInt(args[2], 10, 64)
	bin := p.phases[0].bin
	if len(args) > 3 {
		bin = args[3]
	}
	s := newSession(os.Getenv("VSIM_OUT"), append([]string{bin}, p.needs...)...)
	defer s.close()
	seed := uint64(envInt("VERIF_SEED", 1))
	res := s.worker(bin, watchdog(), "-prop", args[0], "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from), "-count", fmt.Sprint(count), "-trace")
	for _, r := range res.reports {
		b, _ := json.Marshal(r)
		fmt.Println(string(b))
	}
	if res.crash != "" {
		fmt.Println(res.crash)
	}
	fmt.Printf("build %.1f s, run %.2f s\n", s.buildS, res.elapsed.Seconds())
	return 0
}
