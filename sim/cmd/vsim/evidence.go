package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func sortStrings(l []string) { sort.Strings(l) }

func writeEvidence(p *plan, tot *total, seed uint64, tier string, t0, t1 time.Time, perPhase map[string]int64, violations int, s *session) {
	wall := time.Since(t0).Seconds()
	search := time.Since(t1).Seconds()
	perHour := 0.0
	if search > 0 {
		perHour = float64(tot.Runs) / search * 3600
	}
	var samples []any
	for _, raw := range tot.Samples {
		if len(raw) > 6000 {
			samples = append(samples, string(raw[:6000])+"... (cut)")
		} else {
			samples = append(samples, raw)
		}
		if len(samples) >= 3 {
			break
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none: the first run violated the property")
	}
	notHit := []string{}
	for _, n := range p.expect {
		if tot.Faults[n]+tot.Probes[n] == 0 {
			notHit = append(notHit, n)
		}
	}
	reached, of := reachedStatements(tot, s)
	cov := map[string]any{
		"statements_reached":              reached,
		"statements_of_files_reached":     of,
		"evaluations":                     tot.Runs,
		"distinct_nontrivial":             len(tot.nontrivial),
		"rule":                            p.rule,
		"samples":                         samples,
		"operations":                      tot.Ops,
		"runs_per_hour":                   int64(perHour),
		"seeds":                           "every run has its own seed, derived from VERIF_SEED and the run's number",
		"simulated_seconds":               float64(tot.SimNS) / 1e9,
		"decision_points":                 tot.Steps,
		"most_steps_of_one_section":       tot.MaxSteps,
		"context_switches":                tot.Switches,
		"distinct_interleavings":          len(tot.il),
		"interleaving_measure":            "hash over every context switch of a run: which goroutine, at which source position, to which goroutine",
		"faults_injected":                 tot.Faults,
		"probes":                          tot.Probes,
		"expected_but_not_hit":            notHit,
		"worker_processes":                tot.procs,
		"runs_per_phase":                  perPhase,
		"listed_findings_met":             tot.Known,
		"search_seconds":                  search,
		"build_seconds":                   s.buildS,
		"real_components":                 p.real,
		"stubbed_components":              p.stubs,
		"statement_level_decision_points": len(s.reduced) == 0,
	}
	ev := map[string]any{
		"property":    p.id,
		"tier":        tier,
		"seed":        seed,
		"level":       p.level,
		"coverage":    cov,
		"assumptions": p.assumptions,
		"wall_s":      wall,
		"violations":  violations,
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	js, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatalf("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, p.id+".json"), append(js, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
	if len(notHit) > 0 && violations == 0 {
		fmt.Printf("%s: not met in this run: %s\n", p.id, strings.Join(notHit, ", "))
	}
}

// reachedStatements counts, per file of the repository, the statements some
// run passed, and those the file has. VSIM_MISSED names a file that gets the
// rest, to see what a check never came by.
func reachedStatements(tot *total, s *session) (reached, of map[string]int) {
	reached, of = map[string]int{}, map[string]int{}
	var missed []string
	for i, pos := range s.sites {
		file, _, _ := strings.Cut(pos, ":")
		if of[file]++; tot.sites[uint32(firstSite+i)] {
			reached[file]++
		} else {
			missed = append(missed, pos)
		}
	}
	for f := range of {
		if reached[f] == 0 {
			delete(of, f)
		}
	}
	if p := os.Getenv("VSIM_MISSED"); p != "" {
		os.WriteFile(p, []byte(strings.Join(missed, "\n")+"\n"), 0o644)
	}
	return reached, of
}
