package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

// selftest proves determinism: the same runs in different processes and under
// different load must leave the same event logs, schedules included. What ran
// before in the process is part of an execution (the library keeps caches).
func selftest(ids []string) int {
	if len(ids) == 0 {
		for id := range plans {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	set := map[string]bool{}
	for _, id := range ids {
		for _, ph := range plans[id].phases {
			set[ph.bin] = true
		}
		for _, b := range plans[id].needs {
			set[b] = true
		}
	}
	var bins []string
	for b := range set {
		bins = append(bins, b)
	}
	sort.Strings(bins)
	s := newSession("", bins...)
	defer s.close()
	bad := 0
	for _, id := range ids {
		done := map[string]bool{}
		for pi, ph := range plans[id].phases {
			if done[ph.bin] {
				continue
			}
			done[ph.bin] = true
			base := int64(pi) << 32
			n := envInt("VSIM_SELFTEST", 400)
			if ph.batch == 1 {
				n = envInt("VSIM_SELFTEST1", 48)
			}
			// each seed: runs in batches of different sizes, with different
			// numbers of processes at a time
			diffs, runs := 0, 0
			for seed := uint64(1); seed <= 3; seed++ {
				ref := s.logs(ph.bin, id, seed, base, n, 50, 50, 8)
				compare := func(got map[int64]string, want int64) {
					for i, h := range got {
						runs++
						if ref[i] != h {
							diffs++
							if diffs < 5 {
								fmt.Printf("%s %s seed %d run %d: %s and %s\n", id, ph.bin, seed, i, ref[i], h)
							}
						}
					}
					if int64(len(got)) != want {
						fmt.Printf("%s %s seed %d: %d of %d runs\n", id, ph.bin, seed, len(got), want)
						diffs++
					}
				}
				compare(ref, n)
				compare(s.logs(ph.bin, id, seed, base, n, 50, 50, 1), n)
				compare(s.logs(ph.bin, id, seed, base, n, 50, 50, 24), n)
				// a process that ends earlier does the same until then
				compare(s.logs(ph.bin, id, seed, base, n, 50, 20, 8), (n+49)/50*20)
			}
			fmt.Printf("%s %s: %d comparisons, %d differ\n", id, ph.bin, runs, diffs)
			bad += diffs
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}

func (s *session) logs(bin, id string, seed uint64, base, n, size, only int64, par int) map[int64]string {
	var keys []string
	for _, k := range knownFindings(id) {
		keys = append(keys, k.key)
	}
	out := map[int64]string{}
	var mu sync.Mutex
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for from := int64(0); from < n; from += size {
		c := size
		if from+c > n {
			c = n - from
		}
		if c > only {
			c = only
		}
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			res := s.worker(bin, watchdog(), "-prop", id, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(base+from), "-count", fmt.Sprint(c), "-trace", "-known", strings.Join(keys, ","))
			mu.Lock()
			defer mu.Unlock()
			if res.crash != "" {
				out[base+from] = "crash " + tail(res.crash)
			}
			for _, r := range res.reports {
				if r.Outcome != nil {
					out[r.Index] = r.Outcome.Hash + r.Outcome.Class
				}
			}
		}()
	}
	wg.Wait()
	return out
}
