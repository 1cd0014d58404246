package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"verif.local/sim/core"
)

// minimise reproduces a violation in a fresh process and makes its scenario,
// faults and schedule as small as it can while it stays the same violation.
func (s *session) minimise(v *violation) *core.Replay {
	rp := v.rp
	rp.Original = rp.Scenario
	prelude := rp.Prelude
	class := v.observed.Class
	try := func(r core.Replay) (core.Outcome, *core.Sched, bool) {
		o, sc, bad := s.outcomeOf(&r)
		return o, sc, bad == "" && o.Class == class && o.Key == v.observed.Key
	}
	rp.Prelude = nil
	o, sched, ok := try(rp)
	if !ok && o.Class != "" {
		// alone it fails in another way: as good
		class = o.Class
		v.observed.Key = o.Key
		ok = true
	}
	if !ok && len(prelude) > 0 {
		rp.Prelude = prelude
		o, sched, ok = try(rp)
		if ok {
			rp.Prelude = s.shrinkPrelude(rp, try)
			o, sched, _ = try(rp)
		}
	}
	if !ok {
		if v.observed.Class == "crash" {
			fatalf("%s: run %d ended its worker (%s) but does not do so again", rp.Property, rp.Index, v.observed.Msg)
		}
		rp.Class, rp.Key, rp.Msg = v.observed.Class, v.observed.Key, v.observed.Msg
		rp.Trace = v.observed.Trace
		rp.Shrunk = "NOT reproduced in a fresh process"
		fmt.Println("vsim: the violation was observed but does not show again in a fresh process")
		return &rp
	}
	deadline := time.Now().Add(time.Duration(envInt("VSIM_SHRINK", 75)) * time.Second)
	tries := 0
	accept := func(sc []byte) bool {
		r := rp
		r.Scenario = sc
		_, _, ok := try(r)
		return ok
	}
	// schedule: none at all, or the one that was taken
	best := tree(rp.Scenario)
	if m, ok := best.(map[string]any); ok {
		set := func(sc *core.Sched) bool {
			c := clone(best).(map[string]any)
			var t any
			b, _ := json.Marshal(sc)
			dec := json.NewDecoder(bytes.NewReader(b))
			dec.UseNumber()
			dec.Decode(&t)
			c["sched"] = t
			tries++
			if accept(encode(c)) {
				best = c
				return true
			}
			return false
		}
		_ = m
		if !set(&core.Sched{Policy: "explicit"}) && sched != nil {
			set(sched)
		}
	}
	// generic delta debugging over the scenario's JSON
	for round := 0; round < 6 && time.Now().Before(deadline); round++ {
		changed := false
		for pass := 0; ; pass++ {
			cands := candidates(best, pass)
			if cands == nil {
				break
			}
			pos := 0
			for pos < len(cands) && time.Now().Before(deadline) {
				n := 8
				if pos+n > len(cands) {
					n = len(cands) - pos
				}
				oks := make([]bool, n)
				trees := make([]any, n)
				var wg sync.WaitGroup
				for i := 0; i < n; i++ {
					t, use := cands[pos+i](best)
					if !use {
						continue
					}
					trees[i] = t
					tries++
					wg.Add(1)
					go func() {
						defer wg.Done()
						oks[i] = accept(encode(t))
					}()
				}
				wg.Wait()
				hit := -1
				for i, k := range oks {
					if k {
						hit = i
						break
					}
				}
				if hit >= 0 {
					best = trees[hit]
					changed = true
					pos += hit + 1
				} else {
					pos += n
				}
			}
		}
		if !changed {
			break
		}
	}
	rp.Scenario = encode(best)
	// run it twice more: what is written must replay exactly
	o, _, ok = try(rp)
	o2, _, ok2 := try(rp)
	if !ok || !ok2 {
		rp.Scenario = rp.Original
		o, _, ok = try(rp)
		o2 = o
	}
	rp.Class, rp.Key, rp.Msg, rp.Trace, rp.Hash = o.Class, o.Key, o.Msg, o.Trace, o.Hash
	if rp.Class == "" {
		rp.Class, rp.Msg = v.observed.Class, v.observed.Msg
	}
	rp.Shrunk = fmt.Sprintf("%d bytes of scenario to %d in %d tries; replays equal: %v", len(rp.Original), len(rp.Scenario), tries, o.Hash == o2.Hash)
	return &rp
}

func (s *session) shrinkPrelude(rp core.Replay, try func(core.Replay) (core.Outcome, *core.Sched, bool)) []json.RawMessage {
	l := rp.Prelude
	deadline := time.Now().Add(60 * time.Second)
	for n := len(l); n >= 1; {
		for i := 0; i+n <= len(l) && time.Now().Before(deadline); {
			r := rp
			r.Prelude = append(append([]json.RawMessage(nil), l[:i]...), l[i+n:]...)
			if _, _, ok := try(r); ok {
				l = r.Prelude
			} else {
				i += n
			}
		}
		if n == 1 {
			break
		}
		n /= 2
	}
	return l
}

func tree(raw []byte) (t any) {
	dec := json.NewDecoder(bytes.NewReader(raw))
	dec.UseNumber()
	dec.Decode(&t)
	return
}

func encode(t any) []byte {
	b, err := json.Marshal(t)
	if err != nil {
		fatalf("%v", err)
	}
	return b
}

func clone(t any) any {
	switch t := t.(type) {
	case map[string]any:
		m := make(map[string]any, len(t))
		for k, v := range t {
			m[k] = clone(v)
		}
		return m
	case []any:
		l := make([]any, len(t))
		for i, v := range t {
			l[i] = clone(v)
		}
		return l
	}
	return t
}

type step struct {
	key string
	idx int
	arr bool
}

type cand func(t any) (any, bool)

func walk(t any, path []step, f func(path []step, v any)) {
	f(path, t)
	switch t := t.(type) {
	case map[string]any:
		keys := make([]string, 0, len(t))
		for k := range t {
			keys = append(keys, k)
		}
		sortStrings(keys)
		for _, k := range keys {
			if k == "hash_seed" || k == "seed" {
				continue
			}
			walk(t[k], append(append([]step(nil), path...), step{key: k}), f)
		}
	case []any:
		for i, v := range t {
			walk(v, append(append([]step(nil), path...), step{idx: i, arr: true}), f)
		}
	}
}

func get(t any, path []step) (any, bool) {
	for _, s := range path {
		if s.arr {
			l, ok := t.([]any)
			if !ok || s.idx >= len(l) {
				return nil, false
			}
			t = l[s.idx]
		} else {
			m, ok := t.(map[string]any)
			if !ok {
				return nil, false
			}
			v, ok := m[s.key]
			if !ok {
				return nil, false
			}
			t = v
		}
	}
	return t, true
}

func put(t any, path []step, v any) any {
	t = clone(t)
	if len(path) == 0 {
		return v
	}
	p, _ := get(t, path[:len(path)-1])
	s := path[len(path)-1]
	if s.arr {
		p.([]any)[s.idx] = v
	} else {
		p.(map[string]any)[s.key] = v
	}
	return t
}

// candidates lists the simplifications of one kind; nil ends the passes.
func candidates(t any, pass int) []cand {
	out := []cand{}
	div := []int{1, 2, 4, 8, 16, 0}
	switch {
	case pass < len(div):
		// remove parts of lists, large parts first, from the back
		walk(t, nil, func(path []step, v any) {
			l, ok := v.([]any)
			if !ok || len(l) == 0 {
				return
			}
			if n := len(path); n > 0 && path[n-1].arr && len(l) == 3 && inSwitches(path) {
				return // a switch is one thing
			}
			n := 1
			if div[pass] > 0 {
				n = len(l) / div[pass]
				if n <= 1 && div[pass] > 1 {
					return
				}
			}
			if n < 1 {
				return
			}
			for end := len(l); end > 0; end -= n {
				lo := end - n
				if lo < 0 {
					lo = 0
				}
				out = append(out, func(t any) (any, bool) {
					v, ok := get(t, path)
					l, ok2 := v.([]any)
					if !ok || !ok2 || end > len(l) {
						return nil, false
					}
					nl := append(append([]any{}, l[:lo]...), l[end:]...)
					return put(t, path, nl), true
				})
			}
		})
	case pass == len(div):
		walk(t, nil, func(path []step, v any) {
			if len(path) == 0 {
				return
			}
			set := func(old, nv any) {
				out = append(out, func(t any) (any, bool) {
					v, ok := get(t, path)
					if !ok || fmt.Sprint(v) != fmt.Sprint(old) {
						return nil, false
					}
					return put(t, path, nv), true
				})
			}
			switch v := v.(type) {
			case json.Number:
				if inSwitches(path) {
					return
				}
				if i, err := v.Int64(); err == nil && i != 0 {
					set(v, json.Number("0"))
					if i > 3 || i < -3 {
						set(v, json.Number(fmt.Sprint(i/2)))
					}
					if i > 0 {
						set(v, json.Number(fmt.Sprint(i-1)))
					}
				}
			case string:
				if v != "" && len(path) > 0 && path[len(path)-1].key != "policy" {
					set(v, "")
					if len(v) > 3 {
						set(v, v[:len(v)/2])
						set(v, v[len(v)/2:])
					}
				}
			case bool:
				if v {
					set(v, false)
				}
			case map[string]any:
				if path[len(path)-1].key != "sched" && len(v) > 0 && !path[len(path)-1].arr {
					set(v, map[string]any{})
					set(v, nil)
				}
			}
		})
	default:
		return nil
	}
	return out
}

func inSwitches(path []step) bool {
	for _, s := range path {
		if s.key == "switches" {
			return true
		}
	}
	return false
}
