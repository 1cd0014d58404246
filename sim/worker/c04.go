package main

import (
	"fmt"

	"github.com/youthlin/t"
	"verif.local/sim/core"
)

// C04: the registry of domains follows its model.

type histSc struct {
	Base
	Trees []treeSpec `json:"trees"`
	Ops   []hOp      `json:"ops"`
	Tasks [][]hOp    `json:"tasks"`
}

func genC04(r *core.Rand) scenario {
	s := &histSc{}
	for i := r.Range(1, 4); i > 0; i-- {
		s.Trees = append(s.Trees, genTree(r, fmt.Sprintf("t%d", i), r.Range(1, 3), 4, 1, 3))
	}
	s.Ops = append(s.Ops, hOp{K: "N"}, hOp{K: "sg"})
	watch := genWatch(r)
	lang := func() string {
		if r.P(2, 3) {
			tr := core.Pick(r, s.Trees)
			if len(tr.Cats) > 0 {
				return tr.Cats[r.N(len(tr.Cats))].C.Lang
			}
		}
		return genLocale(r)
	}
	for n := r.Range(3, 24); n > 0; n-- {
		o := hOp{K: core.Pick(r, []string{"bind", "bind", "bind", "bind", "load", "rm", "rm", "clear", "sd", "sd", "sl", "sl", "ss", "deep", "D", "G", "sg"}),
			H: r.Range(-1, 2), D: core.Pick(r, askedDomains), T: r.N(12), C: genCall(r), Q: watch()}
		switch o.K {
		case "clear", "ss", "D", "G", "sg":
			if !r.P(1, 3) {
				o.K = "bind"
			}
		}
		if o.K == "sl" || o.K == "ss" {
			o.S = lang()
			if r.P(1, 8) {
				o.S = ""
			}
		}
		s.Ops = append(s.Ops, o)
	}
	s.Ops = append(s.Ops, hOp{K: "deep", H: -1, T: r.N(12), C: genCall(r)})
	s.reuse(r)
	s.grow(r)
	return s
}

// runHist runs a history on both sides, then the tasks, and compares.
func runHist(sc scenario, e *Env) {
	s := sc.(*histSc)
	setEnv(envDefault)
	defer setEnv(envDefault)
	defer t.SetGlobal(t.NewTranslations())
	t.SetGlobal(t.NewTranslations())
	rw := &realWorld{trees: s.Trees, e: e}
	mw := &modelWorld{trees: s.Trees, def: "en_US", g: newHModel("en_US")}
	step := func(i int, o hOp) {
		e.Op()
		got := rw.do(o)
		want := mw.do(o)
		e.Logf("%d %s: %s", i, o, got)
		if got != want {
			e.Fail("state after "+o.K, "", "operation %d (%s): got %s, want %s", i, o, got, want)
		}
		switch o.K {
		case "bind", "load":
			if len(s.Trees) > 0 && len(s.Trees[pick(o.T, len(s.Trees))].byLang()) == 0 {
				e.Probe("failed load")
			} else {
				e.Probe("load")
			}
		case "rm":
			if want[0] == 't' {
				e.Probe("domain removed")
			}
		}
	}
	others := func(when, kind string, p hOp) bool {
		for j := range rw.hs {
			if got, want := rw.state(rw.hs[j], p), mw.state(mw.hs[j], p); got != want {
				e.Fail("state of another handle after "+kind, "", "%s, handle %d: got %s, want %s", when, j, got, want)
				return true
			}
		}
		if got, want := rw.state(nil, p), mw.state(mw.g, p); got != want {
			e.Fail("global state after "+kind, "", "%s, global: got %s, want %s", when, got, want)
			return true
		}
		return false
	}
	for i, o := range s.Ops {
		step(i, o)
		if e.Failed() {
			return
		}
		// no operation shows in another handle
		if o.Q&qOthers != 0 {
			if others(fmt.Sprintf("after operation %d (%s)", i, o), o.K, hOp{C: o.C, D: o.D, Q: o.Q}) {
				return
			}
		}
	}
	if n := len(s.Ops); n > 0 && others("in the end", "all operations", hOp{C: s.Ops[n-1].C, D: s.Ops[n-1].D, Q: qAll}) {
		return
	}
	rw.folded(e)
	e.trivial = len(s.Ops) < 4
	if len(s.Tasks) == 0 {
		return
	}
	// each goroutine goes on with its own handles derived from the common ones
	shared := len(rw.hs)
	got := make([][]string, len(s.Tasks))
	rws := make([]*realWorld, len(s.Tasks))
	for ti, ops := range s.Tasks {
		got[ti] = make([]string, len(ops))
		x := &realWorld{trees: s.Trees, e: e, hs: append([]*t.Translations(nil), rw.hs...)}
		rws[ti] = x
		e.Go(func() {
			for j, o := range ops {
				o, ok := own(o, shared, len(x.hs))
				if ok {
					got[ti][j] = x.do(o)
				}
			}
		})
	}
	res := e.Run()
	if e.Failed() {
		return
	}
	e.CheckPanics()
	if res.NSwitch > 0 {
		e.Fault("preemption")
	}
	for ti, ops := range s.Tasks {
		m := &modelWorld{trees: s.Trees, def: mw.def, g: mw.g, hs: append([]*hmodel(nil), mw.hs...)}
		for j, o := range ops {
			e.Op()
			o, ok := own(o, shared, len(m.hs))
			if !ok {
				continue
			}
			want := m.do(o)
			e.Logf("goroutine %d: %s: %s", ti, o, got[ti][j])
			if got[ti][j] != want {
				e.Fail("concurrent "+o.K, "", "goroutine %d, operation %d (%s): got %s, want %s", ti, j, o, got[ti][j], want)
				return
			}
		}
		for j := range m.hs {
			p := hOp{C: call{K: "T", M: j}, D: "web", Q: qAll}
			if got, want := rws[ti].state(rws[ti].hs[j], p), m.state(m.hs[j], p); got != want {
				e.Fail("final state", "", "goroutine %d, handle %d: got %s, want %s", ti, j, got, want)
				return
			}
		}
		rws[ti].folded(e)
	}
	p := hOp{Q: qAll}
	if got, want := rw.state(nil, p), mw.state(mw.g, p); got != want {
		e.Fail("final global state", "", "global: got %s, want %s", got, want)
	}
}

// own makes sure a goroutine changes only handles it derived itself.
func own(o hOp, shared, n int) (hOp, bool) {
	switch o.K {
	case "sd", "sl", "ss", "bind", "load", "rm", "clear":
		if n <= shared {
			return o, false
		}
		o.H = shared + pick(o.H, n-shared)
		if o.K == "load" {
			o.K = "bind"
		}
		return o, true
	case "sg", "env":
		return o, false
	}
	return o, true
}

func init() {
	props["C04"] = &prop{gen: genC04, new: func() scenario { return &histSc{} }, run: runHist, whole: func(sc scenario) bool { return len(sc.(*histSc).Tasks) == 0 }}
}
