package main

import (
	"fmt"

	"verif.local/sim/core"
)

// C03: derived handles are isolated snapshots. C05: locale negotiation.

func genC03(r *core.Rand) scenario {
	s := &histSc{}
	for i := r.Range(1, 3); i > 0; i-- {
		s.Trees = append(s.Trees, genTree(r, fmt.Sprintf("t%d", i), r.Range(1, 3), 4, 1, 12))
	}
	s.Ops = append(s.Ops, hOp{K: "N"}, hOp{K: "sg"})
	watch := genWatch(r)
	op := func(kinds []string, nh int) hOp {
		o := hOp{K: core.Pick(r, kinds), H: r.Range(-1, nh), D: core.Pick(r, askedDomains), T: r.N(12), C: genCall(r), Q: watch()}
		if r.P(3, 4) {
			o.S = s.lang(r)
		}
		if o.K == "C" && r.P(1, 3) {
			o.D = ""
		}
		if o.K == "C" && r.P(1, 5) {
			o.S, o.E = "", true
		}
		if o.K == "L" && r.P(1, 10) {
			o.S = ""
		}
		return o
	}
	hist := []string{"D", "L", "G", "C", "D", "L", "sd", "sl", "ss", "bind", "bind", "rm", "clear", "sg", "deep", "load", "sd", "sl", "bind"}
	for n := r.Range(2, 16); n > 0; n-- {
		s.Ops = append(s.Ops, op(hist, 6))
	}
	if r.P(2, 3) {
		kinds := []string{"D", "L", "C", "G", "sd", "sl", "ss", "bind", "rm", "clear", "deep", "D", "L", "sl"}
		for i := r.Range(2, 4); i > 0; i-- {
			l := []hOp{op([]string{"D", "L", "G", "C"}, 6)}
			for j := r.Range(1, 5); j > 0; j-- {
				l = append(l, op(kinds, 8))
			}
			s.Tasks = append(s.Tasks, l)
		}
	}
	s.again(r)
	s.reuse(r)
	s.grow(r)
	return s
}

// again makes the derivations of a history the same one again and again, with
// changes in between.
func (s *histSc) again(r *core.Rand) {
	if !r.P(1, 3) {
		return
	}
	hot := map[string]*hOp{}
	for i := range s.Ops {
		o := &s.Ops[i]
		switch o.K {
		case "C", "D", "L", "G":
			if r.P(1, 4) {
				o.K = "C"
			}
			if h := hot[o.K]; h != nil && r.P(4, 5) {
				o.H, o.S, o.D, o.E, o.C = h.H, h.S, h.D, h.E, h.C
			} else {
				hot[o.K] = o
			}
		case "bind", "rm", "load", "clear", "sd", "ss", "sl":
			if r.P(1, 2) {
				o.H = -1
			}
			if h := hot["C"]; h != nil && r.P(1, 2) && h.D != "" {
				o.D = h.D
			}
		}
	}
}

func (s *histSc) lang(r *core.Rand) string {
	if r.P(2, 3) && len(s.Trees) > 0 {
		tr := core.Pick(r, s.Trees)
		if len(tr.Cats) > 0 {
			return tr.Cats[r.N(len(tr.Cats))].C.Lang
		}
	}
	return genLocale(r)
}

func genC05(r *core.Rand) scenario {
	s := &histSc{}
	for i := r.Range(1, 3); i > 0; i-- {
		s.Trees = append(s.Trees, genTree(r, fmt.Sprintf("t%d", i), r.Range(1, 5), 2, 1, 12))
	}
	watch := genWatch(r)
	op := func(kinds []string, nh int) hOp {
		o := hOp{K: core.Pick(r, kinds), H: r.Range(-1, nh), D: core.Pick(r, askedDomains), T: r.N(200), C: genCall(r), Q: watch()}
		switch o.K {
		case "web":
			o.W = genWeb(r)
		case "sl", "L":
			if !r.P(1, 4) {
				o.S = s.lang(r)
			}
		default:
			o.S = s.lang(r)
		}
		if o.K == "C" && r.P(1, 3) {
			o.D = ""
		}
		if o.K == "C" && r.P(1, 5) {
			o.S, o.E = "", true
		}
		return o
	}
	if r.P(1, 2) {
		s.Ops = append(s.Ops, op([]string{"env"}, 0))
	}
	s.Ops = append(s.Ops, hOp{K: "N"}, hOp{K: "sg"})
	hist := []string{"bind", "bind", "bind", "sl", "sl", "sd", "sd", "ss", "web", "web", "env", "rm", "clear", "D", "L", "G", "C", "N", "sg", "load", "match", "tag"}
	for n := r.Range(3, 18); n > 0; n-- {
		s.Ops = append(s.Ops, op(hist, 3))
	}
	if r.P(1, 2) {
		kinds := []string{"web", "web", "match", "tag", "D", "L", "C", "state", "state", "sl", "ss"}
		if r.P(3, 4) {
			watch = func() int { return qAll }
		}
		hot := op(kinds, 3)
		for i := r.Range(2, 4); i > 0; i-- {
			var l []hOp
			for j := r.Range(1, 5); j > 0; j-- {
				o := op(kinds, 3)
				if r.P(1, 3) {
					o = hot
				}
				l = append(l, o)
			}
			s.Tasks = append(s.Tasks, l)
		}
	}
	s.reuse(r)
	s.grow(r)
	return s
}

func init() {
	props["C03"] = &prop{gen: genC03, new: func() scenario { return &histSc{} }, run: runHist, whole: func(sc scenario) bool { return len(sc.(*histSc).Tasks) == 0 }}
	props["C05"] = &prop{gen: genC05, new: func() scenario { return &histSc{} }, run: runHist, whole: func(sc scenario) bool { return len(sc.(*histSc).Tasks) == 0 }}
}
