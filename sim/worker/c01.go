package main

import (
	"bytes"
	"context"
	"fmt"
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
	"golang.org/x/text/language"
	"verif.local/sim/core"
	"verif.local/sim/model"
)

// C01: concurrent read-side calls give the sequential answers.

type c01Handle struct {
	From   int    `json:"from"` // -1: the base value, else an earlier handle
	Domain string `json:"domain,omitempty"`
	Locale string `json:"locale,omitempty"`
}

type c01Op struct {
	K    string `json:"k"`
	H    int    `json:"h"` // handle or catalog
	C    call   `json:"c"`
	S    int    `json:"s"` // >0: arguments from this shared slice
	L    string `json:"l,omitempty"`
	D    string `json:"d,omitempty"`
	W    web    `json:"w"`
	Rule string `json:"rule,omitempty"`
}

type c01Sc struct {
	Base
	Doms    []domSpec   `json:"doms"`
	Private domSpec     `json:"private"`
	Loose   []catSpec   `json:"loose"` // catalogs used directly, some without header
	Locale  string      `json:"locale"`
	Domain  string      `json:"domain"`
	Handles []c01Handle `json:"handles"`
	Same    bool        `json:"same"` // the global value is the base value
	Shared  int         `json:"shared"`
	Tasks   [][]c01Op   `json:"tasks"`
}

var domNames = []string{"default", "app", "web", "plugin"}

func genC01(r *core.Rand) scenario {
	s := &c01Sc{}
	nd := r.Range(1, 2)
	for i := 0; i < nd; i++ {
		s.Doms = append(s.Doms, genDomain(r, domNames[i], r.Range(1, 3), 6))
	}
	s.Private = genDomain(r, "priv", 1, 3)
	for i := r.Range(1, 2); i > 0; i-- {
		c := genCatSpec(r, genLocale(r), fmt.Sprintf("loose%d", i), 5)
		if r.P(1, 2) {
			c.C.NoHeader = true
		}
		s.Loose = append(s.Loose, c)
	}
	langOf := func() string {
		d := core.Pick(r, s.Doms)
		if len(d.Cats) > 0 && r.P(3, 4) {
			return core.Pick(r, d.Cats).C.Lang
		}
		return genLocale(r)
	}
	s.Locale = langOf()
	s.Domain = core.Pick(r, s.Doms).Name
	for i := r.N(3); i > 0; i-- {
		s.Handles = append(s.Handles, c01Handle{From: r.Range(-1, len(s.Handles)-1), Domain: core.Pick(r, domNames), Locale: langOf()})
	}
	s.Same = r.P(3, 4)
	s.Shared = r.N(3)
	nt := r.Range(2, 4)
	// swarm: each run uses a random subset of the kinds
	kinds := []string{"call", "call", "call", "gcall", "file", "file"}
	for _, k := range []string{"header", "lang", "save", "locales", "used", "most", "userlang", "derive", "globalcopy", "ctx", "tag", "domains", "load", "eval", "sorted", "build", "header", "match"} {
		if r.P(1, 3) {
			kinds = append(kinds, k)
		}
	}
	hot := genCall(r)
	for i := 0; i < nt; i++ {
		var ops []c01Op
		for j := r.Range(1, 5); j > 0; j-- {
			o := c01Op{K: core.Pick(r, kinds), H: r.Range(0, 4), C: genCall(r), S: 0}
			if r.P(1, 3) {
				o.C = hot // contention on one message
			}
			if s.Shared > 0 && r.P(1, 2) {
				o.S = r.Range(1, s.Shared)
			}
			switch o.K {
			case "derive", "ctx":
				if r.P(2, 3) {
					o.L = langOf()
				}
				if r.P(1, 2) {
					o.D = core.Pick(r, domNames)
				}
			case "userlang":
				o.W = genWeb(r)
			case "tag", "match":
				o.L = genLocale(r)
			case "eval":
				if r.P(1, 5) {
					o.Rule = core.Pick(r, badRules)
				} else {
					o.Rule = genRule(r).rule
				}
			case "save":
				o.D = core.Pick(r, []string{"po", "mo", "pot"})
			case "header":
				o.L = core.Pick(r, []string{"Language", "Plural-Forms", "X-Tag", "Nothing", "Project-Id-Version"})
			}
			ops = append(ops, o)
		}
		s.Tasks = append(s.Tasks, ops)
	}
	return s
}

// sharedArgs are argument slices several goroutines pass at the same time.
func sharedArgs(i int) []any {
	full := []any{"<s" + fmt.Sprint(i) + ">", "<t>", "guard1", "guard2"}
	return full[:2]
}

// c01World is the scenario's real values and their models.
type c01World struct {
	s      *c01Sc
	hs     []*t.Translations
	ms     []*hmodel
	gm     *hmodel
	files  []*translator.File
	fcat   []*model.Catalog
	shared [][]any
	do     func(o c01Op, ti int) string
	expect func(o c01Op, ti int) (string, bool)
}

func (s *c01Sc) world() *c01World {
	base := t.NewTranslations()
	m := &hmodel{domain: s.Domain, locale: norm(s.Locale), source: "en_US", doms: map[string]map[string]*model.Catalog{}}
	for i := range s.Doms {
		d := &s.Doms[i]
		base.BindFS(d.Name, newFS(d.tree(), delivery{}).fsys())
		if l := d.byLang(); len(l) > 0 {
			m.doms[d.Name] = l
		}
	}
	base.SetDomain(s.Domain)
	base.SetLocale(s.Locale)
	if m.locale == "" {
		m.locale = "en_US"
	}
	hs := []*t.Translations{base}
	ms := []*hmodel{m}
	for _, h := range s.Handles {
		k := h.From + 1
		if k < 0 || k >= len(hs) {
			k = 0
		}
		x, xm := hs[k], ms[k].clone()
		if h.Domain != "" {
			x = x.D(h.Domain)
			xm.domain = h.Domain
		}
		if h.Locale != "" {
			x = x.L(h.Locale)
			xm.locale = norm(h.Locale)
		}
		hs = append(hs, x)
		ms = append(ms, xm)
	}
	gm := ms[0]
	if s.Same {
		t.SetGlobal(base)
	} else {
		t.SetGlobal(hs[len(hs)-1])
		gm = ms[len(ms)-1]
	}
	var files []*translator.File
	var fcat []*model.Catalog
	for i := range s.Loose {
		f, err := s.Loose[i].readFile()
		if err != nil {
			continue
		}
		files = append(files, f)
		fcat = append(fcat, s.Loose[i].C)
	}
	privFS := newFS(s.Private.tree(), delivery{})
	privM := &hmodel{domain: "priv", doms: map[string]map[string]*model.Catalog{"priv": s.Private.byLang()}}
	var privLang string
	if len(s.Private.Cats) > 0 {
		privLang = s.Private.Cats[0].cat().Lang
	}
	privM.locale = norm(privLang)
	var shared [][]any
	for i := 0; i < s.Shared && i < 8; i++ {
		shared = append(shared, sharedArgs(i))
	}
	argsOf := func(o c01Op, ti int) []any {
		if o.S > 0 && o.S <= len(shared) {
			// as many as the message has verbs, so nothing is missing
			n := len(o.C.msg().verbs)
			if n <= 2 && n > 0 {
				return shared[o.S-1][:n]
			}
		}
		return o.C.args(fmt.Sprintf("task%d", ti))
	}
	hsel := func(o c01Op) int { return o.H % len(hs) }
	fsel := func(o c01Op) int {
		if len(files) == 0 {
			return -1
		}
		return o.H % len(files)
	}
	do := func(o c01Op, ti int) string {
		switch o.K {
		case "call":
			return o.C.on(hs[hsel(o)], argsOf(o, ti))
		case "gcall":
			return o.C.global(argsOf(o, ti))
		case "locales":
			return strings.Join(hs[hsel(o)].Locales(), " ") + "|" + strings.Join(t.Locales(), " ")
		case "used":
			return hs[hsel(o)].UsedLocale() + "|" + t.UsedLocale()
		case "most":
			return hs[hsel(o)].MostMatchLocale() + "|" + t.MostMatchLocale()
		case "userlang":
			return o.W.ask()
		case "derive":
			x := hs[hsel(o)]
			if o.D != "" {
				x = x.D(o.D)
			}
			if o.L != "" {
				x = x.L(o.L)
			}
			return o.C.on(x, argsOf(o, ti)) + "|" + x.UsedLocale()
		case "globalcopy":
			return o.C.on(t.Global(), argsOf(o, ti))
		case "ctx":
			ctx := context.Background()
			if o.L != "" {
				ctx = t.SetCtxLocale(ctx, o.L)
			}
			if o.D != "" {
				ctx = t.SetCtxDomain(ctx, o.D)
			}
			return o.C.on(t.WithContext(ctx), argsOf(o, ti))
		case "tag":
			return t.Tag(o.L).String()
		case "match":
			_, i, _ := t.Match([]string{"en_US", "zh_CN", "fr_FR"}, []string{o.L})
			return fmt.Sprint(i)
		case "domains":
			x := hs[hsel(o)]
			return sorted(x.Domains()) + "|" + fmt.Sprint(x.HasDomain(o.D), x.HasDomain("default")) + x.Domain() + x.Locale() + x.SourceCodeLocale()
		case "load":
			x := t.NewTranslations()
			x.BindFS("priv", privFS.fsys())
			x.SetDomain("priv")
			x.SetLocale(privLang)
			return o.C.on(x, argsOf(o, ti))
		case "eval":
			v, err := plurals.Eval(context.Background(), o.Rule, o.C.N)
			if err != nil {
				return "error"
			}
			return fmt.Sprint(v)
		}
		if o.K == "build" {
			x := new(translator.File)
			x.AddEntry(&translator.Entry{MsgStr: "Language: fr\nPlural-Forms: nplurals=2; plural=n > 1;\n"})
			x.AddEntry(&translator.Entry{MsgID: "a", MsgID2: "as", IsPlural: true, MsgStrN: []string{"un", "des"}})
			return x.Lang() + x.XN64("", "a", "as", o.C.N)
		}
		k := fsel(o)
		if k < 0 {
			return ""
		}
		f := files[k]
		switch o.K {
		case "file":
			return o.C.tor(f, argsOf(o, ti))
		case "header":
			v, ok := f.GetHeader(o.L)
			return fmt.Sprint(v, ok)
		case "lang":
			return f.Lang()
		case "save":
			var b bytes.Buffer
			var err error
			switch o.D {
			case "po":
				err = f.SaveAsPo(&b)
			case "mo":
				err = f.SaveAsMo(&b)
			default:
				err = f.SaveAsPot(&b)
			}
			return fmt.Sprint(err) + b.String()
		case "sorted":
			n := 0
			for _, en := range f.SortedEntry() {
				n += len(en.Key())
			}
			return fmt.Sprint(n)
		}
		return ""
	}
	expect := func(o c01Op, ti int) (string, bool) {
		a := argsOf(o, ti)
		switch o.K {
		case "call":
			return o.C.expect(ms[hsel(o)].cat(), a), true
		case "gcall", "globalcopy":
			return o.C.expect(gm.cat(), a), true
		case "locales":
			return strings.Join(ms[hsel(o)].locales(), " ") + "|" + strings.Join(gm.locales(), " "), true
		case "used":
			return ms[hsel(o)].used() + "|" + gm.used(), true
		case "most":
			return ms[hsel(o)].most() + "|" + gm.most(), true
		case "userlang":
			return o.W.expect(gm.locales()), true
		case "derive":
			x := ms[hsel(o)].clone()
			if o.D != "" {
				x.domain = o.D
			}
			if o.L != "" {
				x.locale = norm(o.L)
			}
			return o.C.expect(x.cat(), a) + "|" + x.used(), true
		case "ctx":
			x := gm.clone()
			if o.D != "" {
				x.domain = o.D
			}
			if o.L != "" {
				x.locale = norm(o.L)
			}
			return o.C.expect(x.cat(), a), true
		case "tag":
			return language.Make(o.L).String(), true
		case "domains":
			x := ms[hsel(o)]
			_, h1 := x.doms[o.D]
			_, h2 := x.doms["default"]
			return sorted(x.domains()) + "|" + fmt.Sprint(h1, h2) + x.domain + x.locale + x.source, true
		case "load":
			return o.C.expect(privM.cat(), a), true
		case "eval":
			p, err := model.ParsePlural(o.Rule)
			if err != nil {
				return "error", true
			}
			v, err := p.Eval(o.C.N)
			return fmt.Sprint(v), err == nil
		case "file":
			if k := fsel(o); k >= 0 {
				return o.C.expect(fcat[k], a), true
			}
		case "lang":
			if k := fsel(o); k >= 0 {
				if fcat[k].NoHeader {
					return "", true
				}
				return fcat[k].Lang, true
			}
		case "build":
			w := "des"
			if o.C.N <= 1 {
				w = "un"
			}
			return "fr" + w, true
		}
		return "", false
	}
	return &c01World{s, hs, ms, gm, files, fcat, shared, do, expect}
}

func runC01(sc scenario, e *Env) {
	s := sc.(*c01Sc)
	w := s.world()
	defer t.SetGlobal(t.NewTranslations())
	do, expect, shared := w.do, w.expect, w.shared
	got := make([][]string, len(s.Tasks))
	for ti, ops := range s.Tasks {
		got[ti] = make([]string, len(ops))
		e.Go(func() {
			for j, o := range ops {
				got[ti][j] = do(o, ti)
			}
		})
	}
	res := e.Run()
	if e.Failed() {
		return
	}
	e.CheckPanics()
	e.trivial = res.NSwitch < 2
	for ti, ops := range s.Tasks {
		for j, o := range ops {
			e.Op()
			e.Logf("task %d %s: %q", ti, o.K, got[ti][j])
			want, ok := expect(o, ti)
			if ok && want != got[ti][j] {
				e.Fail("wrong answer of "+o.K, "", "goroutine %d, operation %d (%s): got %q, want %q", ti, j, o.K, got[ti][j], want)
			}
			// the same call alone, afterwards
			if alone := do(o, ti); alone != got[ti][j] && !e.Failed() {
				e.Fail("not the sequential answer of "+o.K, "", "goroutine %d, operation %d (%s): got %q, alone %q", ti, j, o.K, got[ti][j], alone)
			}
		}
	}
	for i, a := range shared {
		if fmt.Sprint(a[:4:4]) != fmt.Sprint(sharedArgs(i)[:4:4]) {
			e.Fail("arguments modified", "", "argument slice with spare capacity: %v", a[:4:4])
		}
	}
	if s.Shared > 0 {
		e.Probe("shared argument slices")
	}
	if res.NSwitch > 0 {
		e.Fault("preemption")
	}
}

var badRules = []string{"n >", "n === 1", "(n > 1", "m + 1", "n ? 1", "", "1 +* 2", "n > 1; n", "?:", "n && ", "$", "n = 1", "n..2", "for(;;)", "n == 1 ? 0 : n == 2 ? 1", "(", "n + + ", "n @ 2", "() ? 0 : 1"}

func init() {
	props["C01"] = &prop{gen: genC01, new: func() scenario { return &c01Sc{} }, run: runC01}
}
