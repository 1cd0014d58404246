package main

import (
	"context"
	"fmt"
	"io/fs"
	"os"
	"path"
	"strings"

	"github.com/youthlin/t"
	"golang.org/x/text/language"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/simkernel"
)

// Histories of operations on translations values, executed on the real ones
// and on the model.

// treeSpec is a catalog tree some of whose files are bad.
type treeSpec struct {
	Cats []catSpec `json:"cats"`
	Bad  []string  `json:"bad"` // per catalog: what is wrong with it
	D    delivery  `json:"d"`
}

var badKinds = []string{"open", "read", "garbage", "nolang", "list", "gone"}

func genTree(r *core.Rand, tag string, langs, max int, badNum, badDen int) treeSpec {
	var s treeSpec
	for i, l := range genLocales(r, langs) {
		n := 1
		if r.P(1, 5) {
			n = 2 // the same language as text and as binary
		}
		for k := 0; k < n; k++ {
			c := genCatSpec(r, l, fmt.Sprintf("%s%c%d", tag, 'a'+i, k), max)
			if n == 2 {
				c.MO = k == 0
			}
			if r.P(1, 4) {
				c.Name = "sub/" + c.Name
			}
			s.Cats = append(s.Cats, c)
			bad := ""
			if r.P(badNum, badDen) {
				bad = core.Pick(r, badKinds)
			}
			s.Bad = append(s.Bad, bad)
		}
	}
	if r.P(1, 3) {
		s.D = genDelivery(r)
		s.D.Lat = 0
	}
	return s
}

func (s *treeSpec) bad(i int) string {
	if i < len(s.Bad) {
		return s.Bad[i]
	}
	return ""
}

// files lists the files of the tree and the faults of each; f.List is one of
// the directory the file is in.
func (s *treeSpec) files(each func(name string, data []byte, f faults)) {
	for i := range s.Cats {
		c := s.Cats[i]
		name := c.Name
		if name == "" {
			name = fmt.Sprintf("f%d", i)
		}
		data := c.bytes()
		var f faults
		switch s.bad(i) {
		case "open":
			f.Open = errKinds[i%len(errKinds)]
		case "read":
			f.Read, f.At = "eio", len(data)*(i%4)/4
		case "garbage":
			if c.MO {
				data = append([]byte("\xde\x12\x04\x96"), data[4:]...)
			} else {
				data = append(data, "\nmsgid \"unfinished\n"...)
			}
		case "nolang":
			k := *c.cat()
			k.Lang = ""
			c.C = &k
			data = c.bytes()
		case "list":
			name = fmt.Sprintf("locked%d/%s", i, strings.ReplaceAll(name, "/", "_"))
			f.List = "perm"
		case "gone":
			f.Open = "noent"
		}
		each(name+c.ext(), data, f)
	}
}

func (s *treeSpec) build() *simFS {
	f := newFS(&simNode{name: ".", dir: true}, s.D)
	s.files(func(name string, data []byte, x faults) {
		l := x.List
		x.List = ""
		f.root.file(name, data, x)
		if l != "" {
			f.find(path.Dir(name)).f.List = l
		}
	})
	return f
}

func (s *treeSpec) kernel(at string) *simkernel.Kernel {
	k := simkernel.New()
	k.Put(at, nil)
	s.files(func(name string, data []byte, x faults) {
		name = path.Join(at, name)
		k.Put(name, data)
		switch {
		case x.Open != "":
			k.Faults = append(k.Faults, simkernel.Fault{Path: name, Op: "open", Err: "eacces"})
		case x.Read != "":
			k.Faults = append(k.Faults, simkernel.Fault{Path: name, Op: "read", Err: "eio", Skip: x.At})
		case x.List != "":
			k.Faults = append(k.Faults, simkernel.Fault{Path: path.Dir(name), Op: "list", Err: "eacces"})
		}
	})
	return k
}

// byLang is what a load of the tree takes.
func (s *treeSpec) byLang() map[string]*model.Catalog {
	m := map[string]*model.Catalog{}
	for _, mo := range []bool{true, false} {
		for i := range s.Cats {
			c := &s.Cats[i]
			if c.MO == mo && s.bad(i) == "" && c.cat().Lang != "" && !c.cat().NoHeader {
				m[norm(c.cat().Lang)] = c.C
			}
		}
	}
	return m
}

type hOp struct {
	K string `json:"k"`
	H int    `json:"h"`           // handle; -1 the global one by package functions
	S string `json:"s,omitempty"` // locale
	D string `json:"d,omitempty"` // domain
	T int    `json:"t,omitempty"` // tree
	C call   `json:"c"`
	W web    `json:"w"`
	Q int    `json:"q"`           // what is looked at afterwards
	E bool   `json:"e,omitempty"` // a context chooses the empty locale
	P int    `json:"p,omitempty"` // odd: an earlier file system whose content has changed; even: a path
}

// hs is the real side.
type realWorld struct {
	hs    []*t.Translations
	trees []treeSpec
	e     *Env
	fold  bool
	fss   []*simFS
	live  map[int]*simFS
	again int // loads from a file system with another content than before
}

// folded adds what the file systems met to the measures of the run.
func (w *realWorld) folded(e *Env) {
	for _, f := range w.fss {
		f.fold(e)
	}
	for ; w.again > 0; w.again-- {
		e.Probe("file system with another content than before")
	}
}

// source is the file system a load reads, and what ends the load.
func (w *realWorld) source(o hOp) (fs.FS, func()) {
	tree := &w.trees[pick(o.T, len(w.trees))]
	switch {
	case o.P == 0:
		f := tree.build()
		w.fss = append(w.fss, f)
		return f.fsys(), func() {}
	case o.P%2 == 1:
		f := tree.build()
		if x := w.live[o.P]; x != nil {
			x.root = f.root // the same file system, with another content
			w.again++
			return x.fsys(), func() {}
		}
		if w.live == nil {
			w.live = map[int]*simFS{}
		}
		w.live[o.P] = f
		w.fss = append(w.fss, f)
		return f.fsys(), func() {}
	}
	k := tree.kernel(pathOf(o))
	k.D = simkernel.GenDelivery(core.NewRand(uint64(o.P)))
	k.Start()
	return os.DirFS(pathOf(o)), func() {
		k.Stop()
		w.e.Probe("load by path")
		for _, n := range k.FiredNames() {
			w.e.FaultN("kernel: "+n, int(k.Fired[n]))
		}
	}
}

func pathOf(o hOp) string { return fmt.Sprint("/vsim/work/cat", o.P) }

// md is the model side.
type modelWorld struct {
	hs    []*hmodel
	g     *hmodel
	trees []treeSpec
	def   string // the system's default locale
}

func newHModel(def string) *hmodel {
	return &hmodel{domain: "default", locale: def, source: "en_US", doms: map[string]map[string]*model.Catalog{}}
}

func pick(h, n int) int {
	if n == 0 {
		return -1
	}
	if h < 0 {
		h = -h
	}
	return h % n
}

// What an operation looks at afterwards. Histories that look at everything
// after every operation would never see an answer kept for too long.
const (
	qDomain = 1 << iota
	qLocale
	qSource
	qDomains
	qHas
	qLocales
	qUsed
	qMost
	qCall
	qOthers
	qAll = 1<<iota - 1
)

// reuse makes some of the loads of a history read places read before, which
// have changed in between.
func (s *histSc) reuse(r *core.Rand) {
	if r.P(1, 2) {
		return
	}
	n := r.Range(1, 4)
	mark := func(o *hOp, max int) {
		if (o.K == "bind" || o.K == "load") && r.P(3, 4) {
			o.P = r.Range(1, max)
		}
	}
	for i := range s.Ops {
		mark(&s.Ops[i], n)
	}
	for i := range s.Tasks {
		for j := range s.Tasks[i] {
			mark(&s.Tasks[i][j], 1)
		}
	}
}

// genWatch draws how closely a history is watched.
func genWatch(r *core.Rand) func() int {
	switch r.N(4) {
	case 0, 1:
		return func() int { return qAll }
	case 2:
		m := int(r.U64()) & qAll // the same few questions throughout
		return func() int {
			if r.P(1, 3) {
				return 0
			}
			return m
		}
	}
	return func() int {
		if r.P(1, 2) {
			return 0
		}
		return int(r.U64()) & int(r.U64()) & qAll
	}
}

func (w *realWorld) state(h *t.Translations, o hOp) string {
	var l []string
	ask := func(q int, own func() string, global func() string) {
		if o.Q&q == 0 {
			return
		}
		if h == nil {
			l = append(l, global())
		} else {
			l = append(l, own())
		}
	}
	ask(qDomain, func() string { return h.Domain() }, t.Domain)
	ask(qLocale, func() string { return h.Locale() }, t.Locale)
	ask(qSource, func() string { return h.SourceCodeLocale() }, t.SourceCodeLocale)
	ask(qDomains, func() string { return sorted(h.Domains()) }, func() string { return sorted(t.Domains()) })
	ask(qHas, func() string { return fmt.Sprint(h.HasDomain("app"), h.HasDomain(o.D)) }, func() string { return fmt.Sprint(t.HasDomain("app"), t.HasDomain(o.D)) })
	ask(qLocales, func() string { return strings.Join(h.Locales(), " ") }, func() string { return strings.Join(t.Locales(), " ") })
	ask(qUsed, func() string { return h.UsedLocale() }, t.UsedLocale)
	ask(qMost, func() string { return h.MostMatchLocale() }, t.MostMatchLocale)
	ask(qCall, func() string { return o.C.on(h, o.C.args("x")) }, func() string { return o.C.global(o.C.args("x")) })
	return strings.Join(l, "|")
}

func (w *modelWorld) state(h *hmodel, o hOp) string {
	var l []string
	ask := func(q int, f func() string) {
		if o.Q&q != 0 {
			l = append(l, f())
		}
	}
	ask(qDomain, func() string { return h.domain })
	ask(qLocale, func() string { return h.locale })
	ask(qSource, func() string { return h.source })
	ask(qDomains, func() string { return sorted(h.domains()) })
	ask(qHas, func() string { return fmt.Sprint(h.doms["app"] != nil, h.doms[o.D] != nil) })
	ask(qLocales, func() string { return strings.Join(h.locales(), " ") })
	ask(qUsed, func() string { return h.used() })
	ask(qMost, func() string { return h.most() })
	ask(qCall, func() string { return o.C.expect(h.cat(), o.C.args("x")) })
	return strings.Join(l, "|")
}

var histDomains = []string{"default", "app", "web", "plugin"}

// asked are the domains of operations: near misses too.
var askedDomains = []string{"default", "app", "web", "plugin", "default", "app", "web", "plugin", "App", "we", "app ", " web", "plugin/", "./app"}

// deep asks a handle for every domain in a few locales.
func (w *realWorld) deep(h *t.Translations, o hOp) string {
	var sb strings.Builder
	for _, d := range histDomains {
		for i := 0; i < 3; i++ {
			l := locs[(o.T*3+i)%len(locs)].norm
			var x *t.Translations
			if h == nil {
				x = t.D(d)
			} else {
				x = h.D(d)
			}
			x = x.L(l)
			sb.WriteString(o.C.on(x, o.C.args("x")) + "," + x.UsedLocale() + ";")
		}
	}
	return sb.String()
}

func (w *modelWorld) deep(h *hmodel, o hOp) string {
	var sb strings.Builder
	for _, d := range histDomains {
		for i := 0; i < 3; i++ {
			l := locs[(o.T*3+i)%len(locs)].norm
			x := h.clone()
			x.domain, x.locale = d, l
			sb.WriteString(o.C.expect(x.cat(), o.C.args("x")) + "," + x.used() + ";")
		}
	}
	return sb.String()
}

// envOf names the environment settings of an "env" operation: which variable
// decides is what the operation varies.
func envOf(o hOp) (set [][2]string, def string) {
	l := core.Mix(uint64(o.T))
	a := locs[l%uint64(len(locs))]
	b := locs[(l>>8)%uint64(len(locs))]
	switch o.T % 5 {
	case 0:
		return [][2]string{{"LANG", a.norm + ".UTF-8"}}, a.norm
	case 1:
		return [][2]string{{"LANG", a.norm + ".UTF-8"}, {"LC_MESSAGES", b.norm}}, b.norm
	case 2:
		return [][2]string{{"LANG", a.norm}, {"LC_ALL", b.norm + ".UTF-8"}}, b.norm
	case 3:
		return [][2]string{{"LANG", a.norm}, {"LANGUAGE", b.norm + ":" + a.norm}}, b.norm
	}
	return [][2]string{{"LANG", "en_US.UTF-8"}}, "en_US"
}

func setEnv(set [][2]string) {
	for _, k := range []string{"LANG", "LC_ALL", "LC_MESSAGES", "LANGUAGE"} {
		os.Unsetenv(k)
	}
	for _, kv := range set {
		os.Setenv(kv[0], kv[1])
	}
}

var envDefault = [][2]string{{"LANG", "en_US.UTF-8"}}

func ctxOf(o hOp) context.Context {
	ctx := context.Background()
	if o.S != "" {
		ctx = t.SetCtxLocale(ctx, o.S)
	} else if o.E {
		ctx = t.SetCtxLocale(ctx, "")
	}
	if o.D != "" {
		ctx = t.SetCtxDomain(ctx, o.D)
	}
	return ctx
}

func (w *realWorld) do(o hOp) string {
	var h *t.Translations
	if o.H >= 0 {
		if len(w.hs) == 0 {
			return "-"
		}
		h = w.hs[pick(o.H, len(w.hs))]
	}
	add := func(x *t.Translations) string {
		w.hs = append(w.hs, x)
		return w.state(x, o)
	}
	switch o.K {
	case "D":
		if h == nil {
			return add(t.D(o.D))
		}
		return add(h.D(o.D))
	case "L":
		if h == nil {
			return add(t.L(o.S))
		}
		return add(h.L(o.S))
	case "G":
		return add(t.Global())
	case "C":
		return add(t.WithContext(ctxOf(o)))
	case "N":
		return add(t.NewTranslations())
	case "sg":
		if h != nil {
			t.SetGlobal(h)
		}
	case "sd":
		if h == nil {
			t.SetDomain(o.D)
		} else {
			h.SetDomain(o.D)
		}
	case "sl":
		if h == nil {
			t.SetLocale(o.S)
		} else {
			h.SetLocale(o.S)
		}
	case "ss":
		s := o.S
		if s == "" {
			s = "en"
		}
		if h == nil {
			t.SetSourceCodeLocale(s)
		} else {
			h.SetSourceCodeLocale(s)
		}
	case "bind", "load":
		if len(w.trees) == 0 {
			return "-"
		}
		f, end := w.source(o)
		byPath := o.P > 0 && o.P%2 == 0
		switch {
		case h != nil:
			h.BindFS(o.D, f)
		case o.K == "load" && byPath:
			t.Load(pathOf(o))
		case o.K == "load":
			t.LoadFS(f)
		case byPath:
			t.Bind(o.D, pathOf(o))
		default:
			t.BindFS(o.D, f)
		}
		end()
	case "rm":
		if h == nil {
			return fmt.Sprint(t.RemoveDomain(o.D)) + w.state(h, o)
		}
		return fmt.Sprint(h.RemoveDomain(o.D)) + w.state(h, o)
	case "clear":
		if h == nil {
			t.ClearDomains()
		} else {
			h.ClearDomains()
		}
	case "env":
		set, _ := envOf(o)
		setEnv(set)
	case "web":
		return o.W.ask()
	case "match":
		_, i, _ := t.Match(supportedOf(o), []string{o.S})
		return fmt.Sprint(i)
	case "tag":
		return t.Tag(o.S).String()
	case "deep":
		return w.deep(h, o)
	case "many":
		w.e.Probe("very many domains")
		for i := 0; i < o.T && len(w.trees) > 0; i++ {
			f := w.trees[i%len(w.trees)].build()
			if h == nil {
				t.BindFS(manyDomain(o, i), f.fsys())
			} else {
				h.BindFS(manyDomain(o, i), f.fsys())
			}
		}
		for i := 3; i < o.T; i += 7 {
			if h == nil {
				t.RemoveDomain(manyDomain(o, i))
			} else {
				h.RemoveDomain(manyDomain(o, i))
			}
		}
		var l []string
		for i := 0; i < o.T; i++ {
			x := t.D(manyDomain(o, i))
			if h != nil {
				x = h.D(manyDomain(o, i))
			}
			l = append(l, fmt.Sprint(x.HasDomain(manyDomain(o, i)), o.C.on(x.L(o.S), o.C.args("x"))))
		}
		return strings.Join(l, ",") + w.state(h, o)
	case "chain":
		w.e.Probe("very long chain of handles")
		x := h
		if x == nil {
			x = t.Global()
		}
		for i := 0; i < o.T; i++ {
			if x = x.L(locs[i%len(locs)].norm); i%3 == 0 {
				x = x.D(manyDomain(o, i))
			}
		}
		if o.D != "" {
			x = x.D(o.D)
		}
		if o.S != "" {
			x = x.L(o.S)
		}
		return add(x)
	case "burst":
		w.e.Probe("very many messages")
		var l []string
		for i := 0; i < o.T; i++ {
			l = append(l, burst(o, i, func(c call) string {
				if h == nil {
					return c.global(c.args("x"))
				}
				return c.on(h, c.args("x"))
			}, func(s string) string {
				if h == nil {
					return t.T(s)
				}
				return h.T(s)
			}))
		}
		return strings.Join(l, ",") + w.state(h, o)
	}
	return w.state(h, o)
}

// manyDomain names domains that have much in common.
func manyDomain(o hOp, i int) string {
	switch o.T % 4 {
	case 0:
		return strings.Repeat("domain/", 10) + fmt.Sprint(i)
	case 1:
		return fmt.Sprint(i, ".mo")
	}
	return fmt.Sprintf("m%x", i)
}

// burst is the i-th question of very many: a message nobody has, or one that
// may be there, under another count.
func burst(o hOp, i int, known func(c call) string, unknown func(s string) string) string {
	if i%3 == 1 {
		return unknown(fmt.Sprintf("message %d nobody has", i))
	}
	c := o.C
	if i%3 == 2 {
		c.M += i
	}
	c.N = int64(i * 5 % (o.T + 1))
	return known(c)
}

// grow adds an operation of a size far beyond the usual to a few histories.
func (s *histSc) grow(r *core.Rand) {
	if !r.P(1, 60) {
		return
	}
	o := hOp{K: core.Pick(r, []string{"many", "chain", "burst"}), H: r.Range(-1, 3), T: r.Range(20, 300), S: s.lang(r), D: core.Pick(r, askedDomains), C: genCall(r), Q: qAll}
	switch o.K {
	case "many":
		o.T = r.Range(17, 140)
	case "burst":
		o.T *= r.Range(1, 7)
	}
	at := r.Range(2, len(s.Ops))
	s.Ops = append(s.Ops[:at:at], append([]hOp{o}, s.Ops[at:]...)...)
}

func supportedOf(o hOp) (l []string) {
	for i := 0; i < 3; i++ {
		l = append(l, locs[(o.T+5*i)%len(locs)].norm)
	}
	return
}

func (w *modelWorld) do(o hOp) string {
	h := w.g
	if o.H >= 0 {
		if len(w.hs) == 0 {
			return "-"
		}
		h = w.hs[pick(o.H, len(w.hs))]
	}
	loc := func(s string) string {
		if s == "" {
			return w.def
		}
		return norm(s)
	}
	add := func(x *hmodel) string {
		w.hs = append(w.hs, x)
		return w.state(x, o)
	}
	switch o.K {
	case "D":
		x := h.clone()
		x.domain = o.D
		return add(x)
	case "L":
		x := h.clone()
		x.locale = loc(o.S)
		return add(x)
	case "G":
		return add(w.g.clone())
	case "C":
		x := w.g.clone()
		if o.S != "" {
			x.locale = norm(o.S)
		} else if o.E {
			x.locale = w.def
		}
		if o.D != "" {
			x.domain = o.D
		}
		return add(x)
	case "N":
		return add(newHModel(w.def))
	case "sg":
		w.g = h
	case "sd":
		h.domain = o.D
	case "sl":
		h.locale = loc(o.S)
	case "ss":
		s := o.S
		if s == "" {
			s = "en"
		}
		h.source = norm(s)
	case "bind", "load":
		if len(w.trees) == 0 {
			return "-"
		}
		d := o.D
		if o.K == "load" && o.H < 0 {
			d = h.domain
		}
		if l := w.trees[pick(o.T, len(w.trees))].byLang(); len(l) > 0 {
			h.doms[d] = l
		}
	case "rm":
		_, ok := h.doms[o.D]
		ok = ok && o.D != ""
		if ok {
			delete(h.doms, o.D)
			if h.domain == o.D {
				h.domain = "default"
			}
		}
		return fmt.Sprint(ok) + w.state(h, o)
	case "clear":
		h.doms = map[string]map[string]*model.Catalog{}
		h.domain = "default"
	case "env":
		_, w.def = envOf(o)
	case "web":
		return o.W.expect(w.g.locales())
	case "match":
		s := supportedOf(o)
		_, i, _ := language.NewMatcher(tagsOf(s)).Match(language.Make(o.S))
		return fmt.Sprint(i)
	case "tag":
		return language.Make(o.S).String()
	case "deep":
		return w.deep(h, o)
	case "many":
		for i := 0; i < o.T && len(w.trees) > 0; i++ {
			if l := w.trees[i%len(w.trees)].byLang(); len(l) > 0 {
				h.doms[manyDomain(o, i)] = l
			}
		}
		for i := 3; i < o.T; i += 7 {
			d := manyDomain(o, i)
			if h.doms[d] != nil {
				delete(h.doms, d)
				if h.domain == d {
					h.domain = "default"
				}
			}
		}
		var l []string
		for i := 0; i < o.T; i++ {
			x := h.clone()
			x.domain, x.locale = manyDomain(o, i), loc(o.S)
			l = append(l, fmt.Sprint(h.doms[x.domain] != nil, o.C.expect(x.cat(), o.C.args("x"))))
		}
		return strings.Join(l, ",") + w.state(h, o)
	case "chain":
		x := h.clone()
		for i := 0; i < o.T; i++ {
			if x.locale = locs[i%len(locs)].norm; i%3 == 0 {
				x.domain = manyDomain(o, i)
			}
		}
		if o.D != "" {
			x.domain = o.D
		}
		if o.S != "" {
			x.locale = loc(o.S)
		}
		return add(x)
	case "burst":
		var l []string
		for i := 0; i < o.T; i++ {
			l = append(l, burst(o, i, func(c call) string { return c.expect(h.cat(), c.args("x")) }, func(s string) string { return s }))
		}
		return strings.Join(l, ",") + w.state(h, o)
	}
	return w.state(h, o)
}

func (o hOp) String() string {
	return strings.TrimSpace(fmt.Sprintf("%s handle %d %s %s tree %d", o.K, o.H, o.S, o.D, o.T))
}
