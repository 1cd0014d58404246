package main

import (
	"fmt"
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
	"verif.local/sim/core"
	"verif.local/sim/model"
)

// C20: a translation put together by hand follows its model.

// torSpec is a translator a program adds: a catalog it read, or one of its own.
type torSpec struct {
	Cat *catSpec `json:"cat,omitempty"`
	Own string   `json:"own,omitempty"` // its language
	Tag string   `json:"tag"`
}

// ownTor is a program's own translator.
type ownTor struct{ lang, tag string }

func (o *ownTor) Lang() string { return o.lang }
func (o *ownTor) X(ctxt, id string, args ...any) string {
	return fmt.Sprint(o.tag, "/", ctxt, "/", id, "/", args)
}
func (o *ownTor) XN64(ctxt, id, id2 string, n int64, args ...any) string {
	return fmt.Sprint(o.tag, "/", ctxt, "/", id, "/", id2, "/", n, "/", args)
}

type c20Op struct {
	K   string   `json:"k"` // new add load file fs bound get none
	H   int      `json:"h"`
	T   int      `json:"t,omitempty"` // translator or tree
	Ts  []int    `json:"ts,omitempty"`
	It  item     `json:"it"`
	D   delivery `json:"d"`
	C   call     `json:"c"`
	All bool     `json:"all,omitempty"` // look at every value afterwards
}

type c20Sc struct {
	Base
	Tors  []torSpec  `json:"tors"`
	Trees []treeSpec `json:"trees"`
	Ops   []c20Op    `json:"ops"`
	Tasks [][]c20Op  `json:"tasks"`
}

func genC20(r *core.Rand) scenario {
	s := &c20Sc{}
	langs := genLocales(r, r.Range(1, 4)) // few, so that they replace each other
	lang := func() string {
		l := core.Pick(r, langs)
		if r.P(1, 2) {
			return l
		}
		for _, x := range locs { // another spelling
			if x.norm == norm(l) {
				return core.Pick(r, x.spells)
			}
		}
		return l
	}
	n := 0
	spec := func() *catSpec {
		n++
		c := genCatSpec(r, lang(), fmt.Sprintf("c%d", n), 4)
		if r.P(1, 300) {
			n := core.Pick(r, []int{70_000, 300_000, 1_100_000, 2_200_000})
			c.PO.Long, c.Bin.Gap = n+r.N(2), n
		}
		return &c
	}
	for i := r.Range(1, 5); i > 0; i-- {
		tor := torSpec{Tag: fmt.Sprintf("own%d", i)}
		if r.P(1, 2) {
			tor.Cat = spec()
		} else if !r.P(1, 6) {
			tor.Own = lang()
		}
		s.Tors = append(s.Tors, tor)
	}
	for i := r.Range(1, 2); i > 0; i-- {
		tr := genTree(r, fmt.Sprintf("t%d", i), r.Range(1, 3), 4, 1, 3)
		for j := range tr.Cats {
			if r.P(1, 2) {
				l := lang()
				clash := false
				for k := range tr.Cats {
					clash = clash || norm(tr.Cats[k].cat().Lang) == norm(l)
				}
				if !clash {
					tr.Cats[j].cat().Lang = l
				}
			}
		}
		s.Trees = append(s.Trees, tr)
	}
	op := func() c20Op {
		o := c20Op{K: core.Pick(r, []string{"new", "add", "add", "add", "load", "load", "file", "file", "fs", "fs", "bound", "get", "get", "none"}),
			H: r.N(4), T: r.N(8), C: genCall(r), All: r.P(1, 3)}
		switch o.K {
		case "new":
			for i := r.N(4); i > 0; i-- {
				o.Ts = append(o.Ts, r.N(8))
			}
		case "load", "file":
			o.It.Cat = spec()
			if r.P(1, 3) {
				o.It.Bad = core.Pick(r, contentBad)
			}
			if o.K == "file" {
				o.D = genDelivery(r)
				o.D.Lat = 0
				ext := o.It.Cat.ext()
				if r.P(1, 4) {
					o.It.Path = "sub/" + core.Pick(r, []string{"", "a.po", "b.mo", ".hid", "zh_CN", "x y", "é", core.Pick(r, oddNames)}) + ext
				}
				if r.P(1, 8) {
					o.It.Bad = "name"
					o.It.Path = "sub/x" + core.Pick(r, []string{ext + "~", ext + ".bak", ext[1:], ".txt", "", ".", ".pot", strings.ToUpper(ext)})
				}
				if r.P(1, 4) {
					o.It.F.Read = core.Pick(r, errKinds)
					o.It.F.At = r.N(len(o.It.Cat.bytes()) + 1)
				} else if r.P(1, 8) {
					o.It.F.Stat = core.Pick(r, errKinds)
				}
			}
		}
		return o
	}
	s.Ops = append(s.Ops, c20Op{K: "new", Ts: []int{r.N(8), r.N(8)}, C: genCall(r)})
	for i := r.Range(1, 12); i > 0; i-- {
		s.Ops = append(s.Ops, op())
	}
	if r.P(1, 60) { // far more languages than usual
		at := len(s.Tors)
		o := c20Op{K: "new", C: genCall(r), All: true}
		for i := r.Range(10, 150); i > 0; i-- {
			s.Tors = append(s.Tors, torSpec{Tag: fmt.Sprintf("many%d", i), Own: manyLocs[i%len(manyLocs)]})
			o.Ts = append(o.Ts, at+r.N(len(s.Tors)-at))
		}
		s.Ops = append(s.Ops, o)
		for i := r.Range(1, 6); i > 0; i-- {
			o := op()
			o.H, o.T = r.N(8), r.N(len(s.Tors))
			s.Ops = append(s.Ops, o)
		}
	}
	if r.P(1, 2) {
		for i := r.Range(2, 4); i > 0; i-- {
			var l []c20Op
			for j := r.Range(1, 5); j > 0; j-- {
				o := op()
				if r.P(1, 3) {
					o.K = "get"
				}
				l = append(l, o)
			}
			s.Tasks = append(s.Tasks, l)
		}
	}
	return s
}

// torHeld is what a translation holds for a language.
type torHeld struct {
	cat *model.Catalog
	own *ownTor
	ref translator.Translator // the very one, where the program knows it
}

func (h *torHeld) expect(c call) string {
	m, a := c.msg(), c.args("x")
	single := c.K == "T" || c.K == "X"
	if h != nil && h.own != nil {
		if single {
			return h.own.X(m.ctxt, m.id, a...)
		}
		return h.own.XN64(m.ctxt, m.id, m.id2, c.N, a...)
	}
	var k *model.Catalog
	if h != nil {
		k = h.cat
	}
	if single {
		return k.X(m.ctxt, m.id, a)
	}
	return k.XN(m.ctxt, m.id, m.id2, c.N, a)
}

type c20Tr struct {
	tr *t.Translation
	h  *t.Translations // it is bound there
	m  map[string]*torHeld
}

type c20World struct {
	s    *c20Sc
	trs  []*c20Tr
	refs []translator.Translator
	mods []*torHeld
	fss  []*simFS
	own  int // values before are only looked at
}

// langs are the languages a value is asked for.
func (x *c20Tr) langs() (l []string) {
	for _, k := range locs {
		l = append(l, k.norm)
	}
	if len(x.m) > len(locs)/2 {
		l = append(l, manyLocs...)
	}
	return
}

// view is what a program sees of a value.
func (x *c20Tr) view(c call) string {
	var sb strings.Builder
	for _, l := range x.langs() {
		tor, ok := x.tr.Get(l)
		fmt.Fprintf(&sb, "%s %v", l, ok)
		if ok {
			sb.WriteString(" " + norm(tor.Lang()) + " " + c.tor(tor, c.args("x")))
		}
		sb.WriteString(" " + c.tor(x.tr.GetOrNoop(l), c.args("x")))
		if x.h != nil {
			// through the value it is bound to
			y := x.h.L(l)
			sb.WriteString(" " + c.on(y, c.args("x")) + " " + y.UsedLocale())
		}
		sb.WriteString("; ")
	}
	return sb.String()
}

func (x *c20Tr) want(c call) string {
	var sb strings.Builder
	for _, l := range x.langs() {
		h := x.m[l]
		fmt.Fprintf(&sb, "%s %v", l, h != nil)
		if h != nil {
			sb.WriteString(" " + l + " " + h.expect(c))
		}
		sb.WriteString(" " + h.expect(c))
		if x.h != nil {
			used := l
			if h == nil {
				used = "en_US"
			}
			sb.WriteString(" " + h.bound(c) + " " + used)
		}
		sb.WriteString("; ")
	}
	return sb.String()
}

// bound is what the functions of a value answer, which fill in what a short
// form leaves out.
func (h *torHeld) bound(c call) string {
	if h == nil || h.own == nil {
		var k *model.Catalog
		if h != nil {
			k = h.cat
		}
		return c.expect(k, c.args("x"))
	}
	m, a := c.msg(), c.args("x")
	switch c.K {
	case "T":
		return h.own.X("", m.id, a...)
	case "X":
		return h.own.X(m.ctxt, m.id, a...)
	case "N", "N64":
		return h.own.XN64("", m.id, m.id2, c.N, a...)
	case "N1", "N1_64":
		return h.own.XN64("", m.id, "", c.N, a...)
	case "XN1", "XN1_64":
		return h.own.XN64(m.ctxt, m.id, "", c.N, a...)
	}
	return h.own.XN64(m.ctxt, m.id, m.id2, c.N, a...)
}

func (w *c20World) add(x *c20Tr) {
	if x.m == nil {
		x.m = map[string]*torHeld{}
	}
	w.trs = append(w.trs, x)
}

// do carries out one operation on both sides and compares; it returns what
// was observed and, if it is wrong, what was expected.
func (w *c20World) do(o c20Op) (class, got, want string) {
	var x *c20Tr
	changes := o.K == "add" || o.K == "load" || o.K == "file" || o.K == "fs"
	if o.K != "new" && o.K != "bound" && o.K != "none" {
		if changes {
			if len(w.trs) <= w.own {
				return "", "-", "-"
			}
			x = w.trs[w.own+pick(o.H, len(w.trs)-w.own)]
		} else if len(w.trs) == 0 {
			return "", "-", "-"
		} else {
			x = w.trs[pick(o.H, len(w.trs))]
		}
	}
	tor := func(i int) (translator.Translator, *torHeld) {
		if len(w.refs) == 0 {
			return nil, nil
		}
		i = pick(i, len(w.refs))
		return w.refs[i], w.mods[i]
	}
	put := func(x *c20Tr, h *torHeld, lang string) {
		if lang != "" {
			x.m[norm(lang)] = h
		}
	}
	langOf := func(h *torHeld) string {
		if h.own != nil {
			return h.own.lang
		}
		return h.cat.Lang
	}
	switch o.K {
	case "new":
		x = &c20Tr{m: map[string]*torHeld{}}
		var l []translator.Translator
		for _, i := range o.Ts {
			if r, h := tor(i); r != nil {
				l = append(l, r)
				put(x, h, langOf(h))
			}
		}
		x.tr = t.NewTranslation("d", l...)
		w.add(x)
	case "bound":
		if len(w.s.Trees) == 0 {
			return "", "-", "-"
		}
		spec := &w.s.Trees[pick(o.T, len(w.s.Trees))]
		f := spec.build()
		w.fss = append(w.fss, f)
		h := t.NewTranslations()
		h.SetDomain("app")
		h.BindFS("app", f.fsys())
		tr, ok := h.Get("app")
		m := spec.byLang()
		if ok != (len(m) > 0) {
			return "domain found", fmt.Sprint(ok), fmt.Sprint(len(m) > 0)
		}
		if !ok {
			// what stands in for it answers with the source text
			none := &c20Tr{tr: h.GetOrNoop("app")}
			return "view of an unbound domain", none.view(o.C), none.want(o.C)
		}
		x = &c20Tr{tr: tr, h: h}
		w.add(x)
		for l, c := range m {
			x.m[l] = &torHeld{cat: c}
		}
	case "none": // what is done to the stand-in for an unknown domain stays there
		r, h := tor(o.T)
		if r == nil {
			return "", "-", "-"
		}
		ts := t.NewTranslations()
		ts.SetDomain("nowhere")
		ts.GetOrNoop("nowhere").AddOrReplace(r)
		if l := langOf(h); l != "" {
			ts.SetLocale(l)
		}
		none := &c20Tr{tr: t.NewTranslations().GetOrNoop("nowhere")}
		a := o.C.args("x")
		return "view of an unbound domain", none.view(o.C) + o.C.on(ts, a), none.want(o.C) + o.C.expect(nil, a)
	case "add":
		r, h := tor(o.T)
		if r == nil {
			return "", "-", "-"
		}
		var old *torHeld
		if l := langOf(h); l != "" {
			old = x.m[norm(l)]
		}
		prev := x.tr.AddOrReplace(r)
		put(x, h, langOf(h))
		if (prev != nil) != (old != nil) {
			return "replaced translator", fmt.Sprint(prev), fmt.Sprint(old != nil)
		}
		if prev != nil {
			if old.ref != nil && prev != old.ref {
				return "replaced translator", "another one", "the one added before"
			}
			if g, e := o.C.tor(prev, o.C.args("x")), old.expect(o.C); g != e {
				return "replaced translator", g, e
			}
		}
	case "load", "file":
		it := &o.It
		if it.Cat == nil {
			return "", "-", "-"
		}
		good := it.Bad == "" && it.Cat.cat().Lang != "" && !it.Cat.cat().NoHeader
		var err error
		data := it.data()
		either := false
		switch {
		case o.K == "file":
			root := &simNode{name: ".", dir: true}
			name := it.Path
			if name == "" {
				name = "sub/x" + it.Cat.ext()
			}
			root.file(name, data, it.F)
			f := newFS(root, o.D)
			w.fss = append(w.fss, f)
			file, oerr := f.fsys().Open(name)
			if oerr != nil {
				return "", "-", "-"
			}
			err = x.tr.LoadFile(file)
			file.Close()
			if it.F.Read != "" {
				good, either = good && it.F.At > len(data), it.F.At > len(data)
			}
			if it.F.Stat != "" {
				either = true // an implementation may do without
			}
		case it.Cat.MO:
			err = x.tr.LoadMo(data)
		default:
			err = x.tr.LoadPo(data)
		}
		for i := range data {
			data[i] = '!' // the caller may use the memory again
		}
		if either && good {
			good = err == nil
		}
		if good != (err == nil) {
			return "result of " + o.K, fmt.Sprint(err), fmt.Sprint("success ", good)
		}
		if good {
			put(x, &torHeld{cat: it.Cat.C}, it.Cat.cat().Lang)
		}
	case "fs":
		if len(w.s.Trees) == 0 {
			return "", "-", "-"
		}
		spec := &w.s.Trees[pick(o.T, len(w.s.Trees))]
		f := spec.build()
		w.fss = append(w.fss, f)
		ok := x.tr.LoadFS(f.fsys())
		m := spec.byLang()
		if ok != (len(m) > 0) {
			return "result of fs", fmt.Sprint(ok), fmt.Sprint(len(m) > 0)
		}
		for l, c := range m {
			x.m[l] = &torHeld{cat: c}
		}
	}
	return "view after " + o.K, x.view(o.C), x.want(o.C)
}

func (o c20Op) String() string {
	return strings.TrimSpace(fmt.Sprintf("%s value %d, %d %v %s %+v", o.K, o.H, o.T, o.Ts, o.It.Bad, o.It.F))
}

func runC20(sc scenario, e *Env) {
	s := sc.(*c20Sc)
	setEnv(envDefault)
	t.SetGlobal(t.NewTranslations())
	w := &c20World{s: s}
	for i := range s.Tors {
		ts := &s.Tors[i]
		if ts.Cat == nil {
			o := &ownTor{ts.Own, ts.Tag}
			w.refs = append(w.refs, o)
			w.mods = append(w.mods, &torHeld{own: o, ref: o})
			continue
		}
		f, err := ts.Cat.readFile()
		if err != nil {
			continue
		}
		w.refs = append(w.refs, f)
		w.mods = append(w.mods, &torHeld{cat: ts.Cat.C, ref: f})
	}
	for i, o := range s.Ops {
		e.Op()
		class, got, want := w.do(o)
		e.Logf("%d %s: %s", i, o, got)
		if got != want {
			e.Fail(class, "", "operation %d (%s): got %s, want %s", i, o, got, want)
			return
		}
		e.Probe("op " + o.K)
		if o.All || i == len(s.Ops)-1 {
			for j, x := range w.trs {
				if got, want := x.view(o.C), x.want(o.C); got != want {
					e.Fail("another value after "+o.K, "", "after operation %d (%s), value %d: got %s, want %s", i, o, j, got, want)
					return
				}
			}
		}
	}
	for _, f := range w.fss {
		f.fold(e)
	}
	e.trivial = len(s.Ops) < 3
	if len(s.Tasks) == 0 {
		return
	}
	type seen struct{ class, got, want string }
	res := make([][]seen, len(s.Tasks))
	ws := make([]*c20World, len(s.Tasks))
	for ti, ops := range s.Tasks {
		res[ti] = make([]seen, len(ops))
		x := &c20World{s: s, trs: append([]*c20Tr(nil), w.trs...), refs: w.refs, mods: w.mods, own: len(w.trs)}
		ws[ti] = x
		e.Go(func() {
			for j, o := range ops {
				c, g, wa := x.do(o)
				res[ti][j] = seen{c, g, wa}
			}
		})
	}
	r := e.Run()
	if e.Failed() {
		return
	}
	e.CheckPanics()
	if r.NSwitch > 0 {
		e.Fault("preemption")
	}
	for ti, l := range res {
		for j, x := range l {
			e.Op()
			e.Logf("goroutine %d, %d: %s", ti, j, x.got)
			if x.got != x.want {
				e.Fail("concurrent: "+x.class, "", "goroutine %d, operation %d (%s): got %s, want %s", ti, j, s.Tasks[ti][j], x.got, x.want)
				return
			}
		}
		for _, f := range ws[ti].fss {
			f.fold(e)
		}
	}
}

func init() {
	props["C20"] = &prop{gen: genC20, new: func() scenario { return &c20Sc{} }, run: runC20, whole: func(sc scenario) bool { return len(sc.(*c20Sc).Tasks) == 0 }}
}
