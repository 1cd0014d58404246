package main

import (
	"bytes"
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/youthlin/t"
	"verif.local/sim/core"
	"verif.local/sim/model"
)

// C16: user code called by the library may block, fail or call back.

// uBeh is what user code does when the library calls it.
type uBeh struct {
	K  string `json:"k"` // "", block, sleep, panic, panic2, exit, call
	Op c01Op  `json:"op"`
}

// c16Op is an operation that calls user code, or a plain one.
type c16Op struct {
	K    string `json:"k"` // plain fmt tor bind save ctx watch self
	Op   c01Op  `json:"op"`
	Pos  int    `json:"pos,omitempty"`  // fmt: which argument
	Type int    `json:"type,omitempty"` // fmt: what kind of value
	Skip int    `json:"skip,omitempty"` // calls of user code before the first behaviour
	B    []uBeh `json:"b,omitempty"`
	// how often it is repeated
	Times int `json:"times,omitempty"`
}

func (o *c16Op) has(k string) bool {
	for _, b := range o.B {
		if b.K == k {
			return true
		}
	}
	return false
}

func (o *c16Op) blocks() bool { return o.has("block") }

type c16Sc struct {
	Base
	W     c01Sc     `json:"w"`
	Old   domSpec   `json:"old"` // what each goroutine's own value holds at first
	New   domSpec   `json:"new"`
	Mid   domSpec   `json:"mid"`
	Lang  string    `json:"lang"`
	Tasks [][]c16Op `json:"tasks"`
	After []c01Op   `json:"after"`
}

var c16Reent = []string{"call", "gcall", "derive", "globalcopy", "ctx", "tag", "match", "load", "eval", "file", "header", "save", "locales", "used", "most", "domains", "selfbind", "selfcall", "userlang", "build"}

func genC16(r *core.Rand) scenario {
	s := &c16Sc{W: *genC01(r).(*c01Sc)}
	s.W.Tasks = nil
	s.Lang = genLocale(r)
	gen := func(name string) domSpec {
		d := domSpec{Name: "pv"}
		for i := r.Range(1, 2); i > 0; i-- {
			l := s.Lang
			for i > 1 && norm(l) == norm(s.Lang) {
				l = genLocale(r)
			}
			d.Cats = append(d.Cats, genCatSpec(r, l, fmt.Sprintf("%s%d", name, i), 6))
		}
		return d
	}
	s.Old, s.New, s.Mid = gen("old"), gen("new"), gen("mid")
	op := func(kinds []string) c01Op {
		o := c01Op{K: core.Pick(r, kinds), H: r.N(4), C: genCall(r)}
		switch o.K {
		case "derive", "ctx":
			if r.P(2, 3) {
				o.L = s.lang(r)
			}
			if r.P(1, 2) {
				o.D = core.Pick(r, domNames)
			}
		case "userlang":
			o.W = genWeb(r)
		case "tag", "match":
			o.L = genLocale(r)
		case "eval":
			o.Rule = genRule(r).rule
			if r.P(1, 5) {
				o.Rule = core.Pick(r, badRules)
			}
		case "save":
			o.D = core.Pick(r, []string{"po", "mo", "pot"})
		case "header":
			o.L = "Language"
		}
		return o
	}
	beh := func(may []string) (l []uBeh) {
		for i := r.Range(1, 3); i > 0; i-- {
			b := uBeh{K: core.Pick(r, may)}
			if b.K == "call" {
				b.Op = op(c16Reent)
			}
			l = append(l, b)
			if b.K == "panic" || b.K == "panic2" || b.K == "exit" {
				break
			}
		}
		return
	}
	user := func(may []string) c16Op {
		o := c16Op{K: core.Pick(r, []string{"fmt", "fmt", "fmt", "tor", "bind", "bind", "save", "ctx", "add"}), Op: op([]string{"call", "call", "gcall", "file", "ctx", "derive"}), B: beh(may)}
		o.Op.C.Args = true
		o.Pos, o.Type = r.N(3), r.N(3)
		for try := 0; o.K == "fmt" && o.Op.C.msg().verbs == "" && try < 20; try++ {
			o.Op.C.M = r.N(len(vocab))
		}
		switch o.K {
		case "bind":
			o.Skip = r.N(12)
			if r.P(1, 3) {
				o.Skip = 0
			}
		case "save":
			o.Op.D = core.Pick(r, []string{"po", "mo", "pot"})
			if r.P(1, 6) {
				o.Skip = 1
			}
		case "ctx":
			o.Skip = r.N(3)
		case "fmt":
			if o.Op.K == "ctx" || o.Op.K == "derive" {
				o.Op.K = "call"
			}
		case "tor":
			o.Skip = r.N(2)
		case "add":
			o.Op.L = core.Pick(r, []string{"ja", "ja_JP", "fr", ""})
			if r.P(1, 4) {
				o.Skip = 1
			}
		}
		return o
	}
	soft := []string{"panic", "panic", "panic2", "exit", "call", "call", "call", "sleep", ""}
	hard := append([]string{"block", "block", "block"}, soft...)
	plainK := []string{"call", "call", "gcall", "derive", "derive", "globalcopy", "ctx", "load", "load", "file", "header", "lang", "save", "locales", "used", "most", "userlang", "tag", "match", "eval", "domains"}
	nb := r.Range(1, 2) // goroutines that may block
	ny := r.Range(1, 3) // others
	crowd := ""         // all of those that may block block in the same way
	if r.P(1, 12) {
		crowd = core.Pick(r, []string{"bind", "bind", "fmt", "tor", "save", "ctx", "add"})
		nb, ny = r.Range(3, 9), r.Range(1, 2)
	}
	gated := -1
	for i := 0; i < nb; i++ {
		var l []c16Op
		if crowd != "" {
			o := user(hard)
			for try := 0; o.K != crowd && try < 100; try++ {
				o = user(hard)
			}
			o.Skip = 0
			o.B = append([]uBeh{{K: "block"}}, beh(soft)...)
			l = []c16Op{o}
		} else if gated < 0 && r.P(1, 3) {
			o := user(hard)
			o.K, o.Skip = "bind", 0
			o.B = append([]uBeh{{K: "block"}}, beh(soft)...)
			l = []c16Op{o}
			gated = i
		} else {
			for j := r.Range(1, 3); j > 0; j-- {
				if r.P(1, 4) {
					l = append(l, c16Op{K: "plain", Op: op(plainK)})
				} else {
					l = append(l, user(hard))
				}
			}
		}
		s.Tasks = append(s.Tasks, l)
	}
	for i := 0; i < ny; i++ {
		var l []c16Op
		for j := r.Range(1, 5); j > 0; j-- {
			switch {
			case gated >= 0 && r.P(1, 3):
				l = append(l, c16Op{K: "watch", Op: c01Op{H: gated, C: genCall(r)}})
			case r.P(1, 3):
				l = append(l, user(soft))
			case r.P(1, 8):
				l = append(l, c16Op{K: "self", Op: c01Op{C: genCall(r)}})
			case r.P(1, 8):
				l = append(l, c16Op{K: "add", Op: c01Op{L: core.Pick(r, []string{"ja", "fr"})}})
			default:
				l = append(l, c16Op{K: "plain", Op: op(plainK)})
			}
		}
		s.Tasks = append(s.Tasks, l)
	}
	if r.P(1, 6) { // something that fails once may fail often
		ti := r.N(len(s.Tasks))
		if l := s.Tasks[ti]; ti != gated && len(l) > 0 {
			o := &l[r.N(len(l))]
			if !o.blocks() && o.K != "watch" {
				if !o.has("panic") && !o.has("exit") && o.K != "plain" && o.K != "self" {
					o.B = append(o.B[:len(o.B):len(o.B)], uBeh{K: core.Pick(r, []string{"panic", "exit", "panic"})})
				}
				o.Times = core.Pick(r, []int{3, 20, 70, 70, 140, 300})
				if o.K == "bind" || o.has("exit") {
					o.Times = min(o.Times, 100)
				}
			}
		}
	}
	for i := r.Range(2, 6); i > 0; i-- {
		s.After = append(s.After, op(plainK))
	}
	return s
}

func (s *c16Sc) lang(r *core.Rand) string {
	d := core.Pick(r, s.W.Doms)
	if len(d.Cats) > 0 && r.P(3, 4) {
		return core.Pick(r, d.Cats).C.Lang
	}
	return genLocale(r)
}

// boom is what user code panics with.
type boom struct{ task, op int }

func (b boom) String() string { return fmt.Sprintf("boom %d/%d", b.task, b.op) }

// nested panics again when printed.
type nested struct{ b boom }

func (n nested) String() string { panic(n.b) }

// actor is the user code of one operation.
type actor struct {
	w       *c16World
	task    int
	op      int
	skip    int
	b       []uBeh
	n       int
	dry     bool
	panics  string // it panics: how
	depth   int
	fired   []string
	ended   bool // panicked or ended the goroutine
	inner   []string
	wantIn  []string
	evs     []string // what became of the goroutine's own value
	maySkip bool
}

func (a *actor) boom() any {
	if a.panics == "panic2" {
		return nested{boom{a.task, a.op}}
	}
	return boom{a.task, a.op}
}

// act is called by the user code the library calls.
func (a *actor) act() {
	if a == nil {
		return
	}
	if a.dry {
		if a.panics != "" {
			panic(a.boom())
		}
		return
	}
	if a.skip > 0 {
		a.skip--
		return
	}
	if a.n >= len(a.b) {
		if a.panics != "" && a.maySkip {
			panic(a.boom())
		}
		return
	}
	b := a.b[a.n]
	a.n++
	a.fired = append(a.fired, b.K)
	switch b.K {
	case "block":
		<-a.w.gate
	case "sleep":
		time.Sleep(time.Millisecond)
	case "panic", "panic2":
		a.ended = true
		panic(a.boom())
	case "exit":
		a.ended = true
		runtime.Goexit()
	case "call":
		if a.depth >= 3 {
			return
		}
		a.depth++
		got := a.w.reenter(b.Op, a)
		want, ok := a.w.reexpect(b.Op, a)
		a.depth--
		if ok {
			a.inner, a.wantIn = append(a.inner, got), append(a.wantIn, want)
		}
	}
	// a value that panics does so whenever it is asked
	if a.maySkip && a.panics != "" {
		if a.n < len(a.b) {
			a.act()
			return
		}
		a.ended = true
		panic(a.boom())
	}
}

type uStringer struct{ a *actor }

func (u uStringer) String() string { u.a.act(); return "<user>" }

type uError struct{ a *actor }

func (u uError) Error() string { u.a.act(); return "<user>" }

type uFormatter struct{ a *actor }

func (u uFormatter) Format(f fmt.State, verb rune) { u.a.act(); f.Write([]byte("<user>")) }

type uWriter struct {
	a *actor
	b bytes.Buffer
}

func (u *uWriter) Write(p []byte) (int, error) { u.a.act(); return u.b.Write(p) }

type uCtx struct {
	context.Context
	a *actor
}

func (u uCtx) Value(k any) any { u.a.act(); return u.Context.Value(k) }

// uTor is a user's translator, shared by all goroutines.
type uTor struct{ w *c16World }

func (u uTor) Lang() string { return "ja" }

func (u uTor) X(ctxt, id string, args ...any) string {
	u.w.current().act()
	return "custom " + ctxt + "/" + id
}

func (u uTor) XN64(ctxt, id, id2 string, n int64, args ...any) string {
	u.w.current().act()
	return fmt.Sprintf("custom %s/%s/%s/%d", ctxt, id, id2, n)
}

// addTor is a user's translator added to a value of the goroutine's own.
type addTor struct {
	a    *actor
	lang string
	name string
}

func (u *addTor) Lang() string { u.a.act(); return u.lang }

func (u *addTor) X(ctxt, id string, args ...any) string { return u.name + "/" + ctxt + "/" + id }

func (u *addTor) XN64(ctxt, id, id2 string, n int64, args ...any) string {
	return fmt.Sprintf("%s/%s/%s/%s/%d", u.name, ctxt, id, id2, n)
}

type c16World struct {
	s    *c16Sc
	w    *c01World
	gate chan bool
	cur  [1024]*actor // by task
	pv   []*t.Translations
	user *t.Translations
	mine []*t.Translation     // what each goroutine assembles
	held []map[string]*addTor // and what that holds
}

func (w *c16World) current() *actor {
	return w.cur[runtime.VerifTask()+1]
}

func (w *c16World) reenter(o c01Op, a *actor) string {
	switch o.K {
	case "selfbind":
		w.pv[a.task].BindFS("pv", newFS(w.s.Mid.tree(), delivery{}))
		a.evs = append(a.evs, "mid")
		return ""
	case "selfcall":
		return o.C.on(w.pv[a.task].D("pv").L(w.s.Lang), o.C.args("self"))
	}
	return w.w.do(o, a.task)
}

func (w *c16World) reexpect(o c01Op, a *actor) (string, bool) {
	switch o.K {
	case "selfbind", "selfcall":
		return "", false
	}
	return w.w.expect(o, a.task)
}

type c16Res struct {
	done     bool // it returned
	panicked any
	got      string
	want     string
	judged   bool
	a        *actor
}

// run executes an operation.
func (w *c16World) run(ti, oi int, o *c16Op, res *c16Res) {
	a := &actor{w: w, task: ti, op: oi, skip: o.Skip, b: o.B}
	for _, b := range o.B {
		if b.K == "panic" || b.K == "panic2" {
			a.panics = b.K
		}
	}
	res.a = a
	me := runtime.VerifTask() + 1
	w.cur[me] = a
	defer func() {
		w.cur[me] = nil
		if !res.done {
			res.panicked = recover()
		}
	}()
	switch o.K {
	case "plain":
		res.got = w.w.do(o.Op, ti)
		res.want, res.judged = w.w.expect(o.Op, ti)
	case "watch":
		k := o.Op.H % len(w.pv)
		if !w.gated(k) || w.blocker(ti) {
			break
		}
		args := o.Op.C.args("watch")
		res.got = o.Op.C.on(w.pv[k], args)
		res.want, res.judged = o.Op.C.expect(w.s.Old.byLang()[norm(w.s.Lang)], args), true
	case "self":
		args := o.Op.C.args("self")
		res.got = o.Op.C.on(w.pv[ti], args)
	case "fmt":
		a.maySkip = true
		a.skip = 0
		args := o.Op.C.args(fmt.Sprint("task", ti))
		dry := append([]any(nil), args...)
		if len(args) > 0 {
			i := o.Pos % len(args)
			verb := byte('s')
			if v := o.Op.C.msg().verbs; i < len(v) {
				verb = v[i]
			}
			mk := func(a *actor) any {
				switch {
				case verb == 'd' || o.Type == 2:
					return uFormatter{a}
				case o.Type == 1:
					return uError{a}
				}
				return uStringer{a}
			}
			args[i] = mk(a)
			dry[i] = mk(&actor{dry: true, panics: a.panics, task: ti, op: oi})
		}
		var cat *model.Catalog
		switch o.Op.K {
		case "gcall":
			cat = w.w.gm.cat()
			res.got = o.Op.C.global(args)
		case "file":
			if len(w.w.files) > 0 {
				k := o.Op.H % len(w.w.files)
				cat = w.w.fcat[k]
				res.got = o.Op.C.tor(w.w.files[k], args)
				break
			}
			fallthrough
		default:
			k := o.Op.H % len(w.w.hs)
			cat = w.w.ms[k].cat()
			res.got = o.Op.C.on(w.w.hs[k], args)
		}
		if a.panics != "panic2" {
			res.want, res.judged = o.Op.C.expect(cat, dry), true
		}
	case "tor":
		args := o.Op.C.args(fmt.Sprint("task", ti))
		res.got = o.Op.C.on(w.user.L("ja_JP"), args)
		m := o.Op.C.msg()
		switch o.Op.C.K {
		case "T", "X":
			res.want = "custom " + m.ctxt + "/" + m.id
		default:
			res.want = fmt.Sprintf("custom %s/%s/%s/%d", m.ctxt, m.id, m.id2, o.Op.C.N)
		}
		res.judged = true
	case "ctx":
		ctx := context.Background()
		x := w.w.gm.clone()
		if o.Op.L != "" {
			ctx = t.SetCtxLocale(ctx, o.Op.L)
			x.locale = norm(o.Op.L)
		}
		if o.Op.D != "" {
			ctx = t.SetCtxDomain(ctx, o.Op.D)
			x.domain = o.Op.D
		}
		args := o.Op.C.args(fmt.Sprint("task", ti))
		res.got = o.Op.C.on(t.WithContext(uCtx{ctx, a}), args)
		res.want, res.judged = o.Op.C.expect(x.cat(), args), true
	case "add":
		u := &addTor{a, o.Op.L, fmt.Sprint(ti, "-", oi)}
		l := norm(u.lang)
		tr, held := w.mine[ti], w.held[ti]
		was := tr.AddOrReplace(u)
		if u.lang != "" {
			var old t.Translator
			if h := held[l]; h != nil {
				old = h
			}
			res.got, res.want, res.judged = fmt.Sprint(was == old), "true", true
			held[l] = u
		}
	case "bind":
		f := newFS(w.s.New.tree(), delivery{Seed: uint64(ti), Max: 64, Rich: o.Type})
		f.hook = func(op, name string) { a.act() }
		w.pv[ti].BindFS("pv", f.fsys())
		a.evs = append(a.evs, "new")
	case "save":
		if len(w.w.files) == 0 {
			break
		}
		f := w.w.files[o.Op.H%len(w.w.files)]
		u := &uWriter{a: a}
		var err error
		switch o.Op.D {
		case "po":
			err = f.SaveAsPo(u)
		case "mo":
			err = f.SaveAsMo(u)
		default:
			err = f.SaveAsPot(u)
		}
		res.got = fmt.Sprint(err) + u.b.String()
		res.judged = false
	}
	res.done = true
}

func (w *c16World) blocker(ti int) bool {
	for i := range w.s.Tasks[ti] {
		if w.s.Tasks[ti][i].blocks() {
			return true
		}
	}
	return false
}

// gated tells whether a goroutine changes its own value only after the gate.
func (w *c16World) gated(ti int) bool {
	if ti >= len(w.s.Tasks) || len(w.s.Tasks[ti]) != 1 {
		return false
	}
	o := &w.s.Tasks[ti][0]
	return o.Times <= 1 && o.K == "bind" && o.Skip == 0 && len(o.B) > 0 && o.B[0].K == "block"
}

func runC16(sc scenario, e *Env) {
	s := sc.(*c16Sc)
	if len(s.Tasks) == 0 || len(s.Tasks) > 16 {
		e.trivial = true
		return
	}
	w := &c16World{s: s, w: s.W.world(), gate: make(chan bool)}
	defer t.SetGlobal(t.NewTranslations())
	own := func(d *domSpec) *t.Translations {
		x := t.NewTranslations()
		x.BindFS("pv", newFS(d.tree(), delivery{}))
		x.SetDomain("pv")
		x.SetLocale(s.Lang)
		return x
	}
	for range s.Tasks {
		w.pv = append(w.pv, own(&s.Old))
		w.mine = append(w.mine, t.NewTranslation("mine"))
		w.held = append(w.held, map[string]*addTor{})
	}
	w.user = own(&s.Old)
	if tr, ok := w.user.Get("pv"); ok {
		tr.AddOrReplace(uTor{w})
	} else {
		e.trivial = true
		return
	}
	saved := map[string]string{} // what each file saves to
	for i := range w.w.files {
		for _, form := range []string{"po", "mo", "pot"} {
			o := c01Op{K: "save", H: i, D: form}
			saved[fmt.Sprint(i, form)] = w.w.do(o, 0)
		}
	}
	res := make([][]c16Res, len(s.Tasks))
	var left atomic.Int32
	for ti := range s.Tasks {
		if !w.blocker(ti) {
			left.Add(1)
		}
	}
	if left.Load() == 0 {
		close(w.gate)
	}
	tasks := make([][]c16Op, len(s.Tasks))
	for ti, ops := range s.Tasks {
		for _, o := range ops {
			n := min(max(o.Times, 1), 400)
			if o.has("exit") {
				n = min(n, 100)
			}
			if n > 1 {
				e.Probe("an operation repeated many times")
			}
			for ; n > 0; n-- {
				tasks[ti] = append(tasks[ti], o)
			}
		}
	}
	for ti, ops := range tasks {
		res[ti] = make([]c16Res, len(ops))
		blocks := w.blocker(ti)
		e.Go(func() {
			defer func() {
				if !blocks && left.Add(-1) == 0 {
					close(w.gate)
				}
			}()
			for oi := range ops {
				if o := &ops[oi]; o.Times > 1 && o.has("exit") {
					done := make(chan bool)
					go func() {
						defer close(done)
						w.run(ti, oi, o, &res[ti][oi])
					}()
					<-done
					continue
				}
				w.run(ti, oi, &ops[oi], &res[ti][oi])
			}
		})
	}
	e.Run()
	if e.Failed() {
		return
	}
	e.CheckPanics()
	fired := 0
	own2 := make([]string, len(s.Tasks))
	for ti, ops := range tasks {
		own2[ti] = "old"
		exited := false
		for oi := range ops {
			o, x := &ops[oi], &res[ti][oi]
			if exited {
				continue
			}
			e.Op()
			a := x.a
			e.Logf("task %d %s: %v %v %q", ti, o.K, x.done, x.panicked, x.got)
			if a == nil {
				continue
			}
			seam := map[string]string{"fmt": "value", "tor": "translator", "bind": "file system", "save": "destination", "ctx": "context", "add": "added translator"}[o.K]
			last := ""
			for _, k := range a.fired {
				if k != "" {
					e.Fault(seam + ": " + map[string]string{"block": "blocks", "sleep": "is slow", "panic": "panics", "panic2": "panics twice", "exit": "ends its goroutine", "call": "calls back"}[k])
					fired++
				}
				last = k
			}
			for i := range a.inner {
				if a.inner[i] != a.wantIn[i] {
					e.Fail("wrong answer to user code", "", "goroutine %d, operation %d (%s): user code calling back got %q, want %q", ti, oi, o.K, a.inner[i], a.wantIn[i])
				}
			}
			if n := len(a.evs); n > 0 {
				own2[ti] = a.evs[n-1]
			}
			where := fmt.Sprintf("goroutine %d, operation %d (%s)", ti, oi, o.K)
			switch {
			case a.ended && last == "exit":
				exited = o.Times <= 1
				if x.done || x.panicked != nil {
					e.Fail("went on", "", "%s: user code ended its goroutine, but the call came back (%v)", where, x.panicked)
				}
			case x.panicked != nil:
				if !a.ended || !isBoom(x.panicked, ti, oi) {
					e.Fail("panic", "", "%s panicked: %v", where, x.panicked)
				} else if o.K == "fmt" && a.panics != "panic2" {
					e.Probe("panic of a value reached the caller")
				} else {
					e.Probe("panic reached the caller")
				}
			case !x.done:
				e.Fail("vanished", "", "%s neither returned nor panicked", where)
			case a.ended && o.K != "fmt":
				e.Fail("panic lost", "", "%s: user code panicked, but the call returned %q", where, x.got)
			case x.judged && x.got != x.want:
				e.Fail("wrong answer of "+o.K, "", "%s: got %q, want %q", where, x.got, x.want)
			case o.K == "save" && len(w.w.files) > 0:
				if want := saved[fmt.Sprint(o.Op.H%len(w.w.files), saveForm(o.Op.D))]; x.got != want {
					e.Fail("wrong answer of save", "", "%s: saved %q, alone %q", where, x.got, want)
				}
			case a.ended && strings.Contains(x.got, "PANIC="):
				e.Probe("panic contained by formatting")
			}
		}
	}
	e.trivial = fired == 0
	if e.Failed() {
		return
	}
	// afterwards everything is as if the failed calls had not happened
	var bad string
	pan := e.Solo(func() {
		for i, o := range s.After {
			got := w.w.do(o, 0)
			if want, ok := w.w.expect(o, 0); ok && got != want && bad == "" {
				bad = fmt.Sprintf("later operation %d (%s): got %q, want %q", i, o.K, got, want)
			}
		}
		for i := range w.w.files {
			for _, form := range []string{"po", "mo", "pot"} {
				if got := w.w.do(c01Op{K: "save", H: i, D: form}, 0); got != saved[fmt.Sprint(i, form)] && bad == "" {
					bad = fmt.Sprintf("a later save gives %q, at first %q", got, saved[fmt.Sprint(i, form)])
				}
			}
		}
		for ti := range s.Tasks {
			d := map[string]*domSpec{"old": &s.Old, "new": &s.New, "mid": &s.Mid}[own2[ti]]
			for m := range vocab {
				c := call{K: "XN64", M: m, N: 2}
				if got, want := c.on(w.pv[ti], nil), c.expect(d.byLang()[norm(s.Lang)], nil); got != want && bad == "" {
					bad = fmt.Sprintf("the value of goroutine %d, whose last complete load is %q, answers %q, want %q", ti, own2[ti], got, want)
				}
			}
			for _, l := range []string{"ja", "ja_JP", "fr"} {
				var want t.Translator
				if h := w.held[ti][l]; h != nil {
					want = h
				}
				if got, ok := w.mine[ti].Get(l); (!ok && want != nil || ok && got != want) && bad == "" {
					bad = fmt.Sprintf("the value assembled by goroutine %d holds %v for %s, want %v", ti, got, l, want)
				}
			}
			w.pv[ti].BindFS("pv", newFS(s.Old.tree(), delivery{}))
			c := call{K: "X", M: 4}
			if got, want := c.on(w.pv[ti], nil), c.expect(s.Old.byLang()[norm(s.Lang)], nil); got != want && bad == "" {
				bad = fmt.Sprintf("a later load into the value of goroutine %d: it answers %q, want %q", ti, got, want)
			}
		}
	})
	if pan != "" {
		e.Fail("panic later", "", "a later call panicked: %s", pan)
	}
	if bad != "" {
		e.Fail("not as if", "", "%s", bad)
	}
}

func saveForm(d string) string {
	if d == "po" || d == "mo" {
		return d
	}
	return "pot"
}

func isBoom(r any, ti, oi int) bool {
	switch b := r.(type) {
	case boom:
		return b.task == ti && b.op == oi
	case nested:
		return b.b.task == ti && b.b.op == oi
	}
	return false
}

func init() {
	props["C16"] = &prop{gen: genC16, new: func() scenario { return &c16Sc{} }, run: runC16}
}
