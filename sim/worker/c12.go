package main

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"strings"

	"github.com/youthlin/t/translator"
	"verif.local/sim/core"
	"verif.local/sim/model"
)

// C12: a catalog depends only on the entries it holds.

// header is a version of the header entry.
type header struct {
	Lang   string      `json:"lang,omitempty"`
	Forms  int         `json:"forms,omitempty"`
	Plural string      `json:"plural,omitempty"`
	Extra  [][2]string `json:"extra,omitempty"`
}

// entOp is a step in the life of a catalog.
type entOp struct {
	K string `json:"k"`           // add, head, ask, save, sorted, get
	E int    `json:"e,omitempty"` // which message
	V int    `json:"v,omitempty"` // which version of it or of the header
	S string `json:"s,omitempty"`
}

// life is one way to make the catalog.
type life struct {
	Seed uint64        `json:"seed"`
	From string        `json:"from,omitempty"` // read from: po, mo, pot; "" from nothing
	Init []int         `json:"init,omitempty"` // versions of the messages it starts with, -1 none
	Head int           `json:"head"`           // version of the header it starts with, -1 none
	Dup  []int         `json:"dup,omitempty"`  // stored twice: an older version first
	PO   model.POStyle `json:"po"`
	Bin  model.MOStyle `json:"bin"`
	Ops  []entOp       `json:"ops"`
	Perm []int         `json:"perm"` // order of the final additions
	Busy int           `json:"busy,omitempty"`
}

type entSc struct {
	Base
	Heads []header        `json:"heads"`
	Msgs  [][]model.Entry `json:"msgs"` // versions of every message; the last counts
	L     []life          `json:"l"`
	Keep  []int           `json:"keep,omitempty"` // versions in the end
	Head  int             `json:"head"`           // -1: none
}

func genC12(r *core.Rand) scenario {
	s := &entSc{Head: -1}
	lang := genLocale(r)
	base := genWild(r, lang, "m", 6, true)
	forms := 1
	for i := r.Range(1, 3); i > 0; i-- {
		h := header{Lang: genLocale(r)}
		if !r.P(1, 6) {
			ru := genRule(r)
			h.Forms, h.Plural = ru.forms, ru.rule
			if ru.forms > forms {
				forms = ru.forms
			}
		}
		if r.P(1, 8) {
			h.Lang = ""
		}
		if r.P(1, 3) {
			h.Extra = append(h.Extra, [2]string{core.Pick(r, []string{"X-Tag", "X-Other", "PO-Revision-Date"}), fmt.Sprintf("v%d: x", r.N(50))})
		}
		s.Heads = append(s.Heads, h)
	}
	if r.P(1, 6) { // positions that end like another message's context
		id := genText(r)
		a := model.Entry{Ctxt: "menu", ID: id, Str: "in the menu", Cmts: []string{"#: src"}}
		b := model.Entry{ID: id, Str: "elsewhere", Cmts: []string{"#: srcmenu"}}
		if base.Find(a.Ctxt, id) == nil && base.Find("", id) == nil {
			base.Entries = append(base.Entries, a, b)
		}
	}
	for _, x := range base.Entries {
		l := []model.Entry{x}
		for i := r.N(3); i > 0; i-- {
			y := x
			y.Cmts = genComments(r)
			if r.P(1, 4) { // becomes or is no longer a plural message
				y.Plural = !y.Plural
				if y.Plural {
					y.ID2 = x.ID + "s"
				}
			} else if y.Plural && r.P(1, 3) {
				y.ID2 += "!"
			}
			y.Str, y.Strs = "", nil
			if y.Plural {
				for k := r.Range(1, forms); k > 0; k-- {
					y.Strs = append(y.Strs, fmt.Sprintf("v%d %s", i, genText(r)))
				}
			} else {
				y.ID2 = ""
				y.Str = fmt.Sprintf("v%d %s", i, genText(r))
			}
			if mayEmpty(y) && r.P(1, 5) { // no translation any more
				y.Str, y.Strs = "", nil
			}
			l = append(l, y)
		}
		j := r.N(len(l))
		l[0], l[j] = l[j], l[0]
		s.Msgs = append(s.Msgs, l)
	}
	for _, l := range s.Msgs {
		s.Keep = append(s.Keep, r.N(len(l)))
	}
	if r.P(9, 10) {
		s.Head = r.N(len(s.Heads))
	}
	for i := r.Range(2, 3); i > 0; i-- {
		s.L = append(s.L, s.genLife(r))
	}
	return s
}

func (s *entSc) genLife(r *core.Rand) life {
	l := life{Seed: r.U64() >> 1, Head: -1, PO: genPOStyle(r), Bin: genMOStyle(r)}
	l.PO.Cmts = false
	if r.P(1, 2) {
		l.From = core.Pick(r, []string{"po", "mo", "po"})
		for _, m := range s.Msgs {
			v := -1
			if r.P(2, 3) {
				v = r.N(len(m))
			}
			l.Init = append(l.Init, v)
			d := -1
			if r.P(1, 4) && v >= 0 {
				d = r.N(len(m))
			}
			l.Dup = append(l.Dup, d)
		}
		if s.Head >= 0 && r.P(2, 3) {
			l.Head = r.N(len(s.Heads))
		}
	}
	for i := r.N(10); i > 0; i-- {
		o := entOp{K: core.Pick(r, []string{"add", "add", "add", "head", "ask", "save", "sorted", "get"}), E: r.N(16), V: r.N(4), S: core.Pick(r, []string{"po", "mo", "pot"})}
		if o.K == "head" && s.Head < 0 {
			o.K = "ask"
		}
		l.Ops = append(l.Ops, o)
	}
	n := len(s.Msgs) + 1
	for i := 0; i < n; i++ {
		l.Perm = append(l.Perm, i)
		j := r.N(i + 1)
		l.Perm[i], l.Perm[j] = l.Perm[j], l.Perm[i]
	}
	l.Busy = r.N(3)
	return l
}

// state is the model: what the catalog holds.
type entState struct {
	head int // version, -1 none
	vers []int
}

func (s *entSc) msg(i, v int) model.Entry {
	m := s.Msgs[i]
	if v < 0 {
		v = 0
	}
	x := m[v%len(m)]
	x.Ctxt, x.ID = m[0].Ctxt, m[0].ID
	return x
}

func (s *entSc) cat(st *entState) *model.Catalog {
	c := &model.Catalog{NoHeader: st.head < 0}
	if st.head >= 0 {
		h := s.Heads[st.head%len(s.Heads)]
		c.Lang, c.Forms, c.Plural, c.Extra = h.Lang, h.Forms, h.Plural, h.Extra
	}
	for i, v := range st.vers {
		if v >= 0 {
			c.Entries = append(c.Entries, s.msg(i, v))
		}
	}
	return rawCat(c)
}

// everything shows all there is to a catalog, in all forms.
func everything(f *translator.File, c *model.Catalog) (string, error) {
	var sb strings.Builder
	sb.WriteString(answers(f, c))
	for _, k := range []string{"po", "pot", "mo"} {
		var b bytes.Buffer
		if err := save(f, k, &b); err != nil {
			return "", err
		}
		fmt.Fprintf(&sb, "\x03%s:%s", k, b.String())
	}
	sb.WriteString("\x03entries:" + showEntries(f))
	return sb.String(), nil
}

func (s *entSc) live(l *life, n int, e *Env) (f *translator.File, ok bool) {
	runtime.VerifSeed(true, l.Seed)
	st := &entState{head: -1}
	for range s.Msgs {
		st.vers = append(st.vers, -1)
	}
	f = new(translator.File)
	if l.From != "" {
		// stored: perhaps with earlier versions of some messages before
		c := &model.Catalog{NoHeader: true}
		if l.Head >= 0 && len(s.Heads) > 0 {
			c = s.cat(&entState{head: l.Head})
			st.head = l.Head
		}
		var dups []model.Entry
		for i := range s.Msgs {
			if i < len(l.Init) && l.Init[i] >= 0 {
				// a text catalog does not keep what is not translated
				keeps := func(v int) bool {
					x := s.msg(i, v)
					return l.From != "po" || x.Str != "" || len(x.Strs) > 0
				}
				if l.From == "po" && i < len(l.Dup) && l.Dup[i] >= 0 {
					dups = append(dups, s.msg(i, l.Dup[i]))
					e.Probe("stored twice")
					if keeps(l.Dup[i]) {
						st.vers[i] = l.Dup[i]
					}
				}
				if keeps(l.Init[i]) {
					st.vers[i] = l.Init[i]
				}
				c.Entries = append(c.Entries, s.msg(i, l.Init[i]))
			}
		}
		k := *c
		k.Entries = nil
		for _, x := range append(dups, c.Entries...) { // rawCat, but keeping doubles
			one := model.Catalog{Entries: []model.Entry{x}}
			k.Entries = append(k.Entries, rawCat(&one).Entries...)
		}
		if len(k.All()) > 0 {
			var err error
			if l.From == "mo" {
				f, err = translator.ReadMo(k.MO(l.Bin))
			} else {
				f, err = translator.ReadPo(k.PO(l.PO))
			}
			if err != nil {
				return nil, false
			}
			e.Probe("begun with a stored catalog")
		}
	}
	check := func(after string) bool {
		c := s.cat(st)
		got, want := answers(f, c), modelAnswers(c)
		e.Op()
		if got != want {
			e.Fail("answers", "", "life %d after %s: %s", n, after, differ(got, want))
		}
		return !e.Failed()
	}
	add := func(i, v int) {
		x := rawCat(&model.Catalog{Entries: []model.Entry{s.msg(i, v)}})
		if len(x.Entries) == 0 {
			return
		}
		f.AddEntry(entryOf(x.Entries[0]))
		if st.vers[i] >= 0 {
			e.Probe("replaced")
		}
		st.vers[i] = v
	}
	head := func(v int) {
		c := s.cat(&entState{head: v})
		f.AddEntry(entryOf(c.All()[0]))
		if st.head >= 0 {
			e.Probe("header replaced")
		} else if l.From != "" || len(st.vers) > 0 {
			e.Probe("header added")
		}
		st.head = v
	}
	for i, o := range l.Ops {
		if len(s.Msgs) == 0 && o.K != "head" {
			continue
		}
		what := fmt.Sprintf("step %d (%s)", i, o.K)
		switch o.K {
		case "add":
			k := o.E % len(s.Msgs)
			add(k, o.V%len(s.Msgs[k]))
		case "head":
			if len(s.Heads) == 0 || s.Head < 0 {
				continue
			}
			head(o.V % len(s.Heads))
		case "ask":
			m := s.msg(o.E%len(s.Msgs), 0)
			f.X(raw(m.Ctxt), raw(m.ID))
			f.XN64(raw(m.Ctxt), raw(m.ID), "x", 2)
		case "save":
			var b bytes.Buffer
			if err := save(f, o.S, &b); err != nil {
				e.Fail("save", "", "life %d, %s: %v", n, what, err)
			}
		case "sorted":
			f.SortedEntry()
		case "get":
			f.GetHeader("Language")
			f.GetHeader("Plural-Forms")
			f.Lang()
		}
		if (o.E+o.V)%2 == 0 && !check(what) {
			return nil, false
		}
	}
	// now everything as it is to be in the end, in this life's order
	for pos, i := range l.Perm {
		if i >= len(s.Msgs) || i < 0 {
			if s.Head >= 0 && len(s.Heads) > 0 {
				head(s.Head % len(s.Heads))
			}
		} else if i < len(s.Keep) {
			v := s.Keep[i] % len(s.Msgs[i])
			add(i, v)
		}
		if l.Busy > 0 && pos%2 == 0 {
			what := fmt.Sprintf("final addition %d", pos)
			if !check(what) {
				return nil, false
			}
			if l.Busy > 1 {
				var b bytes.Buffer
				f.SaveAsMo(&b)
				f.SortedEntry()
			}
		}
	}
	// what is still missing, whatever the order says
	for i := range s.Msgs {
		if i < len(s.Keep) && st.vers[i] != s.Keep[i]%len(s.Msgs[i]) {
			add(i, s.Keep[i]%len(s.Msgs[i]))
		}
	}
	if s.Head >= 0 && len(s.Heads) > 0 && st.head != s.Head%len(s.Heads) {
		head(s.Head % len(s.Heads))
	}
	if s.Head < 0 && st.head >= 0 {
		return nil, false // cannot be taken out again
	}
	for i := range s.Msgs {
		if i >= len(s.Keep) && st.vers[i] >= 0 {
			return nil, false
		}
	}
	return f, true
}

func runC12(sc scenario, e *Env) {
	s := sc.(*entSc)
	for _, m := range s.Msgs {
		if len(m) == 0 {
			return
		}
	}
	// messages that are the same are one message
	seen := map[string]bool{}
	for _, m := range s.Msgs {
		k := raw(m[0].Ctxt) + "\x04" + raw(m[0].ID)
		if seen[k] || m[0].ID == "" {
			return
		}
		seen[k] = true
	}
	fin := &entState{head: -1}
	if s.Head >= 0 && len(s.Heads) > 0 {
		fin.head = s.Head % len(s.Heads)
	}
	for i := range s.Msgs {
		v := -1
		if i < len(s.Keep) && s.Keep[i] >= 0 {
			v = s.Keep[i] % len(s.Msgs[i])
		} else {
			return
		}
		fin.vers = append(fin.vers, v)
	}
	c := s.cat(fin)
	want := modelAnswers(c)
	first, which := "", 0
	for n := range s.L {
		f, ok := s.live(&s.L[n], n, e)
		if e.Failed() {
			return
		}
		if !ok {
			e.Probe("life given up")
			continue
		}
		if got := answers(f, c); got != want {
			e.Fail("answers", "", "life %d, in the end: %s", n, differ(got, want))
			return
		}
		all, err := everything(f, c)
		if err != nil {
			e.Fail("save", "", "life %d: %v", n, err)
			return
		}
		if held := held(f); held != wantHeld(c) {
			e.Fail("entries", "", "life %d holds other entries: %s", n, differ(held, wantHeld(c)))
			return
		}
		e.Logf("life %d: %x", n, core.MixStr(1, all))
		for k := 0; k < 2; k++ { // and again, under other hash seeds
			runtime.VerifSeed(true, s.L[n].Seed+uint64(k)*7919+1)
			again, err := everything(f, c)
			if err != nil || again != all {
				e.Fail("not repeatable", "", "life %d, asked again: error %v, %s", n, err, differ(again, all))
				return
			}
		}
		if first == "" {
			first, which = all, n
		} else if all != first {
			e.Fail("history shows", "", "lives %d and %d end with the same entries, but %s", which, n, differ(all, first))
			return
		} else {
			e.Probe("two lives agree")
		}
	}
}

func held(f *translator.File) string {
	var l []string
	for _, x := range f.SortedEntry() {
		l = append(l, fmt.Sprintf("%q %q %q %v %q %q %q", x.MsgCmts, x.MsgCtxt, x.MsgID, x.IsPlural, x.MsgID2, x.MsgStr, x.MsgStrN))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func wantHeld(c *model.Catalog) string {
	var l []string
	for _, x := range c.All() {
		l = append(l, fmt.Sprintf("%q %q %q %v %q %q %q", x.Cmts, x.Ctxt, x.ID, x.Plural, x.ID2, x.Str, x.Strs))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func init() {
	props["C12"] = &prop{gen: genC12, new: func() scenario { return &entSc{} }, run: runC12, whole: func(scenario) bool { return true }}
}
