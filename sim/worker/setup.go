package main

import (
	"fmt"
	"net/http"
	"sort"
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
	"golang.org/x/text/language"
	"verif.local/sim/core"
	"verif.local/sim/model"
)

// catSpec is a catalog and how it is stored.
type catSpec struct {
	C    *model.Catalog `json:"c"`
	MO   bool           `json:"mo,omitempty"`
	PO   model.POStyle  `json:"po"`
	Bin  model.MOStyle  `json:"bin"`
	Name string         `json:"name,omitempty"` // path of the file, without extension
}

func (c *catSpec) cat() *model.Catalog {
	if c.C == nil {
		c.C = &model.Catalog{}
	}
	return c.C
}

func (c *catSpec) bytes() []byte {
	if c.MO {
		return c.cat().MO(c.Bin)
	}
	return c.cat().PO(c.PO)
}

func (c *catSpec) ext() string {
	if c.MO {
		return ".mo"
	}
	return ".po"
}

func genPOStyle(r *core.Rand) (st model.POStyle) {
	st.CRLF = r.P(1, 6)
	if r.P(1, 3) {
		st.Wrap = r.Range(1, 30)
	}
	st.Blank = r.N(3)
	st.Cmts = r.P(1, 3)
	st.NoFinal = r.P(1, 6)
	if r.P(1, 6) {
		st.Pad = r.Range(1, 7)
	}
	st.Old = r.P(1, 12)
	return
}

func genMOStyle(r *core.Rand) (st model.MOStyle) {
	st.Big = r.P(1, 3)
	st.Unsorted = r.P(1, 4)
	if r.P(1, 3) {
		st.Gap = r.N(60)
	}
	st.StrFirst = r.P(1, 4)
	st.Hash = r.P(1, 4)
	return
}

func genCatSpec(r *core.Rand, lang, tag string, max int) catSpec {
	return catSpec{C: genCatalog(r, lang, tag, max), MO: r.P(1, 3), PO: genPOStyle(r), Bin: genMOStyle(r), Name: tag}
}

// domSpec is a domain and its catalogs.
type domSpec struct {
	Name string    `json:"name"`
	Cats []catSpec `json:"cats"`
}

func genDomain(r *core.Rand, name string, langs, max int) domSpec {
	d := domSpec{Name: name}
	for i, l := range genLocales(r, langs) {
		d.Cats = append(d.Cats, genCatSpec(r, l, fmt.Sprintf("%s%d", name, i), max))
	}
	return d
}

// byLang is the model of a loaded domain: normal locale -> catalog.
func (d *domSpec) byLang() map[string]*model.Catalog {
	m := map[string]*model.Catalog{}
	for _, mo := range []bool{true, false} { // text wins over binary
		for i := range d.Cats {
			c := &d.Cats[i]
			if c.MO == mo && c.cat().Lang != "" {
				m[norm(c.cat().Lang)] = c.C
			}
		}
	}
	return m
}

func (d *domSpec) tree() *simNode {
	root := &simNode{name: ".", dir: true}
	for i := range d.Cats {
		c := &d.Cats[i]
		name := c.Name
		if name == "" {
			name = fmt.Sprintf("f%d", i)
		}
		root.file(name+c.ext(), c.bytes(), faults{})
	}
	return root
}

// hmodel is the reference model of a handle.
type hmodel struct {
	locale, domain, source string
	doms                   map[string]map[string]*model.Catalog
}

func (h *hmodel) clone() *hmodel {
	c := *h
	c.doms = map[string]map[string]*model.Catalog{}
	for k, v := range h.doms {
		c.doms[k] = v
	}
	return &c
}

func (h *hmodel) cat() *model.Catalog { return h.doms[h.domain][h.locale] }

func (h *hmodel) locales() []string {
	set := map[string]bool{h.source: true}
	for l := range h.doms[h.domain] {
		set[l] = true
	}
	var l []string
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (h *hmodel) used() string {
	if h.cat() != nil {
		return h.locale
	}
	return h.source
}

func (h *hmodel) domains() []string {
	var l []string
	for k := range h.doms {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func tagsOf(l []string) (t []language.Tag) {
	for _, s := range l {
		t = append(t, language.Make(s))
	}
	return
}

// match is what the language matcher prefers.
func match(supported []string, want []language.Tag) string {
	_, i, _ := language.NewMatcher(tagsOf(supported)).Match(want...)
	return supported[i]
}

func (h *hmodel) most() string { return match(h.locales(), []language.Tag{language.Make(h.locale)}) }

// web is a web request's language preference.
type web struct {
	Accept string `json:"accept,omitempty"`
	Lines  bool   `json:"lines,omitempty"` // each language on a line of its own
	Cookie string `json:"cookie,omitempty"`
	Name   string `json:"name,omitempty"` // cookie name asked for
	Other  bool   `json:"other,omitempty"`
	Empty  bool   `json:"empty,omitempty"` // the cookie is there, with an empty value
	More   bool   `json:"more,omitempty"`  // other cookies as well
	Twice  string `json:"twice,omitempty"` // a second cookie of that name, for a wider path
}

// cookieValues are values a client may have stored, which are not ours to judge.
var cookieValues = []string{"zh-hans", "ZH_cn", "en", "und", "no such language", "!", "en_US.UTF-8", "x"}

func genWeb(r *core.Rand) (w web) {
	var l []string
	n := r.N(4)
	if r.P(1, 25) {
		n = r.Range(5, 60)
	}
	for i := n; i > 0; i-- {
		s := strings.ReplaceAll(core.Pick(r, locs).norm, "_", "-")
		if n > 4 && i > 1 { // hardly any of them is there
			s = strings.ReplaceAll(core.Pick(r, manyLocs), "_", "-")
		}
		if r.P(1, 3) {
			s = strings.SplitN(s, "-", 2)[0]
		}
		if r.P(1, 2) {
			s += fmt.Sprintf(";q=0.%d", r.Range(1, 9))
		}
		l = append(l, s)
	}
	w.Accept = strings.Join(l, ", ")
	if r.P(1, 8) {
		w.Accept = core.Pick(r, []string{"*", "garbage;;;q=x", "xx-YY", "en-US,en;q=0.9,*;q=0.5", ";"})
	}
	if r.P(1, 4) {
		w.Cookie = core.Pick(r, locs).norm
		switch {
		case r.P(1, 6):
			w.Cookie, w.Empty = "", true
		case r.P(1, 4):
			w.Cookie = core.Pick(r, cookieValues)
		}
	}
	w.Lines = r.P(1, 6)
	w.More = r.P(1, 5)
	if r.P(1, 8) {
		w.Twice = core.Pick(r, locs).norm
	}
	if r.P(1, 5) {
		w.Name = "mylang"
		w.Other = r.P(1, 2)
	}
	return
}

func (w web) request() *http.Request {
	req := &http.Request{Header: http.Header{}}
	if w.Accept != "" {
		l := []string{w.Accept}
		if w.Lines {
			l = strings.Split(w.Accept, ",")
		}
		for _, v := range l {
			req.Header.Add("Accept-Language", v)
		}
	}
	if w.More {
		req.AddCookie(&http.Cookie{Name: "session", Value: "fr_FR"})
		req.AddCookie(&http.Cookie{Name: "language", Value: "ja_JP"})
		defer req.AddCookie(&http.Cookie{Name: "Lang", Value: "ko_KR"})
	}
	if w.Cookie != "" || w.Empty {
		n := w.Name
		if n == "" || w.Other {
			n = "lang"
		}
		req.AddCookie(&http.Cookie{Name: n, Value: w.Cookie})
		if w.Twice != "" {
			req.AddCookie(&http.Cookie{Name: n, Value: w.Twice})
		}
	}
	return req
}

func (w web) ask() string {
	if w.Name != "" {
		return t.GetUserLang(w.request(), t.WithCookieName(w.Name))
	}
	return t.GetUserLang(w.request())
}

func (w web) expect(supported []string) string {
	if (w.Cookie != "" || w.Empty) && !(w.Name != "" && w.Other) {
		return w.Cookie
	}
	want, _, _ := language.ParseAcceptLanguage(w.Accept)
	return match(supported, want)
}

// readFile reads a stored catalog.
func (c *catSpec) readFile() (*translator.File, error) {
	if c.MO {
		return translator.ReadMo(c.bytes())
	}
	return translator.ReadPo(c.bytes())
}

func sorted(l []string) string {
	l = append([]string(nil), l...)
	sort.Strings(l)
	return strings.Join(l, " ")
}
