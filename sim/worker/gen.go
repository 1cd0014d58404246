package main

import (
	"fmt"
	"strings"

	"verif.local/sim/core"
	"verif.local/sim/model"
)

// loc is a locale: how it may be spelled and the normal form.
type loc struct {
	norm   string
	spells []string
}

var locs = []loc{
	{"en_US", []string{"en_US", "en", "en-US", "en_US.UTF-8"}},
	{"zh_CN", []string{"zh_CN", "zh-CN", "zh", "zh_CN.UTF-8"}},
	{"fr_FR", []string{"fr_FR", "fr", "fr-FR"}},
	{"de_DE", []string{"de_DE", "de"}},
	{"ru_RU", []string{"ru_RU", "ru"}},
	{"pl_PL", []string{"pl_PL", "pl"}},
	{"ja_JP", []string{"ja_JP", "ja"}},
	{"pt_BR", []string{"pt_BR", "pt-BR", "pt"}},
	{"en_GB", []string{"en_GB", "en-GB"}},
	{"zh_TW", []string{"zh_TW", "zh-Hant"}},
	{"ar_EG", []string{"ar_EG", "ar"}},
	{"sl_SI", []string{"sl_SI", "sl"}},
	{"ko_KR", []string{"ko_KR", "ko"}},
	{"es_MX", []string{"es_MX", "es-MX"}},
}

// manyLocs are locales in normal form, for states with far more of them than
// usual.
var manyLocs = strings.Fields(`it_IT nl_NL sv_SE tr_TR cs_CZ hu_HU el_GR fi_FI da_DK uk_UA vi_VN th_TH ro_RO
	sk_SK bg_BG hr_HR lt_LT lv_LV et_EE fa_IR hi_IN bn_BD ta_IN es_ES es_AR es_CL es_CO es_PE en_AU en_CA en_IE
	en_IN en_NZ en_ZA fr_CA fr_BE fr_CH de_AT de_CH pt_PT ar_SA ar_MA zh_HK zh_SG nl_BE it_CH sv_FI ru_UA
	ca_ES gl_ES eu_ES is_IS ka_GE hy_AM kk_KZ uz_UZ mn_MN ne_NP si_LK km_KH lo_LA my_MM am_ET sw_KE zu_ZA`)

var normOf = map[string]string{}

func init() {
	for _, l := range locs {
		for _, s := range l.spells {
			normOf[s] = l.norm
		}
	}
}

// norm is the reference normal form of the spellings the scenarios use.
func norm(s string) string {
	if n, ok := normOf[s]; ok {
		return n
	}
	return s
}

func genLocale(r *core.Rand) string { return core.Pick(r, core.Pick(r, locs).spells) }

// few draws n different normal locales and returns spellings of them.
func genLocales(r *core.Rand, n int) (l []string) {
	used := map[string]bool{}
	for len(l) < n && len(used) < len(locs) {
		c := core.Pick(r, locs)
		if !used[c.norm] {
			used[c.norm] = true
			l = append(l, core.Pick(r, c.spells))
		}
	}
	return
}

// The vocabulary: messages a program asks for.
type msg struct {
	ctxt, id, id2 string
	verbs         string // kinds of arguments
}

var vocab = []msg{
	{"", "file", "files", ""},
	{"", "%d file", "%d files", "d"},
	{"", "hello %s", "", "s"},
	{"menu", "file", "files", ""},
	{"menu", "open", "", ""},
	{"verb", "open", "", ""},
	{"", "%s has %d item", "%s has %d items", "sd"},
	{"menu", "%d entry of %s", "%d entries of %s", "ds"},
	{"", "apple", "", ""},
	{"", "100%% sure %v", "", "v"},
	{"", "line\nbreak", "", ""},
	{"verb", "%d step", "%d steps", "d"},
}

// rules: number of forms and rule. All are defined for every n >= 0.
type rule struct {
	forms int
	rule  string
}

var commonRules = []rule{
	{1, "0"}, {2, "n != 1"}, {2, "n > 1"},
	{3, "n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2"},
	{3, "n==1 ? 0 : n==2 ? 1 : 2"},
	{3, "n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2"},
	{3, "n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2"},
	{3, "n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2"},
	{3, "(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2"},
	{3, "n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2"},
	{4, "n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3"},
	{6, "n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5"},
}

var uncommonRules = []rule{
	{2, "n != 1 && n != 2"}, {2, "(n > 1)"}, {2, "n==1 || n==11 ? 0 : 1"},
	{4, "(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3"},
	{2, "n%10 != 1 || n%100 == 11"}, {3, "n%3"}, {2, "!(n == 1)"},
	{5, "n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4"},
	{3, "n == 1 ? 0 : n != 0 && n % 1000000 == 0 ? 1 : 2"},
	{2, "n % 2"}, {4, "n & 3"}, {2, "n != 0"}, {11, "n % 11"}, {3, "(n + 1) % 3"}, {3, "n*2 % 3"},
}

func genRule(r *core.Rand) rule {
	if r.P(3, 5) {
		return core.Pick(r, commonRules)
	}
	return core.Pick(r, uncommonRules)
}

// genCatalog draws a catalog of the given language. Its texts carry tag, so
// that every answer shows where it came from.
func genCatalog(r *core.Rand, lang, tag string, max int) *model.Catalog {
	c := &model.Catalog{Lang: lang}
	if !r.P(1, 12) {
		ru := genRule(r)
		c.Forms, c.Plural = ru.forms, ru.rule
	}
	if r.P(1, 4) {
		c.Extra = append(c.Extra, [2]string{"X-Tag", tag})
		for r.P(1, 3) {
			c.Extra = append(c.Extra, core.Pick(r, [][2]string{{"X-Tag", "another"}, {"PO-Revision-Date", "2021-02-03 04:05+0600"}, {"X-Source", "a: b: c"}, {"X-Generator", "tool 1.0; nplurals=9"}, {"X-Nothing", ""}, {"Last-Translator", "Zoë <z@example.org>"}}))
		}
	}
	if r.P(1, 5) {
		c.Extra = append(c.Extra, [2]string{"PO-Revision-Date", fmt.Sprintf("20%02d-11-02 03:04+0000", r.N(40))}, [2]string{"X-Revision", fmt.Sprint(r.N(30))})
	}
	if r.P(1, 4) {
		c.Turn = r.N(6)
	}
	c.NoTail = r.P(1, 6)
	perm := make([]int, len(vocab))
	for i := range perm {
		j := r.N(i + 1)
		perm[i] = perm[j]
		perm[j] = i
	}
	n := r.Range(1, max)
	for _, i := range perm {
		if len(c.Entries) == n {
			break
		}
		c.Entries = append(c.Entries, genEntry(r, vocab[i], tag, c.Forms))
	}
	return c
}

func genEntry(r *core.Rand, m msg, tag string, forms int) model.Entry {
	e := model.Entry{Ctxt: m.ctxt, ID: m.id}
	text := func(form string) string {
		s := tag + ":" + strings.ReplaceAll(strings.ReplaceAll(m.id, "\n", " "), "%%", "pct") + form
		if r.P(1, 8) {
			s += "\nsecond line"
		}
		return s
	}
	if m.id2 != "" && !r.P(1, 6) {
		e.Plural = true
		e.ID2 = m.id2
		n := forms
		if n == 0 {
			n = 2
		}
		if r.P(1, 8) { // fewer or more forms than declared
			n = r.Range(1, n+1)
		}
		for k := 0; k < n; k++ {
			if r.P(1, 14) {
				e.Strs = append(e.Strs, "")
			} else {
				e.Strs = append(e.Strs, text(fmt.Sprintf("/%d", k)))
			}
		}
	} else {
		e.Str = text("")
	}
	return e
}

// lengths are around the sizes buffers and fields of files have.
var lengths = []int{250, 1000, 4080, 16380, 32760, 65530, 70000, 131070, 200000}

// long is a text of about n bytes without line break.
func long(r *core.Rand, n int) string {
	w := core.Pick(r, []string{"x", "word ", "长", "0123456789abcdef", "é-"})
	if n > 5000 { // a blank is where a save breaks lines
		w = strings.ReplaceAll(w, " ", "-")
	}
	return strings.Repeat("_", r.N(12)) + strings.Repeat(w, n/len(w)) + strings.Repeat("_", r.N(12)) + "!"
}

// enlarge makes a catalog large in one way.
func enlarge(r *core.Rand, c *model.Catalog, tag string, pads int) {
	at := r.N(len(c.Entries) + 1)
	add := func(l ...model.Entry) {
		c.Entries = append(c.Entries[:at:at], append(l, c.Entries[at:]...)...)
	}
	n := core.Pick(r, lengths)
	switch k := r.N(6); {
	case k == 0 || len(c.Entries) == 0:
		var l []model.Entry
		for i := min(pads, core.Pick(r, []int{60, 128, 257, 400, 1030})); i > 0; i-- {
			l = append(l, model.Entry{ID: fmt.Sprintf("pad %d", i), Str: fmt.Sprintf("%s pad %d", tag, i)})
		}
		add(l...)
	case k == 1:
		add(model.Entry{ID: long(r, n), Str: tag + "long id"})
	case k == 2:
		c.Entries[at%len(c.Entries)].Cmts = []string{"# " + long(r, n)}
	case k == 3:
		var l []string
		for i := min(n/20, pads); i > 0; i-- {
			l = append(l, fmt.Sprintf("#: src/f%d.go:%d", i%7, i))
		}
		c.Entries[at%len(c.Entries)].Cmts = l
	default:
		x := &c.Entries[at%len(c.Entries)]
		if !x.Plural {
			x.Str += long(r, n)
		} else if len(x.Strs) > 0 {
			i := r.N(len(x.Strs))
			x.Strs[i] += long(r, n)
		}
	}
}

// bigger makes a stored catalog large. Its texts are not cut into small lines:
// joining them takes time and garbage that grow with the square of their number.
func (c *catSpec) bigger(r *core.Rand) {
	enlarge(r, c.cat(), "big", 1030)
	if c.PO.Wrap > 0 {
		c.PO.Wrap = r.Range(2000, 9000)
	}
}

// call is one translation request.
type call struct {
	K    string `json:"k"` // T N N64 N1 X XN XN64 ...
	M    int    `json:"m"` // index into the vocabulary
	N    int64  `json:"n,omitempty"`
	Args bool   `json:"args,omitempty"`
	More int    `json:"more,omitempty"` // surplus arguments
}

var callKinds = []string{"T", "N", "N64", "N1", "N1_64", "X", "XN", "XN64", "XN1", "XN1_64"}

var counts = []int64{0, 1, 2, 3, 4, 5, 10, 11, 12, 14, 19, 20, 21, 22, 25, 100, 101, 102, 103, 111, 112, 1000, 1000000, 1 << 31, 1<<40 + 1}

func genCall(r *core.Rand) call {
	c := call{K: core.Pick(r, callKinds), M: r.N(len(vocab)), N: core.Pick(r, counts)}
	c.Args = r.P(2, 3)
	if c.Args && r.P(1, 4) {
		c.More = r.Range(1, 2)
	}
	return c
}

func (c call) msg() msg {
	i := c.M % len(vocab)
	if i < 0 {
		i = 0
	}
	m := vocab[i]
	switch c.K {
	case "T", "N", "N64", "N1", "N1_64":
		m.ctxt = ""
	}
	switch c.K {
	case "N1", "N1_64", "XN1", "XN1_64":
		m.id2 = ""
	}
	return m
}

// args are the arguments of the call; who makes them distinct.
func (c call) args(who string) []any {
	if !c.Args {
		return nil
	}
	a := make([]any, 0, 8) // with spare capacity, as a caller's slice may have
	for _, v := range c.msg().verbs {
		switch v {
		case 'd':
			a = append(a, c.N)
		default:
			a = append(a, "<"+who+">")
		}
	}
	for i := 0; i < c.More && i < 4; i++ {
		a = append(a, fmt.Sprintf("surplus%d", i))
	}
	return a
}

// expect is the model's answer: cat is the catalog in charge or nil.
func (c call) expect(cat *model.Catalog, args []any) string {
	m := c.msg()
	switch c.K {
	case "T", "X":
		return cat.X(m.ctxt, m.id, args)
	}
	return cat.XN(m.ctxt, m.id, m.id2, c.N, args)
}
