package main

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/youthlin/t"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/simkernel"
)

// C06: a load survives faults in single files.
// C07: a load does not depend on how I/O is delivered.

// item is a file or directory of a tree.
type item struct {
	Path string   `json:"path"`
	Cat  *catSpec `json:"cat,omitempty"` // a catalog
	Bad  string   `json:"bad,omitempty"` // what is wrong with its content
	Junk string   `json:"junk,omitempty"`
	Dir  bool     `json:"dir,omitempty"`
	F    faults   `json:"f"`
}

// Content defects that make a file definitely no catalog of a language.
var contentBad = []string{"empty", "nolang", "noheader", "broken-line", "unquoted", "cut-quote", "magic", "version", "cut", "offset", "binary"}

func (it *item) data() []byte {
	if it.Cat == nil {
		return []byte(it.Junk)
	}
	c := *it.Cat
	d := c.bytes()
	switch it.Bad {
	case "", "name":
		return d
	case "empty":
		return []byte{}
	case "nolang":
		k := *c.cat()
		k.Lang = ""
		c.C = &k
		return c.bytes()
	case "noheader":
		k := *c.cat()
		k.NoHeader = true
		c.C = &k
		return c.bytes()
	}
	if c.MO {
		b := append([]byte(nil), d...)
		switch it.Bad {
		case "version":
			b[4], b[5], b[6], b[7] = 9, 9, 9, 9
		case "cut":
			b = b[:len(b)*3/4]
			if len(b) > 40 {
				b = b[:40] // well before the strings
			}
		case "offset": // a string beyond the end
			b[c.moTable()+3] = 0x7f
			b[c.moTable()] = 0x7f
		default:
			b[0] ^= 0x55
		}
		return b
	}
	s := string(d)
	switch it.Bad {
	case "broken-line", "offset":
		return []byte(s + "\n\nmsgfoo \"x\"\n")
	case "unquoted", "version":
		return []byte("msgid unquoted\n" + s)
	case "binary", "magic":
		return []byte("\xff\xfe\x00\x01" + s)
	}
	return []byte(s + "\n\nmsgid \"cut\nmsgstr \"x\"\n")
}

// moTable is the offset of the table of ids.
func (c *catSpec) moTable() int {
	return 28 + c.Bin.Gap
}

type loadSc struct {
	Base
	Before []treeSpec           `json:"before"` // bound before, to the same domain
	Items  []item               `json:"items"`
	D      delivery             `json:"d"`
	Vary   []delivery           `json:"vary"`
	KD     []simkernel.Delivery `json:"kd"`
	KF     []simkernel.Fault    `json:"kf"`
	Kernel bool                 `json:"kernel,omitempty"`
	Single bool                 `json:"single,omitempty"` // a path to the only file
	API    string               `json:"api"`
	Form   int                  `json:"form,omitempty"` // how the path is written
	Root   string               `json:"root,omitempty"` // what the directory loaded is called
	Other  bool                 `json:"other,omitempty"`
	Calls  []call               `json:"calls"`
}

// oddNames are parts of file names that mean something to somebody.
var oddNames = []string{".po", ".mo", ".pot", ".po.mo", ".mo.po", " b", "b ", "$HOME", "${x}", "~", "%s", "%2e", "a*b", "[x]", "?", "é世", "..x", "-v", ";b", "#", "c:", "&", ".tmp", "@2x", "(1)", ".bak", ".PO", "_", "'", "\"", "\u200b", "conf", ".po~"}

func genItems(r *core.Rand, bad bool) (l []item) {
	n := r.Range(1, 5)
	langs := genLocales(r, n)
	dirs := []string{""}
	for i := r.N(4); i > 0; i-- {
		d := core.Pick(r, dirs) + core.Pick(r, []string{"LC", "sub", "x.po", "a.mo", "locale", ".hidden", "zz", "$HOME", "a b", "node_modules", "testdata", "_x"}) + fmt.Sprint(i) + "/"
		if r.P(1, 4) {
			d = core.Pick(r, dirs) + fmt.Sprintf("dir%d.po/", i)
		}
		dirs = append(dirs, d)
	}
	for i := 0; i < n; i++ {
		k := 1
		if r.P(1, 3) {
			k = r.Range(2, 3)
		}
		for j := 0; j < k; j++ {
			c := genCatSpec(r, langs[i], fmt.Sprintf("k%d%d", i, j), 4)
			it := item{Cat: &c}
			c.Name = ""
			if r.P(1, 50) {
				c.bigger(r)
			}
			if r.P(1, 250) {
				n := core.Pick(r, []int{70_000, 300_000, 1_100_000, 2_200_000, 4_300_000})
				c.PO.Long, c.Bin.Gap = n+r.N(2), n
			}
			if j == 1 && r.P(1, 2) && l[len(l)-1].Cat.MO != c.MO {
				// a text and a binary catalog of the same name
				p := l[len(l)-1].Path
				it.Path = strings.TrimSuffix(p, path.Ext(p)) + c.ext()
			} else {
				it.Path = core.Pick(r, dirs) + core.Pick(r, []string{"m", "a", "z", "Z", "zh", "0"}) + fmt.Sprintf("%d%d", r.N(100), len(l)) + c.ext()
				if r.P(1, 6) {
					it.Path = core.Pick(r, dirs) + fmt.Sprint(len(l)) + core.Pick(r, oddNames) + c.ext()
				} else if r.P(1, 20) {
					it.Path = core.Pick(r, dirs) + core.Pick(r, oddNames) + fmt.Sprint(len(l)) + c.ext()
				}
			}
			if bad && r.P(2, 5) {
				switch r.N(8) {
				case 0:
					it.F.Open = core.Pick(r, errKinds)
				case 1:
					it.F.Stat = core.Pick(r, errKinds)
				case 2, 3:
					it.F.Read = core.Pick(r, errKinds)
					if it.F.At = r.N(400); r.P(1, 2) {
						it.F.At = r.N(len(c.bytes()) + 1)
					}
				case 4:
					it.F.Close = core.Pick(r, errKinds)
				default:
					it.Bad = core.Pick(r, contentBad)
				}
				if it.F.Open != "" && r.P(1, 5) {
					it.F.Times = 1
				}
			}
			l = append(l, it)
		}
	}
	if r.P(1, 4) { // a good catalog under a name of none
		c := genCatSpec(r, genLocale(r), "kz", 4)
		c.Name = ""
		l = append(l, item{Cat: &c, Bad: "name", Path: core.Pick(r, dirs) + "y" + fmt.Sprint(len(l)) + core.Pick(r, []string{c.ext() + "~", c.ext() + ".bak", c.ext()[1:], ".txt", "", strings.ToUpper(c.ext()), strings.Title(c.ext())})})
	}
	for i := r.N(3); i > 0; i-- {
		l = append(l, item{Path: core.Pick(r, dirs) + fmt.Sprint(i) + core.Pick(r, []string{"README.md", "x.pot", "x.po~", "mo", "po", "a.PO", "b.po.bak", "c.txt"}), Junk: "msgid \"junk\nmsgstr"})
	}
	if r.P(1, 70) { // very many files, or very deep
		deep, n := "", r.Range(5, 140)
		step := core.Pick(r, []int{3, 20, 1000})
		first := r.N(len(manyLocs))
		for i := 0; i < n; i++ {
			if i%step == step-1 {
				deep += fmt.Sprintf("d%d/", i)
			}
			c := genCatSpec(r, manyLocs[(first+i)%len(manyLocs)], fmt.Sprintf("n%d", i), 2)
			c.Name = ""
			it := item{Cat: &c, Path: deep + fmt.Sprintf("q%d%s", i, c.ext())}
			if bad && r.P(1, 8) {
				if r.P(1, 2) {
					it.F.Open = core.Pick(r, errKinds)
				} else {
					it.Bad = core.Pick(r, contentBad)
				}
			}
			l = append(l, it)
		}
	}
	if bad {
		for _, d := range dirs[1:] {
			if r.P(1, 3) {
				it := item{Path: strings.TrimSuffix(d, "/"), Dir: true}
				if r.P(1, 2) {
					it.F.List = core.Pick(r, errKinds)
				} else {
					it.F.Open = core.Pick(r, errKinds)
				}
				if r.P(1, 6) {
					it.F.Times = 1
				}
				l = append(l, it)
			}
		}
		if r.P(1, 25) {
			it := item{Path: ".", Dir: true}
			switch r.N(3) {
			case 0:
				it.F.List = core.Pick(r, errKinds)
			case 1:
				it.F.Open = core.Pick(r, errKinds)
			default:
				it.F.Stat = core.Pick(r, errKinds)
			}
			l = append(l, it)
		}
	}
	for i := len(l) - 1; i > 0; i-- {
		j := r.N(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return
}

func genC06(r *core.Rand) scenario {
	s := &loadSc{Items: genItems(r, true)}
	for i := r.N(3); i > 0; i-- {
		s.Before = append(s.Before, genTree(r, "old", r.Range(1, 3), 4, 0, 1))
	}
	s.D = genDelivery(r)
	s.Kernel = r.P(1, 3)
	if s.Kernel {
		s.KD = []simkernel.Delivery{simkernel.GenDelivery(r)}
		s.genRoot(r)
		s.KF = genKernelFaults(r, s.root(), s.Items)
		s.Form = r.N(4)
	}
	s.API = core.Pick(r, []string{"bindfs", "gbindfs", "gloadfs", "tr"})
	s.Other = r.P(1, 3)
	for i := 0; i < 5; i++ {
		s.Calls = append(s.Calls, genCall(r))
	}
	return s
}

var kerr = []string{"eio", "eacces", "enoent", "emfile", "enomem", "estale", "eloop", "enfile", "eperm"}

// genKernelFaults turns the faults of the items into faults of system calls.
func genKernelFaults(r *core.Rand, root string, l []item) (f []simkernel.Fault) {
	add := func(p, op string, skip, times int) {
		f = append(f, simkernel.Fault{Path: path.Join("/vsim/work", root, p), Op: op, Err: core.Pick(r, kerr), Skip: skip, Times: times})
	}
	for i := range l {
		it := &l[i]
		switch {
		case it.F.Open != "":
			add(it.Path, "open", 0, it.F.Times)
		case it.F.Stat != "" && it.Dir:
			add(it.Path, "fstat", 0, it.F.Times)
			add(it.Path, "stat", 0, it.F.Times)
		case it.F.Stat != "":
			add(it.Path, "fstat", 0, it.F.Times)
		case it.F.List != "":
			add(it.Path, "list", 0, it.F.Times)
		case it.F.Read != "":
			add(it.Path, "read", it.F.At, 0)
		case it.F.Close != "":
			add(it.Path, "close", 0, 0)
		}
	}
	return
}

func (s *loadSc) fs(d delivery) *simFS {
	root := &simNode{name: ".", dir: true}
	for i := range s.Items {
		if it := &s.Items[i]; !it.Dir {
			root.file(it.Path, it.data(), it.F)
		}
	}
	f := newFS(root, d)
	for i := range s.Items {
		if it := &s.Items[i]; it.Dir {
			if n := f.find(it.Path); n != nil && n.dir {
				n.f = it.F
			}
		}
	}
	return f
}

func (s *loadSc) kernel(d simkernel.Delivery) *simkernel.Kernel {
	k := simkernel.New()
	k.Put(path.Join("/vsim/work", s.root()), nil)
	k.D = d
	k.Faults = s.KF
	for i := range s.Items {
		if it := &s.Items[i]; !it.Dir {
			k.Put(path.Join("/vsim/work", s.root(), it.Path), it.data())
		}
	}
	return k
}

func (s *loadSc) genRoot(r *core.Rand) {
	if r.P(1, 5) {
		s.Root = core.Pick(r, []string{"tree", "", "a\\b", "x", " "}) + core.Pick(r, oddNames)
	}
}

func (s *loadSc) root() string {
	if s.Root == "" {
		return "tree"
	}
	return s.Root
}

func (s *loadSc) path() string {
	p := s.root()
	if s.Single {
		p = path.Join(p, s.Items[0].Path)
	}
	switch s.Form & 3 {
	case 1:
		return "/vsim/work/" + p
	case 2:
		return "./" + p
	case 3:
		return "../work/" + p
	}
	return p
}

// cand is how a catalog of a language may come out of a load.
type cand struct {
	po, mo, maybePO, maybeMO []*model.Catalog
}

// verdicts works out what a load of the items has to take, per language.
func (s *loadSc) verdicts() map[string]*cand {
	m := map[string]*cand{}
	dirF := map[string]faults{}
	for i := range s.Items {
		if it := &s.Items[i]; it.Dir {
			dirF[it.Path] = it.F
		}
	}
	for i := range s.Items {
		it := &s.Items[i]
		if it.Cat == nil || it.Bad != "" || it.Cat.cat().NoHeader || it.Cat.cat().Lang == "" {
			continue
		}
		lost, maybe := false, false
		for d := path.Dir(it.Path); ; d = path.Dir(d) {
			if f, ok := dirF[d]; ok && (f.Open != "" || f.List != "" || f.Stat != "") {
				switch {
				case f.Times > 0, d == "." && s.Kernel && f.Stat != "":
					maybe = true
				case f.Stat != "" && d != ".":
				default:
					lost = true
				}
			}
			if d == "." || d == "/" {
				break
			}
		}
		f := it.F
		switch {
		case f.Open != "":
			if f.Times > 0 {
				maybe = true
			} else {
				lost = true
			}
		case f.Stat != "":
			// what cannot be examined contributes nothing; whether a load
			// examines a file it can list and read is its own business
			maybe = true
		case f.Read != "":
			if f.At > len(it.data()) {
				maybe = true
			} else {
				lost = true
			}
		}
		if lost {
			continue
		}
		l := norm(it.Cat.cat().Lang)
		if m[l] == nil {
			m[l] = &cand{}
		}
		c := m[l]
		switch {
		case it.Cat.MO && maybe:
			c.maybeMO = append(c.maybeMO, it.Cat.C)
		case it.Cat.MO:
			c.mo = append(c.mo, it.Cat.C)
		case maybe:
			c.maybePO = append(c.maybePO, it.Cat.C)
		default:
			c.po = append(c.po, it.Cat.C)
		}
	}
	return m
}

func (s *loadSc) answers(f func(call) string) string {
	var sb strings.Builder
	for _, c := range s.Calls {
		sb.WriteString(f(c) + "|")
	}
	for i := range vocab {
		sb.WriteString(f(call{K: "X", M: i}) + "|")
		sb.WriteString(f(call{K: "XN64", M: i, N: 5}) + "|")
	}
	return sb.String()
}

// view is what a handle shows of a domain in a locale.
func (s *loadSc) view(h *t.Translations, domain, loc string) string {
	x := h.D(domain).L(loc)
	return x.UsedLocale() + ":" + s.answers(func(c call) string { return c.on(x, c.args("x")) })
}

func (s *loadSc) modelView(c *model.Catalog, loc string) string {
	used := loc
	if c == nil {
		used = "en_US"
	}
	return used + ":" + s.answers(func(k call) string { return k.expect(c, k.args("x")) })
}

// langs lists every locale that matters, and one that does not.
func (s *loadSc) langs() []string {
	m := map[string]bool{"ko_KR": true}
	for i := range s.Items {
		if c := s.Items[i].Cat; c != nil && c.cat().Lang != "" {
			m[norm(c.cat().Lang)] = true
		}
	}
	for i := range s.Before {
		for l := range s.Before[i].byLang() {
			m[l] = true
		}
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func has(l []*model.Catalog, f func(*model.Catalog) bool) bool {
	for _, c := range l {
		if f(c) {
			return true
		}
	}
	return false
}

func runC06(sc scenario, e *Env) {
	s := sc.(*loadSc)
	setEnv(envDefault)
	t.SetGlobal(t.NewTranslations())
	defer t.SetGlobal(t.NewTranslations())
	h := t.NewTranslations()
	if s.API != "bindfs" {
		t.SetGlobal(h)
	}
	old := map[string]*model.Catalog{}
	bound := false
	for i := range s.Before {
		if m := s.Before[i].byLang(); len(m) > 0 {
			old, bound = m, true
		}
		h.BindFS("app", s.Before[i].build().fsys())
	}
	if s.Other {
		tr := treeSpec{Cats: []catSpec{{C: &model.Catalog{Lang: "de", Entries: []model.Entry{{ID: "file", Str: "other"}}}, Name: "o"}}}
		h.BindFS("other", tr.build().fsys())
	}
	h.SetDomain("app")
	faulty := 0
	for i := range s.Items {
		if s.Items[i].Bad != "" || s.Items[i].F.any() {
			faulty++
		}
		if b := s.Items[i].Bad; b != "" {
			e.Fault("content: " + b)
		}
	}
	e.trivial = faulty == 0
	loadedTr := ""
	var left []string
	if s.Kernel {
		k := s.kernel(s.KD[0])
		k.Start()
		p := e.Solo(func() {
			switch s.API {
			case "gloadfs":
				t.Load(s.path())
			default:
				if s.API == "bindfs" {
					t.SetGlobal(h)
				}
				t.Bind("app", s.path())
			}
		})
		k.Stop()
		if p != "" {
			e.Fail("panic", "", "%s", p)
		}
		if e.Failed() {
			return
		}
		left = k.OpenFDs()
		for _, n := range k.FiredNames() {
			e.FaultN("kernel: "+n, int(k.Fired[n]))
		}
		e.Logf("calls %d", k.Calls)
		e.Probe("load by path")
	} else {
		f := s.fs(s.D)
		if p := e.Solo(func() {
			switch s.API {
			case "bindfs":
				h.BindFS("app", f.fsys())
			case "gbindfs":
				t.BindFS("app", f.fsys())
			case "gloadfs":
				t.LoadFS(f.fsys())
			default:
				tr := t.NewTranslation("app")
				loadedTr = fmt.Sprint(tr.LoadFS(f.fsys()))
				x := t.NewTranslations()
				for _, l := range s.langs() {
					tor := tr.GetOrNoop(l)
					_, ok := tr.Get(l)
					used := "en_US"
					if ok {
						used = l
					}
					loadedTr += "\n" + used + ":" + s.answers(func(c call) string { return c.tor(tor, c.args("x")) })
				}
				_ = x
			}
		}); p != "" {
			e.Fail("panic", "", "%s", p)
			return
		}
		if e.Failed() {
			return
		}
		f.fold(e)
		if f.open != 0 {
			left = []string{"?"}
		}
	}
	if len(left) != 0 {
		e.Probe("files left open") // decided under C07
	}
	v := s.verdicts()
	definite, possible := false, false
	for _, c := range v {
		definite = definite || len(c.po)+len(c.mo) > 0
		possible = true
	}
	if definite {
		e.Probe("something to take")
	} else {
		e.Probe("nothing to take")
	}
	// allowed says whether view is a possible outcome of a load for a locale
	fits := func(l, view string, torView bool) (ok bool, want string) {
		mv := func(c *model.Catalog) string {
			if torView {
				used := l
				if c == nil {
					used = "en_US"
				}
				return used + ":" + s.answers(func(k call) string {
					m := k.msg()
					if k.K == "T" || k.K == "X" {
						return c.X(m.ctxt, m.id, k.args("x"))
					}
					return c.XN(m.ctxt, m.id, m.id2, k.N, k.args("x"))
				})
			}
			return s.modelView(c, l)
		}
		is := func(c *model.Catalog) bool {
			want = mv(c)
			return want == view
		}
		c := v[l]
		if c == nil {
			return is(nil), want
		}
		if has(c.po, is) || has(c.maybePO, is) {
			return true, ""
		}
		if len(c.po) > 0 {
			return false, want
		}
		if has(c.mo, is) || has(c.maybeMO, is) {
			return true, ""
		}
		if len(c.mo) > 0 {
			return false, want
		}
		return is(nil), want
	}
	if s.API == "tr" && !s.Kernel {
		lines := strings.SplitN(loadedTr, "\n", 2)
		e.Log(loadedTr)
		any := false
		rest := lines[1]
		for i, l := range s.langs() {
			// views may contain line breaks; cut at the next view
			view := rest
			if i < len(s.langs())-1 {
				view, rest = cutView(rest, s.langs()[i+1])
			}
			if ok, want := fits(l, view, true); !ok {
				e.Fail("wrong catalog", "", "locale %s: got %q, want for example %q", l, view, want)
			}
			if strings.HasPrefix(view, l+":") && l != "en_US" {
				any = true
			}
		}
		if definite && lines[0] != "true" || !possible && lines[0] != "false" || !definite && any && lines[0] != "true" {
			e.Fail("load result", "", "LoadFS returned %s; something to take: %v", lines[0], definite)
		}
		return
	}
	views := map[string]string{}
	for _, l := range s.langs() {
		views[l] = s.view(h, "app", l)
		e.Op()
		e.Log(l + " " + views[l])
	}
	world := func(new bool) (bool, string) {
		for _, l := range s.langs() {
			if new {
				if ok, want := fits(l, views[l], false); !ok {
					return false, fmt.Sprintf("locale %s: got %q, want for example %q", l, views[l], want)
				}
			} else if want := s.modelView(old[l], l); want != views[l] {
				return false, fmt.Sprintf("locale %s: got %q, want %q", l, views[l], want)
			}
		}
		return true, ""
	}
	isBound := h.HasDomain("app")
	inList := strings.Contains(" "+sorted(h.Domains())+" ", " app ")
	if isBound != inList {
		e.Fail("domain list", "", "HasDomain %v, Domains %v", isBound, h.Domains())
	}
	okNew, whyNew := world(true)
	okOld, whyOld := world(false)
	switch {
	case definite:
		if !isBound {
			e.Fail("not bound", "", "a readable catalog was there but the domain is not bound")
		} else if !okNew {
			e.Fail("wrong catalogs", "", "%s", whyNew)
		}
	case !possible:
		if isBound != bound {
			e.Fail("binding", "", "nothing could be loaded: bound before %v, now %v", bound, isBound)
		} else if !okOld {
			e.Fail("binding changed", "", "nothing could be loaded, but %s", whyOld)
		}
	default:
		taken := false // whether something shows of what may have been taken
		for l := range v {
			taken = taken || l == "en_US" || strings.HasPrefix(views[l], l+":")
		}
		if !(isBound && okNew && taken || isBound == bound && okOld) {
			e.Fail("wrong catalogs", "", "neither the new nor the old binding: %s; %s", whyNew, whyOld)
		}
	}
	if s.Other {
		if !h.HasDomain("other") || h.D("other").L("de").T("file") != "other" {
			e.Fail("other domain", "", "the load of one domain changed another")
		}
	}
	if h.Domain() != "app" || h.Locale() != "en_US" {
		e.Fail("selection", "", "the load changed the domain or locale to %s, %s", h.Domain(), h.Locale())
	}
}

// cutView splits joined views before that of locale next.
func cutView(s, next string) (string, string) {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '\n' && (strings.HasPrefix(s[i+1:], next+":") || strings.HasPrefix(s[i+1:], "en_US:")) {
			return s[:i], s[i+1:]
		}
	}
	return s, ""
}

func genC07(r *core.Rand) scenario {
	s := &loadSc{}
	s.Single = r.P(1, 4)
	s.Items = genItems(r, r.P(1, 4))
	if s.Single {
		for _, it := range s.Items {
			if it.Cat != nil {
				s.Items = []item{it}
				break
			}
		}
		s.Items[0].Path = path.Base(s.Items[0].Path)
		s.Items = s.Items[:1]
	}
	// the faults here are permanent and of one kind each, so that every way of
	// delivery meets them in the same way
	var keep []item
	for _, it := range s.Items {
		it.F.Stat, it.F.Times = "", 0
		if it.Dir && it.Path == "." {
			continue
		}
		if it.F.Read != "" {
			it.F.At = 0
		}
		keep = append(keep, it)
	}
	s.Items = keep
	s.D = delivery{}
	for i := r.Range(2, 4); i > 0; i-- {
		s.Vary = append(s.Vary, genDelivery(r))
	}
	for i := r.Range(1, 3); i > 0; i-- {
		s.KD = append(s.KD, simkernel.GenDelivery(r))
	}
	s.genRoot(r)
	s.KF = genKernelFaults(r, s.root(), s.Items)
	s.Form = r.N(4)
	for i := 0; i < 4; i++ {
		s.Calls = append(s.Calls, genCall(r))
	}
	return s
}

func runC07(sc scenario, e *Env) {
	s := sc.(*loadSc)
	setEnv(envDefault)
	defer t.SetGlobal(t.NewTranslations())
	if len(s.Items) == 0 {
		return
	}
	load := func(d delivery) (string, int, int) {
		h := t.NewTranslations()
		f := s.fs(d)
		if s.Single {
			f.root = f.find(s.Items[0].Path)
		}
		if p := e.Solo(func() { h.BindFS("app", f.fsys()) }); p != "" {
			e.Fail("panic", "", "%s", p)
			return "", 0, 0
		}
		if e.Failed() {
			return "", 0, 0
		}
		f.fold(e)
		return s.all(h), f.open, f.opened
	}
	want, open, opened := load(s.D)
	e.Log(want)
	if open != 0 {
		e.Fail("left open", "", "%d of %d opened files are still open after the load", open, opened)
	}
	// against the model where it says exactly what to take
	for l, c := range s.verdicts() {
		if len(c.po)+len(c.mo) == 1 && len(c.maybePO)+len(c.maybeMO) == 0 {
			k := append(c.po, c.mo...)[0]
			if !strings.Contains(want, "\x01"+l+"="+s.modelView(k, l)+"\x02") {
				e.Fail("wrong catalog", "", "locale %s: %q does not show %q", l, want, s.modelView(k, l))
			}
			e.Probe("compared with the model")
		}
	}
	for i, d := range s.Vary {
		got, open, opened := load(d)
		e.Op()
		if e.Failed() {
			return
		}
		if got != want {
			e.Fail("delivery", "", "delivery %d (%+v) loads %q, plain delivery %q", i, d, got, want)
		}
		if open != 0 {
			e.Fail("left open", "", "%d of %d opened files are still open after the load", open, opened)
		}
	}
	for i, d := range s.KD {
		k := s.kernel(d)
		h := t.NewTranslations()
		t.SetGlobal(h)
		k.Start()
		p := e.Solo(func() { t.Bind("app", s.path()) })
		k.Stop()
		if p != "" {
			e.Fail("panic", "", "%s", p)
		}
		if e.Failed() {
			return
		}
		for _, n := range k.FiredNames() {
			e.FaultN("kernel: "+n, int(k.Fired[n]))
		}
		e.Op()
		e.Logf("calls %d", k.Calls)
		if got := s.all(h); got != want {
			e.Fail("delivery by path", "", "system call delivery %d (%+v) loads %q, plain delivery %q", i, d, got, want)
		}
		if l := k.OpenFDs(); len(l) > 0 {
			e.Fail("left open", "", "still open after the load: %v", l)
		}
		if len(k.Mutated) > 0 {
			e.Fail("files changed", "", "the load changed %v", k.Mutated)
		}
	}
	if s.Single {
		e.Probe("single file")
	}
}

// all shows everything a handle's domain answers.
func (s *loadSc) all(h *t.Translations) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%v %v", h.HasDomain("app"), h.D("app").Locales())
	for _, l := range s.langs() {
		sb.WriteString("\x01" + l + "=" + s.view(h, "app", l) + "\x02")
	}
	return sb.String()
}

func init() {
	props["C06"] = &prop{gen: genC06, new: func() scenario { return &loadSc{} }, run: runC06}
	props["C07"] = &prop{gen: genC07, new: func() scenario { return &loadSc{} }, run: runC07}
}
