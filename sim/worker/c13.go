package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif.local/sim/core"
	"verif.local/sim/simkernel"
	"verif.local/sim/xtjob"
)

// C13: template extraction succeeds only with a complete result.
// C14: template extraction is reproducible.
// C15: a failed extraction leaves the earlier output alone.

// xtWay is how one run of the command is delivered.
type xtWay struct {
	D     simkernel.Delivery `json:"d"`
	Seed  uint64             `json:"seed"`
	Clock int64              `json:"clock"`
	Rev   int                `json:"rev,omitempty"` // files are stored in another order
	Go    core.Sched         `json:"go"`            // how the command's goroutines are scheduled
	CPUs  int                `json:"cpus,omitempty"`
	Zone  int                `json:"zone,omitempty"` // of the local time, in quarters of an hour
	Env   []string           `json:"env,omitempty"`
}

type xtScn struct {
	Base
	Files  []xtFile          `json:"files"`
	Input  string            `json:"input"`
	KW     []kwSpec          `json:"kw"`
	KWRaw  string            `json:"kw_raw,omitempty"` // instead of KW: perhaps refused
	Left   string            `json:"left,omitempty"`
	Right  string            `json:"right,omitempty"`
	Fun    string            `json:"fun,omitempty"`
	Out    string            `json:"out,omitempty"`
	NoOut  bool              `json:"no_out,omitempty"` // no -o at all
	Prev   string            `json:"prev,omitempty"`   // earlier content of the output
	Had    bool              `json:"had,omitempty"`
	OutDir int               `json:"out_dir,omitempty"` // 1: its directory is missing, 2: it is a directory
	Debug  bool              `json:"debug,omitempty"`
	Lang   string            `json:"lang,omitempty"`
	LPath  string            `json:"lpath,omitempty"`
	Ways   []xtWay           `json:"ways"`
	Faults []simkernel.Fault `json:"faults,omitempty"`
	Free   int64             `json:"free,omitempty"` // bytes on the disk + 1
	Kill   int               `json:"kill,omitempty"` // in 1/1000 of the calls of an undisturbed run
}

var xtNames = []string{"a.tmpl", "b.tmpl", "c d.tmpl", "ü.tmpl", "z.html", "a.txt", "10.tmpl", "9.tmpl", ".hid.tmpl", "a[1].tmpl", "b:2.tmpl", "-x.tmpl", "%d.tmpl", "B.tmpl"}
var xtDirs = []string{"tpl", "tpl/sub", "other", "."}

// genXT mostly draws scenarios that select some messages.
func genXT(r *core.Rand) *xtScn {
	want := r.Range(1, 6)
	if r.P(1, 12) {
		want = 0
	}
	for try := 0; ; try++ {
		s := genXT1(r)
		if try > 8 {
			return s
		}
		m := s.model()
		n := 0
		for _, f := range m.matched {
			n += len(m.uses[f])
		}
		if m.valid && n >= want && (want == 0 || m.kwOK && len(m.matchD) == 0) {
			return s
		}
	}
}

func genXT1(r *core.Rand) *xtScn {
	s := &xtScn{}
	pool := []kwSpec{{Name: "T", ID: 1, Bare: true}, {Name: "T", ID: 1}, {Name: "gettext", ID: 1, Bare: true}, {Name: "N", ID: 1, ID2: 2}, {Name: "X", Ctxt: 1, ID: 2},
		{Name: "XN", Ctxt: 1, ID: 2, ID2: 3}, {Name: "D", ID: 2}, {Name: "DN", ID: 2, ID2: 3}, {Name: "XR", Ctxt: 2, ID: 1}, {Name: "N13", ID: 1, ID2: 3}, {Name: "翻译", ID: 1, Bare: true},
		{Name: "NR", ID: 2, ID2: 1}, {Name: "X13", Ctxt: 1, ID: 3}, {Name: "_", ID: 1, Bare: true}}
	g := &xgen{r: r, mixed: r.P(1, 12)}
	for i := r.Range(1, 5); i > 0; i-- {
		k := core.Pick(r, pool)
		k.Sp = r.P(1, 6)
		g.kws = append(g.kws, k)
	}
	if r.P(1, 15) { // one name, two shapes
		shapes := []kwSpec{{ID: 1}, {Ctxt: 1, ID: 2}, {ID: 2}, {Ctxt: 1, ID: 3}, {Ctxt: 2, ID: 1}}
		if r.P(1, 3) {
			shapes = append(shapes, kwSpec{ID: 1, ID2: 2}, kwSpec{Ctxt: 1, ID: 2, ID2: 3})
		}
		for i := r.Range(2, 3); i > 0; i-- {
			k := core.Pick(r, shapes)
			k.Name = "T2"
			g.kws = append(g.kws, k)
		}
	}
	if !g.mixed { // no message both with and without plural: all keywords or none
		n := 0
		for _, k := range g.kws {
			if k.ID2 > 0 {
				n++
			}
		}
		if n > 0 && n < len(g.kws) {
			// singular and plural ones get different messages, see split
			s.KW = nil
		}
	}
	s.KW = g.kws
	for i := r.Range(1, 6); i > 0; i-- {
		g.ids = append(g.ids, core.Pick(r, []string{"hello", "File not found", "one file", "%d files", "}} {{", "", "T \"x\"", "ok"}))
		if r.P(1, 3) {
			g.ids[len(g.ids)-1] = genXTText(r)
		}
		if g.ids[len(g.ids)-1] == "" && !r.P(1, 5) {
			g.ids[len(g.ids)-1] = "word"
		}
	}
	many := 0 // messages
	if r.P(1, 120) {
		many = r.Range(30, 300)
		for i := 0; i < many; i++ {
			g.ids = append(g.ids, fmt.Sprintf("m%d", i))
		}
	}
	if r.P(1, 5) {
		s.Left, s.Right = core.Pick(r, []string{"[[", "<<", "<%", "{%", "{{{"}), core.Pick(r, []string{"]]", ">>", "%>", "%}", "}}}"})
	}
	seen := map[string]bool{}
	nf := r.Range(1, 6)
	if r.P(1, 20) {
		nf = 0
	}
	if r.P(1, 150) { // very many templates, small ones
		dir, same := core.Pick(r, xtDirs), r.P(1, 2)
		for i := r.Range(60, 300); i > 0; i-- {
			f := xtFile{Path: path.Join(dir, fmt.Sprintf("n%d.tmpl", i))}
			g.depth, g.names = 0, map[string]bool{}
			if f.N = g.nodes(1, true, false); same && len(s.Files) > 0 {
				f.N = renumber(s.Files[0].N, &g.n)
			}
			s.Files = append(s.Files, f)
		}
	}
	for i := nf; i > 0; i-- {
		f := xtFile{Path: path.Join(core.Pick(r, xtDirs), core.Pick(r, xtNames)), CRLF: r.P(1, 8)}
		if seen[f.Path] {
			continue
		}
		seen[f.Path] = true
		g.depth, g.names = 0, map[string]bool{}
		f.N = g.nodes(r.Range(1, 7)+many, true, false)
		if r.P(1, 4) {
			f.N = append(f.N, f.N...) // every use twice
			for i := range f.N {
				if f.N[i].K == "define" || f.N[i].K == "block" {
					f.N[i].S = fmt.Sprintf("%s-%d", f.N[i].S, i)
				}
			}
			f.N = renumber(f.N, &g.n)
		}
		if r.P(1, 40) { // more than any buffer holds
			n := xnode{K: "text", S: core.Pick(r, []string{"\n", "<p>\n", "x", "0123456789abcde\n", "} {"})}
			n.Rep = core.Pick(r, []int{4096, 32768, 65536, 70000, 131072, 300000, 300000, 1_100_000, 2_200_000})/len(n.S) + r.N(3) - 1
			i := r.N(len(f.N) + 1)
			f.N = append(f.N[:i:i], append([]xnode{n}, f.N[i:]...)...)
		}
		if r.P(1, 25) { // messages on lines of few and of many digits
			at := r.Range(900, 9000)
			lines := []xnode{{K: "text", S: "\n", Rep: at}, {K: "text", S: "\n", Rep: 10_000 - at + r.N(300)}}
			for len(f.N) < 4 {
				f.N = append(f.N, g.nodes(2, true, false)...)
			}
			i, j := r.N(len(f.N)/2), r.Range(len(f.N)/2, len(f.N)-1)
			f.N = slices.Concat(f.N[:i], lines[:1], f.N[i:j], lines[1:], f.N[j:])
		}
		s.Files = append(s.Files, f)
	}
	if r.P(1, 6) && len(s.Files) > 0 {
		f := core.Pick(r, s.Files)
		s.Files = append(s.Files, xtFile{Path: path.Join(path.Dir(f.Path), "empty.d"), Dir: true})
	}
	for try := 0; try < 8; try++ {
		s.Input = core.Pick(r, []string{"tpl/*.tmpl", "*/*.tmpl", "*.tmpl", "tpl/**/*.tmpl", "*/*", "tpl/[a-z]*.tmpl", "./tpl/*", "/vsim/work/tpl/*.tmpl", "tpl/?.tmpl", "*/*/*.tmpl", "nothing/*.tmpl", "tpl/*.tmpl", "tpl/../tpl/*.tmpl", "tpl/missing.tmpl", "nothing/missing.tmpl", "tpl/[^a]*.tmpl", `tpl/a\[*.tmpl`, "t*l/*.tmpl", "./*.tmpl"})
		if r.P(1, 6) && len(s.Files) > 0 {
			s.Input = core.Pick(r, s.Files).Path
		}
		n := 0
		for i := range s.Files {
			f := &s.Files[i]
			if !f.Dir && len(globs(s.Input, map[string]bool{path.Join("/vsim/work", f.Path): false})) > 0 {
				n++
			}
		}
		if n > 1 || n == 1 && r.P(1, 2) || r.P(1, 12) {
			break
		}
	}
	if r.P(1, 5) {
		s.Fun = core.Pick(r, []string{"upper", "upper, lower", " ,x", "T"})
	}
	switch r.N(8) {
	case 0:
		s.Out = "-"
	case 1:
		s.NoOut = true
	case 2:
		s.Out = "/vsim/out/new.pot"
	default:
		s.Out = core.Pick(r, []string{"out.pot", "pot/messages.pot"})
	}
	if r.P(2, 3) {
		s.Had = true
		s.Prev = core.Pick(r, []string{"earlier\n", "", strings.Repeat("a long earlier output\n", 300)})
	}
	if r.P(1, 12) {
		s.OutDir = r.Range(1, 2)
		s.Had = false
		if s.OutDir == 1 && s.Out == "out.pot" {
			s.Out = "pot/messages.pot"
		}
	}
	s.Debug = s.Out != "-" && !s.NoOut && r.P(1, 10)
	s.Lang = core.Pick(r, []string{"en_US.UTF-8", "zh_CN.UTF-8", "C", "", "de_DE"})
	if r.P(1, 8) {
		s.LPath = core.Pick(r, []string{"/vsim/work/lang", "nolang", " "})
	}
	s.Ways = []xtWay{genWay(r)}
	return s
}

// renumber gives templates of a file different names.
func renumber(l []xnode, n *int) []xnode {
	b, _ := json.Marshal(l)
	var c []xnode
	json.Unmarshal(b, &c)
	var rec func(l []xnode)
	rec = func(l []xnode) {
		for i := range l {
			if l[i].K == "define" || l[i].K == "block" {
				*n++
				l[i].S = fmt.Sprintf("%s%d", core.Pick(core.NewRand(uint64(*n)), []string{"t", "a", "z", "m"}), *n)
			}
			rec(l[i].B)
			rec(l[i].E)
		}
	}
	rec(c)
	return c
}

func genWay(r *core.Rand) xtWay {
	w := xtWay{D: simkernel.GenDelivery(r), Seed: r.U64() >> 1, Clock: int64(r.N(4_000_000_000)), Rev: r.N(4)}
	if r.P(1, 4) {
		w.Clock = 1_700_000_000
	}
	w.Go = genSched(r)
	w.CPUs = r.Range(1, 20)
	w.D.DirLinks = r.P(1, 2)
	if r.P(1, 2) {
		w.Zone = r.Range(-48, 56)
	}
	for i := r.N(4); i > 0; i-- {
		w.Env = append(w.Env, core.Pick(r, []string{"USER", "HOME", "HOSTNAME", "TMPDIR", "COLUMNS", "TERM", "LOGNAME", "EDITOR", "LC_COLLATE", "TZ"}), core.Pick(r, []string{"alice", "/home/b", "/vsim/work", "40", "", "xterm"}))
	}
	if w.D.Lat > 0 {
		w.D.Lat = int64(r.N(2e9))
	}
	return w
}

func (s *xtScn) outPath() string {
	if s.NoOut || s.Out == "" || s.Out == "-" {
		return ""
	}
	if s.Out[0] == '/' {
		return path.Clean(s.Out)
	}
	return path.Join("/vsim/work", s.Out)
}

func (s *xtScn) keywords() string {
	if s.KWRaw != "" {
		return s.KWRaw
	}
	var l []string
	for _, k := range s.KW {
		l = append(l, k.String())
	}
	return strings.Join(l, ";")
}

func (s *xtScn) args() (l []string) {
	l = []string{"-i", s.Input, "-k", s.keywords()}
	if s.Left != "" {
		l = append(l, "-left", s.Left)
	}
	if s.Right != "" {
		l = append(l, "-right", s.Right)
	}
	if s.Fun != "" {
		l = append(l, "-f", s.Fun)
	}
	if !s.NoOut {
		l = append(l, "-o", s.Out)
	}
	if s.Debug {
		l = append(l, "-d")
	}
	return
}

// xtModel is what the scenario's files hold.
type xtModel struct {
	files   []xtjob.File
	tree    map[string]bool // path -> is a directory
	src     map[string]string
	uses    map[string][]use
	bad     map[string]bool // no template
	matched []string        // matched files
	matchD  []string        // matched directories
	valid   bool
	kwOK    bool
	refuse  string // the arguments are malformed
}

func (s *xtScn) model() *xtModel {
	m := &xtModel{tree: map[string]bool{"/vsim/work": true}, src: map[string]string{}, uses: map[string][]use{}, bad: map[string]bool{}, valid: true, kwOK: len(s.KW) > 0}
	kws := s.KW
	if s.KWRaw != "" {
		var class int
		kws, class = parseKW(s.KWRaw)
		m.kwOK = class > 0
		names := map[string]bool{}
		for _, k := range kws {
			names[k.Name] = true
		}
		for _, k := range s.KW {
			if !names[k.Name] {
				m.kwOK = false // the templates may call what nobody has declared
			}
		}
		if class < 0 {
			m.refuse = fmt.Sprintf("the keywords %q are malformed", s.KWRaw)
		}
	}
	for _, k := range kws {
		if !k.valid() {
			m.kwOK = false
		}
	}
	if strings.TrimSpace(s.Input) == "" || s.Input[0] == '-' {
		m.valid = false
	}
	if _, err := path.Match(s.Input, ""); err != nil {
		m.kwOK = false
		m.refuse = fmt.Sprintf("the pattern %q is malformed", s.Input)
	}
	dir := func(p string) {
		for d := path.Dir(p); len(d) > 1; d = path.Dir(d) {
			if _, ok := m.tree[d]; !ok && strings.HasPrefix(d, "/vsim/") {
				m.tree[d] = true
			}
		}
	}
	add := func(p string, data string, isDir bool) {
		if _, ok := m.tree[p]; ok {
			m.valid = false
		}
		dir(p)
		m.tree[p] = isDir
		m.files = append(m.files, xtjob.File{Path: p, Data: []byte(data), Dir: isDir})
	}
	for i := range s.Files {
		f := &s.Files[i]
		p := path.Join("/vsim/work", f.Path)
		if !strings.HasPrefix(p, "/vsim/work/") {
			m.valid = false
			continue
		}
		if f.Dir {
			add(p, "", true)
			continue
		}
		src, uses, ok := f.render(s.Left, s.Right, kws)
		add(p, src, false)
		m.src[p], m.uses[p], m.bad[p] = src, uses, !ok
	}
	for _, f := range m.files {
		for d := path.Dir(f.Path); len(d) > 5; d = path.Dir(d) {
			if isDir, ok := m.tree[d]; ok && !isDir {
				m.valid = false
			}
		}
	}
	for _, p := range globs(s.Input, m.tree) {
		if m.tree[p] {
			m.matchD = append(m.matchD, p)
		} else {
			m.matched = append(m.matched, p)
		}
	}
	if o := s.outPath(); o != "" {
		if _, ok := m.tree[o]; ok || !strings.HasPrefix(o, "/vsim/") {
			m.valid = false // the output is no template
		}
		// nor does the pattern match it
		t := map[string]bool{o: false}
		if len(globs(s.Input, t)) > 0 {
			m.valid = false
		}
		for d := path.Dir(o); len(d) > 5; d = path.Dir(d) {
			if isDir, ok := m.tree[d]; ok && !isDir {
				m.valid = false
			}
		}
		if s.OutDir == 1 {
			if _, ok := m.tree[path.Dir(o)]; ok || path.Dir(o) == "/vsim/work" {
				m.valid = false
			}
		} else if s.OutDir == 2 {
			m.files = append(m.files, xtjob.File{Path: o, Dir: true})
		} else if s.Had {
			m.files = append(m.files, xtjob.File{Path: o, Data: []byte(s.Prev)})
		} else {
			m.files = append(m.files, xtjob.File{Path: path.Dir(o), Dir: true})
		}
	}
	if s.LPath == "/vsim/work/lang" {
		if _, ok := m.tree[s.LPath]; ok {
			m.valid = false
		}
		m.files = append(m.files, xtjob.File{Path: s.LPath + "/zh_CN.po", Data: []byte("msgid \"\"\nmsgstr \"Language: zh_CN\\n\"\n\nmsgid \"run error: %v\"\nmsgstr \"出错: %v\"\n")})
		t := map[string]bool{s.LPath: true, s.LPath + "/zh_CN.po": false}
		if len(globs(s.Input, t)) > 0 {
			m.valid = false
		}
	}
	// what the directories of the pattern hold besides must not match either
	extra := map[string]bool{"/vsim/work/lang": true, "/vsim/work/pot": true, "/vsim/out": true}
	for _, p := range globs(s.Input, extra) {
		m.matchD = append(m.matchD, p)
	}
	return m
}

const xtSteps = 100_000_000

func (s *xtScn) job(m *xtModel, w xtWay, faults []simkernel.Fault, free int64, killAt int) *xtjob.Job {
	j := &xtjob.Job{Args: s.args(), D: w.D, Faults: faults, Free: -1, KillAt: killAt, Clock: w.Clock, Seed: w.Seed, Sched: w.Go, Steps: xtSteps, CPUs: w.CPUs, Zone: 900 * w.Zone, Env: w.Env}
	if free > 0 {
		j.Free = free - 1
	}
	j.Files = append(j.Files, m.files...)
	if n := len(j.Files); n > 1 {
		r := core.NewRand(uint64(w.Rev))
		for i := n - 1; i > 0 && w.Rev > 0; i-- {
			k := r.N(i + 1)
			j.Files[i], j.Files[k] = j.Files[k], j.Files[i]
		}
	}
	return j
}

// exec runs the command and does what concerns every run.
func (s *xtScn) exec(e *Env, j *xtjob.Job) *xtjob.Result {
	res, crash := runXT(j, s.Lang, s.LPath)
	if crash != "" {
		e.Fail("crash", "", "the command died: %s", crash)
		panic(failed{})
	}
	e.Op()
	e.sum.Steps += res.Steps
	e.sum.SimNS += res.ClockB - res.ClockA
	for k, n := range res.Fired {
		e.FaultN("kernel: "+k, int(n))
	}
	for _, l := range res.Log {
		e.Log(l)
	}
	e.Logf("exit %d, %d calls, stderr %q", res.Exit, res.Calls, string(res.Stderr))
	if res.Stuck {
		e.Fail("livelock", "", "the command was still running after %d steps", xtSteps)
		panic(failed{})
	}
	e.sum.Switches += res.Switches
	e.sum.MaxSteps = max(e.sum.MaxSteps, res.Steps)
	e.il = core.Mix(e.il, res.ILHash)
	if res.Tasks > 1 {
		e.Probe("several goroutines in the command")
	}
	if res.Stop != "" {
		e.Fail("deadlock", "", "no goroutine of the command can go on: %s", res.Stop)
		panic(failed{})
	}
	if res.Panic != "" {
		e.Fail("panic", "", "the command panicked: %s", res.Panic)
		panic(failed{})
	}
	return res
}

// output is what the command wrote; existed tells whether there is any.
func (s *xtScn) output(res *xtjob.Result) (string, bool) {
	if o := s.outPath(); o != "" {
		c, ok := res.Files[o]
		return string(c), ok
	}
	return string(res.Stdout), true
}

type msgKey struct{ ctxt, id string }

func (k msgKey) String() string {
	if k.ctxt != "" {
		return fmt.Sprintf("%q in context %q", k.id, k.ctxt)
	}
	return fmt.Sprintf("%q", k.id)
}

// complete compares the output with what the keywords select.
func (s *xtScn) complete(m *xtModel, out string) string {
	pot, err := parsePot(out)
	if err != nil {
		return fmt.Sprintf("the output cannot be read: %v", err)
	}
	want := map[msgKey][]use{}
	for _, f := range m.matched {
		for _, u := range m.uses[f] {
			if u.id == "" && u.ctxt == "" {
				continue // the empty message is the header's
			}
			k := msgKey{u.ctxt, u.id}
			want[k] = append(want[k], u)
		}
	}
	got := map[msgKey]*potEntry{}
	for i := range pot {
		p := &pot[i]
		k := msgKey{p.ctxt, p.id}
		if got[k] != nil {
			return fmt.Sprintf("two entries for %v", k)
		}
		got[k] = p
	}
	last := map[string]int{}
	for i := range pot {
		if (pot[i].id == "" && pot[i].ctxt == "") != (i == 0) {
			return "the header is not the first entry"
		}
		if refs := positions(pot[i].refs); len(refs) > 0 && pot[i].id != "" {
			if refs[0].line < last[refs[0].file] {
				return fmt.Sprintf("the entry for %v, in %s line %d, comes behind one of line %d", msgKey{pot[i].ctxt, pot[i].id}, refs[0].file, refs[0].line, last[refs[0].file])
			}
			last[refs[0].file] = refs[0].line
		}
	}
	h := got[msgKey{}]
	if h == nil || !strings.Contains(h.str, "POT-Creation-Date: ") {
		return "the output has no header"
	}
	delete(got, msgKey{})
	keys := make([]msgKey, 0, len(want))
	for k := range want {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i].ctxt < keys[j].ctxt || keys[i].ctxt == keys[j].ctxt && keys[i].id < keys[j].id
	})
	for _, k := range keys {
		p := got[k]
		uses := want[k]
		if p == nil {
			return fmt.Sprintf("no entry for %v, used in %s line %d", k, uses[0].file, uses[0].lo)
		}
		delete(got, k)
		mixed, id2 := false, false
		for _, u := range uses {
			if u.plural != uses[0].plural {
				mixed = true
			}
			if u.plural && u.id2 == p.id2 {
				id2 = true
			}
		}
		if p.plural && !id2 {
			return fmt.Sprintf("the entry for %v has the plural %q, which no use has", k, p.id2)
		}
		if !mixed && p.plural != uses[0].plural {
			return fmt.Sprintf("the entry for %v: plural %v, the uses: plural %v", k, p.plural, uses[0].plural)
		}
		refs := positions(p.refs)
		for _, u := range uses {
			ok := false
			for _, r := range refs {
				if r.file == u.file && r.line >= u.lo && r.line <= u.hi {
					ok = true
				}
			}
			if !ok && (!mixed || u.plural == p.plural) {
				return fmt.Sprintf("the entry for %v lacks its use in %s line %d to %d (it has %q)", k, u.file, u.lo, u.hi, p.refs)
			}
		}
		for _, r := range refs {
			ok := false
			for _, u := range uses {
				if r.file == u.file && r.line >= u.lo && r.line <= u.hi {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("the entry for %v has position %s:%d, where it is not used", k, r.file, r.line)
			}
		}
	}
	for k := range got {
		return fmt.Sprintf("an entry for %v, which no keyword selects", k)
	}
	return ""
}

type position struct {
	file string
	line int
}

func positions(refs []string) (l []position) {
	one := func(s string) (position, bool) {
		i := strings.LastIndexByte(s, ':')
		if i < 0 {
			return position{}, false
		}
		n, err := strconv.Atoi(s[i+1:])
		f := s[:i]
		if !strings.HasPrefix(f, "/") {
			f = "/vsim/work/" + f
		}
		return position{path.Clean(f), n}, err == nil
	}
	for _, r := range refs {
		// names may hold blanks: split only behind numbers
		cur := ""
		for _, w := range strings.Split(r, " ") {
			if cur != "" {
				cur += " "
			}
			cur += w
			if p, ok := one(cur); ok {
				l = append(l, p)
				cur = ""
			}
		}
		if cur != "" {
			l = append(l, position{cur, -1})
		}
	}
	return
}

// reason tells whether the run had a reason to fail, and whether it had to.
func (s *xtScn) reason(m *xtModel, faults []simkernel.Fault, res *xtjob.Result) (may, must string) {
	if !m.kwOK {
		may = "keywords or pattern not certainly valid"
	}
	if len(m.matchD) > 0 {
		may = "the pattern matches a directory"
	}
	for _, f := range m.matched {
		if m.bad[f] {
			must = f + " is malformed"
		}
	}
	if m.refuse != "" {
		must = m.refuse
	}
	listed := map[string]bool{}
	for d, isDir := range m.tree {
		if isDir {
			listed[d] = true
		}
	}
	out := s.outPath()
	for i, f := range faults {
		if i >= len(res.Hits) || res.Hits[i] == 0 {
			continue
		}
		what := fmt.Sprintf("%s of %s failed with %s", f.Op, f.Path, f.Err)
		if may == "" {
			may = what
		}
		if f.Times > 0 {
			continue
		}
		tmpl := false
		for _, t := range m.matched {
			tmpl = tmpl || t == f.Path
		}
		switch {
		case tmpl && (f.Op == "open" || f.Op == "read"),
			f.Path == out && (f.Op == "create" || f.Op == "write" || f.Op == "close"),
			f.Path == "stdout" && out == "" && f.Op == "write",
			listed[f.Path] && f.Op == "list" && s.needsList(m, f.Path):
			must = what
		}
	}
	if res.Fired["disk full"] > 0 {
		must = "the disk is full"
	}
	if out != "" && s.OutDir > 0 {
		must = "the output cannot be opened: " + []string{"", "its directory is missing", "it is a directory"}[s.OutDir%3]
	}
	if must != "" {
		may = must
	}
	return
}

// needsList tells whether the pattern asks what is in a directory.
func (s *xtScn) needsList(m *xtModel, dir string) bool {
	p := s.Input
	if !strings.HasPrefix(p, "/") {
		p = "/vsim/work/" + p
	}
	pc := strings.Split(path.Clean(p)[1:], "/")
	dc := strings.Split(dir[1:], "/")
	if len(dc) >= len(pc) || !strings.ContainsAny(pc[len(dc)], "*?[") {
		return false
	}
	for i := range dc {
		if ok, _ := path.Match(pc[i], dc[i]); !ok {
			return false
		}
	}
	return true
}

var xtErrs = []string{"eio", "eacces", "emfile", "enomem", "estale"}

// genXTFaults draws faults where they matter.
func genXTFaults(r *core.Rand, s *xtScn) {
	m := s.model()
	n := 1
	if r.P(1, 4) {
		n = 2
	}
	for ; n > 0; n-- {
		f := simkernel.Fault{Err: core.Pick(r, xtErrs)}
		out := s.outPath()
		switch k := r.N(10); {
		case k < 4 && len(m.matched) > 0:
			f.Path = core.Pick(r, m.matched)
			f.Op = core.Pick(r, []string{"open", "open", "read", "read", "close", "fstat", "stat"})
			if f.Op == "open" { // the file may also be gone by now
				f.Err = core.Pick(r, append([]string{"enoent", "enoent", "eperm", "eloop", "enotdir", "enxio", "eisdir"}, xtErrs...))
			}
			if f.Op == "read" {
				f.Skip = r.N(len(m.src[f.Path]) + 1)
				if r.P(1, 4) {
					f.Skip = len(m.src[f.Path])
				}
			}
		case k < 6:
			dirs := []string{}
			for d, isDir := range m.tree {
				if isDir {
					dirs = append(dirs, d)
				}
			}
			sort.Strings(dirs)
			f.Path = core.Pick(r, dirs)
			f.Op = core.Pick(r, []string{"list", "list", "open", "stat"})
			if f.Op == "list" {
				f.Skip = r.N(3)
			}
		case out != "":
			f.Path = out
			f.Op = core.Pick(r, []string{"create", "write", "write", "close"})
			f.Err = core.Pick(r, []string{"eio", "enospc", "edquot", "erofs", "eacces"})
			if f.Op == "write" {
				f.Skip = r.N(900)
				if r.P(1, 3) {
					f.Skip = 0
				}
				if r.P(1, 4) {
					s.Free = int64(r.N(1200)) + 1
					continue
				}
			}
		default:
			f.Path, f.Op, f.Err, f.Skip = "stdout", "write", core.Pick(r, []string{"eio", "enospc"}), r.N(900)
		}
		if r.P(1, 6) && f.Op != "write" {
			f.Times = 1
		}
		s.Faults = append(s.Faults, f)
	}
}

// genXTDamage makes one of the inputs unusable.
func genXTDamage(r *core.Rand, s *xtScn) {
	if r.P(1, 12) { // very much goes wrong
		raw := "{{if}}"
		if s.Left != "" {
			raw = s.Left + "if" + s.Right
		}
		s.Input = "wrong/*"
		for i := core.Pick(r, []int{255, 256, 256, 257, 512}); i > 0; i-- {
			s.Files = append(s.Files, xtFile{Path: fmt.Sprintf("wrong/%d", i), Raw: raw})
		}
		return
	}
	switch r.N(4) {
	case 0:
		if r.P(2, 3) {
			s.KWRaw = mangleKW(r, s.keywords())
			return
		}
		s.KWRaw = core.Pick(r, []string{"T:0", "T:-1", "N:1,0", "N:0,1", "X:0c,1", "X:1c,0", "XN:1c,2,0", "XN:1,2,3", "T:1c", "T:1,", "T:,1", "T;;X", "T:", "T:a", "N:1,2,3", "T:1:2", ":1", "X:1c", "T:99999999999999999999", "X:1c,2c", "a-b", "T;", "T:1,2,3,4", "1x", " ", "T;x.y"})
	case 1:
		s.Input = core.Pick(r, []string{"tpl/[", "[a-", "tpl/[]a]*", "*/[x"})
	default:
		if len(s.Files) == 0 {
			return
		}
		f := &s.Files[r.N(len(s.Files))]
		if f.Dir {
			return
		}
		f.Raw = core.Pick(r, []string{"{{T \"x\"}}\n{{if}}", "{{", "{{T \"unclosed}}", "{{end}}", "{{range .}}{{T \"a\"}}", "a\n{{T \"a\"}}{{.}.}}", "{{$x.T \"a\"}}", "{{define \"x\"}}a{{end}}{{define \"x\"}}b{{end}}", "{{/* open", "{{break}}", "{{T \"a\" | \"b\"}}", "{{else}}", "\ue0ff\ue0fe{{T 1x}}", "{{if .}}{{else}}{{else}}{{end}}"})
		if s.Left != "" {
			f.Raw = strings.ReplaceAll(strings.ReplaceAll(f.Raw, "{{", s.Left), "}}", s.Right)
		}
		s.Input = core.Pick(r, []string{f.Path, path.Dir(f.Path) + "/*"})
	}
}

func genC13(r *core.Rand) scenario {
	s := genXT(r)
	switch r.N(5) {
	case 0, 1:
		genXTFaults(r, s)
	case 2:
		if r.P(1, 2) {
			genXTDamage(r, s)
		}
	}
	return s
}

func runC13(sc scenario, e *Env) {
	s := sc.(*xtScn)
	m := s.model()
	if !m.valid || len(s.Ways) == 0 {
		e.trivial = true
		return
	}
	res := s.exec(e, s.job(m, s.Ways[0], s.Faults, s.Free, 0))
	s.judge(e, m, res)
	n := 0
	for _, f := range m.matched {
		n += len(m.uses[f])
	}
	e.trivial = n == 0
	e.FaultN("uses", 0)
	for _, u := range m.matched {
		if len(m.uses[u]) > 0 {
			e.Probe("file with messages")
		}
	}
}

func (s *xtScn) judge(e *Env, m *xtModel, res *xtjob.Result) {
	may, must := s.reason(m, s.Faults, res)
	if res.Exit == 0 {
		if must != "" {
			e.Fail("false success", s.findingKey(must, res), "%s, but the command ends with success", must)
			return
		}
		out, ok := s.output(res)
		if !ok {
			e.Fail("incomplete", "", "the command ends with success, but there is no output")
			return
		}
		if len(m.matchD) > 0 || !m.kwOK {
			e.Probe("pattern or keywords out of scope accepted")
			return
		}
		if bad := s.complete(m, out); bad != "" {
			e.Fail("incomplete", "", "the command ends with success, but %s", bad)
			return
		}
		e.Probe("complete output")
		return
	}
	if may == "" {
		e.Fail("false failure", "", "nothing is wrong, but the command ends with status %d: %s", res.Exit, string(res.Stderr))
		return
	}
	if len(bytes.TrimSpace(res.Stderr)) == 0 {
		e.Fail("silent failure", "", "%s; the command ends with status %d and says nothing", may, res.Exit)
		return
	}
	e.Probe("failed with a reason")
}

func (s *xtScn) findingKey(must string, res *xtjob.Result) string { return "" }

func genC14(r *core.Rand) scenario {
	s := genXT(r)
	for i := r.Range(1, 3); i > 0; i-- {
		s.Ways = append(s.Ways, genWay(r))
	}
	if r.P(1, 10) {
		genXTDamage(r, s)
	}
	return s
}

// masked replaces the creation date and returns its value.
func masked(out string) (string, string) {
	const mark = "POT-Creation-Date: "
	i := strings.Index(out, mark)
	if i < 0 {
		return out, ""
	}
	i += len(mark)
	j := strings.IndexAny(out[i:], "\\\"\n")
	if j < 0 {
		return out, ""
	}
	return out[:i] + "DATE" + out[i+j:], out[i : i+j]
}

func runC14(sc scenario, e *Env) {
	s := sc.(*xtScn)
	m := s.model()
	if !m.valid || len(s.Ways) < 2 {
		e.trivial = true
		return
	}
	first, firstOut := (*xtjob.Result)(nil), ""
	for i, w := range s.Ways {
		res := s.exec(e, s.job(m, w, nil, 0, 0))
		out, _ := s.output(res)
		date := ""
		if res.Exit == 0 {
			out, date = masked(out)
			t, err := time.Parse("2006-01-02 15:04:05-0700", date)
			if err != nil {
				e.Fail("date", "", "the creation date %q: %v", date, err)
				return
			}
			if ns := t.UnixNano(); ns < res.ClockA-1e9 || ns > res.ClockB {
				e.Fail("date", "", "the creation date is %q, the run took place from %s to %s", date, time.Unix(0, res.ClockA).UTC(), time.Unix(0, res.ClockB).UTC())
				return
			}
			e.Probe("date compared")
		}
		if i == 0 {
			first, firstOut = res, out
			continue
		}
		if res.Exit != first.Exit {
			e.Fail("differs", "", "the first run ends with status %d, run %d with %d: %s", first.Exit, i, res.Exit, string(res.Stderr))
			return
		}
		if out != firstOut {
			e.Fail("differs", "", "run %d writes other bytes than the first one: %s", i, firstDiff(firstOut, out))
			return
		}
		e.Probe("runs compared")
	}
	n := 0
	for _, f := range m.matched {
		n += len(m.uses[f])
	}
	e.trivial = n < 2
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return fmt.Sprintf("line %d is %q and %q", i+1, x[i], y[i])
		}
	}
	return fmt.Sprintf("%d and %d lines", len(x), len(y))
}

func genC15(r *core.Rand) scenario {
	s := genXT(r)
	for s.outPath() == "" {
		s.NoOut, s.Out = false, "out.pot"
	}
	switch r.N(6) {
	case 0, 1:
		genXTDamage(r, s)
	case 2, 3:
		s.Kill = r.Range(1, 1000)
	case 4:
		genXTFaults(r, s)
	default:
		genXTFaults(r, s)
		genXTDamage(r, s)
		if r.P(1, 2) {
			s.Kill = r.Range(1, 1000)
		}
	}
	return s
}

func runC15(sc scenario, e *Env) {
	s := sc.(*xtScn)
	m := s.model()
	out := s.outPath()
	if !m.valid || len(s.Ways) == 0 || out == "" {
		e.trivial = true
		return
	}
	kill := 0
	if s.Kill > 0 {
		res := s.exec(e, s.job(m, s.Ways[0], s.Faults, s.Free, 0))
		s.untouched(e, m, res, out)
		if e.Failed() {
			return
		}
		kill = 1 + res.Calls*(s.Kill-1)/1000
	}
	res := s.exec(e, s.job(m, s.Ways[0], s.Faults, s.Free, kill))
	s.untouched(e, m, res, out)
	e.trivial = res.Exit == 0
}

func (s *xtScn) untouched(e *Env, m *xtModel, res *xtjob.Result, out string) {
	for p, src := range m.src {
		if c, ok := res.Files[p]; !ok || string(c) != src {
			e.Fail("template changed", "", "the template %s was changed", p)
			return
		}
	}
	if res.Exit == 0 {
		e.Probe("succeeded")
		return
	}
	// was everything extracted when it ended?
	why := ""
	struck := res.Fired["disk full"] > 0
	for _, n := range res.Hits {
		struck = struck || n > 0
	}
	switch {
	case !m.kwOK && !res.Killed && !struck && len(m.matchD) == 0:
		why = "the keywords or the pattern were refused"
	default:
		for _, f := range m.matched {
			if m.bad[f] {
				why = f + " is malformed"
			} else if res.Read[f] < len(m.src[f]) {
				why = f + " was not read to its end"
			}
		}
		if len(m.matchD) > 0 && !res.Killed && !struck && m.kwOK {
			why = m.matchD[0] + " is a directory and was matched"
		}
		for i, f := range s.Faults {
			if i < len(res.Hits) && res.Hits[i] > 0 && f.Times == 0 && !res.Killed {
				if _, ok := m.src[f.Path]; ok && (f.Op == "open" || f.Op == "read") {
					why = fmt.Sprintf("%s of %s failed", f.Op, f.Path)
				}
				if s.needsList(m, f.Path) && f.Op == "list" {
					why = fmt.Sprintf("%s of %s failed", f.Op, f.Path)
				}
			}
		}
	}
	if why == "" {
		e.Probe("ended after the extraction")
		return
	}
	how := fmt.Sprintf("the command ended with status %d", res.Exit)
	if res.Killed {
		how = "the command was killed"
		e.Probe("killed before the extraction was complete")
	} else {
		e.Probe("failed before the extraction was complete")
	}
	c, ok := res.Files[out]
	switch {
	case s.OutDir > 0 && !ok:
	case s.Had && !ok:
		e.Fail("output lost", "", "%s (%s): the earlier output was removed", how, why)
	case s.Had && string(c) != s.Prev:
		e.Fail("output lost", "", "%s (%s): the earlier output of %d bytes was replaced by %d bytes", how, why, len(s.Prev), len(c))
	case !s.Had && ok:
		e.Fail("output made", "", "%s (%s): an output of %d bytes was made", how, why, len(c))
	}
}

func init() {
	n := func() scenario { return &xtScn{} }
	props["C13"] = &prop{gen: genC13, new: n, run: runC13}
	props["C14"] = &prop{gen: genC14, new: n, run: runC14}
	props["C15"] = &prop{gen: genC15, new: n, run: runC15}
}
