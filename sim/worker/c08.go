package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"runtime"
	"runtime/metrics"
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
	"verif.local/sim/core"
	"verif.local/sim/model"
)

// C08: damaged catalogs are contained.
// C09: a torn catalog never yields made-up translations.

// damage is one change of stored bytes.
type damage struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"` // position, in 1/65536 of the file
	B int    `json:"b,omitempty"`
	N int    `json:"n,omitempty"`
	S string `json:"s,omitempty"`
}

var damageKinds = []string{"flip", "set", "cut", "zero", "insert", "delete", "dup", "swap", "word", "word", "word", "line", "line", "unquote", "text", "rand", "zerotail", "word16", "longline", "repeat", "number", "number"}

var poLines = []string{"msgid \"\"", "msgstr \"\"", "msgid_plural \"x\"", "msgstr[0] \"a\"", "msgstr[1] \"b\"", "msgstr[9] \"z\"", "msgctxt \"c\"", "\"dangling\"", "#", "#: x:1",
	"msgstr[ \"", "msgid", "msgid ", "msgid \"", "msgstr[99999999999999999999] \"x\"", "msgstr[-1] \"x\"", "\"Plural-Forms: nplurals=2; plural=n/0;\\n\"",
	"\"Plural-Forms: nplurals=9; plural=(((((((n))))))) % 0 ? : ;\\n\"", "\"Plural-Forms: nplurals=1; plural=n-9223372036854775807-9;\\n\"", "\"Language: \\n\"", "\"Language: xx\\n\"",
	"\"Plural-Forms: nplurals=3; plural=n << 70;\\n\"", "\"Plural-Forms: nplurals=3; plural=n * 9223372036854775807 % n;\\n\"", "msgid `raw`", "msgstr 'c'", "msgstr \"\\xff\\xfe\"", "  msgid \"indented\"", "\ufeffmsgid \"bom\"", "~", "#~ msgid \"old\"", "domain \"x\"",
	"msgstr \"%!d(BADINDEX) %[5]d %*d %\"", "msgid \"\\x04\"", "msgid \"\\x00\""}

func genDamage(r *core.Rand) damage {
	d := damage{K: core.Pick(r, damageKinds), A: r.N(65536), B: r.N(65536), N: r.N(64)}
	switch d.K {
	case "line":
		d.S = core.Pick(r, poLines)
	case "text", "insert":
		d.S = core.Pick(r, []string{"\x00", "\xff\xff\xff\xff", "\"", "\\", "\n", "\r", "\x04", "\x00\x00\x00\x00", "%", "{", "msgid ", ";", "nplurals=9", "(", "?", ":", "n"})
	}
	return d
}

var words = []uint32{0, 1, 2, 7, 27, 28, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x10000000, 0x00ffffff, 0xfffffff0, 1 << 16}

var numbers = []string{"0", "1", "2", "3", "7", "10", "007", "-1", "-0", "255", "65536", "3000000", "99999999", "2147483647", "4294967295", "4294967297", "9223372036854775807", "18446744073709551616", "1e9", "0x10"}

func (d damage) apply(b []byte) []byte {
	n := len(b)
	at := d.A * (n + 1) / 65536
	if at > n {
		at = n
	}
	end := at + d.N
	if end > n {
		end = n
	}
	out := append([]byte(nil), b...)
	switch d.K {
	case "flip":
		if at < n {
			out[at] ^= 1 << uint(d.B&7)
		}
	case "set":
		if at < n {
			out[at] = byte(d.B)
		}
	case "cut":
		out = out[:at]
	case "zero":
		for i := at; i < end; i++ {
			out[i] = 0
		}
	case "zerotail":
		for i := at; i < n; i++ {
			out[i] = 0
		}
	case "insert", "text":
		out = append(append(append([]byte(nil), b[:at]...), d.S...), b[at:]...)
	case "delete":
		out = append(append([]byte(nil), b[:at]...), b[end:]...)
	case "dup":
		out = append(append(append([]byte(nil), b[:end]...), b[at:end]...), b[end:]...)
	case "repeat":
		out = append([]byte(nil), b[:end]...)
		for i := 0; i < 20+d.B%40; i++ {
			out = append(out, b[at:end]...)
		}
		out = append(out, b[end:]...)
	case "swap":
		bt := d.B * (n + 1) / 65536
		for i := 0; i < d.N && at+i < n && bt+i < n; i++ {
			out[at+i], out[bt+i] = out[bt+i], out[at+i]
		}
	case "word": // a length, offset or count field of a binary catalog
		i := at &^ 3
		if d.N&3 == 0 {
			i = 4 * (d.N >> 2) // in the header
		}
		v := words[d.B%len(words)]
		switch d.B % 5 {
		case 1:
			v = uint32(n) + uint32(d.B%9) - 4
		case 2:
			v = uint32(d.B) % uint32(n+8)
		}
		if i+4 <= n {
			if d.B&1024 != 0 {
				binary.BigEndian.PutUint32(out[i:], v)
			} else {
				binary.LittleEndian.PutUint32(out[i:], v)
			}
		}
	case "overlap": // tables of a binary catalog with many strings that are all nearly the whole file
		if n < 28 || d.N == 0 {
			break
		}
		var bo binary.ByteOrder = binary.LittleEndian
		if bo.Uint32(b) != 0x950412de {
			bo = binary.BigEndian
		}
		cnt := d.N * 60
		out = append(out, make([]byte, 16*cnt)...)
		bo.PutUint32(out[8:], uint32(cnt))
		bo.PutUint32(out[12:], uint32(n))
		bo.PutUint32(out[16:], uint32(n+8*cnt))
		for i := 0; i < 2*cnt; i++ {
			off := at*(d.B&1) + i%(1+d.B/2)
			bo.PutUint32(out[n+8*i:], uint32(len(out)-off))
			bo.PutUint32(out[n+8*i+4:], uint32(off))
		}
	case "word16":
		if at+2 <= n {
			binary.LittleEndian.PutUint16(out[at:], uint16(d.B))
		}
	case "line":
		l := strings.Split(string(b), "\n")
		i := d.A * len(l) / 65536
		switch d.N % 4 {
		case 0:
			l[i] = d.S
		case 1:
			l = append(append(append([]string(nil), l[:i]...), d.S), l[i:]...)
		case 2:
			l = append(append([]string(nil), l[:i]...), l[i+1:]...)
		case 3:
			j := d.B * len(l) / 65536
			l[i], l[j] = l[j], l[i]
		}
		out = []byte(strings.Join(l, "\n"))
	case "unquote":
		k := 0
		for i, c := range b {
			if c == '"' {
				if k++; k == 1+d.N%20 {
					out = append(append([]byte(nil), b[:i]...), b[i+1:]...)
					break
				}
			}
		}
	case "longline":
		out = append(append(append([]byte(nil), b[:at]...), bytes.Repeat([]byte("x "), 200+d.B%2000)...), b[at:]...)
	case "number": // a decimal number of a text catalog
		i := at
		for i < n && (b[i] < '0' || b[i] > '9') {
			i++
		}
		if d.N&3 == 0 { // prefer an index in brackets
			if j := bytes.IndexByte(b[at:], '['); j >= 0 {
				i = at + j + 1
			}
		}
		j := i
		for j < n && b[j] >= '0' && b[j] <= '9' {
			j++
		}
		out = append(append(append([]byte(nil), b[:i]...), numbers[d.B%len(numbers)]...), b[j:]...)
	case "rand":
		for i := at; i < end; i++ {
			out[i] = byte(core.Mix(uint64(d.B), uint64(i)))
		}
	}
	return out
}

type damSc struct {
	Base
	Cats []catSpec  `json:"cats"`
	As   []string   `json:"as"` // how it is read: po, pot, mo, load
	Dam  [][]damage `json:"dam"`
	Junk string     `json:"junk,omitempty"`
	Cuts []int      `json:"cuts,omitempty"`
	Zero int        `json:"zero,omitempty"` // C09: zeros instead of the lost tail
	Save bool       `json:"save,omitempty"` // C09: stored by the library's own save
	N    []int64    `json:"n"`
}

func genC08(r *core.Rand) scenario {
	s := &damSc{}
	for i := r.Range(1, 4); i > 0; i-- {
		c := genCatSpec(r, genLocale(r), fmt.Sprintf("d%d", i), 5)
		if r.P(1, 60) {
			c.bigger(r)
		}
		s.Cats = append(s.Cats, c)
		as := "po"
		if c.MO {
			as = "mo"
		}
		switch r.N(6) {
		case 0:
			as = core.Pick(r, []string{"po", "mo", "pot"})
		case 1:
			as = "load"
		case 2:
			if !c.MO {
				as = "pot"
			}
		}
		s.As = append(s.As, as)
		var l []damage
		for k := r.Range(1, 4); k > 0; k-- {
			l = append(l, genDamage(r))
		}
		if r.P(1, 12) {
			l = nil
		}
		if r.P(1, 40) {
			l = []damage{{K: "overlap", A: r.N(65536), B: r.N(65536), N: r.N(64)}}
		}
		s.Dam = append(s.Dam, l)
	}
	for i := 0; i < 3; i++ {
		s.N = append(s.N, core.Pick(r, counts))
	}
	s.N = append(s.N, core.Pick(r, []int64{-1, -1 << 63, 1<<63 - 1, -5}))
	if r.P(1, 10) {
		b := make([]byte, r.N(200))
		for i := range b {
			b[i] = byte(r.N(256))
			if r.P(1, 2) {
				b[i] = core.Pick(r, []byte("msgidstr \"\n[]0_plural#\x00\x04"))
			}
		}
		s.Junk = string(b)
	}
	return s
}

// budget is what reading b may allocate: generous, but in proportion.
func allocBudget(b []byte) uint64 { return 4<<20 + 3000*uint64(len(b)) }

func (s *damSc) probe(e *Env, i int, b []byte, as string) {
	var f *translator.File
	var err error
	runtime.VerifAllocLimit(uintptr(1<<20 + 64*len(b)))
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	p := e.Solo(func() {
		switch as {
		case "mo":
			f, err = translator.ReadMo(b)
		case "pot":
			f, err = translator.ReadPot(b)
		default:
			f, err = translator.ReadPo(b)
		}
	})
	big := runtime.VerifBigAlloc()
	runtime.VerifAllocLimit(allocLimit)
	if e.Failed() {
		return
	}
	runtime.ReadMemStats(&m1)
	e.Op()
	if big > 0 {
		e.Fail("memory", "", "reading %d bytes (catalog %d) as %s asks for %d bytes at once", len(b), i, as, big)
		return
	}
	if p != "" {
		e.Fail("panic in read", "", "reading catalog %d as %s: %s", i, as, p)
		return
	}
	if got := m1.TotalAlloc - m0.TotalAlloc; got > allocBudget(b) {
		e.Fail("memory", "", "reading %d bytes (catalog %d) as %s allocated more than %d bytes", len(b), i, as, allocBudget(b))
		return
	}
	if err != nil {
		e.Log("refused")
		e.Probe("refused by " + as)
		if f != nil {
			e.Probe("refused with a catalog")
		}
		return
	}
	if f == nil {
		e.Fail("nothing", "", "reading catalog %d as %s gives neither a catalog nor an error", i, as)
		return
	}
	e.Probe("accepted by " + as)
	var sig string
	mt := meter{budget: allocBudget(b)}
	if p := e.Solo(func() { sig = s.use(f, &mt) }); p != "" {
		e.Fail("panic in use", "", "after reading catalog %d as %s: %s", i, as, p)
	}
	if mt.over != "" {
		e.Fail("memory in use", "", "after reading %d bytes (catalog %d) as %s, %s allocated more than %d bytes", len(b), i, as, mt.over, allocBudget(b))
	}
	if e.Failed() {
		return
	}
	e.Log(sig)
}

// meter watches what single calls allocate.
type meter struct {
	budget uint64
	last   uint64
	over   string
}

func allocated() uint64 {
	s := [1]metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s[:])
	return s[0].Value.Uint64()
}

func (m *meter) after(what string) {
	now := allocated()
	if m.over == "" && m.last > 0 && now-m.last > m.budget {
		m.over = what
	}
	m.last = now
}

// use queries, translates and saves everything in a catalog.
func (s *damSc) use(f *translator.File, mt *meter) string {
	var sb strings.Builder
	sb.WriteString(f.Lang())
	for _, h := range []string{"Plural-Forms", "Language", "Content-Type", ""} {
		v, ok := f.GetHeader(h)
		fmt.Fprintf(&sb, "|%s %v", v, ok)
	}
	mt.after("start")
	// the generated parser leaves garbage (not memory in use) growing with
	// the square of the nesting of a rule
	pf, _ := f.GetHeader("Plural-Forms")
	if strings.Count(pf, "(")+strings.Count(pf, "?") > 50 {
		mt.budget = 1 << 62
	}
	ask := func(ctxt, id, id2 string) {
		if mt.over != "" {
			return
		}
		// a verb in a text may ask for a large width: with arguments, what is
		// allocated is up to fmt
		sb.WriteString("\x01" + f.X(ctxt, id, 1, "a"))
		for _, n := range s.N {
			sb.WriteString("\x02" + f.XN64(ctxt, id, id2, n, n, "a"))
		}
		mt.last = allocated()
		sb.WriteString("\x01" + f.X(ctxt, id))
		mt.after("X")
		for _, n := range s.N {
			sb.WriteString("\x02" + f.XN64(ctxt, id, id2, n))
			mt.after(fmt.Sprintf("XN64 of %d", n))
		}
	}
	l := f.SortedEntry()
	for _, x := range l {
		if x == nil {
			sb.WriteString("nil entry")
			continue
		}
		ask(x.MsgCtxt, x.MsgID, x.MsgID2)
	}
	for _, v := range vocab[:4] {
		ask(v.ctxt, v.id, v.id2)
	}
	for i, save := range []func(io.Writer) error{f.SaveAsPo, f.SaveAsPot, f.SaveAsMo} {
		if mt.over != "" {
			return ""
		}
		var b bytes.Buffer
		mt.after("sorting")
		err := save(&b)
		mt.after("a save")
		fmt.Fprintf(&sb, "%d %v %d %x", i, err, b.Len(), core.MixStr(1, b.String()))
		switch i {
		case 0:
			translator.ReadPo(b.Bytes())
		case 1:
			translator.ReadPot(b.Bytes())
		case 2:
			translator.ReadMo(b.Bytes())
		}
	}
	return sb.String()
}

func runC08(sc scenario, e *Env) {
	s := sc.(*damSc)
	setEnv(envDefault)
	defer t.SetGlobal(t.NewTranslations())
	if len(s.N) == 0 {
		s.N = []int64{1}
	}
	// a healthy catalog that is loaded all the while
	good := &model.Catalog{Lang: "fr", Forms: 2, Plural: "n > 1", Entries: []model.Entry{{ID: "file", Plural: true, ID2: "files", Strs: []string{"fichier", "fichiers"}}, {ID: "apple", Str: "pomme"}}}
	h := t.NewTranslations()
	tr := treeSpec{Cats: []catSpec{{C: good, Name: "good"}}}
	h.BindFS("good", tr.build().fsys())
	h = h.D("good").L("fr")
	healthy := func(after string) {
		for _, n := range []int64{0, 1, 2, 5} {
			if got, want := h.N64("file", "files", n), good.XN("", "file", "files", n, nil); got != want {
				e.Fail("healthy catalog", "", "after %s: the loaded catalog answers %q, want %q", after, got, want)
			}
		}
		if got := h.T("apple"); got != "pomme" {
			e.Fail("healthy catalog", "", "after %s: the loaded catalog answers %q", after, got)
		}
	}
	for i := range s.Cats {
		b := s.Cats[i].bytes()
		if i < len(s.Dam) {
			for _, d := range s.Dam[i] {
				b = d.apply(b)
				e.Fault("damage: " + d.K)
			}
			if len(s.Dam[i]) == 0 {
				e.Probe("undamaged")
			}
		}
		if len(b) > 200_000 {
			b = b[:200_000]
		}
		as := "po"
		if i < len(s.As) {
			as = s.As[i]
		}
		if as == "load" {
			root := &simNode{name: ".", dir: true}
			root.file("x"+s.Cats[i].ext(), b, faults{})
			f := newFS(root, delivery{})
			if p := e.Solo(func() { h.BindFS("damaged", f.fsys()) }); p != "" {
				e.Fail("panic in load", "", "%s", p)
			}
			if e.Failed() {
				return
			}
			x := h.D("damaged")
			var sig string
			if p := e.Solo(func() {
				for _, l := range x.Locales() {
					y := x.L(l)
					for m := range vocab {
						for _, n := range s.N {
							c := call{K: "XN64", M: m, N: n, Args: m%2 == 0}
							sig += c.on(y, c.args("x")) + call{K: "X", M: m}.on(y, nil)
						}
					}
				}
			}); p != "" {
				e.Fail("panic in use", "", "%s", p)
			}
			if e.Failed() {
				return
			}
			e.Log(sig)
			e.Probe("loaded")
		} else {
			s.probe(e, i, b, as)
		}
		if e.Failed() {
			return
		}
		healthy(fmt.Sprintf("catalog %d", i))
	}
	if s.Junk != "" {
		for _, as := range []string{"po", "pot", "mo"} {
			s.probe(e, -1, []byte(s.Junk), as)
			if e.Failed() {
				return
			}
		}
		e.Fault("damage: junk")
		healthy("junk")
	}
}

func genC09(r *core.Rand) scenario {
	s := &damSc{Cats: []catSpec{genCatSpec(r, genLocale(r), "d", 6)}, Save: r.P(1, 3)}
	s.Cats[0].MO = r.P(1, 3)
	for i := range s.Cats[0].C.Entries {
		if r.P(1, 4) {
			s.Cats[0].C.Entries[i].Cmts = []string{fmt.Sprintf("#: src/f%d.go:%d", r.N(4), r.N(300))}
		}
	}
	if r.P(1, 60) {
		s.Cats[0].bigger(r)
	}
	for i := r.Range(4, 12); i > 0; i-- {
		s.Cuts = append(s.Cuts, r.N(65536))
	}
	for i := r.N(4); i > 0; i-- { // close to the end and at line ends
		s.Cuts = append(s.Cuts, -r.Range(1, 40))
	}
	if r.P(1, 3) {
		s.Zero = r.Range(1, 300)
	}
	s.As = []string{core.Pick(r, []string{"read", "load"})}
	return s
}

func runC09(sc scenario, e *Env) {
	s := sc.(*damSc)
	setEnv(envDefault)
	if len(s.Cats) == 0 {
		return
	}
	cs := s.Cats[0]
	cat := cs.cat()
	full := cs.bytes()
	if s.Save {
		f, err := cs.readFile()
		if err != nil {
			return
		}
		var b bytes.Buffer
		if cs.MO {
			err = f.SaveAsMo(&b)
		} else {
			err = f.SaveAsPo(&b)
		}
		if err != nil {
			return
		}
		full = b.Bytes()
		e.Probe("stored by a save")
	}
	ns := []int64{0, 1, 2, 3, 5, 11, 21, 100}
	for ci, c := range s.Cuts {
		at := c * (len(full) + 1) / 65536
		if c < 0 {
			at = len(full) + c
		}
		if at < 0 {
			at = 0
		}
		if at > len(full) {
			at = len(full)
		}
		if !cs.MO && ci%3 == 1 { // at the end of a line
			for at < len(full) && at > 0 && full[at-1] != '\n' {
				at++
			}
		}
		b := append([]byte(nil), full[:at]...)
		e.Op()
		e.Fault("lost tail")
		if s.Zero > 0 && !cs.MO && ci%2 == 0 {
			b = append(b, make([]byte, s.Zero)...)
			e.Fault("tail of zeros")
		}
		// which entry of a text catalog the cut is in, if it is between lines
		last := ""
		if !cs.MO && betweenLines(full, at) {
			last = lastEntry(full[:at])
		}
		var tor translator.Translator
		var err error
		if s.As[0] == "load" {
			root := &simNode{name: ".", dir: true}
			root.file("x"+cs.ext(), b, faults{})
			h := t.NewTranslations()
			h.BindFS("app", newFS(root, delivery{}).fsys())
			tr, ok := h.Get("app")
			if !ok {
				err = io.EOF
			} else {
				tor, ok = tr.Get(norm(cat.Lang))
				if !ok {
					// a torn header may name another language: still only
					// stored texts may come out of it
					for _, l := range h.D("app").Locales() {
						if x, ok := tr.Get(l); ok {
							tor = x
						}
					}
				}
			}
		} else if cs.MO {
			var f *translator.File
			if f, err = translator.ReadMo(b); err == nil {
				tor = f
			}
		} else {
			var f *translator.File
			if f, err = translator.ReadPo(b); err == nil {
				tor = f
			}
		}
		if err != nil || tor == nil {
			e.Probe("refused")
			e.Logf("%d refused", at)
			continue
		}
		if at < len(full) {
			e.Probe("accepted a part")
		}
		e.Logf("%d accepted", at)
		whole := at >= len(full) || cs.MO && moComplete(full, at)
		if cs.MO && !whole {
			e.Fail("torn binary catalog accepted", "", "%d of %d bytes, some strings are lost, but the catalog is accepted", at, len(full))
			return
		}
		ask := func(ctxt, id, id2 string) {
			key := ctxt + "\x04" + id
			got, want, src := tor.X(ctxt, id), cat.X(ctxt, id, nil), model.Format(id, nil)
			if whole && got != want {
				e.Fail("nothing lost", "", "complete catalog: %q %q answers %q, want %q", ctxt, id, got, want)
			}
			if got != want && got != src && !(key == last && strings.HasPrefix(want, got)) {
				e.Fail("made up", "", "%d of %d bytes: %q %q answers %q, stored is %q", at, len(full), ctxt, id, got, want)
			}
			if id == "" {
				return
			}
			for _, n := range ns {
				got, want, src := tor.XN64(ctxt, id, id2, n), cat.XN(ctxt, id, id2, n, nil), model.DefaultPlural(id, id2, n, nil)
				if whole && got != want {
					e.Fail("nothing lost", "", "complete catalog: %q %q n=%d answers %q, want %q", ctxt, id, n, got, want)
				}
				if got != want && got != src && !(key == last && strings.HasPrefix(want, got)) {
					e.Fail("made up", "", "%d of %d bytes: %q %q n=%d answers %q, stored is %q", at, len(full), ctxt, id, n, got, want)
				}
			}
		}
		for _, x := range cat.Entries {
			ask(x.Ctxt, x.ID, x.ID2)
			if i := len(x.ID) / 2; i > 0 {
				ask(x.Ctxt, x.ID[:i], "")
			}
		}
		for _, v := range vocab {
			ask(v.ctxt, v.id, v.id2)
		}
		ask("", "", "")
		if e.Failed() {
			return
		}
	}
}

// moComplete says whether the first at bytes hold every string.
func moComplete(b []byte, at int) bool {
	var bo binary.ByteOrder = binary.LittleEndian
	if bo.Uint32(b) != 0x950412de {
		bo = binary.BigEndian
	}
	n, o, t := int(bo.Uint32(b[8:])), int(bo.Uint32(b[12:])), int(bo.Uint32(b[16:]))
	for _, tab := range []int{o, t} {
		for i := 0; i < n; i++ {
			if int(bo.Uint32(b[tab+8*i:])+bo.Uint32(b[tab+8*i+4:])) > at {
				return false
			}
		}
	}
	return at >= t+8*n && at >= o+8*n
}

// betweenLines says whether a cut leaves only whole lines.
func betweenLines(b []byte, at int) bool {
	if at == 0 || at >= len(b) || b[at-1] == '\n' {
		return true
	}
	rest, _, _ := bytes.Cut(b[at:], []byte("\n"))
	return len(bytes.TrimSpace(rest)) == 0
}

// lastEntry is the key of the last entry of a text catalog that has begun.
func lastEntry(b []byte) string {
	l := strings.Split(strings.ReplaceAll(string(b), "\r", ""), "\n")
	ctxt, id := "", ""
	var cur *string
	done := false // translation seen: the next msgctxt or msgid begins an entry
	unq := func(s string) string {
		s = strings.TrimSpace(s)
		if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
			return ""
		}
		return unescape(s[1 : len(s)-1])
	}
	for _, x := range l {
		switch {
		case strings.HasPrefix(x, "msgctxt "):
			ctxt, id, done = unq(x[8:]), "", false
			cur = &ctxt
		case strings.HasPrefix(x, "msgid "):
			if done {
				ctxt = ""
			}
			id, done = unq(x[6:]), false
			cur = &id
		case strings.HasPrefix(x, "msgid_plural "):
			cur = nil
		case strings.HasPrefix(x, "msgstr"):
			cur, done = nil, true
		case strings.HasPrefix(x, "\"") && cur != nil:
			*cur += unq(x)
		}
	}
	return ctxt + "\x04" + id
}

func unescape(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'n':
				sb.WriteByte('\n')
			case 't':
				sb.WriteByte('\t')
			default:
				sb.WriteByte(s[i])
			}
			continue
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

func init() {
	props["C08"] = &prop{gen: genC08, new: func() scenario { return &damSc{} }, run: runC08, maxSteps: 60_000_000}
	props["C09"] = &prop{gen: genC09, new: func() scenario { return &damSc{} }, run: runC09, whole: func(scenario) bool { return true }}
}
