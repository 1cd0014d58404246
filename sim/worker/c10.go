package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"

	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/simkernel"
)

// C10: a save reports success only if everything was written.
// C11: a completed save survives a crash and reloads equivalently.
// C12: a catalog depends only on the entries it holds.

// pieces are what unusual texts are made of. Replay files are JSON and cannot
// hold invalid UTF-8: runes from U+E000 on stand for single bytes, see raw.
var pieces = []string{"\"", "\\", "\t", "\n", "\n\n", "\r", "\r\n", "é", "世界", "\u200b", "\U0001f600", "\ue0ff", "\ue0c3", "\ue0e4\ue0b8", "%", "%%", "#", "#: ", "msgid ", "\"\"", "\\n", "\\x", "\x01", "\x1b", "\x7f", "'", "`",
	" ", "  ", "a", "word", "longer words of a sentence ", "nospaceatallinthisratherlongpieceoftextwhichislongerthanthelinelimitofthewriterandthenabitmoretobesure", "[0]", "msgstr[0] \"x\"", "\ufeff", "\u2028", "$", ":", "Language: xx", "\u0085"}

func raw(s string) string {
	var b []byte
	for _, c := range s {
		if c >= 0xe000 && c < 0xe100 {
			b = append(b, byte(c))
		} else {
			b = append(b, string(c)...)
		}
	}
	return string(b)
}

// rawCat is the catalog meant.
func rawCat(c *model.Catalog) *model.Catalog {
	k := *c
	k.Entries = nil
	for _, x := range c.Entries {
		x.Ctxt, x.ID, x.ID2, x.Str = raw(x.Ctxt), raw(x.ID), raw(x.ID2), raw(x.Str)
		l := x.Strs
		x.Strs = nil
		for _, t := range l {
			x.Strs = append(x.Strs, raw(t))
		}
		if x.ID != "" && k.Find(x.Ctxt, x.ID) == nil {
			k.Entries = append(k.Entries, x)
		}
	}
	return &k
}

func genText(r *core.Rand) string {
	var sb strings.Builder
	for i := r.Range(1, 1+r.N(9)); i > 0; i-- {
		if r.P(1, 2) {
			sb.WriteString(core.Pick(r, []string{"one ", "two", "three words here", " ", "x", "abcdef "}))
		} else {
			sb.WriteString(core.Pick(r, pieces))
		}
	}
	return sb.String()
}

func genComments(r *core.Rand) (l []string) {
	for i := r.N(3); i > 0; i-- {
		l = append(l, core.Pick(r, []string{
			fmt.Sprintf("#: src/%c.go:%d", 'a'+r.N(4), r.N(200)),
			fmt.Sprintf("#: src/%c.go:%d:%d src/z.go:7", 'a'+r.N(4), r.N(200), r.N(90)),
			"# translated by hand", "#. extracted", "#, fuzzy", "#, c-format", "#| msgid \"old\"", "#~ msgid \"gone\"", "#", "#:", "#: ü.go:1  ", "#:x.go:99999999999999999999"}))
	}
	return
}

// genWild draws a catalog of translated messages with unusual texts.
func genWild(r *core.Rand, lang, tag string, max int, comments bool) *model.Catalog {
	c := genCatalog(r, lang, tag, r.Range(1, max))
	if r.P(1, 10) {
		c.NoHeader = true
	}
	forms := c.Forms
	if forms == 0 {
		forms = 2
	}
	for i := r.N(max); i > 0; i-- {
		e := model.Entry{ID: genText(r)}
		if r.P(1, 3) {
			e.Ctxt = genText(r)
			if strings.HasPrefix(e.Ctxt, "#:") {
				e.Ctxt = "c" + e.Ctxt
			}
		}
		if r.P(1, 3) {
			e.Plural, e.ID2 = true, genText(r)
			if r.P(1, 6) {
				e.ID2 = "" // declared, but empty
			}
			for k := r.Range(1, forms+1); k > 0; k-- {
				e.Strs = append(e.Strs, genText(r))
			}
			if r.P(1, 6) {
				e.Strs[r.N(len(e.Strs))] = ""
			}
		} else {
			e.Str = genText(r)
		}
		if r.P(1, 30) {
			e.ID = strings.Repeat(e.ID+" ", r.Range(2, 60))
		}
		if r.P(1, 60) {
			e.Str, e.Plural, e.ID2, e.Strs = strings.Repeat(genText(r), r.Range(20, 300)), false, "", nil
		}
		if c.Find(e.Ctxt, e.ID) == nil {
			c.Entries = append(c.Entries, e)
		}
	}
	if comments {
		for i := range c.Entries {
			c.Entries[i].Cmts = genComments(r)
		}
	}
	if r.P(1, 60) {
		enlarge(r, c, tag, 130)
		if !comments {
			for i := range c.Entries {
				c.Entries[i].Cmts = nil
			}
		}
	}
	return c
}

func entryOf(e model.Entry) *translator.Entry {
	return &translator.Entry{MsgCmts: append([]string(nil), e.Cmts...), MsgCtxt: e.Ctxt, MsgID: e.ID, IsPlural: e.Plural, MsgID2: e.ID2, MsgStr: e.Str, MsgStrN: append([]string(nil), e.Strs...)}
}

// makeFile makes the real catalog: from stored bytes or entry by entry.
func makeFile(c *model.Catalog, how string, po model.POStyle, mo model.MOStyle) (*translator.File, error) {
	switch how {
	case "po":
		po.Cmts = false
		if n := len(c.PO(model.POStyle{})); po.Wrap > 0 && po.Wrap < n/100 {
			po.Wrap = n / 100
		}
		return translator.ReadPo(c.PO(po))
	case "mo":
		return translator.ReadMo(c.MO(mo))
	}
	f := new(translator.File)
	for _, e := range c.All() {
		f.AddEntry(entryOf(e))
	}
	return f, nil
}

func save(f *translator.File, format string, w io.Writer) error {
	switch format {
	case "mo":
		return f.SaveAsMo(w)
	case "pot":
		return f.SaveAsPot(w)
	}
	return f.SaveAsPo(w)
}

var askNs = []int64{0, 1, 2, 3, 5, 7, 11, 12, 21, 100, 101, 1000000}

// answers shows everything a catalog answers: for the messages of c and others.
func answers(f *translator.File, c *model.Catalog) string {
	var sb strings.Builder
	sb.WriteString(f.Lang())
	for _, h := range headerNames(c) {
		v, ok := f.GetHeader(h)
		fmt.Fprintf(&sb, "\x01%s=%q %v", h, v, ok)
	}
	fmt.Fprintf(&sb, "\x01%q", f.X("", ""))
	eachMsg(c, func(ctxt, id, id2 string) {
		fmt.Fprintf(&sb, "\x02%q %q: %q", ctxt, id, f.X(ctxt, id))
		for _, n := range askNs {
			fmt.Fprintf(&sb, " %d=%q", n, f.XN64(ctxt, id, id2, n))
		}
	})
	return sb.String()
}

func eachMsg(c *model.Catalog, f func(ctxt, id, id2 string)) {
	for _, x := range c.Entries {
		f(x.Ctxt, x.ID, x.ID2)
		if !x.Plural && x.Str != "" {
			f(x.Ctxt, x.ID, "some")
		}
	}
	for _, v := range vocab {
		f(v.ctxt, v.id, v.id2)
	}
	f("", "no such message", "no such messages")
}

func headerNames(c *model.Catalog) []string {
	l := []string{"Language", "Plural-Forms", "Content-Type", "Project-Id-Version", "X-None", "", "X-Tag", "X-Other", "PO-Revision-Date", "x-tag"}
	for _, kv := range c.Extra {
		l = append(l, kv[0])
	}
	return l
}

// modelAnswers is what answers should show.
func modelAnswers(c *model.Catalog) string {
	var sb strings.Builder
	if !c.NoHeader {
		sb.WriteString(c.Lang)
	}
	for _, h := range headerNames(c) {
		v, ok := c.GetHeader(h)
		fmt.Fprintf(&sb, "\x01%s=%q %v", h, v, ok)
	}
	fmt.Fprintf(&sb, "\x01%q", c.X("", "", nil))
	eachMsg(c, func(ctxt, id, id2 string) {
		fmt.Fprintf(&sb, "\x02%q %q: %q", ctxt, id, c.X(ctxt, id, nil))
		for _, n := range askNs {
			fmt.Fprintf(&sb, " %d=%q", n, c.XN(ctxt, id, id2, n, nil))
		}
	})
	return sb.String()
}

// differ shows where two views differ.
func differ(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	a := i - 60
	if a < 0 {
		a = 0
	}
	cut := func(s string) string {
		b := i + 60
		if b > len(s) {
			b = len(s)
		}
		if a > len(s) {
			return ""
		}
		return s[a:b]
	}
	return fmt.Sprintf("at %d of %d and %d: got …%q… want …%q…", i, len(got), len(want), cut(got), cut(want))
}

// attempt is one save.
type attempt struct {
	Fmt  string `json:"fmt"`
	Dest string `json:"dest"`          // mem, writer, rich, seek, file
	Had  int    `json:"had,omitempty"` // seek, file: what it holds before
	How  string `json:"how"`           // what happens at the limit: error, short, once, blip
	At   int    `json:"at"`            // where, in 1/65536 of the complete file; beyond: not at all
	Err  string `json:"err,omitempty"`
	Plus int    `json:"plus,omitempty"` // off by some bytes
	Ask  bool   `json:"ask,omitempty"`  // queries and other saves while writing
	// file
	D     simkernel.Delivery `json:"d"`
	Full  bool               `json:"full,omitempty"` // disk full instead of an error
	Times int                `json:"times,omitempty"`
}

func (a *attempt) limit(total int) int {
	if a.How == "" {
		return 1 << 40
	}
	n := a.At*total/65536 + a.Plus
	if n < 0 {
		n = 0
	}
	return n
}

var writeErrs = []string{"enospc", "eio", "epipe", "edquot", "custom", "eof", "short", "closed", "eagain", "eintr", "nil-text"}

func writeErr(k string) error {
	switch k {
	case "enospc":
		return &os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}
	case "eio":
		return syscall.EIO
	case "epipe":
		return io.ErrClosedPipe
	case "eof":
		return io.EOF
	case "short":
		return io.ErrShortWrite
	case "closed":
		return os.ErrClosed
	case "eagain":
		return syscall.EAGAIN
	case "eintr":
		return syscall.EINTR
	case "nil-text":
		return errors.New("")
	case "edquot":
		return fmt.Errorf("wrapped: %w", syscall.EDQUOT)
	}
	return customErr{}
}

func genAttempt(r *core.Rand) attempt {
	a := attempt{Fmt: core.Pick(r, []string{"po", "pot", "mo"}), Dest: core.Pick(r, []string{"writer", "writer", "rich", "seek", "file"}), At: r.N(65537)}
	if r.P(1, 2) {
		a.Had = r.N(300)
	}
	switch r.N(8) {
	case 0:
	case 1, 2:
		a.How = "short"
	case 3:
		a.How = "blip"
	default:
		a.How = "error"
	}
	switch r.N(6) {
	case 0:
		a.At = 0
	case 1:
		a.At, a.Plus = 65536, -r.Range(1, 3)
	case 2:
		a.At = 65536
		a.Plus = r.N(2)
	case 3:
		a.At, a.Plus = 0, r.N(60)
	}
	a.Err = core.Pick(r, writeErrs)
	a.Ask = r.P(1, 4)
	if a.Dest == "file" {
		a.D = simkernel.GenDelivery(r)
		a.Full = r.P(1, 2)
		a.Times = r.N(3)
		a.Err = core.Pick(r, []string{"enospc", "eio", "edquot", "efbig", "epipe", "erofs"})
	}
	return a
}

// dest is a simulated destination.
type dest struct {
	a      *attempt
	limit  int
	got    []byte
	err    error // what it returned last
	calls  int
	zeros  int
	broken bool // refused something
	inside func()
}

// Write accepts bytes up to the limit.
func (d *dest) Write(p []byte) (int, error) {
	d.calls++
	runtime.VerifYield(7)
	if d.inside != nil {
		f := d.inside
		d.inside = nil
		f()
	}
	room := d.limit - len(d.got)
	if len(p) <= room {
		d.got = append(d.got, p...)
		return len(p), nil
	}
	if room < 0 {
		room = 0
	}
	d.got = append(d.got, p[:room]...)
	d.broken = true
	if d.a.How == "short" {
		// a caller may go on with what was not accepted; it is not kept forever
		if d.zeros++; d.zeros > 2000 {
			return room, writeErr(d.a.Err)
		}
		return room, nil
	}
	if d.a.How == "blip" { // works again afterwards
		d.limit = 1 << 40
	}
	return room, writeErr(d.a.Err)
}

// seekDest is a destination like a file that holds something already. Nothing
// but writing at the end is expected of it.
type seekDest struct {
	richDest
	had []byte
	pos int // where the next byte goes, in had and got together
	bad string
}

func (d *seekDest) Seek(off int64, whence int) (int64, error) {
	switch n := len(d.had) + len(d.got); whence {
	case io.SeekStart:
		d.pos = int(off)
	case io.SeekCurrent:
		d.pos += int(off)
	default:
		d.pos = n + int(off)
	}
	if d.pos < 0 {
		d.pos = 0
		return 0, syscall.EINVAL
	}
	return int64(d.pos), nil
}

func (d *seekDest) at() {
	if d.pos != len(d.had)+len(d.got) && d.bad == "" {
		d.bad = fmt.Sprintf("writes at %d, the end is %d", d.pos, len(d.had)+len(d.got))
	}
}

func (d *seekDest) Write(p []byte) (int, error) {
	d.at()
	n, err := d.richDest.Write(p)
	d.pos += n
	return n, err
}

func (d *seekDest) WriteString(s string) (int, error) { return d.Write([]byte(s)) }

func (d *seekDest) ReadFrom(r io.Reader) (int64, error) {
	d.at()
	n, err := d.richDest.ReadFrom(r)
	d.pos += int(n)
	return n, err
}

func (d *seekDest) Truncate(n int64) error {
	if n != int64(len(d.had)+len(d.got)) && d.bad == "" {
		d.bad = fmt.Sprintf("truncated to %d, the end is %d", n, len(d.had)+len(d.got))
	}
	return nil
}

func (d *seekDest) Close() error { // whoever opened it closes it
	if d.bad == "" {
		d.bad = "closed"
	}
	return nil
}

func (d *seekDest) Sync() error  { return nil }
func (d *seekDest) Flush() error { return nil }

// richDest has the optional interfaces a writer may have.
type richDest struct{ *dest }

func (d richDest) WriteString(s string) (int, error) { return d.Write([]byte(s)) }
func (d richDest) WriteByte(c byte) error {
	n, err := d.Write([]byte{c})
	if err == nil && n == 0 {
		err = io.ErrShortWrite
	}
	return err
}
func (d richDest) ReadFrom(r io.Reader) (n int64, err error) {
	var b [37]byte
	for {
		k, rerr := r.Read(b[:])
		if k > 0 {
			w, err := d.Write(b[:k])
			n += int64(w)
			if err == nil && w < k {
				err = io.ErrShortWrite
			}
			if err != nil {
				return n, err
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

type saveSc struct {
	Base
	C    *model.Catalog `json:"c"`
	From string         `json:"from"` // po, mo, entries
	PO   model.POStyle  `json:"po"`
	Bin  model.MOStyle  `json:"bin"`
	A    []attempt      `json:"a"`
	Par  [][]attempt    `json:"par,omitempty"` // goroutines saving the same catalog
	Runs []cycle        `json:"runs,omitempty"`
	More bool           `json:"more,omitempty"` // entries without translation too
}

func genC10(r *core.Rand) scenario {
	s := &saveSc{C: genWild(r, genLocale(r), "s", 6, true), PO: genPOStyle(r), Bin: genMOStyle(r)}
	s.From = core.Pick(r, []string{"po", "mo", "entries", "entries"})
	if s.From == "entries" && r.P(1, 3) {
		for i := range s.C.Entries {
			if r.P(1, 4) {
				s.C.Entries[i].Str, s.C.Entries[i].Strs = "", nil
			}
		}
	}
	if r.P(1, 12) {
		s.C.Entries, s.C.NoHeader, s.From = nil, true, "entries" // an empty catalog
	}
	for i := r.Range(2, 6); i > 0; i-- {
		s.A = append(s.A, genAttempt(r))
	}
	if r.P(1, 3) {
		for i := r.Range(2, 3); i > 0; i-- {
			var l []attempt
			for k := r.Range(1, 2); k > 0; k-- {
				a := genAttempt(r)
				if a.Dest == "file" {
					a.Dest = "writer"
				}
				l = append(l, a)
			}
			s.Par = append(s.Par, l)
		}
	}
	return s
}

func runC10(sc scenario, e *Env) {
	s := sc.(*saveSc)
	if s.C == nil {
		return
	}
	s.C = rawCat(s.C)
	f, err := makeFile(s.C, s.From, s.PO, s.Bin)
	if err != nil {
		return
	}
	before := answers(f, s.C)
	entries := showEntries(f)
	full := map[string][]byte{}
	for _, k := range []string{"po", "pot", "mo"} {
		var b bytes.Buffer
		if err := save(f, k, &b); err != nil {
			e.Fail("healthy save failed", "", "saving as %s into memory: %v", k, err)
			return
		}
		full[k] = b.Bytes()
		e.Logf("%s %d %x", k, b.Len(), core.MixStr(1, b.String()))
	}
	check := func(who string, a *attempt, got []byte, err error) {
		want := full[a.Fmt]
		whole := bytes.Equal(got, want)
		switch {
		case !bytes.HasPrefix(want, got):
			e.Fail("not a leading part", "", "%s: save as %s (%s): %d bytes accepted are no leading part of the complete %d: %s", who, a.Fmt, a.Dest, len(got), len(want), differ(string(got), string(want)))
		case err == nil && !whole:
			e.Fail("success without all", "", "%s: save as %s (%s) returned no error, but only %d of %d bytes were accepted", who, a.Fmt, a.Dest, len(got), len(want))
		case err != nil && whole:
			e.Fail("failure with all", "", "%s: save as %s (%s) failed (%v), but all %d bytes were accepted", who, a.Fmt, a.Dest, err, len(want))
		}
		if err != nil {
			e.Probe("save failed")
			if len(got) > 0 {
				e.Probe("save failed after a part")
			}
		} else {
			e.Probe("save succeeded")
		}
	}
	try := func(who string, a *attempt) {
		d := &dest{a: a, limit: a.limit(len(full[a.Fmt]))}
		if a.Ask {
			d.inside = func() {
				var b bytes.Buffer
				for _, k := range []string{"mo", "po", "pot"} {
					b.Reset()
					if err := save(f, k, &b); err != nil || !bytes.Equal(b.Bytes(), full[k]) {
						e.Fail("save during a save", "", "%s: a save as %s from within the destination gives error %v: %s", who, k, err, differ(b.String(), string(full[k])))
					}
				}
			}
		}
		var w io.Writer = d
		sd := &seekDest{richDest: richDest{d}, had: []byte(strings.Repeat("# earlier\n", a.Had)), pos: 10 * a.Had}
		switch a.Dest {
		case "rich":
			w = richDest{d}
		case "seek":
			w = sd
		}
		err := save(f, a.Fmt, w)
		if sd.bad != "" {
			e.Fail("destination misused", "", "%s: the save as %s: the destination, which holds something before what is saved, was %s", who, a.Fmt, sd.bad)
		}
		if d.broken {
			e.Fault("destination: " + a.How)
		}
		check(who, a, d.got, err)
	}
	for i := range s.A {
		a := &s.A[i]
		who := fmt.Sprintf("attempt %d", i)
		e.Op()
		if a.Dest == "file" {
			k := simkernel.New()
			k.D = a.D
			k.Put("/vsim/work", nil)
			lim := a.limit(len(full[a.Fmt]))
			had := strings.Repeat("# earlier\n", a.Had)
			if lim < 1<<40 {
				lim += len(had)
				if a.Full {
					k.Free = int64(lim)
				} else {
					k.Faults = append(k.Faults, simkernel.Fault{Path: "/vsim/work/out", Op: "write", Err: a.Err, Skip: lim, Times: a.Times})
				}
			}
			k.Start()
			out, err := os.Create("/vsim/work/out")
			hadErr := err
			if err == nil {
				_, hadErr = out.WriteString(had)
			}
			if hadErr == nil {
				err = save(f, a.Fmt, out)
				if _, cerr := out.Stat(); cerr != nil {
					e.Fail("destination misused", "", "%s: the save as %s closed the file: %v", who, a.Fmt, cerr)
				}
				out.Close()
			}
			k.Stop()
			for _, n := range k.FiredNames() {
				e.FaultN("kernel: "+n, int(k.Fired[n]))
			}
			got, _ := k.Content("/vsim/work/out")
			if hadErr != nil {
				continue
			}
			if !bytes.HasPrefix(got, []byte(had)) {
				e.Fail("destination misused", "", "%s: the save as %s changed what the file held before: %s", who, a.Fmt, differ(string(got), had))
				return
			}
			check(who, a, got[len(had):], err)
		} else {
			try(who, a)
		}
		if e.Failed() {
			return
		}
		if got := answers(f, s.C); got != before {
			e.Fail("catalog changed", "", "after %s: %s", who, differ(got, before))
		}
		if got := showEntries(f); got != entries {
			e.Fail("catalog changed", "", "entries after %s: %s", who, differ(got, entries))
		}
		var b bytes.Buffer
		if err := save(f, a.Fmt, &b); err != nil || !bytes.Equal(b.Bytes(), full[a.Fmt]) {
			e.Fail("repeated save", "", "repeating %s into memory: error %v, %s", who, err, differ(b.String(), string(full[a.Fmt])))
		}
		if e.Failed() {
			return
		}
	}
	if len(s.Par) > 0 {
		for g := range s.Par {
			e.Go(func() {
				for i := range s.Par[g] {
					try(fmt.Sprintf("goroutine %d, save %d", g, i), &s.Par[g][i])
				}
			})
		}
		e.Run()
		e.CheckPanics()
		e.Probe("concurrent saves")
		if got := answers(f, s.C); got != before {
			e.Fail("catalog changed", "", "after concurrent saves: %s", differ(got, before))
		}
	}
}

func showEntries(f *translator.File) string {
	var sb strings.Builder
	for _, x := range f.SortedEntry() {
		fmt.Fprintf(&sb, "%q %q %q %v %q %q %q\n", x.MsgCmts, x.MsgCtxt, x.MsgID, x.IsPlural, x.MsgID2, x.MsgStr, x.MsgStrN)
	}
	return sb.String()
}

// cycle is one save, crash and reload.
type cycle struct {
	Fmt   string             `json:"fmt"`
	D     simkernel.Delivery `json:"d"`
	Crash uint64             `json:"crash"`
	Lost  bool               `json:"lost,omitempty"` // never made durable
	Via   string             `json:"via"`            // how it is stored: create, rename, over
	Load  string             `json:"load"`           // how it is read: read, bind
	Trail int                `json:"trail,omitempty"`
}

func genC11(r *core.Rand) scenario {
	s := &saveSc{C: genWild(r, genLocale(r), "s", 8, r.P(2, 3)), PO: genPOStyle(r), Bin: genMOStyle(r)}
	s.From = core.Pick(r, []string{"po", "mo", "entries", "entries"})
	for i := r.Range(1, 5); i > 0; i-- {
		c := cycle{Fmt: core.Pick(r, []string{"po", "mo", "po", "mo", "pot"}), D: simkernel.GenDelivery(r), Crash: r.U64() >> 1}
		c.Lost = r.P(1, 5)
		c.Via = core.Pick(r, []string{"create", "rename", "over"})
		c.Load = core.Pick(r, []string{"read", "read", "bind"})
		s.Runs = append(s.Runs, c)
	}
	if s.From == "entries" && r.P(1, 4) {
		s.More = true
		for i := range s.C.Entries {
			// an untranslated message without plural answers plural queries
			// with its own text, one that is not there with the plural asked for
			if mayEmpty(s.C.Entries[i]) && r.P(1, 4) {
				s.C.Entries[i].Str, s.C.Entries[i].Strs = "", nil
			}
		}
	}
	return s
}

// mayEmpty: whether all queries of the simulator answer the same for the
// message without translation as for none.
func mayEmpty(x model.Entry) bool {
	if x.Plural && x.ID2 != "" {
		return true
	}
	for _, v := range vocab {
		if v.id == x.ID {
			return false
		}
	}
	return true
}

func runC11(sc scenario, e *Env) {
	s := sc.(*saveSc)
	if s.C == nil {
		return
	}
	s.C = rawCat(s.C)
	if len(s.C.All()) == 0 {
		return // nothing to save
	}
	setEnv(envDefault)
	defer t.SetGlobal(t.NewTranslations())
	f, err := makeFile(s.C, s.From, s.PO, s.Bin)
	if err != nil {
		return
	}
	want := modelAnswers(s.C)
	if got := answers(f, s.C); got != want {
		e.Fail("original", "", "before any save: %s", differ(got, want))
		return
	}
	dropped := s.From == "po"
	k := simkernel.New()
	k.Put("/vsim/work", nil)
	k.Put("/vsim/work/over.po", bytes.Repeat([]byte("msgid \"old\"\nmsgstr \"alt\"\n"), 40))
	k.Put("/vsim/work/over.mo", bytes.Repeat([]byte("\xde\x12\x04\x95 old content"), 60))
	k.Start()
	defer k.Stop()
	for i := range s.Runs {
		c := &s.Runs[i]
		who := fmt.Sprintf("cycle %d (%s)", i, c.Fmt)
		k.Stop()
		k.D = c.D
		k.Start()
		e.Op()
		ext := "." + c.Fmt
		path := fmt.Sprintf("/vsim/work/c%d%s", i, ext)
		if c.Via == "over" {
			path = "/vsim/work/over" + ext
		}
		tmp := path
		if c.Via == "rename" {
			tmp += ".tmp"
		}
		out, err := os.Create(tmp)
		if err != nil {
			panic(fmt.Sprint("simulated create: ", err))
		}
		err = save(f, c.Fmt, out)
		if err != nil {
			e.Fail("healthy save failed", "", "%s: %v", who, err)
			return
		}
		if !c.Lost {
			if err := out.Sync(); err != nil {
				panic(fmt.Sprint("simulated sync: ", err))
			}
		}
		out.Close()
		if c.Via == "rename" {
			if err := os.Rename(tmp, path); err != nil {
				panic(fmt.Sprint("simulated rename: ", err))
			}
		}
		k.Crash(c.Crash)
		e.Fault("crash")
		stored, err := os.ReadFile(path)
		if err != nil {
			panic(fmt.Sprint("simulated read: ", err))
		}
		e.Logf("%s %d %x", who, len(stored), core.MixStr(1, string(stored)))
		if c.Lost {
			// not durable: whatever is left must not break the reload of
			// others; the catalog in memory is gone with the process, the
			// one saved before is not
			e.Fault("crash before the data was durable")
			translator.ReadPo(stored)
			translator.ReadMo(stored)
			translator.ReadPot(stored)
			continue
		}
		if p := badFile(c.Fmt, stored, s.C, dropped, s.More); p != "" {
			e.Fail("stored", "", "%s: gettext's own reading of the stored file: %s", who, p)
			return
		}
		var g *translator.File
		switch c.Fmt {
		case "pot":
			g, err = translator.ReadPot(stored)
		case "mo":
			g, err = translator.ReadMo(stored)
		default:
			g, err = translator.ReadPo(stored)
		}
		if err != nil || g == nil {
			e.Fail("refused", "", "%s: the saved file is refused: %v", who, err)
			return
		}
		if c.Fmt == "pot" {
			e.Probe("template reloaded")
			if got, want := showMessages(g), modelMessages(s.C, dropped); s.More {
				for _, l := range strings.Split(modelMessages(s.C, true), "\n") {
					if l != "" && !strings.Contains("\n"+got+"\n", "\n"+l+"\n") {
						e.Fail("template", "", "%s: %s is missing", who, l)
					}
				}
			} else if got != want {
				e.Fail("template", "", "%s: %s", who, differ(got, want))
			}
		} else {
			if got := answers(g, s.C); got != want {
				e.Fail("answers", "", "%s: the reloaded catalog differs %s", who, differ(got, want))
			}
			e.Probe("reloaded " + c.Fmt)
			if c.Load == "bind" && s.C.Lang != "" && !s.C.NoHeader {
				h := t.NewTranslations()
				t.SetGlobal(h)
				t.Bind("app", path)
				h.SetDomain("app")
				h.SetLocale(s.C.Lang)
				eachMsg(s.C, func(ctxt, id, id2 string) {
					if got, want := h.X(ctxt, id), s.C.X(ctxt, id, nil); got != want {
						e.Fail("answers", "", "%s: bound by path, %q %q answers %q, want %q", who, ctxt, id, got, want)
					}
					for _, n := range askNs {
						if got, want := h.XN64(ctxt, id, id2, n), s.C.XN(ctxt, id, id2, n, nil); got != want {
							e.Fail("answers", "", "%s: bound by path, %q %q n=%d answers %q, want %q", who, ctxt, id, n, got, want)
						}
					}
				})
				if l := k.OpenFDs(); len(l) > 0 {
					e.Fail("left open", "", "%s: %v", who, l)
				}
				e.Probe("bound by path")
			}
		}
		if e.Failed() {
			return
		}
		var b bytes.Buffer
		if err := save(g, c.Fmt, &b); err != nil {
			e.Fail("healthy save failed", "", "%s, again: %v", who, err)
		} else if !s.More && !bytes.Equal(b.Bytes(), stored) {
			e.Fail("bytes", "", "%s: saving the reloaded catalog again gives other bytes: %s", who, differ(b.String(), string(stored)))
		}
		if e.Failed() {
			return
		}
		if c.Fmt != "pot" {
			// a text catalog does not keep what is not translated
			dropped = dropped || c.Fmt != "mo"
			if len(g.SortedEntry()) == 0 {
				return // nothing is translated: nothing to save again
			}
			f = g // all that is left after the crash
		}
	}
	for _, n := range k.FiredNames() {
		e.FaultN("kernel: "+n, int(k.Fired[n]))
	}
}

// badFile reads a saved file with the simulator's own readers and compares
// what it holds with the model: the messages of c, without the untranslated
// ones if these may have got lost before (dropped); some: with any of these.
func badFile(format string, b []byte, c *model.Catalog, dropped, some bool) string {
	got := map[string]string{}
	show := func(x model.Entry) (string, string) {
		st := x.Stored()
		k := fmt.Sprintf("%q", st[0])
		switch {
		case format == "mo":
			return k, fmt.Sprintf("%q", st[1])
		case format == "pot" && (x.ID != "" || x.Ctxt != ""):
			return k, "untranslated"
		}
		return k, fmt.Sprintf("%q %q", x.Str, x.Strs)
	}
	if format == "mo" {
		l, err := model.ReadMO(b)
		if err != nil {
			return err.Error()
		}
		for _, p := range l {
			got[fmt.Sprintf("%q", p[0])] = fmt.Sprintf("%q", p[1])
		}
	} else {
		l, err := model.ReadPO(b)
		if err != nil {
			return err.Error()
		}
		for _, x := range l {
			k, v := show(x)
			if v == "untranslated" && x.Str+strings.Join(x.Strs, "") != "" {
				v = fmt.Sprintf("translated: %q %q", x.Str, x.Strs)
			}
			got[k] = v
		}
	}
	for _, x := range c.All() {
		empty := x.Str == "" && len(x.Strs) == 0
		k, want := show(x)
		have, ok := got[k]
		delete(got, k)
		switch {
		case !ok && empty && (dropped || some):
		case !ok:
			return fmt.Sprintf("%s is missing", k)
		case empty && x.Str+strings.Join(x.Strs, "") == "" && strings.Trim(strings.ReplaceAll(have, `\x00`, ""), `"[] `) == "":
		case have != want:
			return fmt.Sprintf("%s has %s, want %s", k, have, want)
		}
	}
	left := map[string]bool{}
	for k, v := range got {
		left[k+" "+v] = true
	}
	if len(left) > 0 {
		return fmt.Sprintf("%s is not of the catalog", keys(left)[0])
	}
	return ""
}

// showMessages lists the messages of a template.
func showMessages(f *translator.File) string {
	m := map[string]bool{}
	for _, x := range f.SortedEntry() {
		if x.MsgID == "" && x.MsgCtxt == "" {
			continue
		}
		m[fmt.Sprintf("%q %q %v %q", x.MsgCtxt, x.MsgID, x.IsPlural, x.MsgID2)] = true
	}
	return strings.Join(keys(m), "\n")
}

func modelMessages(c *model.Catalog, translated bool) string {
	m := map[string]bool{}
	for _, x := range c.Entries {
		if translated && x.Str == "" && len(x.Strs) == 0 {
			continue
		}
		m[fmt.Sprintf("%q %q %v %q", x.Ctxt, x.ID, x.Plural, x.ID2)] = true
	}
	return strings.Join(keys(m), "\n")
}

func keys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func init() {
	props["C10"] = &prop{gen: genC10, new: func() scenario { return &saveSc{} }, run: runC10, whole: func(sc scenario) bool { return len(sc.(*saveSc).Par) == 0 }}
	props["C11"] = &prop{gen: genC11, new: func() scenario { return &saveSc{} }, run: runC11, whole: func(scenario) bool { return true }}
}
