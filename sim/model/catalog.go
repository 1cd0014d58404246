package model

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

// Entry is one message of a catalog.
type Entry struct {
	Ctxt   string   `json:"ctxt,omitempty"`
	ID     string   `json:"id"`
	Plural bool     `json:"plural,omitempty"`
	ID2    string   `json:"id2,omitempty"`
	Str    string   `json:"str,omitempty"`
	Strs   []string `json:"strs,omitempty"`
	Cmts   []string `json:"cmts,omitempty"`
}

// Catalog is the reference model of one catalog.
type Catalog struct {
	NoHeader bool        `json:"no_header,omitempty"`
	Lang     string      `json:"lang,omitempty"`    // as written in the header
	Forms    int         `json:"forms,omitempty"`   // nplurals
	Plural   string      `json:"plural,omitempty"`  // rule; "" is no Plural-Forms line
	Extra    [][2]string `json:"extra,omitempty"`   // further header lines
	Turn     int         `json:"turn,omitempty"`    // header lines in another order
	NoTail   bool        `json:"no_tail,omitempty"` // no line break after the last header line
	Entries  []Entry     `json:"entries"`
	D        Dialect     `json:"-"`
}

// Header returns the text of the header entry.
func (c *Catalog) Header() string {
	l := []string{"Project-Id-Version: sim"}
	for _, kv := range c.Extra {
		l = append(l, kv[0]+": "+kv[1])
	}
	if c.Lang != "" {
		l = append(l, "Language: "+c.Lang)
	}
	l = append(l, "Content-Type: text/plain; charset=UTF-8")
	if c.Plural != "" {
		l = append(l, fmt.Sprintf("Plural-Forms: nplurals=%d; plural=%s;", c.Forms, c.Plural))
	}
	if k := c.Turn % len(l); k > 0 {
		l = append(l[k:], l[:k]...)
	}
	h := strings.Join(l, "\n")
	if c.NoTail {
		return h
	}
	return h + "\n"
}

// GetHeader is the value of a header line.
func (c *Catalog) GetHeader(name string) (string, bool) {
	if c.NoHeader {
		return "", false
	}
	for _, l := range strings.Split(c.Header(), "\n") {
		if k, v, ok := strings.Cut(l, ": "); ok && k == name {
			return v, true
		}
	}
	return "", false
}

// All returns the header entry, if any, and the entries.
func (c *Catalog) All() []Entry {
	var l []Entry
	if !c.NoHeader {
		l = append(l, Entry{Str: c.Header()})
	}
	return append(l, c.Entries...)
}

func (c *Catalog) Find(ctxt, id string) *Entry {
	for i := range c.Entries {
		if e := &c.Entries[i]; e.Ctxt == ctxt && e.ID == id {
			return e
		}
	}
	return nil
}

// Format is the expected text of a message with arguments: as fmt.Sprintf,
// without a trace of surplus arguments. The messages of the simulator use only
// plain %d, %s, %v verbs.
func Format(msg string, args []any) string {
	if len(args) == 0 {
		return msg
	}
	verbs := 0
	for i := 0; i < len(msg); i++ {
		if msg[i] == '%' {
			i++
			if i < len(msg) && msg[i] != '%' {
				verbs++
			}
		}
	}
	if verbs < len(args) {
		args = args[:verbs]
	}
	return fmt.Sprintf(msg, args...)
}

func DefaultPlural(id, id2 string, n int64, args []any) string {
	if id2 == "" || n == 1 {
		return Format(id, args)
	}
	return Format(id2, args)
}

// X is the expected singular translation. c may be nil: no catalog.
func (c *Catalog) X(ctxt, id string, args []any) string {
	if c != nil {
		if id == "" && ctxt == "" && !c.NoHeader {
			return Format(c.Header(), args)
		}
		if e := c.Find(ctxt, id); e != nil && e.Str != "" {
			return Format(e.Str, args)
		}
	}
	return Format(id, args)
}

// XN is the expected plural translation.
func (c *Catalog) XN(ctxt, id, id2 string, n int64, args []any) string {
	if c != nil {
		if e := c.Find(ctxt, id); e != nil {
			if e.ID2 == "" && len(e.Strs) == 0 {
				if e.Str != "" {
					return Format(e.Str, args)
				}
				return Format(id, args)
			}
			if k, ok := c.Form(n); ok && k < len(e.Strs) && e.Strs[k] != "" {
				return Format(e.Strs[k], args)
			}
		}
	}
	return DefaultPlural(id, id2, n, args)
}

// Form is the plural form of n, if the catalog defines one.
func (c *Catalog) Form(n int64) (int, bool) {
	if c.NoHeader || c.Plural == "" {
		return 0, false
	}
	e, err := c.D.Parse(c.Plural)
	if err != nil {
		return 0, false
	}
	v, err := e.Eval(n)
	if err != nil || v < 0 || v >= int64(c.Forms) {
		return 0, false
	}
	return int(v), true
}

// POStyle varies the layout of a text catalog without changing its content.
type POStyle struct {
	CRLF    bool `json:"crlf,omitempty"`
	Wrap    int  `json:"wrap,omitempty"`  // split strings into pieces of this size
	Blank   int  `json:"blank,omitempty"` // blank lines between entries
	Cmts    bool `json:"cmts,omitempty"`
	NoFinal bool `json:"no_final,omitempty"` // no newline at the end
	Pad     int  `json:"pad,omitempty"`      // blanks around the texts, by bits: behind the line, before the text, lines of blanks
	Old     bool `json:"old,omitempty"`      // messages of former versions, commented out, at the end
	Long    int  `json:"long,omitempty"`     // bytes of comments behind the first entry; odd: in one line
}

func quote(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			if r, n := utf8.DecodeRuneInString(s[i:]); r != utf8.RuneError || n > 1 {
				sb.WriteString(s[i : i+n])
				i += n - 1
			} else { // not valid UTF-8
				fmt.Fprintf(&sb, `\x%02x`, s[i])
			}
			continue
		}
		switch c := s[i]; c {
		case '"', '\\':
			sb.WriteByte('\\')
			sb.WriteByte(c)
		case '\n':
			sb.WriteString(`\n`)
		case '\t':
			sb.WriteString(`\t`)
		case '\r':
			sb.WriteString(`\r`)
		default:
			if c < 32 || c == 127 {
				fmt.Fprintf(&sb, `\x%02x`, c)
			} else {
				sb.WriteByte(c)
			}
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (st POStyle) str(sb *strings.Builder, key, s string) {
	sb.WriteString(key)
	sb.WriteByte(' ')
	if st.Pad&2 != 0 {
		sb.WriteString(" \t")
	}
	end := "\n"
	if st.Pad&1 != 0 {
		end = " \t\n"
	}
	if st.Wrap <= 0 || len(s) <= st.Wrap {
		sb.WriteString(quote(s) + end)
		return
	}
	sb.WriteString(`""` + end)
	for s != "" {
		n := st.Wrap
		if n > len(s) {
			n = len(s)
		}
		for n < len(s) && s[n]&0xc0 == 0x80 { // keep runes whole
			n++
		}
		sb.WriteString(quote(s[:n]) + end)
		s = s[n:]
	}
}

// PO encodes the catalog as a text catalog.
func (c *Catalog) PO(st POStyle) []byte {
	var sb strings.Builder
	for i, e := range c.All() {
		if i > 0 {
			for k := 0; k <= st.Blank; k++ {
				if st.Pad&4 != 0 {
					sb.WriteString("  ")
				}
				sb.WriteByte('\n')
			}
		}
		if i == 1 && st.Long > 0 {
			line := "# " + strings.Repeat("lorem ipsum ", 6) + "\n"
			if st.Long%2 == 1 {
				line = "# " + strings.Repeat("lorem ipsum ", st.Long/12) + "\n"
			}
			sb.WriteString(strings.Repeat(line, (st.Long+len(line)-1)/len(line)))
		}
		if st.Cmts {
			fmt.Fprintf(&sb, "# comment %d\n#: file.go:%d\n", i, i+1)
		}
		for _, cm := range e.Cmts {
			sb.WriteString(cm + "\n")
		}
		if e.Ctxt != "" {
			st.str(&sb, "msgctxt", e.Ctxt)
		}
		st.str(&sb, "msgid", e.ID)
		if e.Plural {
			st.str(&sb, "msgid_plural", e.ID2)
			for k, s := range e.Strs {
				st.str(&sb, fmt.Sprintf("msgstr[%d]", k), s)
			}
		} else {
			st.str(&sb, "msgstr", e.Str)
		}
	}
	if st.Old {
		sb.WriteString("\n#~ msgctxt \"verb\"\n#~ msgid \"open\"\n#~ msgstr \"formerly\"\n\n#~ msgid \"apple\"\n#~ msgid_plural \"apples\"\n#~ msgstr[0] \"formerly\"\n#~ msgstr[1] \"\"\n#~ \"formerly too\"\n")
	}
	out := sb.String()
	if st.NoFinal {
		out = strings.TrimSuffix(out, "\n")
	}
	if st.CRLF {
		out = strings.ReplaceAll(out, "\n", "\r\n")
	}
	return []byte(out)
}

// MOStyle varies the layout of a binary catalog.
type MOStyle struct {
	Big      bool `json:"big,omitempty"`
	Unsorted bool `json:"unsorted,omitempty"`
	Gap      int  `json:"gap,omitempty"` // unused bytes between header and tables
	StrFirst bool `json:"str_first,omitempty"`
	Hash     bool `json:"hash,omitempty"` // with a hash table, as msgfmt writes it
}

func prime(n int) bool {
	for i := 2; i*i <= n; i++ {
		if n%i == 0 {
			return false
		}
	}
	return true
}

// MO encodes the catalog as a binary catalog.
func (c *Catalog) MO(st MOStyle) []byte {
	type pair struct{ id, str string }
	var l []pair
	for _, e := range c.All() {
		id := e.ID
		if e.Ctxt != "" {
			id = e.Ctxt + "\x04" + id
		}
		str := e.Str
		if e.Plural {
			id += "\x00" + e.ID2
			str = strings.Join(e.Strs, "\x00")
		}
		l = append(l, pair{id, str})
	}
	if !st.Unsorted {
		sort.SliceStable(l, func(i, j int) bool { return l[i].id < l[j].id })
	}
	var bo binary.ByteOrder = binary.LittleEndian
	if st.Big {
		bo = binary.BigEndian
	}
	n := len(l)
	o := 28 + st.Gap
	t := o + 8*n
	data := t + 8*n
	hash := data
	size := 0
	if st.Hash {
		size = max(3, n*4/3)
		for !prime(size) {
			size++
		}
		data += 4 * size
	}
	buf := make([]byte, data)
	put := func(off int, v int) { bo.PutUint32(buf[off:], uint32(v)) }
	put(0, 0x950412de)
	put(8, n)
	put(12, o)
	put(16, t)
	put(20, size)
	put(24, hash)
	for i := 0; size > 0 && i < n; i++ {
		key, _, _ := strings.Cut(l[i].id, "\x00")
		h := uint32(0)
		for _, c := range []byte(key) { // hashpjw
			h = h<<4 + uint32(c)
			if g := h & 0xf0000000; g != 0 {
				h ^= g>>24 ^ g
			}
		}
		k := int(h % uint32(size))
		for bo.Uint32(buf[hash+4*k:]) != 0 {
			k = (k + 1 + int(h%uint32(size-2))) % size
		}
		put(hash+4*k, i+1)
	}
	add := func(tab int, get func(p pair) string) {
		for i, p := range l {
			s := get(p)
			put(tab+8*i, len(s))
			put(tab+8*i+4, len(buf))
			buf = append(append(buf, s...), 0)
		}
	}
	if st.StrFirst {
		add(t, func(p pair) string { return p.str })
		add(o, func(p pair) string { return p.id })
	} else {
		add(o, func(p pair) string { return p.id })
		add(t, func(p pair) string { return p.str })
	}
	return buf
}
