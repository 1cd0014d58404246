package model

import (
	"encoding/binary"
	"fmt"
	"strings"
	"unicode/utf8"
)

// Readers of the two file formats as gettext defines them. They share nothing
// with the code under test and refuse whatever gettext's own tools would: a
// catalog that only its writer can read back is not a saved catalog.

// ReadMO reads a binary catalog. The strings come back as they are stored:
// context, EOT, id, NUL, plural id; translations joined by NUL.
func ReadMO(b []byte) (l [][2]string, err error) {
	if len(b) < 28 {
		return nil, fmt.Errorf("%d bytes are no header", len(b))
	}
	var bo binary.ByteOrder = binary.LittleEndian
	switch m := bo.Uint32(b); m {
	case 0x950412de:
	case 0xde120495:
		bo = binary.BigEndian
	default:
		return nil, fmt.Errorf("magic number %#x", m)
	}
	if v := bo.Uint32(b[4:]); v != 0 {
		return nil, fmt.Errorf("revision %#x", v)
	}
	n := uint64(bo.Uint32(b[8:]))
	if size := bo.Uint32(b[20:]); size != 0 {
		h := uint64(bo.Uint32(b[24:]))
		if size <= 2 || h+4*uint64(size) > uint64(len(b)) {
			return nil, fmt.Errorf("hash table of %d at %d in %d bytes", size, h, len(b))
		}
	}
	str := func(what string, tab uint32, i uint64) (string, error) {
		at := uint64(tab) + 8*i
		if at+8 > uint64(len(b)) {
			return "", fmt.Errorf("the table of %s ends after %d bytes, before its string %d", what, len(b), i)
		}
		size, off := uint64(bo.Uint32(b[at:])), uint64(bo.Uint32(b[at+4:]))
		if off+size+1 > uint64(len(b)) {
			return "", fmt.Errorf("string %d of %s: %d bytes at %d exceed the file of %d", i, what, size, off, len(b))
		}
		if b[off+size] != 0 {
			return "", fmt.Errorf("string %d of %s is not ended by a zero", i, what)
		}
		return string(b[off : off+size]), nil
	}
	key := func(s string) string { // what the binary search compares
		s, _, _ = strings.Cut(s, "\x00")
		return s
	}
	for i := uint64(0); i < n; i++ {
		id, err := str("ids", bo.Uint32(b[12:]), i)
		if err != nil {
			return nil, err
		}
		s, err := str("translations", bo.Uint32(b[16:]), i)
		if err != nil {
			return nil, err
		}
		if i > 0 && key(l[i-1][0]) >= key(id) {
			return nil, fmt.Errorf("ids not in increasing order: %q before %q", l[i-1][0], id)
		}
		l = append(l, [2]string{id, s})
	}
	return l, nil
}

// Stored is how a binary catalog holds the message.
func (e Entry) Stored() [2]string {
	id, str := e.ID, e.Str
	if e.Ctxt != "" {
		id = e.Ctxt + "\x04" + id
	}
	if e.Plural {
		id += "\x00" + e.ID2
		str = strings.Join(e.Strs, "\x00")
	}
	return [2]string{id, str}
}

// ReadPO reads a text catalog or template.
func ReadPO(b []byte) (l []Entry, err error) {
	if !utf8.Valid(b) {
		return nil, fmt.Errorf("not encoded as UTF-8")
	}
	var (
		last  string                      // keyword read last; "" before the first of a message
		texts map[string]*strings.Builder // by keyword
		forms int
		seen  = map[string]bool{}
	)
	get := func(word string) string {
		if t := texts[word]; t != nil {
			return t.String()
		}
		return ""
	}
	flush := func() error {
		if last == "" {
			return nil
		}
		x := Entry{Ctxt: get("msgctxt"), ID: get("msgid"), Plural: texts["msgid_plural"] != nil, ID2: get("msgid_plural"), Str: get("msgstr")}
		if !strings.HasPrefix(last, "msgstr") {
			return fmt.Errorf("%q has no msgstr", x.ID)
		}
		if x.Ctxt == "" && texts["msgctxt"] != nil {
			return fmt.Errorf("%q has an empty context, which is not the same as none", x.ID)
		}
		for k := 0; k < forms; k++ {
			x.Strs = append(x.Strs, get(fmt.Sprintf("msgstr[%d]", k)))
		}
		key := x.Ctxt + "\x04" + x.ID
		if seen[key] {
			return fmt.Errorf("%q %q is defined twice", x.Ctxt, x.ID)
		}
		seen[key] = true
		l = append(l, x)
		last, texts, forms = "", nil, 0
		return nil
	}
	for no, line := range strings.Split(string(b), "\n") {
		bad := func(f string, a ...any) error { return fmt.Errorf("line %d: %s", no+1, fmt.Sprintf(f, a...)) }
		line = strings.Trim(line, " \t\r\f\v")
		if line == "" {
			continue
		}
		if line[0] != '"' {
			word, rest, ok := strings.Cut(line, " ")
			if line[0] == '#' {
				word = "#"
			} else if !ok {
				return nil, bad("no text after %q", line)
			}
			if strings.HasPrefix(last, "msgstr") && !strings.HasPrefix(word, "msgstr[") {
				if err := flush(); err != nil {
					return nil, bad("%v", err)
				}
			}
			next := word == "#" && last == "" ||
				word == "msgctxt" && last == "" ||
				word == "msgid" && (last == "" || last == "msgctxt") ||
				word == "msgid_plural" && last == "msgid" ||
				word == "msgstr" && last == "msgid" ||
				word == "msgstr[0]" && last == "msgid_plural" ||
				forms > 0 && word == fmt.Sprintf("msgstr[%d]", forms)
			if !next {
				return nil, bad("%s after %q", word, last)
			}
			if word == "#" {
				continue
			}
			if strings.HasPrefix(word, "msgstr[") {
				forms++
			}
			if last == "" {
				texts = map[string]*strings.Builder{}
			}
			last, texts[word] = word, new(strings.Builder)
			line = strings.TrimLeft(rest, " \t")
		} else if last == "" {
			return nil, bad("a text of no keyword")
		}
		if err := poString(texts[last], line); err != nil {
			return nil, bad("%v", err)
		}
	}
	return l, flush()
}

// Unquote reads a quoted text of a text catalog.
func Unquote(q string) (string, error) {
	var sb strings.Builder
	err := poString(&sb, q)
	return sb.String(), err
}

// poString appends a quoted text, with the escapes that gettext knows.
func poString(sb *strings.Builder, q string) error {
	if len(q) < 2 || q[0] != '"' {
		return fmt.Errorf("%s is no quoted text", q)
	}
	digit := func(c byte) int { return strings.IndexByte("0123456789abcdef0123456789ABCDEF", c) & 15 }
	for i := 1; ; i++ {
		if i >= len(q) {
			return fmt.Errorf("%s does not end", q)
		}
		if q[i] == '"' {
			if i != len(q)-1 {
				return fmt.Errorf("%s is more than one text", q)
			}
			return nil
		}
		if q[i] != '\\' {
			sb.WriteByte(q[i])
			continue
		}
		i++
		if i >= len(q) {
			return fmt.Errorf("%s does not end", q)
		}
		switch c := q[i]; {
		case strings.IndexByte(`abfnrtv\"`, c) >= 0:
			sb.WriteByte("\a\b\f\n\r\t\v\\\""[strings.IndexByte(`abfnrtv\"`, c)])
		case c >= '0' && c <= '7':
			v := 0
			for k := 0; k < 3 && i < len(q) && q[i] >= '0' && q[i] <= '7'; k++ {
				v = v*8 + int(q[i]-'0')
				i++
			}
			i--
			sb.WriteByte(byte(v))
		case c == 'x':
			v, n := 0, 0
			for i+1 < len(q) && strings.IndexByte("0123456789abcdefABCDEF", q[i+1]) >= 0 {
				i++
				n++
				v = v*16 + digit(q[i])
			}
			if n == 0 {
				return fmt.Errorf(`\x without digits in %s`, q)
			}
			sb.WriteByte(byte(v))
		default:
			return fmt.Errorf(`gettext knows no escape \%c: %s`, c, q)
		}
	}
}
