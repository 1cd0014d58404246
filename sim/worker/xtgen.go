package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"text/template/parse"
	"unicode"

	"verif.local/sim/core"
	"verif.local/sim/model"
	"verif.local/sim/xtjob"
)

// The extraction command: templates, what its keywords select in them, and
// the child process that runs it.

// kwSpec is a keyword.
type kwSpec struct {
	Name string `json:"name"`
	Ctxt int    `json:"ctxt,omitempty"`
	ID   int    `json:"id"`
	ID2  int    `json:"id2,omitempty"`
	Bare bool   `json:"bare,omitempty"`
	Sp   bool   `json:"sp,omitempty"`
}

func (k kwSpec) valid() bool {
	return k.Name != "" && k.ID > 0 && k.Ctxt >= 0 && k.ID2 >= 0 && k.Ctxt != k.ID && k.ID2 != k.ID && (k.Ctxt == 0 || k.Ctxt != k.ID2)
}

func (k kwSpec) String() string {
	if k.Bare && k.ID == 1 && k.Ctxt == 0 && k.ID2 == 0 {
		return k.Name
	}
	var l []string
	if k.Ctxt > 0 {
		l = append(l, fmt.Sprintf("%dc", k.Ctxt))
	}
	l = append(l, fmt.Sprint(k.ID))
	if k.ID2 > 0 {
		l = append(l, fmt.Sprint(k.ID2))
	}
	if k.Sp {
		return " " + k.Name + " : " + strings.Join(l, " , ") + " "
	}
	return k.Name + ":" + strings.Join(l, ",")
}

// kwIndex reads an argument position: 1 fine, 0 not certain, -1 none.
func kwIndex(s string) (int, int) {
	i, err := strconv.ParseInt(s, 10, 64)
	switch {
	case s != strings.TrimSpace(s):
		return 0, 0
	case err != nil || i < 1:
		return 0, -1
	case i > 1000 || s[0] == '+' || s[0] == '0':
		return 0, 0
	}
	return int(i), 1
}

// parseKW reads a keyword specification: 1 fine, 0 not certain, -1 malformed.
func parseKW(spec string) (l []kwSpec, class int) {
	class = 1
	for _, e := range strings.Split(spec, ";") {
		p := strings.Split(e, ":")
		k := kwSpec{Name: strings.TrimSpace(p[0]), ID: 1}
		if k.Name == "" || len(p) > 2 {
			return nil, -1
		}
		if strings.IndexFunc(k.Name, func(c rune) bool { return c != '_' && !unicode.IsLetter(c) && !unicode.IsDigit(c) }) >= 0 || unicode.IsDigit([]rune(k.Name)[0]) {
			class = 0 // nothing in a template can have this name
		}
		if len(p) == 2 {
			ix := strings.Split(p[1], ",")
			for i := range ix {
				ix[i] = strings.TrimSpace(ix[i])
			}
			if len(ix) > 3 {
				return nil, -1
			}
			var dst []*int
			switch c := strings.HasSuffix(ix[0], "c"); {
			case len(ix) == 1:
				dst = []*int{&k.ID}
			case len(ix) == 2 && !c:
				dst = []*int{&k.ID, &k.ID2}
			case c:
				ix[0] = ix[0][:len(ix[0])-1]
				dst = []*int{&k.Ctxt, &k.ID, &k.ID2}
			default:
				return nil, -1
			}
			for i, s := range ix {
				n, c := kwIndex(s)
				if c < 0 {
					return nil, -1
				}
				class = min(class, c)
				*dst[i] = n
			}
			if !k.valid() {
				class = 0
			}
		}
		l = append(l, k)
	}
	return
}

// mangleKW damages a keyword specification.
func mangleKW(r *core.Rand, spec string) string {
	parts := []string{"T", "N", "X", ":", ",", ";", "c", "0", "1", "2", "3", "-1", "-", " ", "+", "x", "1c", "9", "00", ":1", ",2", "\t", "10", "99999999999999999999", ".", "0c"}
	for i := r.Range(1, 3); i > 0; i-- {
		rs := []rune(spec)
		at := r.N(len(rs) + 1)
		switch {
		case r.P(1, 3) && at < len(rs):
			spec = string(rs[:at]) + string(rs[at+1:])
		case r.P(1, 2) && at < len(rs):
			spec = string(rs[:at]) + core.Pick(r, parts) + string(rs[at+1:])
		default:
			spec = string(rs[:at]) + core.Pick(r, parts) + string(rs[at:])
		}
	}
	return spec
}

type xarg struct {
	K string `json:"k"` // str raw paren id field root chain dot num nil bool char
	S string `json:"s,omitempty"`
	P []xcmd `json:"p,omitempty"`
}

type xcmd struct {
	A []xarg `json:"a"`
}

type xnode struct {
	K    string  `json:"k"` // text act comment if range with template block define break continue
	S    string  `json:"s,omitempty"`
	P    []xcmd  `json:"p,omitempty"`
	Decl string  `json:"decl,omitempty"`
	Set  bool    `json:"set,omitempty"` // assigns instead of declaring
	B    []xnode `json:"b,omitempty"`
	E    []xnode `json:"e,omitempty"`
	Else string  `json:"else,omitempty"` // "", else, chain
	Trim int     `json:"trim,omitempty"` // 1: left, 2: right
	NL   int     `json:"nl,omitempty"`   // one blank in so many is a line break
	Rep  int     `json:"rep,omitempty"`  // a text this many times more
}

// use is a place where a message is used.
type use struct {
	file          string
	ctxt, id, id2 string
	plural        bool
	lo, hi        int
}

// xrender turns nodes into source text and collects the uses.
type xrender struct {
	sb          strings.Builder
	line        int
	left, right string
	crlf        bool
	kws         []kwSpec
	file        string
	uses        []use
	nl, blanks  int
}

func (x *xrender) w(s string) {
	x.line += strings.Count(s, "\n")
	x.sb.WriteString(s)
}

// blank is a space, sometimes a line break.
func (x *xrender) blank() {
	x.blanks++
	if x.nl > 0 && x.blanks%x.nl == 0 {
		x.w("\n\t")
		return
	}
	x.w(" ")
}

func (x *xrender) arg(a xarg) {
	switch a.K {
	case "str":
		x.w(strconv.Quote(raw(a.S)))
	case "raw":
		x.w("`" + rawString(a.S) + "`")
	case "paren":
		x.w("(")
		x.pipe(a.P)
		x.w(")")
	case "chain":
		x.w("(")
		x.pipe(a.P)
		x.w(")." + a.S)
	case "field":
		x.w("." + a.S)
	case "root":
		x.w("$." + a.S)
	case "var":
		x.w("$" + a.S)
	case "dot":
		x.w(".")
	case "nil":
		x.w("nil")
	case "id", "num", "bool", "char":
		x.w(a.S)
	default:
		x.w("\x00") // no template
	}
}

func rawString(s string) string {
	return strings.ReplaceAll(raw(s), "`", "'")
}

// text is the value of a literal.
func (a xarg) text(crlf bool) (string, bool) {
	switch a.K {
	case "str":
		return raw(a.S), true
	case "raw": // Go drops carriage returns in raw strings
		return strings.ReplaceAll(rawString(a.S), "\r", ""), true
	case "paren":
		if len(a.P) == 1 && len(a.P[0].A) == 1 {
			return a.P[0].A[0].text(crlf)
		}
	}
	return "", false
}

func (x *xrender) pipe(p []xcmd) {
	for i, c := range p {
		if i > 0 {
			x.blank()
			x.w("|")
			x.blank()
		}
		for j, a := range c.A {
			if j > 0 {
				x.blank()
			}
			x.arg(a)
		}
	}
}

// collect finds the uses in a pipeline of an action on lines lo to hi.
func (x *xrender) collect(p []xcmd, lo, hi int) {
	for i, c := range p {
		for _, a := range c.A {
			if a.K == "paren" || a.K == "chain" {
				x.collect(a.P, lo, hi)
			}
		}
		args := c.A
		if i > 0 && len(p[i-1].A) == 1 {
			if _, ok := p[i-1].A[0].text(x.crlf); ok {
				args = append(append([]xarg{}, args...), p[i-1].A[0])
			}
		}
		if len(args) == 0 {
			continue
		}
		if args[0].K == "id" && args[0].S == "call" {
			args = args[1:]
			if len(args) == 0 {
				continue
			}
		}
		name := ""
		switch args[0].K {
		case "id":
			name = args[0].S
		case "field", "root", "chain":
			l := strings.Split(args[0].S, ".")
			name = l[len(l)-1]
		case "var":
			if l := strings.Split(args[0].S, "."); len(l) > 1 {
				name = l[len(l)-1]
			}
		}
		for _, k := range x.kws {
			if k.Name != name || name == "" {
				continue
			}
			u := use{file: x.file, lo: lo, hi: hi, plural: k.ID2 > 0}
			ok := true
			get := func(i int, s *string) {
				if i == 0 {
					return
				}
				if i >= len(args) {
					ok = false
					return
				}
				t, lit := args[i].text(x.crlf)
				if !lit {
					ok = false
					return
				}
				*s = t
			}
			get(k.Ctxt, &u.ctxt)
			get(k.ID, &u.id)
			get(k.ID2, &u.id2)
			if ok {
				x.uses = append(x.uses, u)
			}
		}
	}
}

func (x *xrender) open(n *xnode, word string) int {
	lo := x.line
	x.w(x.left)
	if n != nil && n.Trim&1 != 0 {
		x.w("- ")
	}
	x.w(word)
	return lo
}

func (x *xrender) close(n *xnode) int {
	if n != nil && n.Trim&2 != 0 {
		x.w(" -")
	}
	x.w(x.right)
	return x.line
}

func (x *xrender) action(n *xnode, word string, p []xcmd) {
	x.nl, x.blanks = n.NL, 0
	lo := x.open(n, word)
	if word != "" && len(p) > 0 {
		x.blank()
	}
	if n.Decl != "" && len(p) > 0 {
		x.w(n.Decl)
		x.blank()
		if n.Set {
			x.w("=")
		} else {
			x.w(":=")
		}
		x.blank()
	}
	x.pipe(p)
	hi := x.close(n)
	x.collect(p, lo, hi)
}

func (x *xrender) nodes(l []xnode) {
	for i := range l {
		n := &l[i]
		switch n.K {
		case "text":
			x.w(strings.Repeat(n.S, 1+max(0, min(n.Rep, 2_500_000/(len(n.S)+1)))))
		case "comment":
			x.open(n, "/*")
			x.w(strings.ReplaceAll(n.S, "*/", "*"))
			x.w("*/")
			x.close(n)
		case "act":
			if len(n.P) == 0 {
				continue
			}
			x.action(n, "", n.P)
		case "if", "range", "with":
			x.control(n, n.K)
			x.open(nil, "end")
			x.close(nil)
		case "template":
			x.action(&xnode{NL: n.NL, Trim: n.Trim}, "template "+strconv.Quote(n.S), n.P)
		case "block":
			x.action(&xnode{NL: n.NL, Trim: n.Trim}, "block "+strconv.Quote(n.S), n.P)
			x.nodes(n.B)
			x.open(nil, "end")
			x.close(nil)
		case "define":
			x.action(&xnode{Trim: n.Trim}, "define "+strconv.Quote(n.S), nil)
			x.nodes(n.B)
			x.open(nil, "end")
			x.close(nil)
		case "break", "continue":
			x.open(n, n.K)
			x.close(n)
		}
	}
}

func (x *xrender) control(n *xnode, word string) {
	x.action(n, word, n.P)
	x.nodes(n.B)
	switch {
	case n.Else == "chain" && n.K != "range" && len(n.E) == 1 && n.E[0].K == n.K:
		x.control(&n.E[0], "else "+n.K)
	case n.Else != "":
		x.open(nil, "else")
		x.close(nil)
		x.nodes(n.E)
	}
}

// xtFile is a template, or something else in the tree.
type xtFile struct {
	Path string  `json:"path"` // below /vsim/work
	N    []xnode `json:"n,omitempty"`
	CRLF bool    `json:"crlf,omitempty"`
	Raw  string  `json:"raw,omitempty"` // instead: literal text
	Dir  bool    `json:"dir,omitempty"`
}

// render gives the source and the uses; ok is false if it is no template.
func (f *xtFile) render(left, right string, kws []kwSpec) (src string, uses []use, ok bool) {
	if left == "" {
		left = "{{"
	}
	if right == "" {
		right = "}}"
	}
	x := &xrender{left: left, right: right, crlf: f.CRLF, kws: kws, line: 1, file: path.Join("/vsim/work", f.Path)}
	if f.Raw != "" {
		x.w(raw(f.Raw))
	} else {
		x.nodes(f.N)
	}
	src = x.sb.String()
	if f.CRLF {
		src = strings.ReplaceAll(src, "\n", "\r\n")
	}
	return src, x.uses, wellFormed(src, left, right)
}

// wellFormed asks the standard parser, leaving out which functions exist.
func wellFormed(src, left, right string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	t := parse.New("\x00") // no template of the source has this name
	t.Mode = parse.SkipFuncCheck
	_, err := t.Parse(src, left, right, map[string]*parse.Tree{})
	return err == nil
}

// ---- generation

var xtFuncs = []string{"printf", "html", "eq", "len", "upper", "join", "index", "größe", "译_2", "_x1"}

type xgen struct {
	names map[string]bool // templates of this file
	r     *core.Rand
	kws   []kwSpec
	ids   []string
	n     int
	left  string
	depth int
	mixed bool
	vars  []string // declared here
}

func genXTText(r *core.Rand) string {
	s := genText(r)
	return strings.Map(func(c rune) rune {
		if c == '`' {
			return '\''
		}
		return c
	}, s)
}

func (g *xgen) id() string { return core.Pick(g.r, g.ids) }

func (g *xgen) lit(s string) xarg {
	a := xarg{K: "str", S: s}
	if g.r.P(1, 6) && !strings.ContainsAny(s, "\r`\x00\ufeff") && raw(s) == s {
		a.K = "raw"
	}
	for g.r.P(1, 8) {
		a = xarg{K: "paren", P: []xcmd{{A: []xarg{a}}}}
		if g.r.P(1, 3) {
			a = xarg{K: "paren", P: []xcmd{{A: []xarg{a}}}}
		}
	}
	return a
}

// callee names a function in one of the ways templates have.
func (g *xgen) callee(name string) []xarg {
	if len(g.vars) > 0 && g.r.P(1, 10) {
		return []xarg{{K: "var", S: core.Pick(g.r, g.vars) + core.Pick(g.r, []string{".", ".Tr."}) + name}}
	}
	switch g.r.N(9) {
	case 0:
		return []xarg{{K: "field", S: name}}
	case 1:
		return []xarg{{K: "field", S: "Tr." + name}}
	case 2:
		return []xarg{{K: "root", S: name}}
	case 3:
		return []xarg{{K: "chain", S: name, P: []xcmd{g.plain()}}}
	case 4:
		return []xarg{{K: "id", S: "call"}, {K: core.Pick(g.r, []string{"field", "root"}), S: name}}
	}
	return []xarg{{K: "id", S: name}}
}

// value is an operand that is no literal.
func (g *xgen) value() xarg {
	if len(g.vars) > 0 && g.r.P(1, 4) {
		return xarg{K: "var", S: core.Pick(g.r, g.vars) + core.Pick(g.r, []string{"", "", ".Name"})}
	}
	switch g.r.N(6) {
	case 0:
		return xarg{K: "num", S: strconv.Itoa(g.r.N(99))}
	case 1:
		return xarg{K: "dot"}
	case 2, 3:
		return xarg{K: "field", S: core.Pick(g.r, []string{"Name", "User.Name", "Count"})}
	case 4:
		return xarg{K: "char", S: "'x'"}
	}
	return xarg{K: "bool", S: "true"}
}

// plain is a command without keyword, perhaps with one nested.
func (g *xgen) plain() xcmd {
	c := xcmd{}
	if g.r.P(1, 2) {
		c.A = append(c.A, xarg{K: "field", S: core.Pick(g.r, []string{"Tr", "User.Name"})})
		return c
	}
	c.A = append(c.A, xarg{K: "id", S: core.Pick(g.r, xtFuncs)})
	for i := g.r.N(3); i > 0; i-- {
		switch g.r.N(3) {
		case 0:
			c.A = append(c.A, g.lit(g.id()))
		case 1:
			c.A = append(c.A, g.value())
		default:
			if g.depth < 3 {
				g.depth++
				c.A = append(c.A, xarg{K: "paren", P: g.pipe()})
				g.depth--
			}
		}
	}
	return c
}

// isPlural keeps every message singular or plural.
func (g *xgen) isPlural(ctxt, id string) bool {
	return core.MixStr(7, ctxt+"\x04"+id)&1 == 1
}

// command calls a keyword.
func (g *xgen) command() (cmds []xcmd) {
	k := core.Pick(g.r, g.kws)
	c := xcmd{A: g.callee(k.Name)}
	last := k.ID
	for _, i := range []int{k.Ctxt, k.ID2} {
		if i > last {
			last = i
		}
	}
	var args []xarg
	for i := 1; i <= last; i++ {
		switch i {
		case k.Ctxt:
			args = append(args, g.lit(core.Pick(g.r, []string{"menu", "month", "a \"b\"", "\ue0ff"})))
		case k.ID, k.ID2:
			args = append(args, g.lit(g.id()))
		default:
			args = append(args, core.Pick(g.r, []xarg{g.value(), g.lit("filler")}))
		}
	}
	switch g.r.N(14) {
	case 0: // too few
		if len(args) > 0 {
			args = args[:len(args)-1]
		}
	case 1: // not a literal
		args[g.r.N(len(args))] = g.value()
	case 2: // nested instead
		if g.depth < 3 {
			g.depth++
			args[g.r.N(len(args))] = xarg{K: "paren", P: g.pipe()}
			g.depth--
		}
	}
	for i := g.r.N(6) - 3; i > 0; i-- { // further arguments
		switch g.r.N(3) {
		case 0:
			args = append(args, g.value())
		case 1:
			args = append(args, g.lit("surplus"))
		default:
			if g.depth < 3 {
				g.depth++
				args = append(args, xarg{K: "paren", P: g.pipe()})
				g.depth--
			}
		}
	}
	if n := len(args); n > 0 && g.r.P(1, 5) {
		if _, ok := args[n-1].text(false); ok { // the last one comes through the pipe
			cmds = append(cmds, xcmd{A: []xarg{args[n-1]}})
			args = args[:n-1]
		}
	}
	c.A = append(c.A, args...)
	return append(cmds, c)
}

func (g *xgen) pipe() []xcmd {
	var p []xcmd
	if g.r.P(3, 4) {
		p = g.command()
	} else {
		p = []xcmd{g.plain()}
	}
	for i := g.r.N(5) - 3; i > 0; i-- {
		if g.r.P(1, 4) {
			p = append(p, xcmd{A: []xarg{{K: "id", S: core.Pick(g.r, g.kws).Name}}})
		} else {
			p = append(p, xcmd{A: []xarg{{K: "id", S: core.Pick(g.r, xtFuncs)}}})
		}
	}
	return p
}

// name is that of a template: other files may use it as well.
func (g *xgen) name(unique string) string {
	if s := core.Pick(g.r, []string{"content", "title", "x", "t1", "a b"}); g.r.P(1, 2) && !g.names[s] {
		g.names[s] = true
		return s
	}
	return unique
}

// decl makes an action declare a variable, or assign one.
func (g *xgen) decl(n *xnode) {
	if len(g.vars) > 0 && g.r.P(1, 2) {
		n.Set = true
		n.Decl = "$" + core.Pick(g.r, g.vars)
		if n.K == "range" && g.r.P(1, 2) {
			n.Decl += ", $" + core.Pick(g.r, g.vars)
		}
		return
	}
	g.n++
	v := fmt.Sprintf("v%d", g.n)
	n.Decl = "$" + v
	g.vars = append(g.vars, v)
	if n.K == "range" && g.r.P(1, 2) {
		w := fmt.Sprintf("w%d", g.n)
		n.Decl += ", $" + w
		g.vars = append(g.vars, w)
	}
}

// alone is the body of a template of its own, which sees no variables.
func (g *xgen) alone(max int) []xnode {
	vars := g.vars
	g.vars = nil
	defer func() { g.vars = vars }()
	return g.nodes(max, false, false)
}

func (g *xgen) nodes(max int, top, loop bool) (l []xnode) {
	if !top {
		defer func(n int) { g.vars = g.vars[:n] }(len(g.vars))
	}
	for i := g.r.Range(0, max); i > 0; i-- {
		n := xnode{}
		if g.r.P(1, 6) {
			n.Trim = g.r.N(4)
		}
		if g.r.P(1, 8) {
			n.NL = g.r.Range(1, 3)
		}
		kind := g.r.N(16)
		if g.depth > 2 && kind > 8 {
			kind = g.r.N(8)
		}
		switch {
		case kind < 2:
			n.K, n.S = "text", core.Pick(g.r, []string{"\n", "\n\n", "<p>\n", "text T \"no\" ", "  \n<b>", "}", "{ ", "é", "N \"x\" \"y\"\n", "\t"})
		case kind == 2:
			n.K, n.S = "comment", core.Pick(g.r, []string{" T \"no\" ", "", "\n\n T \"no\" \n", "}} {{", "x"})
		case kind < 9:
			n.K, n.P = "act", g.pipe()
			if g.r.P(1, 8) {
				g.decl(&n)
			}
		case kind < 12:
			n.K, n.P = core.Pick(g.r, []string{"if", "with", "range"}), g.pipe()
			outer := len(g.vars)
			if g.r.P(1, 5) {
				g.decl(&n)
			}
			g.depth++
			n.B = g.nodes(3, false, loop || n.K == "range")
			if g.r.P(1, 2) {
				n.Else = "else"
				n.E = g.nodes(3, false, loop)
				if n.K != "range" && g.r.P(1, 2) {
					n.Else = "chain"
					n.E = []xnode{{K: n.K, P: g.pipe(), B: g.nodes(2, false, loop)}}
					if g.r.P(1, 2) {
						n.E[0].Else, n.E[0].E = "else", g.nodes(2, false, loop)
					}
				}
			}
			g.depth--
			g.vars = g.vars[:outer]
			n.Trim = 0
		case kind == 12:
			n.K, n.S = "template", core.Pick(g.r, []string{"x", "t1", "other"})
			if g.r.P(2, 3) {
				n.P = g.pipe()
			}
		case kind == 13:
			g.n++
			n.K, n.S, n.P = "block", g.name(fmt.Sprintf("b%d", g.n)), g.pipe()
			g.depth++
			n.B = g.alone(3)
			g.depth--
		case kind == 14 && top:
			g.n++
			n.K, n.S = "define", g.name(fmt.Sprintf("t%d", g.r.N(99)*100+g.n))
			g.depth++
			n.B = g.alone(4)
			g.depth--
		case kind == 15 && loop:
			n.K = core.Pick(g.r, []string{"break", "continue"})
		default:
			n.K, n.S = "text", "\n"
		}
		l = append(l, n)
	}
	return
}

// ---- the child process

// runXT runs the command in a process of its own.
func runXT(job *xtjob.Job, lang, langPath string) (*xtjob.Result, string) {
	in, err := json.Marshal(job)
	if err != nil {
		panic(err)
	}
	mk := func(name string) *os.File {
		f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
		if err != nil {
			panic(err)
		}
		return f
	}
	fin, fout, ferr := mk("xt.in"), mk("xt.out"), mk("xt.err")
	defer fin.Close()
	defer fout.Close()
	defer ferr.Close()
	if _, err := fin.Write(in); err != nil {
		panic(err)
	}
	if _, err := fin.Seek(0, 0); err != nil {
		panic(err)
	}
	env := []string{"TZ=UTC", "HOME=/nonexistent", "PATH=/nonexistent", "GOGC=off", "GOMEMLIMIT=3GiB", "GOMAXPROCS=1", "GOTRACEBACK=all", "GODEBUG=asyncpreemptoff=1", "LANG=" + lang}
	if langPath != "" {
		env = append(env, "LANG_PATH="+langPath)
	}
	bin := os.Getenv("VSIM_XT")
	p, err := os.StartProcess(bin, []string{bin}, &os.ProcAttr{Env: env, Files: []*os.File{fin, ferr, ferr, fout},
		Sys: &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}})
	if err != nil {
		panic(fmt.Sprintf("cannot start %q: %v", bin, err))
	}
	st, err := p.Wait()
	if err != nil {
		panic(err)
	}
	c, _ := os.ReadFile("xt.out")
	var res xtjob.Result
	if json.Unmarshal(c, &res) != nil {
		e, _ := os.ReadFile("xt.err")
		for _, l := range strings.Split(string(e), "\n") {
			if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
				return nil, l
			}
		}
		if len(e) > 2000 {
			e = e[:2000]
		}
		panic(fmt.Sprintf("the command's process ended without result (%v): %s", st, e))
	}
	for _, n := range res.Sites {
		xtSites[n] = true
	}
	return &res, ""
}

// xtSites are the decision points the commands run so far have passed.
var xtSites = map[uint32]bool{}

// ---- the output

type potEntry struct {
	ctxt, id, id2, str string
	hasCtxt, plural    bool
	refs               []string
}

// parsePot reads the command's output strictly.
func parsePot(s string) (l []potEntry, err error) {
	var cur potEntry
	var field *string
	var str string
	state := 0 // 0 nothing, 1 comments, 2 ctxt, 3 id, 4 id2, 5 str
	begin := func() {
		if state == 5 {
			l = append(l, cur)
			cur, state = potEntry{}, 0
		}
	}
	for i, line := range strings.Split(s, "\n") {
		t := strings.TrimSpace(line)
		bad := func(f string, a ...any) error {
			return fmt.Errorf("line %d %q: %s", i+1, line, fmt.Sprintf(f, a...))
		}
		word, rest, _ := strings.Cut(t, " ")
		switch {
		case t == "":
			begin()
			if state > 1 {
				return nil, bad("entry not complete")
			}
			continue
		case t[0] == '#':
			begin()
			if state > 1 {
				return nil, bad("comment inside an entry")
			}
			state = 1
			if strings.HasPrefix(t, "#:") {
				cur.refs = append(cur.refs, strings.TrimSpace(strings.TrimPrefix(line, "#:")))
			}
			continue
		case t[0] == '"':
			if field == nil || state < 2 {
				return nil, bad("text without keyword")
			}
			u, err := model.Unquote(t)
			if err != nil {
				return nil, bad("%v", err)
			}
			*field += u
			continue
		case word == "msgctxt":
			begin()
			if state > 1 {
				return nil, bad("context not first")
			}
			field, state, cur.hasCtxt = &cur.ctxt, 2, true
		case word == "msgid":
			begin()
			if state > 2 {
				return nil, bad("id not first")
			}
			field, state = &cur.id, 3
		case word == "msgid_plural":
			if state != 3 {
				return nil, bad("plural without id")
			}
			field, state, cur.plural = &cur.id2, 4, true
		case word == "msgstr" || strings.HasPrefix(word, "msgstr["):
			if state < 3 {
				return nil, bad("translation without id")
			}
			str = ""
			field, state = &str, 5
			if word == "msgstr" {
				field = &cur.str
			}
		default:
			return nil, bad("not understood")
		}
		u, err := model.Unquote(rest)
		if err != nil {
			return nil, bad("%v", err)
		}
		*field += u
	}
	begin()
	if state != 0 {
		return nil, fmt.Errorf("the last entry is not complete")
	}
	return l, nil
}

// globs expands a pattern over the tree: files and directories matched.
func globs(pattern string, tree map[string]bool) (l []string) {
	p := pattern
	if !strings.HasPrefix(p, "/") {
		p = "/vsim/work/" + p
	}
	p = path.Clean(p)
	pc := strings.Split(p[1:], "/")
	for f := range tree {
		fc := strings.Split(f[1:], "/")
		if len(fc) != len(pc) {
			continue
		}
		ok := true
		for i := range pc {
			m, err := path.Match(pc[i], fc[i])
			ok = ok && m && err == nil
		}
		if ok {
			l = append(l, f)
		}
	}
	sort.Strings(l)
	return
}
