// Package model holds the reference models the simulated code is compared
// with. It is written from the documentation and shares no code with it.
package model

import (
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// PExpr is a plural rule in C syntax.
type PExpr struct {
	Op      string // "n", "num", unary "!", "+", binary, "?"
	Num     int64
	A, B, C *PExpr
}

var prec = map[string]int{"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8,
	"<": 7, ">": 7, "<=": 7, ">=": 7, "==": 6, "!=": 6, "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}

var ErrUndefined = errors.New("undefined value")

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// Eval gives the C value, or ErrUndefined if any part (evaluated or not) is
// undefined, negative or too large to be the same in every integer type.
func (e *PExpr) Eval(n int64) (int64, error) {
	switch e.Op {
	case "n":
		return n, nil
	case "num":
		return e.Num, nil
	}
	a, err := e.A.Eval(n)
	if err != nil {
		return 0, err
	}
	if e.B == nil {
		switch e.Op {
		case "!":
			return b2i(a == 0), nil
		case "+":
			return a, nil
		}
		return 0, fmt.Errorf("bad unary %q", e.Op)
	}
	b, err := e.B.Eval(n)
	if err != nil {
		return 0, err
	}
	if e.Op == "?" {
		c, err := e.C.Eval(n)
		if err != nil {
			return 0, err
		}
		if a != 0 {
			return b, nil
		}
		return c, nil
	}
	var r int64
	switch e.Op {
	case "*":
		if a != 0 && (a*b)/a != b {
			return 0, ErrUndefined
		}
		r = a * b
	case "/", "%":
		if b == 0 {
			return 0, ErrUndefined
		}
		if e.Op == "/" {
			r = a / b
		} else {
			r = a % b
		}
	case "+":
		r = a + b
	case "-":
		r = a - b
	case "<<":
		if b > 62 || a > math.MaxInt64>>uint(b) {
			return 0, ErrUndefined
		}
		r = a << uint(b)
	case ">>":
		if b > 63 {
			return 0, ErrUndefined
		}
		r = a >> uint(b)
	case "<":
		r = b2i(a < b)
	case ">":
		r = b2i(a > b)
	case "<=":
		r = b2i(a <= b)
	case ">=":
		r = b2i(a >= b)
	case "==":
		r = b2i(a == b)
	case "!=":
		r = b2i(a != b)
	case "&":
		r = a & b
	case "^":
		r = a ^ b
	case "|":
		r = a | b
	case "&&":
		r = b2i(a != 0 && b != 0)
	case "||":
		r = b2i(a != 0 || b != 0)
	default:
		return 0, fmt.Errorf("bad operator %q", e.Op)
	}
	if r < 0 {
		return 0, ErrUndefined
	}
	return r, nil
}

// Dialect is a known deviation of the code from C, for listed findings.
type Dialect struct {
	XorAnd   bool // ^ computes a bitwise and
	RelSplit bool // < and > bind tighter than <= and >=
	Prefix   bool // the longest valid prefix is taken
}

type pparser struct {
	s   string
	pos int
	d   Dialect
}

// prec gives RelSplit room between shifts and equality: levels are doubled.
func (p *pparser) prec(op string) int {
	n := 2 * prec[op]
	if p.d.RelSplit && (op == "<" || op == ">") {
		n++
	}
	return n
}

func (p *pparser) ws() {
	for p.pos < len(p.s) && (p.s[p.pos] == ' ' || p.s[p.pos] == '\t') {
		p.pos++
	}
}

func (p *pparser) op() string {
	p.ws()
	rest := p.s[p.pos:]
	if strings.HasPrefix(rest, "++") || strings.HasPrefix(rest, "--") {
		return "" // not an operator between two values: left over, so refused
	}
	for _, l := range []int{2, 1} {
		if len(rest) >= l {
			if _, ok := prec[rest[:l]]; ok {
				return rest[:l]
			}
		}
	}
	return ""
}

func (p *pparser) unary() (*PExpr, error) {
	p.ws()
	if p.pos >= len(p.s) {
		return nil, errors.New("unexpected end")
	}
	switch c := p.s[p.pos]; {
	case strings.HasPrefix(p.s[p.pos:], "++"):
		return nil, errors.New("++ is not allowed")
	case c == '!' || c == '+':
		p.pos++
		a, err := p.unary()
		if err != nil {
			return nil, err
		}
		return &PExpr{Op: string(c), A: a}, nil
	case c == '(':
		p.pos++
		e, err := p.ternary()
		if err != nil {
			return nil, err
		}
		p.ws()
		if p.pos >= len(p.s) || p.s[p.pos] != ')' {
			return nil, errors.New("missing )")
		}
		p.pos++
		return e, nil
	case c == 'n':
		p.pos++
		return &PExpr{Op: "n"}, nil
	case c >= '0' && c <= '9':
		st := p.pos
		for p.pos < len(p.s) && p.s[p.pos] >= '0' && p.s[p.pos] <= '9' {
			p.pos++
		}
		v, err := strconv.ParseInt(p.s[st:p.pos], 10, 64)
		if err != nil {
			return nil, err
		}
		return &PExpr{Op: "num", Num: v}, nil
	}
	return nil, fmt.Errorf("unexpected %q", p.s[p.pos])
}

func (p *pparser) binary(min int) (*PExpr, error) {
	left, err := p.unary()
	if err != nil {
		return nil, err
	}
	for {
		op := p.op()
		if op == "" || p.prec(op) < min {
			return left, nil
		}
		p.pos += len(op)
		right, err := p.binary(p.prec(op) + 1)
		if err != nil {
			return nil, err
		}
		if op == "^" && p.d.XorAnd {
			op = "&"
		}
		left = &PExpr{Op: op, A: left, B: right}
	}
}

func (p *pparser) ternary() (*PExpr, error) {
	c, err := p.binary(1)
	if err != nil {
		return nil, err
	}
	p.ws()
	if p.pos < len(p.s) && p.s[p.pos] == '?' {
		p.pos++
		a, err := p.ternary()
		if err != nil {
			return nil, err
		}
		p.ws()
		if p.pos >= len(p.s) || p.s[p.pos] != ':' {
			return nil, errors.New("missing :")
		}
		p.pos++
		b, err := p.ternary()
		if err != nil {
			return nil, err
		}
		return &PExpr{Op: "?", A: c, B: a, C: b}, nil
	}
	return c, nil
}

// ParsePlural parses a rule with C's precedences; any rest is an error.
func ParsePlural(s string) (*PExpr, error) { return Dialect{}.Parse(s) }

func (d Dialect) Parse(s string) (*PExpr, error) {
	p := &pparser{s: s, d: d}
	e, err := p.ternary()
	if err != nil {
		return nil, err
	}
	p.ws()
	if p.pos != len(s) && !d.Prefix {
		return nil, fmt.Errorf("unexpected %q", s[p.pos:])
	}
	return e, nil
}
