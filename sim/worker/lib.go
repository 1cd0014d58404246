package main

import (
	"github.com/youthlin/t"
	"github.com/youthlin/t/translator"
)

// translations is what a handle and the package offer alike.
func (c call) on(ts *t.Translations, a []any) string {
	m := c.msg()
	switch c.K {
	case "T":
		return ts.T(m.id, a...)
	case "N":
		return ts.N(m.id, m.id2, int(c.N), a...)
	case "N64":
		return ts.N64(m.id, m.id2, c.N, a...)
	case "N1":
		return ts.N1(m.id, int(c.N), a...)
	case "N1_64":
		return ts.N1_64(m.id, c.N, a...)
	case "X":
		return ts.X(m.ctxt, m.id, a...)
	case "XN":
		return ts.XN(m.ctxt, m.id, m.id2, int(c.N), a...)
	case "XN1":
		return ts.XN1(m.ctxt, m.id, int(c.N), a...)
	case "XN1_64":
		return ts.XN1_64(m.ctxt, m.id, c.N, a...)
	}
	return ts.XN64(m.ctxt, m.id, m.id2, c.N, a...)
}

// global asks the package functions.
func (c call) global(a []any) string {
	m := c.msg()
	switch c.K {
	case "T":
		return t.T(m.id, a...)
	case "N":
		return t.N(m.id, m.id2, int(c.N), a...)
	case "N64":
		return t.N64(m.id, m.id2, c.N, a...)
	case "N1":
		return t.N1(m.id, int(c.N), a...)
	case "N1_64":
		return t.N1_64(m.id, c.N, a...)
	case "X":
		return t.X(m.ctxt, m.id, a...)
	case "XN":
		return t.XN(m.ctxt, m.id, m.id2, int(c.N), a...)
	case "XN1":
		return t.XN1(m.ctxt, m.id, int(c.N), a...)
	case "XN1_64":
		return t.XN1_64(m.ctxt, m.id, c.N, a...)
	}
	return t.XN64(m.ctxt, m.id, m.id2, c.N, a...)
}

// tor asks a translator.
func (c call) tor(tor translator.Translator, a []any) string {
	m := c.msg()
	switch c.K {
	case "T", "X":
		return tor.X(m.ctxt, m.id, a...)
	}
	return tor.XN64(m.ctxt, m.id, m.id2, c.N, a...)
}
