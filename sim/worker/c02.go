package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/youthlin/t"
	"github.com/youthlin/t/plurals"
	"github.com/youthlin/t/translator"
	"verif.local/sim/core"
	"verif.local/sim/model"
)

// C02: plural form selection does not depend on what was evaluated before or
// at the same time, and agrees with C.

type c02Op struct {
	K string `json:"k"` // eval, file, handle; before the rest also many, counts
	R int    `json:"r"` // rule or catalog
	N int64  `json:"n"`
	C call   `json:"c"`
	X string `json:"x,omitempty"` // the rule itself
}

type c02Sc struct {
	Base
	Rules []string  `json:"rules"`
	Cats  []catSpec `json:"cats"`
	Warm  []c02Op   `json:"warm"`
	Tasks [][]c02Op `json:"tasks"`
	After []c02Op   `json:"after"`
}

// genExpr draws a C expression over n.
func genExpr(r *core.Rand, depth int, sb *strings.Builder) {
	sp := func() {
		switch r.N(6) {
		case 0, 1:
			sb.WriteByte(' ')
		case 2:
			if r.P(1, 6) {
				sb.WriteByte('\t')
			}
		}
	}
	atom := func() {
		switch r.N(4) {
		case 0, 1:
			sb.WriteByte('n')
		default:
			if r.P(1, 25) {
				fmt.Fprint(sb, core.Pick(r, largeNumbers))
				return
			}
			fmt.Fprint(sb, core.Pick(r, []int{0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 10, 11, 12, 14, 19, 20, 21, 99, 100, 1000, 1000000}))
		}
	}
	if depth <= 0 || r.P(1, 8) {
		atom()
		return
	}
	sub := func(d int) {
		if r.P(2, 5) {
			sb.WriteByte('(')
			sp()
			genExpr(r, d, sb)
			sp()
			sb.WriteByte(')')
		} else {
			genExpr(r, d, sb)
		}
	}
	switch r.N(12) {
	case 0:
		sb.WriteString(core.Pick(r, []string{"!", "!", "!!", "+"}))
		sb.WriteByte('(')
		genExpr(r, depth-1, sb)
		sb.WriteByte(')')
	case 1, 2, 3:
		sub(depth - 1)
		sp()
		sb.WriteByte('?')
		sp()
		sub(depth - 1)
		sp()
		sb.WriteByte(':')
		sp()
		sub(depth - 1)
	case 4, 5:
		sb.WriteByte('n')
		sp()
		sb.WriteByte('%')
		sp()
		fmt.Fprint(sb, core.Pick(r, []int{2, 3, 4, 5, 7, 10, 10, 100, 100, 1000}))
		if r.P(1, 2) {
			sp()
			sb.WriteString(core.Pick(r, []string{"==", "!=", "<", ">", ">=", "<="}))
			sp()
			fmt.Fprint(sb, r.N(25))
		}
	default:
		sub(depth - 1)
		sp()
		op := core.Pick(r, []string{"==", "!=", "<", ">", "<=", ">=", "&&", "||", "&&", "||", "+", "-", "*", "/", "%", "&", "|", "<<", ">>"})
		if r.P(1, 60) {
			op = "^"
		}
		sb.WriteString(op)
		if op == "+" {
			sb.WriteByte(' ')
		}
		sp()
		switch op {
		case "<<", ">>":
			if r.P(1, 3) {
				fmt.Fprint(sb, r.Range(5, 62))
			} else {
				fmt.Fprint(sb, r.N(5))
			}
		case "/", "%":
			if r.P(1, 10) {
				atom()
			} else {
				fmt.Fprint(sb, r.Range(1, 12))
			}
		default:
			sub(depth - 1)
		}
	}
}

var largeNumbers = []int64{127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<24 + 1, 1<<31 - 1, 1 << 31, 3000000000, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<62 + 3, 1<<63 - 1}

// deepRule draws a rule that nests or strings together many operators.
func deepRule(r *core.Rand) string {
	n := r.Range(3, 45)
	var sb strings.Builder
	switch r.N(5) {
	case 0: // one inside the other
		for i := 0; i < n; i++ {
			sb.WriteString(core.Pick(r, []string{"(", "1+(", "2*(", "n+(", "3|(", "n > 5 && (", "n%2 ? 1 : (", "n < 2 || ("}))
		}
		sb.WriteString("n")
		sb.WriteString(strings.Repeat(")", n))
	case 1: // one form after the other
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "n==%d ? %d : ", i*r.Range(1, 3), i%6)
		}
		fmt.Fprint(&sb, n%6)
	case 2:
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "n %% %d == %d %s ", r.Range(2, 100), r.N(9), core.Pick(r, []string{"&&", "||"}))
		}
		sb.WriteString("n > 2")
	case 3:
		sb.WriteString("(n")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, "%s %d", core.Pick(r, []string{" +", " *", " /", " %", " |", " &"}), r.Range(1, 9))
		}
		sb.WriteString(") % 3")
	default:
		sb.WriteString(strings.Repeat("!", n) + "(n == 1)")
	}
	return sb.String()
}

func genRuleText(r *core.Rand) string {
	if r.P(1, 40) {
		return deepRule(r)
	}
	switch r.N(10) {
	case 0, 1:
		s := core.Pick(r, commonRules).rule
		if r.P(1, 2) {
			s = strings.ReplaceAll(s, " ", "")
		}
		if r.P(1, 10) { // a blank where it matters, or not
			i := r.N(len(s) + 1)
			s = s[:i] + " " + s[i:]
		}
		return s
	case 2, 3:
		return core.Pick(r, uncommonRules).rule
	case 4:
		if r.P(2, 3) {
			return partialRule(r)
		}
		return core.Pick(r, badRules)
	case 5:
		if r.P(1, 4) {
			return core.Pick(r, []string{"n n", "n > 1)", "n 1", "1 2 3", "n == 1 ? 0 : 1 2", "n)"})
		}
		// damage a valid rule
		var sb strings.Builder
		genExpr(r, 2, &sb)
		s := sb.String()
		switch r.N(4) {
		case 0:
			return s + core.Pick(r, []string{" &&", " ?", " ? 1", " +", "$", " ? 1 :", " == ", " %"})
		case 1:
			return core.Pick(r, []string{"* ", "(", ")", "?", "% ", "m ", "== "}) + s
		case 2:
			return "(" + s
		}
		return strings.Replace(s, "n", "x", 1)
	}
	var sb strings.Builder
	genExpr(r, r.Range(1, 4), &sb)
	return sb.String()
}

// partialRule draws a rule that has no value for some counts.
func partialRule(r *core.Rand) string {
	by := fmt.Sprintf("(n %% %d)", r.Range(2, 4))
	if r.P(1, 3) {
		by = "n"
	}
	s := fmt.Sprintf("%d %s %s", r.Range(3, 60), core.Pick(r, []string{"/", "%"}), by)
	switch r.N(3) {
	case 0:
		return s + fmt.Sprintf(" > %d", r.N(9))
	case 1:
		return s + fmt.Sprintf(" == %d ? 1 : 2", r.N(6))
	}
	return fmt.Sprintf("n %% 2 == 1 ? %s > %d : 0", s, r.N(9))
}

func genCount(r *core.Rand) int64 {
	switch r.N(8) {
	case 0, 1, 2:
		return int64(r.N(26))
	case 3, 4:
		return int64(r.N(1200))
	case 5:
		return int64(r.U64() >> uint(24+r.N(30)))
	}
	return core.Pick(r, counts)
}

func genC02(r *core.Rand) scenario {
	s := &c02Sc{}
	for i := r.Range(1, 6); i > 0; i-- {
		s.Rules = append(s.Rules, genRuleText(r))
	}
	for i := r.Range(1, 3); i > 0; i-- {
		c := genCatSpec(r, genLocale(r), fmt.Sprintf("c%d", i), 6)
		if r.P(2, 3) {
			c.C.Plural = genRuleText(r)
			c.C.Forms = r.Range(1, 6)
			if r.P(1, 12) {
				c.C.Forms = r.Range(7, 30)
				if r.P(1, 2) {
					c.C.Plural = fmt.Sprintf("n %% %d", c.C.Forms+r.N(2))
				}
			}
			for j := range c.C.Entries {
				if e := &c.C.Entries[j]; e.Plural && r.P(2, 3) {
					e.Strs = nil
					for k := 0; k < c.C.Forms; k++ {
						e.Strs = append(e.Strs, fmt.Sprintf("c%d:%s/%d", i, strings.ReplaceAll(e.ID, "\n", " "), k))
					}
				}
			}
		}
		if r.P(1, 10) {
			c.C.NoHeader = true
		}
		s.Cats = append(s.Cats, c)
	}
	op := func() c02Op {
		o := c02Op{K: core.Pick(r, []string{"eval", "eval", "file", "handle"}), R: r.N(6), N: genCount(r), C: genCall(r)}
		o.C.N = genCount(r)
		return o
	}
	if r.P(1, 4) { // one message under many counts
		base := op
		first := base()
		if r.P(3, 4) {
			first.K = core.Pick(r, []string{"file", "handle"})
		}
		op = func() c02Op {
			if r.P(1, 4) {
				return base()
			}
			o := first
			o.N = genCount(r)
			o.C.N = int64(r.N(12))
			return o
		}
	}
	for i := r.N(6); i > 0; i-- {
		s.Warm = append(s.Warm, op())
	}
	if r.P(1, 80) {
		// more rules than any table of them holds, more counts than one of answers
		s.Warm = append(s.Warm, c02Op{K: core.Pick(r, []string{"many", "counts"}), R: r.N(50), N: int64(r.Range(100, 300) * r.Range(1, 8)), C: genCall(r)})
		for i := r.N(4); i > 0; i-- {
			s.Warm = append(s.Warm, op())
		}
	}
	hot := op()
	for i := r.Range(1, 4); i > 0; i-- {
		var l []c02Op
		for j := r.Range(1, 5); j > 0; j-- {
			o := op()
			if r.P(1, 3) {
				o = hot
			}
			l = append(l, o)
		}
		s.Tasks = append(s.Tasks, l)
	}
	for i := r.N(4); i > 0; i-- {
		s.After = append(s.After, op())
	}
	return s
}

// manyRules are families of rules.
var manyRules = []string{
	"n == %d ? 0 : n %% %d",
	"n %% %d == 1 ? 0 : n > %d ? 1 : 2",
	"n*%d > 100 && n != %d",
	"(n + %d) %% %d",
	"n != %d || n == %d",
}

// dialects are the listed deviations of rule evaluation.
var dialects = []struct {
	key string
	set func(d *model.Dialect)
}{
	{"xor", func(d *model.Dialect) { d.XorAnd = true }},
	{"relational-chain", func(d *model.Dialect) { d.RelSplit = true }},
	{"trailing-input", func(d *model.Dialect) { d.Prefix = true }},
}

// deviation names the listed deviation under which same holds, if any.
func deviation(same func(d model.Dialect) bool) string {
	for _, n := range []int{1, 2, 4, 3, 5, 6, 7} {
		var d model.Dialect
		key := ""
		for i, x := range dialects {
			if n>>i&1 == 1 {
				x.set(&d)
				if key == "" {
					key = x.key
				}
			}
		}
		if same(d) {
			return key
		}
	}
	return ""
}

func evalUnder(d model.Dialect, rule string, n int64) (string, bool) {
	p, err := d.Parse(rule)
	if err != nil {
		return "error", true
	}
	v, err := p.Eval(n)
	return fmt.Sprint(v), err == nil
}

func runC02(sc scenario, e *Env) {
	s := sc.(*c02Sc)
	var files []*translator.File
	var cats []*model.Catalog
	base := t.NewTranslations()
	base.SetDomain("app")
	doms := domSpec{Name: "app"}
	seen := map[string]bool{}
	for i := range s.Cats {
		c := &s.Cats[i]
		f, err := c.readFile()
		if err != nil {
			continue
		}
		files = append(files, f)
		cats = append(cats, c.cat())
		if l := norm(c.cat().Lang); !c.cat().NoHeader && l != "" && !seen[l] {
			seen[l] = true
			doms.Cats = append(doms.Cats, *c)
			doms.Cats[len(doms.Cats)-1].Name = fmt.Sprintf("f%d", i)
		}
	}
	base.BindFS("app", newFS(doms.tree(), delivery{}).fsys())
	byLang := doms.byLang()
	ruleOf := func(o c02Op) string {
		if o.X != "" {
			return o.X
		}
		return s.Rules[o.R%len(s.Rules)]
	}
	do := func(o c02Op) (string, error) {
		switch o.K {
		case "eval":
			if len(s.Rules) == 0 {
				return "", nil
			}
			v, err := plurals.Eval(context.Background(), ruleOf(o), o.N)
			if err != nil {
				return "error", nil
			}
			return fmt.Sprint(v), nil
		case "file":
			if len(files) > 0 {
				return o.C.tor(files[o.R%len(files)], o.C.args("x")), nil
			}
		case "handle":
			if len(doms.Cats) > 0 {
				return o.C.on(base.L(doms.Cats[o.R%len(doms.Cats)].cat().Lang), o.C.args("x")), nil
			}
		}
		return "", nil
	}
	check := func(where string, o c02Op, got string) {
		e.Op()
		e.Logf("%s %s: %q", where, o.K, got)
		switch o.K {
		case "eval":
			if len(s.Rules) == 0 {
				return
			}
			rule := ruleOf(o)
			want, ok := evalUnder(model.Dialect{}, rule, o.N)
			if !ok {
				e.Probe("undefined value")
				return
			}
			if want == "error" {
				e.Probe("malformed rule")
			}
			if got == want {
				return
			}
			key := deviation(func(d model.Dialect) bool {
				w, ok := evalUnder(d, rule, o.N)
				// leaving the range the rule language is defined on only
				// because of the deviation: any answer follows from it
				return !ok || w == got
			})
			e.Fail("wrong value", key, "%s: rule %q at n=%d gives %s, C gives %s", where, rule, o.N, got, want)
		case "file", "handle":
			var c *model.Catalog
			if o.K == "file" {
				if len(cats) == 0 {
					return
				}
				c = cats[o.R%len(cats)]
			} else {
				if len(doms.Cats) == 0 {
					return
				}
				c = byLang[norm(doms.Cats[o.R%len(doms.Cats)].cat().Lang)]
			}
			if c == nil {
				return
			}
			if !c.NoHeader && c.Plural != "" {
				if _, ok := evalUnder(model.Dialect{}, c.Plural, o.C.N); !ok {
					return
				}
			}
			m := o.C.msg()
			if x := c.Find(m.ctxt, m.id); x != nil && x.ID2 == "" && x.Str == "" && len(x.Strs) == 0 {
				return // a text catalog drops such an entry, a binary one keeps it
			}
			a := o.C.args("x")
			want := o.C.expect(c, a)
			if got == want {
				return
			}
			key := deviation(func(d model.Dialect) bool {
				c2 := *c
				c2.D = d
				if _, ok := evalUnder(d, c.Plural, o.C.N); !ok && !c.NoHeader && c.Plural != "" {
					return true
				}
				return o.C.expect(&c2, a) == got
			})
			e.Fail("wrong form", key, "%s: %s of %q with n=%d under nplurals=%d; plural=%s: got %q, want %q", where, o.K, o.C.msg().id, o.C.N, c.Forms, c.Plural, got, want)
		}
	}
	for _, o := range s.Warm {
		switch o.K {
		case "many":
			e.Probe("very many rules")
			for k := int64(0); k < o.N+20 && !e.Failed(); k++ {
				i := k % o.N // the first ones again
				x := c02Op{K: "eval", X: fmt.Sprintf(manyRules[o.R%len(manyRules)], i+1, i%7+2), N: (i*3 + k) % 40}
				got, _ := do(x)
				check("before, rule by rule", x, got)
			}
			continue
		case "counts":
			e.Probe("very many counts")
			for k := int64(0); k < o.N+20 && !e.Failed(); k++ {
				x := o
				x.K = []string{"file", "handle", "eval"}[o.R%3]
				x.N, x.C.N = k%o.N, k%o.N
				got, _ := do(x)
				check("before, count by count", x, got)
			}
			continue
		}
		got, _ := do(o)
		check("before", o, got)
	}
	got := make([][]string, len(s.Tasks))
	for ti, ops := range s.Tasks {
		got[ti] = make([]string, len(ops))
		e.Go(func() {
			for j, o := range ops {
				got[ti][j], _ = do(o)
			}
		})
	}
	res := e.Run()
	if e.Failed() {
		return
	}
	e.CheckPanics()
	for ti, ops := range s.Tasks {
		for j, o := range ops {
			check(fmt.Sprintf("goroutine %d, operation %d", ti, j), o, got[ti][j])
		}
	}
	for _, o := range s.After {
		got, _ := do(o)
		check("after", o, got)
	}
	// everything once more: the same answers
	for ti, ops := range s.Tasks {
		for j, o := range ops {
			if again, _ := do(o); again != got[ti][j] {
				e.Fail("answer changed: "+o.K, "", "goroutine %d, operation %d (%s): %q, repeated %q", ti, j, o.K, got[ti][j], again)
			}
		}
	}
	if res.NSwitch > 0 {
		e.Fault("preemption")
	}
	e.trivial = len(s.Tasks) == 0 || res.NSwitch < 1 && len(s.Warm) == 0
}

func ruleDemo(rule string, n int64) func() scenario {
	return func() scenario {
		return &c02Sc{Base: Base{Sched: core.Sched{Policy: "explicit"}}, Rules: []string{rule}, Warm: []c02Op{{K: "eval", N: n}}, Tasks: [][]c02Op{{{K: "eval", N: n}}}}
	}
}

func init() {
	props["C02"] = &prop{gen: genC02, new: func() scenario { return &c02Sc{} }, run: runC02, demos: map[string]func() scenario{
		"xor":              ruleDemo("n ^ 1", 2),
		"relational-chain": ruleDemo("n >= 2 > 0", 1),
		"trailing-input":   ruleDemo("n > 1)", 2),
	}}
}
