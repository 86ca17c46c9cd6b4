package cat

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// CEval evaluates a plural formula with the C grammar and unsigned arithmetic
// (an independent recursive-descent implementation: ?:, ||, &&, ==/!=,
// relational, additive, multiplicative, !, parentheses, n, integers).
func CEval(formula string, n uint64) (v uint64, err error) {
	p := &cparser{s: formula, n: n}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(cerror); ok {
				err = error(e)
				return
			}
			panic(r)
		}
	}()
	v = p.ternary()
	p.ws()
	if p.i != len(p.s) {
		p.fail("trailing input")
	}
	return v, nil
}

// BareCondition reports whether a formula uses a value that is no comparison
// (n, n % k, a literal) as a condition or as the whole, outside results of ?:.
func BareCondition(formula string) bool {
	p := &cparser{s: formula, n: 1}
	defer func() { _ = recover() }()
	p.ternary()
	if !p.cond && !p.tern {
		p.bare = true
	}
	return p.bare
}

type cerror struct{ msg string }

func (e cerror) Error() string { return e.msg }

type cparser struct {
	s string
	i int
	n uint64

	cond bool // the value parsed last is the result of a comparison or && ||
	tern bool // ... of ?:
	bare bool // something else was used as a condition
}

func (p *cparser) use() {
	if !p.cond {
		p.bare = true
	}
}

func (p *cparser) fail(m string) { panic(cerror{fmt.Sprintf("%s at %d in %q", m, p.i, p.s)}) }
func (p *cparser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\t') {
		p.i++
	}
}
func (p *cparser) eat(op string) bool {
	p.ws()
	if strings.HasPrefix(p.s[p.i:], op) {
		p.i += len(op)
		return true
	}
	return false
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
func (p *cparser) ternary() uint64 {
	c := p.or()
	if p.eat("?") {
		p.use()
		a := p.ternary()
		if !p.eat(":") {
			p.fail("expected :")
		}
		b := p.ternary()
		p.cond, p.tern = false, true
		if c != 0 {
			return a
		}
		return b
	}
	return c
}
func (p *cparser) or() uint64 {
	v := p.and()
	for p.eat("||") {
		p.use()
		w := p.and()
		p.use()
		v, p.cond = b2u(v != 0 || w != 0), true
	}
	return v
}
func (p *cparser) and() uint64 {
	v := p.eq()
	for p.eat("&&") {
		p.use()
		w := p.eq()
		p.use()
		v, p.cond = b2u(v != 0 && w != 0), true
	}
	return v
}
func (p *cparser) eq() uint64 {
	v := p.rel()
	for {
		if p.eat("==") {
			v = b2u(v == p.rel())
			p.cond = true
		} else if p.eat("!=") {
			v = b2u(v != p.rel())
			p.cond = true
		} else {
			return v
		}
	}
}
func (p *cparser) rel() uint64 {
	v := p.add()
	for {
		if p.eat("<=") {
			v = b2u(v <= p.add())
			p.cond = true
		} else if p.eat(">=") {
			v = b2u(v >= p.add())
			p.cond = true
		} else if p.eat("<") {
			v = b2u(v < p.add())
			p.cond = true
		} else if p.eat(">") {
			v = b2u(v > p.add())
			p.cond = true
		} else {
			return v
		}
	}
}
func (p *cparser) add() uint64 {
	v := p.mul()
	for {
		if p.eat("+") {
			v += p.mul()
		} else if p.eat("-") {
			v -= p.mul()
		} else {
			return v
		}
	}
}
func (p *cparser) mul() uint64 {
	v := p.unary()
	for {
		if p.eat("%") {
			w := p.unary()
			if w == 0 {
				p.fail("modulo by zero")
			}
			v %= w
		} else if p.eat("*") {
			v *= p.unary()
		} else if p.eat("/") {
			w := p.unary()
			if w == 0 {
				p.fail("division by zero")
			}
			v /= w
		} else {
			return v
		}
	}
}
func (p *cparser) unary() uint64 {
	p.ws()
	if strings.HasPrefix(p.s[p.i:], "!") && !strings.HasPrefix(p.s[p.i:], "!=") {
		p.i++
		v := b2u(p.unary() == 0)
		p.cond = true
		return v
	}
	if p.eat("(") {
		v := p.ternary()
		if !p.eat(")") {
			p.fail("expected )")
		}
		return v
	}
	p.cond, p.tern = false, false
	if p.i < len(p.s) && p.s[p.i] == 'n' {
		p.i++
		return p.n
	}
	j := p.i
	for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
		j++
	}
	if j == p.i {
		p.fail("expected operand")
	}
	v, err := strconv.ParseUint(p.s[p.i:j], 10, 64)
	if err != nil {
		p.fail("bad literal")
	}
	p.i = j
	return v
}

// Rule is a plural rule: the formula and a number of forms covering its values.
type Rule struct {
	Formula  string `json:"f"`
	NPlurals int    `json:"n"`
	// Value is the value of the header field, if it is not the canonical one.
	Value string `json:"v,omitempty"`
}

// Form is the form the rule selects for n (C semantics).
func (r *Rule) Form(n int) int {
	if r == nil {
		if n == 1 {
			return 0
		}
		return 1
	}
	v, err := CEval(r.Formula, uint64(n))
	if err != nil {
		panic("reference evaluator: " + err.Error())
	}
	return int(v)
}

var (
	modulus = regexp.MustCompile(`%\s*(\d+)`)
	numeral = regexp.MustCompile(`\d+`)
)

// Decides tells whether the library promises a form for n: for every n below
// 2^32, and beyond that if the rule only looks at n below a million and at its
// last six digits, as those of natural languages do.
func (r *Rule) Decides(n int) bool {
	if r == nil || int64(n) <= math.MaxUint32 {
		return true
	}
	f := r.Formula
	for _, m := range modulus.FindAllStringSubmatch(f, -1) {
		if k, err := strconv.Atoi(m[1]); err != nil || k == 0 || 1000000%k != 0 {
			return false
		}
	}
	f = modulus.ReplaceAllString(f, "")
	for _, m := range numeral.FindAllString(f, -1) {
		if k, err := strconv.Atoi(m); err != nil || k >= 1000000 {
			return false
		}
	}
	return true
}

// KnownRules are rules of real languages.
var KnownRules = []Rule{
	{Formula: "0", NPlurals: 1},
	{Formula: "n != 1", NPlurals: 2},
	{Formula: "(n != 1)", NPlurals: 2},
	{Formula: "n>1", NPlurals: 2},
	{Formula: "(n > 1)", NPlurals: 2},
	{Formula: "n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2", NPlurals: 3},
	{Formula: "n==1 ? 0 : n==2 ? 1 : 2", NPlurals: 3},
	{Formula: "(n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5)", NPlurals: 6},
	{Formula: "n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2", NPlurals: 3},
	{Formula: "(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2", NPlurals: 3},
	{Formula: "n==1 ? 0 : n==0 || (n%100 > 0 && n%100 < 20) ? 1 : 2", NPlurals: 3},
	{Formula: "(n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3)", NPlurals: 4},
	{Formula: "n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4", NPlurals: 5},
	{Formula: "(n%10!=1 || n%100==11)", NPlurals: 2},
	{Formula: "(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3", NPlurals: 4},
	{Formula: "n==1 ? 3 : n==0 ? 1 : 0", NPlurals: 4},
	{Formula: "n==0 || n==1 ? 0 : n!=0 && n%1000000==0 ? 1 : 2", NPlurals: 3},
}

// GenRule draws a rule: a real one, or a formula of the supported grammar.
func GenRule(t *rapid.T, label string) Rule {
	if rapid.IntRange(0, 11).Draw(t, label+".many") == 0 {
		return manyForms(rapid.IntRange(8, 16).Draw(t, label+".forms"), rapid.Bool().Draw(t, label+".down"))
	}
	if rapid.IntRange(0, 2).Draw(t, label+".known") < 2 {
		return rapid.SampledFrom(KnownRules).Draw(t, label)
	}
	f, m := GenFormula(t, label, 3, 6)
	return Rule{Formula: f, NPlurals: m + 1}
}

// manyForms is a rule with k forms: n selects form n, or k-1-n, below k.
func manyForms(k int, down bool) Rule {
	f := ""
	for i := 0; i < k-1; i++ {
		v := i
		if down {
			v = k - 1 - i
		}
		f += fmt.Sprintf("n==%d ? %d : ", i, v)
	}
	if down {
		return Rule{Formula: f + "0", NPlurals: k}
	}
	return Rule{Formula: f + strconv.Itoa(k-1), NPlurals: k}
}

type fgen struct {
	t     *rapid.T
	label string
	max   int
	limit int
}

func (g *fgen) sp() string {
	return rapid.SampledFrom([]string{"", "", "", "", "", "", " ", " ", " ", " ", "  ", "\t"}).Draw(g.t, g.label+".sp")
}
func (g *fgen) num() string {
	switch rapid.IntRange(0, 9).Draw(g.t, g.label+".numkind") {
	case 0:
		return strconv.FormatUint(uint64(rapid.Uint32().Draw(g.t, g.label+".num")), 10)
	case 1:
		return strconv.FormatInt(rapid.SampledFrom([]int64{99, 100, 101, 255, 256, 999, 1000, 65535, 65536, 1000000, 2147483647, 2147483648, 4294967295}).Draw(g.t, g.label+".num"), 10)
	default:
		return strconv.Itoa(rapid.IntRange(0, 21).Draw(g.t, g.label+".num"))
	}
}
func (g *fgen) paren(s string) string { return "(" + g.sp() + s + g.sp() + ")" }
func (g *fgen) maybeParen(s string, per10 int) string {
	for rapid.IntRange(0, 9).Draw(g.t, g.label+".par") < per10 {
		s = g.paren(s)
	}
	return s
}
func (g *fgen) cmp() string {
	op := rapid.SampledFrom([]string{"==", "!=", "<", "<=", ">", ">="}).Draw(g.t, g.label+".op")
	left := "n"
	if rapid.Bool().Draw(g.t, g.label+".mod") {
		k := rapid.SampledFrom([]string{"10", "100", "10", "100", "2", "3", "4", "5", "7", "1", "20", "1000", "1000000", "4294967295"}).Draw(g.t, g.label+".k")
		left = "n" + g.sp() + "%" + g.sp() + k
	}
	left = g.maybeParen(left, 1)
	right := g.num()
	if rapid.IntRange(0, 3).Draw(g.t, g.label+".flip") == 0 {
		left, right = right, left
	}
	return left + g.sp() + op + g.sp() + right
}

// cond renders a condition; prec: 0 may be || level, 1 must bind like &&, 2 must be atomic or comparison.
func (g *fgen) cond(depth, prec int) string {
	k := rapid.IntRange(0, 5).Draw(g.t, g.label+".cond")
	if depth <= 0 || k < 2 {
		return g.maybeParen(g.cmp(), 2)
	}
	n := rapid.IntRange(2, 3).Draw(g.t, g.label+".arity")
	var parts []string
	op := "&&"
	sub := 2
	if k < 4 {
		op = "||"
		sub = 1
	}
	for i := 0; i < n; i++ {
		parts = append(parts, g.cond(depth-1, sub))
	}
	s := strings.Join(parts, g.sp()+op+g.sp())
	need := (op == "||" && prec >= 1) || (op == "&&" && prec >= 2)
	if need {
		return g.maybeParen(g.paren(s), 1)
	}
	return g.maybeParen(s, 2)
}

func (g *fgen) value(depth int) string {
	if depth <= 0 || rapid.IntRange(0, 2).Draw(g.t, g.label+".leaf") == 0 {
		v := rapid.IntRange(0, g.limit-1).Draw(g.t, g.label+".val")
		if v > g.max {
			g.max = v
		}
		return g.maybeParen(strconv.Itoa(v), 1)
	}
	return g.tern(depth)
}

func (g *fgen) tern(depth int) string {
	c := g.cond(2, 0)
	a := g.value(depth - 1)
	b := g.value(depth - 1)
	s := c + g.sp() + "?" + g.sp() + a + g.sp() + ":" + g.sp() + b
	return g.maybeParen(s, 2)
}

// GenFormula draws a formula of the supported grammar with values below limit;
// it returns the largest value the formula can have.
func GenFormula(t *rapid.T, label string, depth, limit int) (string, int) {
	g := &fgen{t: t, label: label, limit: limit}
	switch rapid.IntRange(0, 9).Draw(t, label+".shape") {
	case 0:
		v := rapid.IntRange(0, limit-1).Draw(t, label+".const")
		return g.sp() + g.maybeParen(strconv.Itoa(v), 3) + g.sp(), v
	case 1, 2, 3:
		return g.sp() + g.cond(3, 0) + g.sp(), 1
	default:
		s := g.sp() + g.tern(depth) + g.sp()
		return s, g.max
	}
}
