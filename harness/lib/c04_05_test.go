package lib

import (
	"fmt"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/plurals"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

type formulaCase struct {
	Formula string   `json:"formula"`
	Ns      []uint32 `json:"ns"`
}

var numRe = regexp.MustCompile(`[0-9]+`)

// countsFor are the interesting counts of a formula: small ones, and the
// neighbourhood of every literal, of its multiples and of the type's limits.
func countsFor(f string, extra []uint32) []uint32 {
	ns := append([]uint32(nil), extra...)
	for i := uint32(0); i <= 130; i++ {
		ns = append(ns, i)
	}
	var lits []uint32
	for _, s := range numRe.FindAllString(f, -1) {
		v, err := strconv.ParseUint(s, 10, 32)
		if err != nil {
			continue
		}
		lits = append(lits, uint32(v))
		ns = append(ns, uint32(v)-1, uint32(v), uint32(v)+1, uint32(v)*2, uint32(v)*3+1)
	}
	for i := 0; i+1 < len(lits) && i < 12; i++ {
		a, b := lits[i], lits[i+1]
		ns = append(ns, a+b, a*b, a*7+b, b*1000+a)
	}
	return append(ns, 200, 211, 1000, 1011, 1012, 1_000_000, 1<<31-1, 1<<31, 1<<31+1, 1<<32-2, 1<<32-1)
}

func genCounts32(t *rapid.T) []uint32 {
	n := rapid.IntRange(1, 8).Draw(t, "nn")
	var ns []uint32
	for i := 0; i < n; i++ {
		ns = append(ns, uint32(cat.Count(t, "n")))
	}
	return ns
}

// sibling is the formula with the last numbers changed: a formula means the
// same whatever was compiled before.
func sibling(f string, last int) string {
	at := numRe.FindAllStringIndex(f, -1)
	for i := len(at) - 1; i >= 0 && i >= len(at)-last; i-- {
		a, b := at[i][0], at[i][1]
		if strings.HasSuffix(strings.TrimRight(f[:a], " "), "%") {
			continue
		}
		digit := byte('1')
		if f[b-1] == '1' {
			digit = '2'
		}
		f = f[:b-1] + string(digit) + f[b:]
	}
	return f
}

func checkFormula(f string, ns []uint32) error {
	e, err := plurals.Compile(f)
	if err != nil {
		return fmt.Errorf("formula %q does not compile: %v", f, err)
	}
	for _, n := range countsFor(f, ns) {
		want, err := cat.CEval(f, uint64(n))
		if err != nil {
			panic("harness: " + err.Error())
		}
		if got := e.Eval(n); uint64(got) != want {
			return fmt.Errorf("formula %q at n=%d: got %d, C gives %d", f, n, got, want)
		}
	}
	return nil
}

// checkSiblings checks a formula and others that differ in a character or two,
// in the last form it names or in the last numbers.
func checkSiblings(c formulaCase) error {
	for _, f := range []string{c.Formula, sibling(c.Formula, 1), sibling(c.Formula, 3), c.Formula} {
		if err := checkFormula(f, c.Ns); err != nil {
			return err
		}
	}
	return nil
}

func TestC04_Grammar(t *testing.T) {
	core.Run(t, core.Prop[formulaCase]{
		ID: "C04", Checks: 40000,
		Rule: "a formula of the grammar (comparisons of n or n%k with literals in either order, &&, ||, nested ?:, parentheses, spacing), evaluated at ~150-400 counts (all small ones, neighbours of every literal, limits of uint32) and compared with an independent C evaluator; non-trivial: at least two operators",
		Gen: func(t *rapid.T) formulaCase {
			f, _ := cat.GenFormula(t, "f", rapid.IntRange(0, 4).Draw(t, "depth"), 8)
			return formulaCase{f, genCounts32(t)}
		},
		Check: func(ctx *core.Ctx, c formulaCase) error {
			ops := strings.Count(c.Formula, "&&") + strings.Count(c.Formula, "||") + strings.Count(c.Formula, "?")
			ctx.NonTrivial(ops >= 1 && strings.Contains(c.Formula, "n"))
			ctx.LabelIf(strings.Contains(c.Formula, "?"), "ternary")
			ctx.LabelIf(strings.Count(c.Formula, "?") > 2, "3+ ternaries")
			ctx.LabelIf(strings.Contains(c.Formula, "&&") && strings.Contains(c.Formula, "||"), "mixes && and ||")
			ctx.LabelIf(!strings.Contains(c.Formula, "n"), "constant")
			ctx.LabelIf(!strings.Contains(c.Formula, "?") && strings.Contains(c.Formula, "n"), "boolean")
			return checkSiblings(c)
		},
	})
}

// Rules of real languages with edits that keep them in the grammar.
func TestC04_Languages(t *testing.T) {
	core.Run(t, core.Prop[formulaCase]{
		ID: "C04", Checks: 6000,
		Rule: "a plural rule of a real language with changed literals, spacing and enclosing parentheses, evaluated likewise; non-trivial: contains n",
		Gen: func(t *rapid.T) formulaCase {
			f := rapid.SampledFrom(cat.KnownRules).Draw(t, "rule").Formula
			toks := lexer.FindAllString(f, -1)
			var b strings.Builder
			sp := rapid.SampledFrom([]string{"", " ", "r"}).Draw(t, "sp")
			prev := ""
			for _, k := range toks {
				if k[0] >= '0' && k[0] <= '9' && prev != "?" && prev != ":" && rapid.IntRange(0, 5).Draw(t, "chg") == 0 {
					lo := 0
					if prev == "%" {
						lo = 1
					}
					k = strconv.Itoa(rapid.SampledFrom([]int{lo, 1, 2, 3, 9, 10, 11, 12, 19, 20, 99, 100, 101, 1000, 1000000}).Draw(t, "lit"))
				}
				b.WriteString(k)
				if sp == "r" {
					b.WriteString(strings.Repeat(" ", rapid.IntRange(0, 2).Draw(t, "nsp")))
				} else {
					b.WriteString(sp)
				}
				prev = k
			}
			s := b.String()
			for i := rapid.IntRange(0, 3).Draw(t, "par"); i > 0; i-- {
				s = "(" + s + ")"
			}
			return formulaCase{s, genCounts32(t)}
		},
		Check: func(ctx *core.Ctx, c formulaCase) error {
			ctx.NonTrivial(strings.Contains(c.Formula, "n"))
			return checkSiblings(c)
		},
	})
}

var ftokens = []string{"n", "n", "n", "0", "1", "2", "10", "100", "4294967295", "4294967296", "99999999999999999999", "%", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "?", ":", "(", ")", " ", "+", "-", "*", "/", "!", "=", "&", "|", "x", "nn", "i", "\t", "\n", ";", "-1", "0x1", "01", "1.5", "é", "\x00", "n%0", "n%10", "n!=1", "n==1", "()", "(n)", "? :", "!n", "~n", ",", "==1", "1==", "%n", "plural", "\u00a0", "٣"}

var coreTokens = []string{"n", "n", "n", "0", "1", "2", "10", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "?", ":", "(", ")"}

var lexer = regexp.MustCompile(`[0-9]+|n|[=!<>]=|&&|\|\||[<>%?:()]`)

func genFormulaSoup(t *rapid.T) string {
	switch rapid.IntRange(0, 14).Draw(t, "soup") {
	case 10, 11, 12: // a formula with a few tokens removed, added, replaced, swapped or moved
		f, _ := cat.GenFormula(t, "f", 1, 6)
		if rapid.Bool().Draw(t, "known") {
			f = rapid.SampledFrom(cat.KnownRules).Draw(t, "rule").Formula
		}
		toks := lexer.FindAllString(f, -1)
		for i := rapid.IntRange(1, 3).Draw(t, "nmut"); i > 0 && len(toks) > 0; i-- {
			p := rapid.IntRange(0, len(toks)-1).Draw(t, "pos")
			tok := rapid.SampledFrom(coreTokens).Draw(t, "tok")
			switch rapid.IntRange(0, 4).Draw(t, "mut") {
			case 0:
				toks = append(toks[:p:p], toks[p+1:]...)
			case 1:
				toks = append(append(toks[:p:p], tok), toks[p:]...)
			case 2:
				toks[p] = tok
			case 3:
				q := rapid.IntRange(0, len(toks)-1).Draw(t, "pos2")
				toks[p], toks[q] = toks[q], toks[p]
			default: // parentheses somewhere
				q := rapid.IntRange(p, len(toks)-1).Draw(t, "pos2")
				toks = append(append(append(append(toks[:p:p], "("), toks[p:q+1]...), ")"), toks[q+1:]...)
			}
		}
		return strings.Join(toks, rapid.SampledFrom([]string{"", " "}).Draw(t, "join"))
	case 13, 14: // short sequences of the grammar's own tokens
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(coreTokens), 1, 9).Draw(t, "toks"), rapid.SampledFrom([]string{"", " "}).Draw(t, "join"))
	case 0, 1, 2, 3: // tokens
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(ftokens), 0, 14).Draw(t, "toks"), rapid.SampledFrom([]string{"", " "}).Draw(t, "join"))
	case 4, 5, 6, 7: // mutated formula
		f, _ := cat.GenFormula(t, "f", 2, 6)
		if rapid.Bool().Draw(t, "known") {
			f = rapid.SampledFrom(cat.KnownRules).Draw(t, "rule").Formula
		}
		for i := rapid.IntRange(1, 3).Draw(t, "nmut"); i > 0; i-- {
			p := rapid.IntRange(0, len(f)).Draw(t, "pos")
			q := min(p+rapid.IntRange(0, 4).Draw(t, "del"), len(f))
			ins := ""
			if rapid.Bool().Draw(t, "ins") {
				ins = rapid.SampledFrom(ftokens).Draw(t, "tok")
			}
			f = f[:p] + ins + f[q:]
		}
		return f
	case 8:
		return rapid.String().Draw(t, "any")
	default: // long and deep (compiling is cubic in the length: kept moderate)
		u := rapid.SampledFrom([]string{"(", ")", "n==1?", "n==1?0:", "n==1&&", "n==1||", "!", "n%", "(n==1)&&", "()", "?", ":", "? :", "((n", " ", "0?0:", "(n==1?0:", "1", "<"}).Draw(t, "unit")
		k := rapid.SampledFrom([]int{10, 30, 100, 250}).Draw(t, "reps")
		tail := rapid.SampledFrom([]string{"", "0", "n==1", "1", ")"}).Draw(t, "tail")
		s := strings.Repeat(u, k) + tail
		if rapid.Bool().Draw(t, "close") {
			s += strings.Repeat(rapid.SampledFrom([]string{")", ":0", ":1)"}).Draw(t, "closer"), k)
		}
		return s
	}
}

func settle(before int) int {
	n := runtime.NumGoroutine()
	for i := 0; i < 400 && n > before; i++ {
		runtime.Gosched()
		if i > 20 {
			time.Sleep(time.Millisecond)
		}
		n = runtime.NumGoroutine()
	}
	return n
}

func checkTotal(ctx *core.Ctx, c formulaCase) error {
	ctx.NonTrivial(len(c.Formula) >= 2)
	before := runtime.NumGoroutine()
	e, err := plurals.Compile(c.Formula)
	if err == nil && e == nil {
		return fmt.Errorf("Compile(%s) gives neither an expression nor an error", cat.Q(c.Formula))
	}
	if err != nil && e != nil {
		return fmt.Errorf("Compile(%s) gives an expression and the error %v", cat.Q(c.Formula), err)
	}
	if n := settle(before); n > before {
		return fmt.Errorf("Compile(%s) leaves %d goroutines behind", cat.Q(c.Formula), n-before)
	}
	ctx.LabelIf(err == nil, "compiles")
	ctx.LabelIf(err != nil, "rejected")
	if err != nil {
		return nil
	}
	ns := c.Ns
	if len(c.Formula) < 300 {
		ns = countsFor(c.Formula, c.Ns)
	}
	// what is accepted must be a C expression (blanks left out) and mean what C says;
	// n or n%k alone as a condition has a meaning of its own here
	plain := strings.Join(strings.Fields(c.Formula), "")
	if _, err := cat.CEval(plain, 1); err != nil {
		return fmt.Errorf("Compile(%s) accepts what is no C expression: %v", cat.Q(c.Formula), err)
	}
	bare := cat.BareCondition(plain)
	ctx.LabelIf(!bare, "compiles, comparisons only")
	first := make([]int, len(ns))
	for i, n := range ns {
		first[i] = e.Eval(n)
		if first[i] < 0 && strconv.IntSize > 32 {
			return fmt.Errorf("formula %s at n=%d: negative form %d", cat.Q(c.Formula), n, first[i])
		}
		if bare {
			continue
		}
		if v, err := cat.CEval(plain, uint64(n)); err != nil || v != uint64(first[i]) {
			return fmt.Errorf("formula %s at n=%d: %d, C gives %d (%v)", cat.Q(c.Formula), n, first[i], v, err)
		}
	}
	for i := len(ns) - 1; i >= 0; i-- {
		if v := e.Eval(ns[i]); v != first[i] {
			return fmt.Errorf("formula %s at n=%d: %d the first time, %d the second", cat.Q(c.Formula), ns[i], first[i], v)
		}
	}
	return nil
}

func TestC05_Total(t *testing.T) {
	core.Run(t, core.Prop[formulaCase]{
		ID: "C05", Checks: 40000,
		Rule:  "any string: token soups, mutated formulas, arbitrary Unicode, long and deep repetitions; compiled, checked for expression xor error and leaked goroutines, then evaluated twice at many counts; what compiles must be a C expression and, if its conditions are comparisons, have C's values; non-trivial: 2+ bytes",
		Gen:   func(t *rapid.T) formulaCase { return formulaCase{genFormulaSoup(t), genCounts32(t)} },
		Check: checkTotal,
	})
}

func TestC05_Header(t *testing.T) {
	core.Run(t, core.Prop[formulaCase]{
		ID: "C05", Checks: 6000,
		Rule: "the same strings as the plural= value of a catalogue header (PO and MO), then plural lookups at many counts; non-trivial: 2+ bytes",
		Gen:  func(t *rapid.T) formulaCase { return formulaCase{genFormulaSoup(t), genCounts32(t)} },
		Check: func(ctx *core.Ctx, c formulaCase) error {
			ctx.NonTrivial(len(c.Formula) >= 2)
			f := strings.ReplaceAll(c.Formula, "\x00", "")
			cc := &cat.Cat{Headers: []cat.KV{{K: "Plural-Forms", V: "nplurals=3; plural=" + f + ";"}}, Entries: []cat.Entry{{ID: "a", Plural: "b", Forms: []cat.Form{{I: 0, S: "x"}, {I: 1, S: "y"}, {I: 2, S: "z"}}}}}
			before := runtime.NumGoroutine()
			po, mo := gotext.NewPo(), gotext.NewMo()
			po.Parse([]byte(cat.WritePlain(cc)))
			mo.Parse(cat.WriteMO(cc, cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}}))
			if n := settle(before); n > before {
				return fmt.Errorf("parsing a header with formula %s leaves %d goroutines behind", cat.Q(f), n-before)
			}
			for _, n := range append(c.Ns, 0, 1, 2, 5, 11, 100, 1<<32-1) {
				if int(n) < 0 { // int has 32 bits on some platforms
					continue
				}
				a, b := po.GetN("a", "b", int(n)), mo.GetN("a", "b", int(n))
				if a != b {
					return fmt.Errorf("header formula %s at n=%d: PO gives %q, MO gives %q", cat.Q(f), n, a, b)
				}
				if a != "x" && a != "y" && a != "z" && a != "b" {
					return fmt.Errorf("header formula %s at n=%d: %q is no form of the message", cat.Q(f), n, a)
				}
			}
			return nil
		},
	})
}
