package cli

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/cat"
)

// The generator of programs. A program is a module of a few packages; each has
// a support.go that declares holders of gotext values and look-alikes, and
// generated files full of calls. The writer notes what each call is worth.

const gotextPath = "github.com/leonelquinteros/gotext"

type program struct {
	Files map[string]string `json:"files"`
	// Calls are the extractable calls per package directory.
	Calls map[string][]occurrence `json:"calls"`
	// Reach: packages that main reaches and that can hold gotext values.
	Reach   []string `json:"reach"`
	Mode    string   `json:"mode"` // in, pkg-tree
	Default string   `json:"default"`
	Cwd     string   `json:"cwd"`
	// Module: alpha/beta is a module of its own, "nested" in this one or "beside" it.
	Module string `json:"module,omitempty"`
	// Path of the main module ("" for example.com/prog).
	Path  string   `json:"path,omitempty"`
	NBad  int      `json:"nbad"`
	Kinds []string `json:"kinds"` // kinds of receivers and statements used
}

const supportTmpl = `package PKG

import IMP"github.com/leonelquinteros/gotext"

type Holder struct {
	L   *gt.Locale
	V   gt.Locale
	P   *gt.Po
	PV  gt.Po
	M   *gt.Mo
	D   *gt.Domain
	T   gt.Translator
	PT  *gt.Translator
	PP  **gt.Locale
	In  *Holder
	InV struct{ L *gt.Locale }
	Map map[string]*gt.Locale
	MI  map[int]map[string]gt.Translator
	S   []gt.Translator
	F   func() *gt.Po
	FF  func(string) func() gt.Translator
	C   chan *gt.Locale
	A   [2]*gt.Mo
	Al  Alias
	PA  PAlias
	AA  AliasOfAlias
	PtA *Alias
	TAA TAliasOfAlias
	BA  Box[AliasOfAlias]
	TA  TAlias
	B   Box[*gt.Locale]
	E   Emb
	EP  *EmbP
	O   Own
	OP  *Own
	OI  OwnI
	AI  interface{ Get(string, ...interface{}) string }
	Fn  struct{ Get func(string, ...interface{}) string }
	OL  Locale
	OT  Translator
	HM  gt.HeaderMap
	HP  *gt.HeaderMap
	Err error
	EI  interface{ error }
	ES  []struct{ error }
	Any interface{}
	Str []string
	N   int
}

type Alias = gt.Locale
type PAlias = *gt.Po
type TAlias = gt.Translator
type AliasOfAlias = PAlias
type TAliasOfAlias = TAlias
type Box[T any] struct{ V T }
type Emb struct{ *gt.Locale }
type EmbP struct{ gt.Po }

func Id[T any](x T) T { return x }

func (h *Holder) Loc() *gt.Locale         { return h.L }
func (h *Holder) Self(...string) *Holder  { return h }
func (h *Holder) Both() (*gt.Locale, error) { return h.L, nil }

// Own has the getters, but is no gotext type.
type Own struct{}

func (Own) Get(s string, v ...interface{}) string                             { return s }
func (Own) GetN(s, p string, n int, v ...interface{}) string                  { return s }
func (Own) GetD(d, s string, v ...interface{}) string                         { return s }
func (Own) GetND(d, s, p string, n int, v ...interface{}) string              { return s }
func (Own) GetC(s, c string, v ...interface{}) string                         { return s }
func (Own) GetNC(s, p string, n int, c string, v ...interface{}) string       { return s }
func (Own) GetDC(d, s, c string, v ...interface{}) string                     { return s }
func (Own) GetNDC(d, s, p string, n int, c string, v ...interface{}) string   { return s }

type OwnI interface {
	Get(s string, v ...interface{}) string
	GetN(s, p string, n int, v ...interface{}) string
	GetC(s, c string, v ...interface{}) string
	GetNC(s, p string, n int, c string, v ...interface{}) string
}

// Locale and Translator are named like the types of gotext.
type Locale struct{ Own }
type Translator interface{ OwnI }

func NewL() *gt.Locale        { return PkgL }
func NewTr(...string) gt.Translator { return PkgPo }
func NewOwn() Own             { return Own{} }
func NewH() *Holder           { return &PkgH }

func One() string                 { return "one" }
func Two() (string, string)       { return "a", "b" }
func Three() (string, string, int) { return "a", "b", 3 }

// Get and friends are plain functions.
func Get(s string, v ...interface{}) string            { return s }
func GetN(s, p string, n int, v ...interface{}) string { return s }
func GetC(s, c string, v ...interface{}) string        { return s }

func Sink(...interface{}) {}

var PkgL = gt.NewLocale("/nonexistent", "xx")
var PkgPo = gt.NewPo()
var PkgT gt.Translator = PkgPo
var PkgOwn = Own{}
var PkgH Holder
var PkgHs []*Holder

const Konst = "konst"
`

func support(pkg, alias string) string {
	name := alias
	if name == "" {
		name = "gotext"
	}
	s := strings.ReplaceAll(supportTmpl, "gt.", name+".")
	s = strings.ReplaceAll(s, "IMP", alias+" ")
	return strings.Replace(s, "PKG", pkg, 1)
}

const lookalike = `// Package gotext is somebody else's.
package gotext

type Po struct{}

func NewPo() *Po { return &Po{} }

func (Po) Get(s string, v ...interface{}) string                     { return s }
func (Po) GetN(s, p string, n int, v ...interface{}) string          { return s }
func (Po) GetC(s, c string, v ...interface{}) string                 { return s }
func (Po) GetNC(s, p string, n int, c string, v ...interface{}) string { return s }

func Get(s string, v ...interface{}) string                                 { return s }
func GetN(s, p string, n int, v ...interface{}) string                      { return s }
func GetD(d, s string, v ...interface{}) string                             { return s }
func GetND(d, s, p string, n int, v ...interface{}) string                  { return s }
func GetC(s, c string, v ...interface{}) string                             { return s }
func GetNC(s, p string, n int, c string, v ...interface{}) string           { return s }
func GetDC(d, s, c string, v ...interface{}) string                         { return s }
func GetNDC(d, s, p string, n int, c string, v ...interface{}) string       { return s }
`

// recv is a way to reach a receiver.
type recv struct {
	code string
	all  bool // has all eight getters, not just the four of a Translator
	good bool
	only string // has only this getter
	bare bool   // which takes nothing but the id
	kind string
}

// pgen writes one file.
type pgen struct {
	t      *rapid.T
	b      strings.Builder
	line   int
	file   string
	gt     string   // name of gotext in this file, "" if not imported
	def    string   // name of the default domain
	look   string   // name of the look-alike package
	pre    []string // prefixes under which a support.go is visible: "", "alpha."
	locals bool     // inside a function with the usual locals
	depth  int
	n      int
	calls  []occurrence
	nbad   int
	seen   map[string]bool
	kinds  map[string]bool
	pool   []string
	doms   []string
	ctxs   []string
}

func (g *pgen) w(format string, args ...any) {
	s := format
	if len(args) > 0 {
		s = fmt.Sprintf(format, args...)
	}
	g.line += strings.Count(s, "\n")
	g.b.WriteString(s)
}

func (g *pgen) int(n int, l string) int { return rapid.IntRange(0, n-1).Draw(g.t, l) }

func (g *pgen) chance(n int, l string) bool { return g.int(n, l) == n-1 }

func (g *pgen) pick(l string, ss ...string) string { return rapid.SampledFrom(ss).Draw(g.t, l) }

// str writes a literal for s, spelled in any way.
func (g *pgen) str(s string) { g.w("%s", spell(s, g.int(5, "spell"))) }

// holder is an expression for a *Holder or an addressable Holder, and the
// prefix of the package that declares it.
func (g *pgen) holder() (string, string) {
	p := rapid.SampledFrom(g.pre).Draw(g.t, "pre")
	var h string
	if g.locals && g.chance(2, "local") {
		p = g.pre[0]
		h = g.pick("h", "h", "h", "hv", "(*h)", "(&hv)", "hs[0]", "hs[len(hs)-1]", "func() *"+p+"Holder { return h }()")
	} else {
		h = g.pick("ph", p+"PkgH", p+"PkgHs[0]", p+"NewH()", "(&"+p+"PkgH)")
	}
	for i := g.int(3, "nest"); i > 0; i-- {
		h += g.pick("step", ".In", ".In", ".Self()", ".Self(\"x\", \"y\")")
	}
	return h, p
}

func (g *pgen) receiver() recv {
	if g.chance(4, "bad") {
		return g.badReceiver()
	}
	k := g.int(10, "rk")
	if k < 3 && g.gt != "" {
		return recv{code: g.gt, all: true, good: true, kind: "package"}
	}
	if k < 5 && g.locals {
		switch g.int(8, "local") {
		case 0, 1:
			return recv{code: "l", all: true, good: true, kind: "local *Locale"}
		case 2:
			return recv{code: "v", all: true, good: true, kind: "local Locale"}
		case 3:
			return recv{code: "po", good: true, kind: "local *Po"}
		case 4:
			return recv{code: "tr", good: true, kind: "local Translator"}
		case 5:
			return recv{code: "(*l)", all: true, good: true, kind: "deref"}
		case 6:
			return recv{code: "mo", good: true, kind: "local *Mo"}
		default:
			return recv{code: "(&v)", all: true, good: true, kind: "address"}
		}
	}
	if k < 6 && g.gt != "" {
		switch g.int(8, "expr") {
		case 0:
			return recv{code: g.gt + ".NewPo()", good: true, kind: "constructor"}
		case 1:
			return recv{code: g.gt + ".NewLocale(\"a\", \"b\")", all: true, good: true, kind: "constructor"}
		case 2:
			return recv{code: g.gt + ".NewDomain()", good: true, kind: "constructor"}
		case 3:
			return recv{code: g.gt + ".GetStorage()", all: true, good: true, kind: "GetStorage"}
		case 4:
			return recv{code: g.gt + ".GetLocales()[0]", all: true, good: true, kind: "GetLocales"}
		case 5:
			return recv{code: "(&" + g.gt + ".Po{})", good: true, kind: "composite"}
		case 6:
			return recv{code: "map[string]" + g.gt + ".Translator{}[\"x\"]", good: true, kind: "composite"}
		default:
			return recv{code: "struct{ X *" + g.gt + ".Mo }{}.X", good: true, kind: "anonymous struct"}
		}
	}
	h, p := g.holder()
	f := func(code string, all bool) recv {
		return recv{code: strings.ReplaceAll(code, "H", h), all: all, good: true, kind: code}
	}
	gt := g.gt
	opts := []recv{
		f("H.L", true), f("H.L", true), f("H.V", true), f("H.P", false), f("H.PV", false), f("H.M", false), f("H.D", false), f("H.T", false), f("H.T", false),
		f("(*H.PT)", false), f("(**H.PP)", true), f("(*H.PP)", true), f("H.InV.L", true), f(`H.Map["k"]`, true), f(`H.MI[1]["k"]`, false), f("H.S[0]", false), f("H.S[1:][0]", false),
		f("H.F()", false), f(`H.FF("x")()`, false), f("(<-H.C)", true), f("H.A[1]", false), f("H.Al", true), f("H.PA", false), f("H.TA", false), f("H.AA", false), f("H.PtA", true), f("H.TAA", false), f("H.BA.V", false), f("H.B.V", true),
		f("H.E.Locale", true), f("H.EP.Po", false), f("H.Loc()", true), f("(*H.L)", true), f("(&H.V)", true), f("(H.L)", true), f("((H.T))", false),
	}
	if !g.locals {
		opts = opts[:len(opts)-4]
	}
	for _, x := range []struct {
		s   string
		all bool
	}{{"NewL()", true}, {"NewTr()", false}, {`NewTr("x")`, false}, {"PkgL", true}, {"PkgPo", false}, {"PkgT", false}, {"Id(Q.PkgL)", true}, {"TAlias(Q.PkgPo)", false}, {"(*Q.Alias)(Q.PkgL)", true}} {
		code := strings.ReplaceAll(x.s, "Q.", p)
		if strings.HasPrefix(x.s, "(") {
			opts = append(opts, recv{code: code, all: x.all, good: true, kind: x.s})
		} else {
			opts = append(opts, recv{code: p + code, all: x.all, good: true, kind: x.s})
		}
	}
	if gt != "" {
		opts = append(opts, f("H.Any.("+gt+".Translator)", false), f("H.Any.(*"+gt+".Locale)", true), f(gt+".Translator(H.P)", false), f("(*"+gt+".Locale)(H.L)", true), f("[]*"+gt+".Locale{H.L}[0]", true))
	} else {
		opts = append(opts, f("H.Any.("+p+"TAlias)", false), f("H.Any.(*"+p+"Alias)", true))
	}
	return rapid.SampledFrom(opts).Draw(g.t, "recv")
}

func (g *pgen) badReceiver() recv {
	if g.look != "" && g.chance(3, "look") {
		if g.chance(3, "po") {
			return recv{code: g.look + ".NewPo()", kind: "look-alike type"}
		}
		return recv{code: g.look, all: true, kind: "look-alike package"}
	}
	h, p := g.holder()
	return rapid.SampledFrom([]recv{
		{code: h + ".O", all: true, kind: "own type"}, {code: h + ".OP", all: true, kind: "own pointer"}, {code: h + ".OI", kind: "own interface"},
		{code: h + ".AI", only: "Get", kind: "anonymous interface"}, {code: h + ".Fn", only: "Get", kind: "function field"},
		{code: h + ".OL", all: true, kind: "own type Locale"}, {code: h + ".OT", kind: "own interface Translator"},
		{code: p + "NewOwn()", all: true, kind: "own result"}, {code: p + "PkgOwn", all: true, kind: "own variable"}, {code: p + "Own{}", all: true, kind: "own literal"},
		{code: h + ".E", all: true, kind: "promoted method"}, {code: h + ".EP", kind: "promoted method"},
		{code: h + ".Any.(" + p + "OwnI)", kind: "own assertion"},
		{code: h + ".P.Headers", only: "Get", bare: true, kind: "headers"}, {code: h + ".D.Headers", only: "Get", bare: true, kind: "headers"},
		{code: h + ".HM", only: "Get", bare: true, kind: "headers"}, {code: "(*" + h + ".HP)", only: "Get", bare: true, kind: "headers"},
	}).Draw(g.t, "badrecv")
}

func pluralFor(k msgKey) string { return "many: " + k.ID + "|" + k.Ctx + "|" + k.Dom }

// call writes one call of a getter.
func (g *pgen) call() {
	g.depth++
	defer func() { g.depth-- }()
	r := g.receiver()
	g.callOn(r)
}

func (g *pgen) callOn(r recv) {
	g.kinds[r.kind] = true
	var get getter
	for {
		get = rapid.SampledFrom(getters).Draw(g.t, "getter")
		if r.only != "" {
			get = getters[0]
		}
		if r.all || !get.dom {
			break
		}
		get = map[string]getter{"GetD": getters[0], "GetND": getters[1], "GetDC": getters[4], "GetNDC": getters[5]}[get.name]
		break
	}
	g.w("%s.%s", r.code, get.name)
	line := g.line
	g.w("(")
	idx := -1 // reserved place in the list of calls: outer before inner does not matter
	_ = idx
	// a multi-value call as the arguments
	if g.chance(40, "multi") {
		p := g.pre[0]
		switch get.name {
		case "Get":
			g.w("%sOne())", p)
			g.bad("multi")
			return
		case "GetC", "GetD":
			g.w("%sTwo())", p)
			g.bad("multi")
			return
		case "GetN":
			g.w("%sThree())", p)
			g.bad("multi")
			return
		}
	}
	o := occurrence{Loc: fmt.Sprintf("%s:%d", g.file, line)}
	if get.dom {
		o.Dom = rapid.SampledFrom(g.doms).Draw(g.t, "dom")
	}
	if get.ctx {
		o.Ctx = rapid.SampledFrom(g.ctxs).Draw(g.t, "ctx")
	}
	o.ID = rapid.SampledFrom(g.pool).Draw(g.t, "id")
	good := r.good
	nonlit := -1
	if g.chance(8, "nonlit") {
		// one of the arguments that name the message is no literal
		nonlit = g.int(get.nargs, "which")
		if !(get.plural && nonlit == nIndex(get)) {
			good = false
			g.kinds["non-literal"] = true
		}
	} else if g.chance(25, "emptyid") {
		o.ID = ""
		good = false
	}
	k := func() string { return fmt.Sprintf("%q|%q|%q|%d", g.domain(o), o.Ctx, o.ID, line) }
	if good {
		for i := 2; g.seen[k()]; i++ {
			o.ID += fmt.Sprintf(" (%d)", i)
		}
		g.seen[k()] = true
	}
	if get.plural {
		o.Plural = pluralFor(msgKey{g.domain(o), o.Ctx, o.ID})
	}
	multi := g.chance(6, "multiline")
	sep := func() {
		if multi {
			g.w("\n")
		}
	}
	sep()
	for i := 0; i < get.nargs; i++ {
		if i > 0 {
			g.w(", ")
			sep()
		}
		if get.plural && i == nIndex(get) {
			g.count()
			continue
		}
		var s string
		switch i {
		case get.def.ID:
			s = o.ID
		case get.def.Plural:
			s = o.Plural
		case get.def.Context:
			s = o.Ctx
		case get.def.Domain:
			s = o.Dom
		}
		if i == nonlit {
			g.nonLiteral(s)
		} else {
			g.str(s)
		}
	}
	if r.bare {
		g.w(")")
		g.bad(r.kind)
		return
	}
	if g.chance(16, "spread") {
		g.w(", ")
		sep()
		g.w("%s...", g.pick("spread args", "[]interface{}{1, \"literal\"}", "[]interface{}(nil)", "func() []interface{} { return nil }()"))
		g.kinds["spread arguments"] = true
	} else {
		for i := g.int(4, "vars"); i > 0; i-- {
			g.w(", ")
			sep()
			g.arg()
		}
	}
	if multi {
		g.w(",\n")
	}
	g.w(")")
	if good {
		g.calls = append(g.calls, o)
	} else {
		g.bad(r.kind)
	}
}

// domain names the domain of a call, "." the default one.
func (g *pgen) domain(o occurrence) string {
	if o.Dom == "" || o.Dom == g.def {
		return "."
	}
	return o.Dom
}

func nIndex(get getter) int {
	if get.dom {
		return 3
	}
	return 2
}

func (g *pgen) bad(string) { g.nbad++ }

func (g *pgen) count() {
	h, _ := g.holder()
	g.w("%s", g.pick("n", "0", "1", "5", "len("+h+".Str)", h+".N", "int('x')"))
}

// arg writes an argument of a format.
func (g *pgen) arg() {
	h, p := g.holder()
	if g.depth < 3 && g.chance(5, "nestarg") {
		g.call()
		return
	}
	g.w("%s", g.pick("arg", "1", `"literal"`, "nil", "3.5", "'c'", h+".N", p+"Konst", h, "[]string{\"x\"}", "func() int { return 1 }()"))
}

// nonLiteral writes a string expression that is no literal.
func (g *pgen) nonLiteral(s string) {
	h, p := g.holder()
	if g.depth < 3 && g.chance(3, "nestid") {
		g.call()
		return
	}
	lit := fmt.Sprintf("%+q", s)
	g.w("%s", g.pick("expr", p+"Konst", lit+" + \"x\"", h+".Str[0]", "string(rune(65))", "string("+lit+")", p+"One()", "func() string { return "+lit+" }()", "[]string{"+lit+"}[0]", lit+"[0:0]"))
}

// expr writes a string expression with calls in it.
func (g *pgen) expr() {
	switch g.int(12, "expr") {
	case 0:
		g.call()
		g.w(" + \", \" + ")
		g.call()
	case 1:
		g.w("func() string {\nreturn ")
		g.call()
		g.w("\n}()")
	case 2:
		g.w("[]string{\n")
		for i := g.int(3, "elems"); i >= 0; i-- {
			g.call()
			g.w(",\n")
		}
		g.w("}[0]")
	case 3:
		g.w("map[string]string{")
		g.call()
		g.w(": ")
		g.call()
		g.w("}[")
		g.call()
		g.w("]")
	case 4:
		g.w("struct{ A, B string }{A: ")
		g.call()
		g.w(", B: \"b\"}.A")
	case 5:
		g.w("string([]byte(")
		g.call()
		g.w("))")
	case 6:
		g.w("/* %s.Get(\"in a comment\") */ ", "gotext")
		g.call()
	default:
		g.call()
	}
}

func (g *pgen) name() string {
	g.n++
	return fmt.Sprintf("x%d", g.n)
}

// stmt writes a statement.
func (g *pgen) stmt() {
	g.depth++
	defer func() { g.depth-- }()
	p := g.pre[0]
	k := g.int(26, "stmt")
	if g.depth > 3 && k > 8 {
		k = k % 9
	}
	switch k {
	case 0, 1, 2:
		g.w("_ = ")
		g.expr()
	case 3:
		n := g.name()
		g.w("%s := ", n)
		g.expr()
		g.w("\n_ = %s", n)
	case 4:
		g.call()
	case 5:
		g.w("defer ")
		g.call()
	case 6:
		g.w("go ")
		g.call()
	case 7:
		g.w("%sSink(", p)
		g.expr()
		g.w(", ")
		g.expr()
		g.w(")")
	case 8:
		n := g.name()
		g.w("var %s, _ = ", n)
		g.call()
		g.w(", ")
		g.call()
		g.w("; _ = %s", n)
	case 9:
		g.w("if ")
		g.expr2()
		g.w(" == ")
		g.expr2()
		g.w(" {\n")
		g.stmt()
		g.w("\n} else if x := ")
		g.expr2()
		g.w("; x != \"\" {\n")
		g.stmt()
		g.w("\n} else {\n")
		g.stmt()
		g.w("\n}")
	case 10:
		g.w("switch ")
		g.expr2()
		g.w(" {\ncase ")
		g.call()
		g.w(", \"x\":\n")
		g.stmt()
		g.w("\ndefault:\n")
		g.stmt()
		g.w("\n}")
	case 11:
		n := g.name()
		g.w("for %s := 0; ", n)
		g.expr2()
		g.w(" != \"\"; %s++ {\n", n)
		g.stmt()
		g.w("\nbreak\n}")
	case 12:
		g.w("func() {\n")
		g.stmt()
		g.w("\n}()")
	case 13:
		g.w("go func() {\n")
		g.stmt()
		g.w("\n}()")
	case 14:
		g.w("for range ")
		g.expr2()
		g.w(" {\n")
		g.stmt()
		g.w("\n}")
	case 15: // type switch
		h, _ := g.holder()
		x := g.name()
		loc, po, tr := "*"+p+"Alias", p+"PAlias", p+"TAlias"
		if g.gt != "" && g.chance(2, "named") {
			loc, po, tr = "*"+g.gt+".Locale", "*"+g.gt+".Po", g.gt+".Translator"
		}
		g.w("switch %s := %s.Any.(type) {\ncase %s:\n_ = ", x, h, loc)
		g.callOn(recv{code: x, all: true, good: true, kind: "type switch"})
		g.w("\ncase %s:\n_ = ", po)
		g.callOn(recv{code: x, good: true, kind: "type switch"})
		g.w("\ncase %s:\n_ = ", tr)
		g.callOn(recv{code: x, good: true, kind: "type switch"})
		g.w("\ncase %sOwn:\n_ = ", p)
		g.callOn(recv{code: x, all: true, kind: "type switch on own"})
		g.w("\n}")
	case 16: // range over translators
		h, _ := g.holder()
		x := g.name()
		g.w("for _, %s := range %s.S {\n_ = ", x, h)
		g.callOn(recv{code: x, good: true, kind: "range variable"})
		g.w("\n}")
	case 17: // parameter of a closure
		h, _ := g.holder()
		x := g.name()
		g.w("func(%s %sTAlias, _ int) {\n_ = ", x, p)
		g.callOn(recv{code: x, good: true, kind: "closure parameter"})
		g.w("\n}(%s.T, 1)", h)
	case 18: // a local variable that hides the package
		n := g.gt
		if n == "" {
			n = "gotext"
		}
		for _, pre := range g.pre {
			if pre == n+"." {
				n = "hidden"
			}
		}
		defer func(gt, look string) { g.gt, g.look = gt, look }(g.gt, g.look)
		r := recv{code: n, all: true, kind: "variable hiding the package"}
		if g.chance(2, "good") {
			// ... and is a catalogue itself
			h, _ := g.holder()
			g.w("{\n%s := %s.P\n_ = ", n, h)
			r = recv{code: n, good: true, kind: "catalogue hiding the package"}
		} else {
			g.w("{\n%s := %sOwn{}\n_ = ", n, p)
		}
		if g.gt == n {
			g.gt = ""
		}
		if g.look == n {
			g.look = ""
		}
		g.callOn(r)
		g.w("\n}")
	case 19: // plain functions
		g.w("_ = %s%s", p, g.pick("plain", `Get("plain")`, `GetN("plain", "plains", 1)`, `GetC("plain", "ctx")`))
	case 20:
		h, _ := g.holder()
		x := g.name()
		g.w("%s, _ := %s.Both()\n_ = ", x, h)
		g.callOn(recv{code: x, all: true, good: true, kind: "tuple"})
	case 21:
		g.w("// %s.Get(\"commented\")\n", "gotext")
		g.w("_ = `gotext.Get(\"quoted\")\n`")
	case 22:
		g.w("select {\ncase make(chan string) <- ")
		g.call()
		g.w(":\n")
		g.stmt()
		g.w("\ndefault:\n}")
	case 23: // local function of the same name
		g.w("{\nGet := func(s string) string { return s }\n_ = Get(\"local\")\n}")
	case 24: // functions of another kind with a gotext receiver
		h, _ := g.holder()
		g.w("%s", g.pick("other", h+".L.GetDomain()", h+`.P.IsTranslated("not extracted")`, h+`.L.AddDomain("not extracted")`, h+`.P.Set("not extracted", "x")`, h+`.M.Append(nil, "not extracted")`, h+`.Err.Error()`, h+`.EI.Error()`, h+`.ES[0].Error()`, "(struct{ error }{"+h+".Err}).error.Error()"))
	default:
		g.w("{\n")
		for i := g.int(3, "inner"); i >= 0; i-- {
			g.stmt()
			g.w("\n")
		}
		g.w("}")
	}
}

// expr2 is expr without composite literals, which an if header cannot hold.
func (g *pgen) expr2() {
	g.w("(")
	g.expr()
	g.w(")")
}

// block makes a braced header safe: composite literals in parentheses.
func (g *pgen) fileBody() {
	// package level
	g.locals = false
	for i := g.int(4, "pkglevel"); i > 0; i-- {
		switch g.int(4, "pkgform") {
		case 0:
			g.w("var %s = ", g.global())
			g.expr()
		case 1:
			g.w("var (\n%s = ", g.global())
			g.call()
			g.w("\n%s = map[string]string{\n\"k\": ", g.global())
			g.call()
			g.w(",\n}\n)")
		case 2:
			g.w("var %s = func() string {\nreturn ", g.global())
			g.call()
			g.w("\n}")
		default:
			g.w("var _ = ")
			g.call()
		}
		g.w("\n\n")
	}
	nf := 1 + g.int(3, "funcs")
	for i := 0; i < nf; i++ {
		p := g.pre[0]
		g.locals = true
		switch g.int(6, "funcform") {
		case 0:
			g.w("func init() {\nh := %sNewH()\n", p)
		case 1:
			n := g.global()
			g.w("type T%s struct{ h *%sHolder }\n\nfunc (r *T%s) Get(id string) string {\nh := r.h\n", n, p, n)
		case 2:
			g.w("func %s(h *%sHolder, s string) string {\n", g.global(), p)
		case 3:
			g.w("func %s[T any, U ~int | ~string](h *%sHolder, s T, u U) string {\n", g.global(), p)
			g.kinds["generic function"] = true
		case 4:
			n := g.global()
			g.w("type T%s[K comparable] struct {\nh *%sHolder\nk K\n}\n\nfunc (r *T%s[K]) GetN(id string) string {\nh := r.h\n", n, p, n)
			g.kinds["generic method"] = true
		default:
			g.w("var %s = func(h *%sHolder) {\n", g.global(), p)
		}
		body := g.b.String()
		ret := !strings.HasSuffix(body, "init() {\nh := "+p+"NewH()\n") && !strings.HasSuffix(body, "Holder) {\n")
		g.w("hv, hs := *h, []*%sHolder{h}\nl, v, po, mo, tr := h.L, h.V, h.P, h.M, h.T\n_, _, _, _, _, _, _ = hv, hs, l, &v, po, mo, tr\n", p)
		for j := 1 + g.int(7, "stmts"); j > 0; j-- {
			g.stmt()
			g.w("\n")
		}
		if ret {
			g.w("return ")
			g.expr()
			g.w("\n")
		}
		g.w("}\n\n")
		g.locals = false
	}
}

var globals int

func (g *pgen) global() string {
	g.n++
	return fmt.Sprintf("g%s%d", strings.NewReplacer("/", "", ".", "", "-", "").Replace(strings.TrimSuffix(g.file, ".go")), g.n)
}

func genProgram(t *rapid.T, mode string) program {
	c := program{Files: map[string]string{}, Calls: map[string][]occurrence{}, Mode: mode}
	c.Default = rapid.SampledFrom([]string{"default", "messages"}).Draw(t, "default")
	c.Cwd = rapid.SampledFrom([]string{"root", "root", "parent", "abs", "outer", "outer module", "link", "link abs"}).Draw(t, "cwd")
	pool := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return cat.ID(t, "id") }), 2, 8).Draw(t, "ids")
	pool = append(pool, "simple", cat.Near(t, pool[0], "near"))
	ctxs := []string{"menu", cat.ID(t, "ctx")}
	ctxs = append(ctxs, cat.Near(t, ctxs[1], "nearctx"))
	doms := []string{"errors", "my-dom", "a.b", c.Default}
	kinds := map[string]bool{}
	// main may use alpha, alpha may use beta; gamma is used by nobody
	useAlpha := rapid.IntRange(0, 3).Draw(t, "alpha") > 0
	useBeta := useAlpha && rapid.Bool().Draw(t, "beta")
	gamma := rapid.IntRange(0, 3).Draw(t, "gamma") == 0
	pkgs := []string{"."}
	if useAlpha {
		pkgs = append(pkgs, "alpha")
	}
	if useBeta {
		pkgs = append(pkgs, "alpha/beta")
	}
	// a package may get its gotext values from its child only
	ownAlpha := !useBeta || rapid.IntRange(0, 2).Draw(t, "ownalpha") > 0
	ownMain := !useAlpha || !ownAlpha || rapid.IntRange(0, 2).Draw(t, "ownmain") > 0
	// delta shares alpha with main, the only package it has its values from
	useDelta := useAlpha && ownAlpha && rapid.IntRange(0, 2).Draw(t, "delta") == 0
	if useDelta {
		pkgs = append(pkgs, "delta")
	}
	c.Reach = append(c.Reach, pkgs...)
	if gamma {
		pkgs = append(pkgs, "gamma")
	}
	if useBeta {
		c.Module = rapid.SampledFrom(map[string][]string{"in": {"", "", "nested"}, "pkg-tree": {"", "", "nested", "beside"}}[mode]).Draw(t, "module")
	}
	c.Files["gotext/own.go"] = lookalike
	for _, dir := range pkgs {
		name := map[string]string{".": "main", "alpha": "alpha", "alpha/beta": "beta", "gamma": "gamma", "delta": "delta"}[dir]
		if dir == "gamma" {
			name = rapid.SampledFrom([]string{"gamma", "gotext"}).Draw(t, "gammaname")
		}
		child := map[string]string{".": "alpha", "alpha": "alpha/beta", "delta": "alpha"}[dir]
		if child == "alpha" && !useAlpha || child == "alpha/beta" && !useBeta {
			child = ""
		}
		join := func(f string) string {
			if dir == "." {
				return f
			}
			return dir + "/" + f
		}
		own := dir == "." && ownMain || dir == "alpha" && ownAlpha || child == ""
		if own {
			sup := support(name, rapid.SampledFrom([]string{"", "gotext", "g", "gt", "i18n"}).Draw(t, "supname"))
			c.Files[join("support.go")] = sup
		}
		nfiles := 1 + rapid.IntRange(0, 1).Draw(t, "files")
		imported := false
		for i := 0; i < nfiles; i++ {
			g := &pgen{t: t, seen: map[string]bool{}, kinds: kinds, pool: pool, doms: doms, ctxs: ctxs, def: c.Default}
			g.file = join(rapid.SampledFrom([]string{"a", "zz", "file-1", "ünder"}).Draw(t, "fname") + fmt.Sprint(i) + ".go")
			g.line = 1
			g.w("%spackage %s\n\n", rapid.SampledFrom([]string{"", "// A comment.\n\n", "/* two\nlines */ ", "// Code generated by a tool. DO NOT EDIT.\n\n"}).Draw(t, "doc"), name)
			var uses []string
			useGt := own && rapid.IntRange(0, 3).Draw(t, "gt") > 0 || !own && rapid.IntRange(0, 3).Draw(t, "gt2") == 0
			useLook := rapid.IntRange(0, 2).Draw(t, "lookalike") == 0 && (dir != "alpha/beta" || c.Module == "")
			imports := []string{}
			self := name // a package may be imported under the name of this one
			if name == "main" {
				self = "gotext"
			}
			if useGt {
				a := rapid.SampledFrom([]string{"", "", "gotext", "g", "i18n", "t", "l10n", self, self}).Draw(t, "gtname")
				g.gt = a
				if a == "" {
					g.gt = "gotext"
				}
				imports = append(imports, fmt.Sprintf("%s %q", a, gotextPath))
				uses = append(uses, g.gt+".Translator")
			}
			if useLook {
				a := rapid.SampledFrom([]string{"gotext", "g", "i18n", "look"}).Draw(t, "lookname")
				if a == g.gt {
					a = "other"
				}
				g.look = a
				imports = append(imports, fmt.Sprintf("%s \"example.com/prog/gotext\"", a))
				uses = append(uses, a+".Po")
			}
			if dir == "." && useDelta && i == 0 {
				imports = append(imports, `_ "example.com/prog/delta"`)
			}
			if child == "alpha" && !ownAlpha && i == 0 {
				imports = append(imports, `_ "example.com/prog/alpha"`)
			}
			useChild := (child != "alpha" || ownAlpha) && child != "" && (!own || rapid.Bool().Draw(t, "child") || i == nfiles-1 && !imported)
			if own {
				g.pre = append(g.pre, "")
			}
			if useChild {
				imported = true
				a := rapid.SampledFrom([]string{"", "c", "gotext"}).Draw(t, "childname")
				if a == g.gt || a == g.look {
					a = "cc"
				}
				if a == "" && (g.gt == child || g.look == child) {
					a = "cc"
				}
				n := a
				if n == "" {
					n = child[strings.LastIndex(child, "/")+1:]
				}
				if g.gt == "" && a == "gotext" && g.chance(2, "x") {
					g.kinds["child named gotext"] = true
				}
				imports = append(imports, fmt.Sprintf("%s \"example.com/prog/%s\"", a, child))
				// types named through a package whose name a variable may hide are fine: nothing hides it
				g.pre = append(g.pre, n+".")
				uses = append(uses, n+".Own")
			}
			// one declaration, or several of one or more packages
			open := false
			for _, s := range rapid.Permutation(imports).Draw(t, "imports") {
				if open && g.chance(4, "close") {
					g.w(")\n")
					open = false
				}
				switch {
				case open:
					g.w("\t%s\n", s)
				case g.chance(3, "alone"):
					g.w("import %s\n", s)
				default:
					g.w("import (\n\t%s\n", s)
					open = true
				}
			}
			if open {
				g.w(")\n")
			}
			g.w("\n")
			for _, u := range uses {
				g.w("var _ %s\n", u)
			}
			g.w("\n")
			if g.chance(30, "long") { // a long file
				g.w(strings.Repeat(g.pick("filler", "\n", "// %\n"), rapid.SampledFrom([]int{150, 300, 1100, 3000, 10100, 40000, 66000}).Draw(t, "lines")))
				g.kinds["long file"] = true
			}
			g.fileBody()
			c.Files[g.file] = g.b.String()
			c.Calls[dir] = append(c.Calls[dir], g.calls...)
			c.NBad += g.nbad
		}
		if dir == "." {
			c.Files["entry.go"] = "package main\n\nfunc main() {}\n"
		}
	}
	for k := range kinds {
		c.Kinds = append(c.Kinds, k)
	}
	if c.Module == "" {
		// a path without a dot looks like one of the standard library's
		c.Path = rapid.SampledFrom([]string{"", "", "prog", "my/prog"}).Draw(t, "path")
	}
	if c.Path != "" {
		for f := range c.Files {
			c.Files[f] = strings.ReplaceAll(c.Files[f], "\"example.com/prog/", "\""+c.Path+"/")
		}
	}
	return c
}
