package lib

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// nestQ is a lookup whose arguments may look up texts themselves.
type nestQ struct {
	Via    string    `json:"via"` // pkg, locale, po, domain, mo
	Append bool      `json:"append,omitempty"`
	Q      pkgQuery  `json:"q"`
	Args   []nestArg `json:"args,omitempty"`
}

// nestArg is an argument: a plain string, or a value whose method does things and looks texts up.
type nestArg struct {
	Kind string   `json:"kind"` // string, Stringer, error, Formatter
	S    string   `json:"s,omitempty"`
	Do   []nestDo `json:"do,omitempty"`
	Asks []nestQ  `json:"asks,omitempty"`
}

// nestDo is a change an argument's method makes.
type nestDo struct {
	K   string   `json:"k"` // Configure, SetDomain, SetLanguage, AddDomain, LocaleSetDomain, AddTranslator, po, domain, Marshal
	S   string   `json:"s,omitempty"`
	Dom string   `json:"dom,omitempty"`
	Cat *cat.Cat `json:"cat,omitempty"`
	Op  op       `json:"op"`
}

type nestCase struct {
	Files []pkgFile `json:"files"`
	Langs string    `json:"langs"`
	Dom   string    `json:"dom"`
	Po    *cat.Cat  `json:"po"`
	Dm    *cat.Cat  `json:"dm"`
	Mo    *cat.Cat  `json:"mo"`
	Qs    []nestQ   `json:"qs"`
}

// nestWorld answers lookups and makes changes: the library's objects, or their model.
type nestWorld interface {
	text(q *nestQ, args []interface{}) string
	do(d *nestDo)
}

type (
	nStringer  struct{ f func() string }
	nError     struct{ f func() string }
	nFormatter struct{ f func() string }
)

func (s nStringer) String() string                  { return s.f() }
func (s nError) Error() string                      { return s.f() }
func (s nFormatter) Format(st fmt.State, verb rune) { fmt.Fprintf(st, "<%c:%s>", verb, s.f()) }
func (q *nestQ) ask(w nestWorld, calls *int) string { return w.text(q, q.values(w, calls)) }

func (q *nestQ) values(w nestWorld, calls *int) []interface{} {
	var vs []interface{}
	for i := range q.Args {
		a := &q.Args[i]
		f := func() string {
			*calls++
			parts := []string{a.S}
			for j := range a.Do {
				w.do(&a.Do[j])
			}
			for j := range a.Asks {
				parts = append(parts, a.Asks[j].ask(w, calls))
			}
			return strings.Join(parts, "+")
		}
		switch a.Kind {
		case "string":
			vs = append(vs, a.S)
		case "Stringer":
			vs = append(vs, nStringer{f})
		case "error":
			vs = append(vs, nError{f})
		case "Formatter":
			vs = append(vs, nFormatter{f})
		}
	}
	return vs
}

// lookWith asks a Looker, through a Get or an Append function.
func lookWith(lk cat.Looker, q *pkgQuery, app bool, args []interface{}) string {
	pre := []byte("pre")
	switch {
	case app && !q.PlFn && q.Ctx == "":
		return string(lk.Append(pre, q.ID, args...))
	case app && q.Ctx == "":
		return string(lk.AppendN(pre, q.ID, q.Plural, q.N, args...))
	case app && !q.PlFn:
		return string(lk.AppendC(pre, q.ID, q.Ctx, args...))
	case app:
		return string(lk.AppendNC(pre, q.ID, q.Plural, q.N, q.Ctx, args...))
	case !q.PlFn && q.Ctx == "":
		return lk.Get(q.ID, args...)
	case q.Ctx == "":
		return lk.GetN(q.ID, q.Plural, q.N, args...)
	case !q.PlFn:
		return lk.GetC(q.ID, q.Ctx, args...)
	default:
		return lk.GetNC(q.ID, q.Plural, q.N, q.Ctx, args...)
	}
}

type nestReal struct {
	lib string
	l   *gotext.Locale
	po  *gotext.Po
	dm  *gotext.Po // used through its Domain
	mo  *gotext.Mo
}

func parsedPo(c *cat.Cat) *gotext.Po {
	po := gotext.NewPo()
	po.Parse([]byte(cat.WritePlain(c)))
	return po
}

func (r *nestReal) text(q *nestQ, args []interface{}) string {
	switch q.Via {
	case "locale":
		return lookWith(cat.LocaleLooker{L: r.l, D: q.Q.Dom}, &q.Q, false, args)
	case "po":
		return lookWith(r.po, &q.Q, q.Append, args)
	case "domain":
		return lookWith(r.dm.GetDomain(), &q.Q, q.Append, args)
	case "mo":
		if q.Append {
			return lookWith(r.mo.GetDomain(), &q.Q, true, args)
		}
		switch x := &q.Q; {
		case !x.PlFn && x.Ctx == "":
			return r.mo.Get(x.ID, args...)
		case x.Ctx == "":
			return r.mo.GetN(x.ID, x.Plural, x.N, args...)
		case !x.PlFn:
			return r.mo.GetC(x.ID, x.Ctx, args...)
		default:
			return r.mo.GetNC(x.ID, x.Plural, x.N, x.Ctx, args...)
		}
	}
	return lookWith(cat.PkgLooker{D: q.Q.Dom}, &q.Q, false, args)
}

func (r *nestReal) do(d *nestDo) {
	switch d.K {
	case "Configure":
		gotext.Configure(r.lib, d.S, d.Dom)
	case "SetDomain":
		gotext.SetDomain(d.Dom)
	case "SetLanguage":
		gotext.SetLanguage(d.S)
	case "AddDomain":
		r.l.AddDomain(d.Dom)
	case "LocaleSetDomain":
		r.l.SetDomain(d.Dom)
	case "AddTranslator":
		r.l.AddTranslator(d.Dom, parsedPo(d.Cat))
	case "po":
		d.Op.run(r.po)
	case "domain":
		d.Op.run(r.dm.GetDomain())
	case "Marshal":
		r.l.MarshalBinary()
		r.l.GetTranslations()
		r.po.MarshalText()
		r.dm.GetDomain().GetCtxTranslations()
		gotext.GetLocales()
		gotext.GetStorage()
	}
}

type nestModel struct {
	s      *pstate
	l      mlocale
	locDom string
	po, dm *model
	mo     *cat.Cat
}

func (m *nestModel) text(q *nestQ, args []interface{}) string {
	x := q.Q
	var c *cat.Cat
	switch q.Via {
	case "locale":
		if x.Dom == "" {
			x.Dom = m.locDom
		}
		c = m.l.mem[x.Dom]
	case "po":
		c = m.po.cat()
	case "domain":
		c = m.dm.cat()
	case "mo":
		c = m.mo
	default:
		ok, _ := m.s.want(&x)
		return sprint(ok[0], args)
	}
	text, tr := x.translated(c)
	if !tr {
		text = x.ID
		if x.PlFn && x.N != 1 {
			text = x.Plural
		}
	}
	text = sprint(text, args)
	if q.Append {
		text = "pre" + text
	}
	return text
}

func (m *nestModel) do(d *nestDo) {
	switch d.K {
	case "Configure":
		m.s.setLangs(d.S)
		m.s.dom = d.Dom
		m.s.rebuild()
	case "SetDomain":
		m.s.dom = d.Dom
		m.s.rebuild()
	case "SetLanguage":
		m.s.setLangs(d.S)
		m.s.rebuild()
	case "AddDomain":
		for _, x := range candidates(m.l.lang, d.Dom) {
			if c, ok := m.s.disk[filepath.Join(m.l.lib, x.path)]; ok {
				m.attach(d.Dom, c)
				break
			}
		}
	case "LocaleSetDomain":
		m.locDom = d.Dom
	case "AddTranslator":
		m.attach(d.Dom, d.Cat)
	case "po":
		m.po.apply(d.Op)
	case "domain":
		m.dm.apply(d.Op)
	}
}

func (m *nestModel) attach(dom string, c *cat.Cat) {
	if m.locDom == "" {
		m.locDom = dom
	}
	m.l.mem[dom] = c
}

var (
	nestIDs = []string{"m0 %s", "m1 %s and %v", "m2", "m3 %q", "m4 %[2]s %[1]s", "m5 %v%%"}
	nestCtx = []string{"", "", "c"}
)

func genNestCat(t *rapid.T, tag string) *cat.Cat {
	c := &cat.Cat{Headers: []cat.KV{{K: "Language", V: "de"}}}
	for i, id := range nestIDs {
		for _, ctx := range []string{"", "c"} {
			if rapid.IntRange(0, 3).Draw(t, "in") == 0 {
				continue
			}
			e := cat.Entry{Ctx: ctx, ID: id}
			nf := 1
			if rapid.Bool().Draw(t, "pl") {
				e.Plural, nf = "many "+id, 2
			}
			for k := 0; k < nf; k++ {
				s := rapid.SampledFrom([]string{"", " %s", " %s", " %s, %v", " %[2]v-%[1]s", " %s %s", " %q", "%%"}).Draw(t, "verbs")
				e.Forms = append(e.Forms, cat.Form{I: k, S: fmt.Sprintf("%s %d.%d", tag, i, k) + s})
			}
			c.Entries = append(c.Entries, e)
		}
	}
	return c
}

func genNestQ(t *rapid.T, depth int, changes bool) nestQ {
	q := nestQ{Via: rapid.SampledFrom([]string{"pkg", "pkg", "pkg", "locale", "locale", "po", "domain", "mo"}).Draw(t, "via")}
	q.Q = pkgQuery{ID: rapid.SampledFrom(nestIDs).Draw(t, "id"), Ctx: rapid.SampledFrom(nestCtx).Draw(t, "ctx"), PlFn: rapid.Bool().Draw(t, "plfn")}
	if q.Q.PlFn {
		q.Q.Plural, q.Q.N = "many "+q.Q.ID, rapid.IntRange(0, 3).Draw(t, "n")
	}
	if q.Via == "pkg" || q.Via == "locale" {
		q.Q.Dom = rapid.SampledFrom([]string{"", "", "d", "e", "default", "missing"}).Draw(t, "dom")
	} else {
		q.Append = rapid.Bool().Draw(t, "append")
	}
	most := 2
	if depth == 0 {
		most = 0
	}
	for i, n := 0, rapid.IntRange(min(1, most), most).Draw(t, "nargs"); i < n; i++ {
		a := nestArg{Kind: rapid.SampledFrom([]string{"Stringer", "Stringer", "error", "Formatter", "string"}).Draw(t, "kind"), S: rapid.SampledFrom([]string{"", "x", "ü"}).Draw(t, "s")}
		if a.Kind != "string" {
			for j, k := 0, rapid.IntRange(0, 2).Draw(t, "nasks"); j < k; j++ {
				a.Asks = append(a.Asks, genNestQ(t, depth-1, changes))
			}
			for j, k := 0, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "ndo"); changes && j < k; j++ {
				a.Do = append(a.Do, genNestDo(t))
			}
		}
		q.Args = append(q.Args, a)
	}
	return q
}

func genNestDo(t *rapid.T) nestDo {
	d := nestDo{K: rapid.SampledFrom([]string{"Configure", "SetDomain", "SetLanguage", "AddDomain", "AddDomain", "LocaleSetDomain", "AddTranslator", "po", "po", "domain", "Marshal"}).Draw(t, "do")}
	switch d.K {
	case "Configure", "SetLanguage":
		d.S = genLangList(t, "dolangs")
	case "po", "domain":
		id := rapid.SampledFrom(nestIDs).Draw(t, "doid")
		d.Op = op{K: rapid.SampledFrom([]string{"Set", "SetN", "SetC", "SetNC"}).Draw(t, "op"), ID: id, Ctx: "c", Plural: "many " + id, N: rapid.IntRange(1, 2).Draw(t, "don"), Str: rapid.SampledFrom([]string{"new", "new %s", "new %v %s"}).Draw(t, "dostr")}
		if d.Op.K == "Set" || d.Op.K == "SetN" {
			d.Op.Ctx = ""
		}
	case "AddTranslator":
		d.Cat = genNestCat(t, "added")
	}
	d.Dom = rapid.SampledFrom([]string{"d", "e", "default", "missing"}).Draw(t, "dodom")
	return d
}

func genNestCase(changes bool, nq int) func(*rapid.T) nestCase {
	return func(t *rapid.T) nestCase {
		c := nestCase{Langs: genLangList(t, "langs"), Dom: rapid.SampledFrom(pkgDoms).Draw(t, "dom"), Po: genNestCat(t, "po"), Dm: genNestCat(t, "dm"), Mo: genNestCat(t, "mo")}
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "nfiles"); i < n; i++ {
			f := pkgFile{Dir: rapid.SampledFrom(pkgLangs).Draw(t, "dir"), Dom: rapid.SampledFrom(pkgDoms).Draw(t, "fdom"), Kind: "po"}
			f.Cat = genNestCat(t, fmt.Sprintf("%s/%s", f.Dir, f.Dom))
			c.Files = append(c.Files, f)
		}
		for i, n := 0, rapid.IntRange(1, nq).Draw(t, "nq"); i < n; i++ {
			c.Qs = append(c.Qs, genNestQ(t, 3, changes))
		}
		return c
	}
}

// setup builds both worlds.
func (c *nestCase) setup() (*nestReal, *nestModel, func()) {
	s, clean := newPState()
	for i := range c.Files {
		s.write(&c.Files[i])
	}
	s.dom, s.lib = c.Dom, s.libs[0]
	s.setLangs(c.Langs)
	s.rebuild()
	gotext.Configure(s.lib, c.Langs, c.Dom)
	r := &nestReal{lib: s.lib, l: gotext.NewLocale(s.lib, "de_DE"), po: parsedPo(c.Po), dm: parsedPo(c.Dm), mo: gotext.NewMo()}
	r.mo.Parse(cat.WriteMO(c.Mo, cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}, Empty: true}))
	m := &nestModel{s: s, l: mlocale{lib: s.lib, lang: "de_DE", mem: map[string]*cat.Cat{}}, po: newModel(c.Po), dm: newModel(c.Dm), mo: c.Mo}
	return r, m, clean
}

func TestC37_Nested(t *testing.T) {
	core.Run(t, core.Prop[nestCase]{
		ID: "C37", Checks: 6000,
		Rule: "up to 4 lookups, through the package, a Locale, a Po, a Mo or a Domain, whose arguments' String, Error or Format methods look up texts themselves (3 levels deep, also in domains not loaded yet) and change the configuration, the Locale or the catalogues; compared with the same done on the model; non-trivial: 2+ methods called",
		Gen:  genNestCase(true, 4),
		Check: func(ctx *core.Ctx, c nestCase) error {
			r, m, clean := c.setup()
			defer clean()
			calls, mcalls := 0, 0
			for i := range c.Qs {
				want, got := c.Qs[i].ask(m, &mcalls), c.Qs[i].ask(r, &calls)
				if got != want {
					return fmt.Errorf("lookup %d: got %s, want %s", i, cat.Q(got), cat.Q(want))
				}
				if calls != mcalls {
					return fmt.Errorf("lookup %d: %d calls of the arguments' methods, want %d", i, calls, mcalls)
				}
			}
			ctx.NonTrivial(calls >= 2)
			return m.s.getters()
		},
	})
}

func TestC37_Concurrent(t *testing.T) {
	core.Run(t, core.Prop[nestCase]{
		ID: "C37", Checks: 400, ReplayRuns: 20,
		Rule: "such lookups, without changes in them, by three goroutines while another one sets, adds and configures again what is there already; every answer must be the model's; non-trivial: 2+ methods called",
		Gen:  genNestCase(false, 3),
		Check: func(ctx *core.Ctx, c nestCase) error {
			r, m, clean := c.setup()
			defer clean()
			for _, d := range []nestDo{{K: "AddDomain", Dom: "e"}, {K: "AddDomain", Dom: "d"}, {K: "LocaleSetDomain", Dom: "d"}} {
				r.do(&d)
				m.do(&d)
			}
			var want []string
			n := 0
			for i := range c.Qs {
				want = append(want, c.Qs[i].ask(m, &n))
			}
			ctx.NonTrivial(n >= 2)
			var wg, ww sync.WaitGroup
			var stop atomic.Bool
			errs := make(chan error, 8)
			for g := 0; g < 3; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					n := 0
					for k := 0; k < 15; k++ {
						for i := range c.Qs {
							if got := c.Qs[i].ask(r, &n); got != want[i] {
								errs <- fmt.Errorf("lookup %d: got %s, want %s", i, cat.Q(got), cat.Q(want[i]))
								return
							}
						}
					}
				}()
			}
			ww.Add(1)
			go func() {
				defer ww.Done()
				for k := 0; !stop.Load(); k++ {
					switch k % 4 {
					case 0:
						r.po.Set("not asked for", "x")
						r.dm.GetDomain().SetNC("not asked for", "p", "c", 2, "x")
					case 1:
						r.l.AddTranslator("not asked for", r.mo)
						r.l.SetDomain("d")
						r.l.AddDomain("e")
					case 2:
						gotext.SetDomain(c.Dom)
					case 3:
						gotext.Configure(r.lib, c.Langs, c.Dom)
					}
				}
			}()
			wg.Wait()
			stop.Store(true)
			ww.Wait()
			select {
			case err := <-errs:
				return err
			default:
				return nil
			}
		},
	})
}
