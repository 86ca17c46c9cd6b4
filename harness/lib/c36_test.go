package lib

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// external is a Translator that is none of the library's: every lookup answers
// by what it was asked; what counts as translated is up to its Domain.
type external struct {
	tag string
	d   *gotext.Domain
	cat *cat.Cat
	// bare: it encodes without a header.
	bare bool
	// fails: it can't be encoded.
	fails bool
}

func (e *external) ParseFile(string) {}
func (e *external) Parse([]byte)     {}

func (e *external) say(kind string, vars []interface{}, what ...interface{}) string {
	return fmt.Sprintf("%s|%s|%q|%d args %v", e.tag, kind, fmt.Sprint(what...), len(vars), vars)
}

func (e *external) Get(str string, vars ...interface{}) string { return e.say("Get", vars, str) }
func (e *external) GetN(str, plural string, n int, vars ...interface{}) string {
	return e.say("GetN", vars, str, "/", plural, "/", n)
}
func (e *external) GetC(str, ctx string, vars ...interface{}) string {
	return e.say("GetC", vars, str, "/", ctx)
}
func (e *external) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string {
	return e.say("GetNC", vars, str, "/", plural, "/", n, "/", ctx)
}
func (e *external) GetDomain() *gotext.Domain    { return e.d }
func (e *external) UnmarshalBinary([]byte) error { return nil }

// MarshalBinary encodes the catalogue as the documentation asks for: as a TranslatorEncoding.
func (e *external) MarshalBinary() ([]byte, error) {
	if e.fails {
		return nil, errors.New("this catalogue can't be encoded")
	}
	var b bytes.Buffer
	err := gob.NewEncoder(&b).Encode(encodingOf(e.cat, e.bare))
	return b.Bytes(), err
}

func encodingOf(c *cat.Cat, bare bool) *gotext.TranslatorEncoding {
	te := &gotext.TranslatorEncoding{Language: c.Header("Language")}
	if !bare {
		te.Headers = gotext.HeaderMap{}
		for _, h := range c.AllHeaders() {
			te.Headers.Add(h.K, h.V)
		}
	}
	if c.Rule != nil {
		te.PluralForms, te.Plural, te.Nplurals = c.Header("Plural-Forms"), c.Rule.Formula, c.Rule.NPlurals
	}
	for i := range c.Entries {
		en := &c.Entries[i]
		t := &gotext.Translation{ID: en.ID, PluralID: en.Plural, Refs: en.Refs}
		for _, f := range en.Forms {
			if t.Trs == nil {
				t.Trs = map[int]string{}
			}
			t.Trs[f.I] = f.S
		}
		if en.Ctx == "" {
			if te.Translations == nil {
				te.Translations = map[string]*gotext.Translation{}
			}
			te.Translations[en.ID] = t
			continue
		}
		if te.Contexts == nil {
			te.Contexts = map[string]map[string]*gotext.Translation{}
		}
		if te.Contexts[en.Ctx] == nil {
			te.Contexts[en.Ctx] = map[string]*gotext.Translation{}
		}
		te.Contexts[en.Ctx][en.ID] = t
	}
	return te
}

func newExternal(tag string, c *cat.Cat) *external {
	po := gotext.NewPo()
	po.Parse([]byte(cat.WritePlain(c)))
	return &external{tag: tag, d: po.GetDomain(), cat: c}
}

func (e *external) ask(q *pkgQuery) string {
	a := cat.Values(q.Args)
	switch {
	case !q.PlFn && q.Ctx == "":
		return e.Get(q.ID, a...)
	case q.Ctx == "":
		return e.GetN(q.ID, q.Plural, q.N, a...)
	case !q.PlFn:
		return e.GetC(q.ID, q.Ctx, a...)
	default:
		return e.GetNC(q.ID, q.Plural, q.N, q.Ctx, a...)
	}
}

// askLocale asks a Locale, and asks it whether the message is translated.
func askLocale(l *gotext.Locale, q *pkgQuery) (string, bool) {
	a := cat.Values(q.Args)
	switch {
	case q.Dom == "" && !q.PlFn && q.Ctx == "":
		return l.Get(q.ID, a...), l.IsTranslated(q.ID)
	case q.Dom == "" && q.Ctx == "":
		return l.GetN(q.ID, q.Plural, q.N, a...), l.IsTranslatedN(q.ID, q.N)
	case q.Dom == "" && !q.PlFn:
		return l.GetC(q.ID, q.Ctx, a...), l.IsTranslatedC(q.ID, q.Ctx)
	case q.Dom == "":
		return l.GetNC(q.ID, q.Plural, q.N, q.Ctx, a...), l.IsTranslatedNC(q.ID, q.N, q.Ctx)
	case !q.PlFn && q.Ctx == "":
		return l.GetD(q.Dom, q.ID, a...), l.IsTranslatedD(q.Dom, q.ID)
	case q.Ctx == "":
		return l.GetND(q.Dom, q.ID, q.Plural, q.N, a...), l.IsTranslatedND(q.Dom, q.ID, q.N)
	case !q.PlFn:
		return l.GetDC(q.Dom, q.ID, q.Ctx, a...), l.IsTranslatedDC(q.Dom, q.ID, q.Ctx)
	default:
		return l.GetNDC(q.Dom, q.ID, q.Plural, q.N, q.Ctx, a...), l.IsTranslatedNDC(q.Dom, q.ID, q.N, q.Ctx)
	}
}

type extDomain struct {
	Name string   `json:"name"`
	Cat  *cat.Cat `json:"cat"`
	Po   bool     `json:"po,omitempty"` // a Po instead, with the same content
}

type extLocale struct {
	Lang string      `json:"lang"`
	Doms []extDomain `json:"doms"` // attached in order; a later one of a name replaces the earlier
}

type extCase struct {
	Locales []extLocale `json:"locales"`
	Default string      `json:"default"`
	Queries []pkgQuery  `json:"queries"`
}

func genExtCase(t *rapid.T) extCase {
	c := extCase{Default: rapid.SampledFrom([]string{"d", "e", "default"}).Draw(t, "default")}
	var cs []*cat.Cat
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nloc"); i < n; i++ {
		l := extLocale{Lang: rapid.SampledFrom([]string{"de_DE", "fr", "pt-BR"}).Draw(t, "lang")}
		for j, m := 0, rapid.IntRange(0, 4).Draw(t, "ndom"); j < m; j++ {
			d := extDomain{rapid.SampledFrom([]string{"d", "e", "default"}).Draw(t, "name"), genPkgCat(t, fmt.Sprintf("c%d.%d", i, j)), rapid.IntRange(0, 2).Draw(t, "po") == 0}
			cs = append(cs, d.Cat)
			l.Doms = append(l.Doms, d)
		}
		c.Locales = append(c.Locales, l)
	}
	k := newKeyPool(cs...)
	for i, n := 0, rapid.IntRange(4, 24).Draw(t, "nq"); i < n; i++ {
		c.Queries = append(c.Queries, genPkgQuery(t, k, 0))
	}
	return c
}

// extAnswer is a locale's domain in the model.
type extAnswer struct {
	e *external
	c *cat.Cat // of a Po
}

func (x *extAnswer) want(q *pkgQuery) (ok []string, translated bool) {
	var c *cat.Cat
	if x != nil {
		c = x.c
	}
	if x != nil && x.e != nil {
		c = x.e.cat
	}
	text, tr := q.translated(c)
	switch {
	case x != nil && x.e != nil:
		return []string{x.e.ask(q)}, tr
	case tr:
		ok = []string{text}
	case !q.PlFn:
		ok = []string{q.ID}
	default:
		var r *cat.Rule
		if c != nil {
			r = c.Rule
		}
		ok = cat.AbsentN(q.ID, q.Plural, q.N, r.Form(q.N))
	}
	for i := range ok {
		ok[i] = sprint(ok[i], cat.Values(q.Args))
	}
	return ok, tr
}

func oneOf(got string, ok []string) bool {
	for _, s := range ok {
		if s == got {
			return true
		}
	}
	return false
}

func TestC36_Delegation(t *testing.T) {
	core.Run(t, core.Prop[extCase]{
		ID: "C36", Checks: 6000,
		Rule: "1-3 Locales with 0-4 attached domains (some attached twice), most of them Translators of the harness's own that answer by repeating what they were asked; up to 24 lookups of every kind on each Locale and on the package configured with all of them; the answer must be that Translator's, asked with the caller's arguments; non-trivial: answers of 2+ Translators",
		Gen:  genExtCase,
		Check: func(ctx *core.Ctx, c extCase) error {
			defer gotext.SetLocales([]*gotext.Locale{gotext.NewLocale("/nonexistent", "xx")})
			var ls []*gotext.Locale
			var ms []map[string]*extAnswer
			for i := range c.Locales {
				l := gotext.NewLocale("/nonexistent", c.Locales[i].Lang)
				m := map[string]*extAnswer{}
				for j := range c.Locales[i].Doms {
					d := &c.Locales[i].Doms[j]
					if d.Po {
						po := gotext.NewPo()
						po.Parse([]byte(cat.WritePlain(d.Cat)))
						l.AddTranslator(d.Name, po)
						m[d.Name] = &extAnswer{c: d.Cat}
					} else {
						e := newExternal(fmt.Sprintf("L%d.%d", i, j), d.Cat)
						l.AddTranslator(d.Name, e)
						m[d.Name] = &extAnswer{e: e}
					}
				}
				l.SetDomain(c.Default)
				ls, ms = append(ls, l), append(ms, m)
			}
			used := map[*extAnswer]bool{}
			for qi := range c.Queries {
				q := &c.Queries[qi]
				dom := q.Dom
				if dom == "" {
					dom = c.Default
				}
				for i, l := range ls {
					ok, tr := ms[i][dom].want(q)
					got, is := askLocale(l, q)
					if !oneOf(got, ok) {
						return fmt.Errorf("locale %d, query %+v: got %s, want %s", i, *q, cat.Q(got), cat.Q(ok[0]))
					}
					if is != tr {
						return fmt.Errorf("locale %d, query %+v: IsTranslated is %v, the Translator's domain says %v", i, *q, is, tr)
					}
					used[ms[i][dom]] = true
				}
			}
			ctx.NonTrivial(len(used) >= 2)
			gotext.SetLocales(ls)
			for qi := range c.Queries {
				q := &c.Queries[qi]
				dom := q.Dom
				if dom == "" {
					dom = c.Default
				}
				var ok []string
				for i := range ls {
					var tr bool
					if ok, tr = ms[i][dom].want(q); tr {
						break
					}
				}
				if got := q.ask(); !oneOf(got, ok) {
					return fmt.Errorf("package, query %+v: got %s, want %s", *q, cat.Q(got), cat.Q(ok[0]))
				}
			}
			return nil
		},
	})
}

func TestC36_Encoding(t *testing.T) {
	core.Run(t, core.Prop[locCase]{
		ID: "C36", Checks: 2500,
		Rule: "TranslatorEncodings filled in by hand (maps left nil where empty, some without a header but with a language and plural rule), turned into Translators by GetTranslator, and Locales whose Translators encode themselves that way, serialised and restored: lookups, headers and listings must be those of the catalogue, and the result can be edited and exported; non-trivial: 2+ entries",
		Gen: func(t *rapid.T) locCase {
			c := locCase{Lang: "de_DE", Counts: append(cat.GenCounts(t), 0, 1, 2, 5)}
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nd"); i < n; i++ {
				c.Domains = append(c.Domains, locDomain{Name: []string{"d", "e", "x y"}[i], Kind: rapid.SampledFrom([]string{"", "", "bare"}).Draw(t, "kind"), Cat: cat.GenCat(t, cat.Opts{Sparse: true, MaxEntries: 5})})
			}
			return c
		},
		Check: func(ctx *core.Ctx, c locCase) error {
			l := gotext.NewLocale("/nonexistent", c.Lang)
			check := func(what string, tr gotext.Translator, c0 *cat.Cat, bare bool) error {
				lk, ok := tr.(cat.Looker)
				if !ok {
					return fmt.Errorf("%s: a %T can't be queried like a Po", what, tr)
				}
				if err := cat.CheckAll(c0, lk, c.Counts); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
				if bare {
					if h := tr.GetDomain().Headers; len(h) > 0 || h == nil {
						return fmt.Errorf("%s: header %v of an encoding without one", what, h)
					}
				} else if err := checkHeaders(c0, tr.GetDomain().Headers); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
				d, m := tr.GetDomain(), newModel(c0)
				if d.Language != c0.Header("Language") || d.PluralForms != c0.Header("Plural-Forms") {
					return fmt.Errorf("%s: Language %q, PluralForms %q", what, d.Language, d.PluralForms)
				}
				if err := checkEntries(d, m); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
				ed := tr.(mutable)
				for _, o := range []op{{K: "Set", ID: "new id", Str: "v"}, {K: "SetNC", ID: "new id", Ctx: "new", Plural: "p", N: 5, Str: "w"}} {
					if err := o.run(ed); err != nil {
						return err
					}
					m.apply(o)
				}
				for i := range c0.Entries {
					o := op{K: "Set", ID: c0.Entries[i].ID, Str: "changed"}
					if c0.Entries[i].Ctx != "" {
						o.K, o.Ctx = "SetC", c0.Entries[i].Ctx
					}
					o.run(ed)
					m.apply(o)
				}
				if err := cat.CheckAll(m.cat(), lk, c.Counts); err != nil {
					return fmt.Errorf("%s, edited: %w", what, err)
				}
				if _, err := ed.MarshalText(); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
				return nil
			}
			for i := range c.Domains {
				d := &c.Domains[i]
				ctx.NonTrivial(len(d.Cat.Entries) >= 2)
				if err := check("GetTranslator", encodingOf(d.Cat, d.Kind == "bare").GetTranslator(), d.Cat, d.Kind == "bare"); err != nil {
					return err
				}
				e := newExternal("x", d.Cat)
				e.bare = d.Kind == "bare"
				l.AddTranslator(d.Name, e)
			}
			b, err := l.MarshalBinary()
			if err != nil {
				return err
			}
			r := gotext.NewLocale("", "")
			if err := r.UnmarshalBinary(b); err != nil {
				return err
			}
			for i := range c.Domains {
				d := &c.Domains[i]
				if err := cat.CheckAll(d.Cat, cat.LocaleLooker{L: r, D: d.Name}, c.Counts); err != nil {
					return fmt.Errorf("restored Locale, domain %q: %w", d.Name, err)
				}
				if err := check("restored domain", r.Domains[d.Name], d.Cat, d.Kind == "bare"); err != nil {
					return err
				}
			}
			// a Locale nothing was made for
			var zero gotext.Locale
			if got := zero.GetD("z", "x"); got != "x" || zero.IsTranslatedD("z", "x") {
				return fmt.Errorf("zero Locale: GetD gives %q", got)
			}
			zero.AddTranslator("z", newExternal("z", &cat.Cat{}))
			if got := zero.GetD("z", "x"); !strings.Contains(got, "z|Get") {
				return fmt.Errorf("zero Locale with a Translator: GetD gives %q", got)
			}
			if got := zero.GetDomain(); got != "z" {
				return fmt.Errorf("zero Locale with a Translator: default domain %q", got)
			}
			// one that can't be encoded isn't left out
			bad := newExternal("bad", &cat.Cat{})
			bad.fails = true
			l.AddTranslator("bad", bad)
			if b, err := l.MarshalBinary(); err == nil {
				return fmt.Errorf("a Locale with a Translator that can't be encoded is encoded, with %d bytes", len(b))
			}
			if got := l.GetD("bad", "x"); !strings.Contains(got, "bad|Get") {
				return fmt.Errorf("after MarshalBinary failed, a lookup gives %q", got)
			}
			return nil
		},
	})
}
