package lib

import (
	"fmt"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

type fallbackCase struct {
	Cat    *cat.Cat     `json:"cat"`
	Layout cat.MoLayout `json:"layout"`
	Probes []cat.Probe  `json:"probes"`
	Counts []int        `json:"counts"`
	// Package configuration: per language, what its directory holds.
	Langs []string `json:"langs"`
	Files []string `json:"files"` // po, mo, dir, none, dangling, memory
}

// genAbsent draws keys that the catalogue holds nothing for, or only without
// translation; many are close to existing ones.
func genProbes(t *rapid.T, c *cat.Cat) []cat.Probe {
	var ps []cat.Probe
	for i, n := 0, rapid.IntRange(1, 8).Draw(t, "nprobes"); i < n; i++ {
		p := cat.Probe{ID: cat.ID(t, "pid"), Plural: cat.ID(t, "ppl")}
		if len(c.Entries) > 0 && rapid.IntRange(0, 2).Draw(t, "near") > 0 {
			e := c.Entries[rapid.IntRange(0, len(c.Entries)-1).Draw(t, "which")]
			p.ID, p.Plural = e.ID, cat.PluralOf(&e)
			p.Ctx = e.Ctx
			switch rapid.IntRange(0, 5).Draw(t, "edit") {
			case 0:
				p.ID += " "
			case 1:
				p.ID = strings.ToUpper(p.ID)
			case 2:
				p.Ctx = ""
			case 3:
				p.Ctx = "x" + p.Ctx
			case 4:
				p.ID = p.Plural
			}
		} else if rapid.Bool().Draw(t, "pctx") {
			p.Ctx = cat.ID(t, "pctx")
		}
		ps = append(ps, p)
	}
	return ps
}

func genFallback(t *rapid.T) fallbackCase {
	c := cat.GenCat(t, cat.Opts{NoRefs: true, Sparse: true})
	fc := fallbackCase{Cat: c, Layout: cat.GenMoLayout(t), Probes: genProbes(t, c), Counts: append(cat.GenCounts(t), 0, 1, 2)}
	n := rapid.IntRange(1, 3).Draw(t, "nlangs")
	all := rapid.Permutation([]string{"de_DE", "fr", "ar_EG", "zz"}).Draw(t, "langs")
	for i := 0; i < n; i++ {
		fc.Langs = append(fc.Langs, all[i])
		fc.Files = append(fc.Files, rapid.SampledFrom([]string{"po", "mo", "dir", "none", "dangling", "empty", "memory"}).Draw(t, "file"))
	}
	return fc
}

func checkFallback(c *cat.Cat, l cat.Looker, name string, probes []cat.Probe, counts []int) error {
	for _, p := range append(cat.Probes(c), probes...) {
		if err := cat.CheckProbe(c, l, p, counts); err != nil {
			return fmt.Errorf("%s: %w", name, err)
		}
	}
	return nil
}

func countUntranslated(c *cat.Cat, ps []cat.Probe) int {
	n := 0
	for _, p := range ps {
		if _, tr := c.ExpGet(p.Ctx, p.ID); !tr {
			n++
		}
	}
	return n
}

func TestC07_Levels(t *testing.T) {
	core.Run(t, core.Prop[fallbackCase]{
		ID: "C07", Checks: 6000,
		Rule: "a catalogue with untranslated and partly translated entries, looked up through Domain, Po, Mo, Locale (present, missing and nil domains) and zero Locales with ids and contexts that are absent, untranslated or nearly present; non-trivial: 2+ keys without translation",
		Gen:  genFallback,
		Check: func(ctx *core.Ctx, c fallbackCase) error {
			u := countUntranslated(c.Cat, c.Probes)
			ctx.NonTrivial(u >= 2)
			ctx.LabelIf(u >= 1, "has untranslated keys")
			po, mo := gotext.NewPo(), gotext.NewMo()
			po.Parse([]byte(cat.WritePlain(c.Cat)))
			mo.Parse(cat.WriteMO(c.Cat, c.Layout))
			loc := gotext.NewLocale("", "xx")
			loc.AddTranslator("po", po)
			loc.AddTranslator("mo", mo)
			loc.AddTranslator("nil", nil)
			var pv gotext.Translator = po
			_ = pv
			for _, o := range []struct {
				n string
				l cat.Looker
				c *cat.Cat
			}{
				{"Po", po, c.Cat}, {"Mo", mo, c.Cat}, {"Domain", po.GetDomain(), c.Cat}, {"Domain of Mo", mo.GetDomain(), c.Cat},
				{"Locale", cat.LocaleLooker{L: loc}, c.Cat}, {"Locale domain mo", cat.LocaleLooker{L: loc, D: "mo"}, c.Cat},
				{"new Domain", gotext.NewDomain(), &cat.Cat{}}, {"zero Domain", &gotext.Domain{}, &cat.Cat{}}, {"new Po", gotext.NewPo(), &cat.Cat{}}, {"new Mo", gotext.NewMo(), &cat.Cat{}},
				{"missing domain", cat.LocaleLooker{L: loc, D: "missing"}, &cat.Cat{}},
				{"nil translator", cat.LocaleLooker{L: loc, D: "nil"}, &cat.Cat{}},
				{"Locale without domains", cat.LocaleLooker{L: gotext.NewLocale("/nonexistent", "xx")}, &cat.Cat{}},
				{"zero Locale", cat.LocaleLooker{L: &gotext.Locale{}, D: "d"}, &cat.Cat{}},
				{"zero Locale, default domain", cat.LocaleLooker{L: &gotext.Locale{}}, &cat.Cat{}},
			} {
				probes := c.Probes
				if o.c != c.Cat {
					probes = append(cat.Probes(c.Cat), probes...)
				}
				if err := checkFallback(o.c, o.l, o.n, probes, c.Counts); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

func TestC07_Package(t *testing.T) {
	core.Run(t, core.Prop[fallbackCase]{
		ID: "C07", Checks: 1000,
		Rule: "the package functions configured with 1-3 languages whose catalogue is a PO or MO file, a directory, missing, a dangling link, empty, or attached in memory; keys translated in none of them; non-trivial: 2+ keys without translation",
		Gen:  genFallback,
		Check: func(ctx *core.Ctx, c fallbackCase) error {
			ctx.NonTrivial(countUntranslated(c.Cat, c.Probes) >= 2)
			dir, clean := scratch()
			defer clean()
			var last *cat.Cat
			for i, l := range c.Langs {
				last = &cat.Cat{}
				ctx.Label("language with file: %s", c.Files[i])
				base := l + "/LC_MESSAGES/d"
				switch c.Files[i] {
				case "po":
					put(dir, base+".po", []byte(cat.WritePlain(c.Cat)))
					last = c.Cat
				case "mo":
					put(dir, base+".mo", cat.WriteMO(c.Cat, c.Layout))
					last = c.Cat
				case "dir":
					put(dir, base+".po/file", []byte("x"))
				case "empty":
					put(dir, base+".po", nil)
				case "dangling":
					symlink("/nonexistent/file", dir, base+".po")
				}
			}
			gotext.Configure(dir, strings.Join(c.Langs, ":"), "d")
			defer gotext.SetLocales([]*gotext.Locale{gotext.NewLocale("/nonexistent", "xx")})
			for i, l := range c.Files {
				if l == "memory" {
					po := gotext.NewPo()
					po.Parse([]byte(cat.WritePlain(c.Cat)))
					gotext.GetLocales()[i].AddTranslator("d", po)
					if i == len(c.Files)-1 {
						last = c.Cat
					}
				}
			}
			for _, d := range []string{"", "d", "missing"} {
				lk := cat.PkgLooker{D: d}
				rule := last.Rule
				if d == "missing" {
					rule = nil
				}
				for _, p := range append(cat.Probes(c.Cat), c.Probes...) {
					if p.ID == "" {
						continue
					}
					if _, tr := c.Cat.ExpGet(p.Ctx, p.ID); !tr || d == "missing" {
						got, is := "", false
						if p.Ctx == "" {
							got, is = lk.Get(p.ID), lk.IsTranslated(p.ID)
						} else {
							got, is = lk.GetC(p.ID, p.Ctx), lk.IsTranslatedC(p.ID, p.Ctx)
						}
						if got != p.ID || is {
							return fmt.Errorf("domain %q, id %s ctx %s is not translated, but got %s, IsTranslated %v", d, cat.Q(p.ID), cat.Q(p.Ctx), cat.Q(got), is)
						}
					}
					for _, n := range c.Counts {
						if !rule.Decides(n) || !c.Cat.Rule.Decides(n) {
							continue
						}
						if _, tr := c.Cat.ExpGetN(p.Ctx, p.ID, p.Plural, n); tr && d != "missing" {
							continue
						}
						got, is := "", false
						if p.Ctx == "" {
							got, is = lk.GetN(p.ID, p.Plural, n), lk.IsTranslatedN(p.ID, n)
						} else {
							got, is = lk.GetNC(p.ID, p.Plural, n, p.Ctx), lk.IsTranslatedNC(p.ID, n, p.Ctx)
						}
						ok := cat.AbsentN(p.ID, p.Plural, n, rule.Form(n))
						if is || got != ok[0] && got != ok[len(ok)-1] {
							return fmt.Errorf("domain %q, id %s plural %s ctx %s n=%d is not translated, but got %s, IsTranslated %v, want one of %q", d, cat.Q(p.ID), cat.Q(p.Plural), cat.Q(p.Ctx), n, cat.Q(got), is, ok)
						}
					}
				}
			}
			return nil
		},
	})
}

type freshCase struct {
	Queries []query `json:"queries"`
}

func genQueries(t *rapid.T) []query {
	fns := []string{"Get", "GetN", "GetD", "GetND", "GetC", "GetNC", "GetDC", "GetNDC", "IsTranslated", "IsTranslatedD", "IsTranslatedN", "IsTranslatedND", "IsTranslatedC", "IsTranslatedNC", "IsTranslatedDC", "IsTranslatedNDC", "GetLanguage", "GetDomain", "SetLocales(nil)", "SetLocales(empty)"}
	var qs []query
	for i, n := 0, rapid.IntRange(1, 25).Draw(t, "nq"); i < n; i++ {
		q := query{Fn: rapid.SampledFrom(fns).Draw(t, "fn"), Dom: rapid.SampledFrom([]string{"d", "default", "x", "no such domain"}).Draw(t, "dom"), ID: cat.ID(t, "id"), Plural: cat.ID(t, "pl"), N: cat.Count(t, "n"), Ctx: cat.ID(t, "ctx")}
		if rapid.Bool().Draw(t, "langs") {
			q.Langs = rapid.SliceOfN(rapid.SampledFrom([]string{"en", "en_US", "de_DE"}), 1, 2).Draw(t, "langlist")
		}
		qs = append(qs, q)
	}
	return qs
}

func checkFresh(qs []query) error {
	res, err := fresh(qs)
	if err != nil {
		return err
	}
	for i, q := range qs {
		want := q.ID
		switch {
		case strings.HasPrefix(q.Fn, "IsTranslated"):
			want = "false"
		case strings.HasPrefix(q.Fn, "GetN"):
			if q.N != 1 {
				want = q.Plural
			}
		case q.Fn == "GetLanguage" || q.Fn == "GetDomain" || strings.HasPrefix(q.Fn, "Set"):
			if strings.HasPrefix(res[i], "PANIC") {
				return fmt.Errorf("unconfigured package: %s panics: %s", q.Fn, res[i])
			}
			switch q.Fn {
			case "GetLanguage":
				want = "en_US" // FallbackLocale
			case "GetDomain":
				want = "default"
			default:
				continue
			}
		}
		if res[i] != want {
			return fmt.Errorf("unconfigured package, query %d %+v: got %s, want %s", i, q, cat.Q(res[i]), cat.Q(want))
		}
	}
	return nil
}

func TestC07_Unconfigured(t *testing.T) {
	core.Run(t, core.Prop[freshCase]{
		ID: "C07", Checks: 80, ThoroughFactor: 10,
		Rule: "a sequence of package lookups in a process that never configured the package; non-trivial: 2+ queries",
		Gen:  func(t *rapid.T) freshCase { return freshCase{genQueries(t)} },
		Check: func(ctx *core.Ctx, c freshCase) error {
			ctx.NonTrivial(len(c.Queries) > 1)
			return checkFresh(c.Queries)
		},
	})
}
