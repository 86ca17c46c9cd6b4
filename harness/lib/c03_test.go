package lib

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// sameLookups compares every lookup of two objects on every probe of a catalogue.
func sameLookups(c *cat.Cat, a, b cat.Looker, counts []int) error {
	for _, p := range cat.Probes(c) {
		if x, y := a.Get(p.ID), b.Get(p.ID); x != y {
			return fmt.Errorf("Get(%s): %s / %s", cat.Q(p.ID), cat.Q(x), cat.Q(y))
		}
		if x, y := a.GetC(p.ID, p.Ctx), b.GetC(p.ID, p.Ctx); p.Ctx != "" && x != y {
			return fmt.Errorf("GetC(%s, %s): %s / %s", cat.Q(p.ID), cat.Q(p.Ctx), cat.Q(x), cat.Q(y))
		}
		if x, y := a.IsTranslated(p.ID), b.IsTranslated(p.ID); x != y {
			return fmt.Errorf("IsTranslated(%s): %v / %v", cat.Q(p.ID), x, y)
		}
		if x, y := a.IsTranslatedC(p.ID, p.Ctx), b.IsTranslatedC(p.ID, p.Ctx); p.Ctx != "" && x != y {
			return fmt.Errorf("IsTranslatedC(%s, %s): %v / %v", cat.Q(p.ID), cat.Q(p.Ctx), x, y)
		}
		for _, n := range counts {
			if x, y := a.GetN(p.ID, p.Plural, n), b.GetN(p.ID, p.Plural, n); x != y {
				return fmt.Errorf("GetN(%s, %s, %d): %s / %s", cat.Q(p.ID), cat.Q(p.Plural), n, cat.Q(x), cat.Q(y))
			}
			if x, y := a.IsTranslatedN(p.ID, n), b.IsTranslatedN(p.ID, n); x != y {
				return fmt.Errorf("IsTranslatedN(%s, %d): %v / %v", cat.Q(p.ID), n, x, y)
			}
			if p.Ctx == "" {
				continue
			}
			if x, y := a.GetNC(p.ID, p.Plural, n, p.Ctx), b.GetNC(p.ID, p.Plural, n, p.Ctx); x != y {
				return fmt.Errorf("GetNC(%s, %s, %d, %s): %s / %s", cat.Q(p.ID), cat.Q(p.Plural), n, cat.Q(p.Ctx), cat.Q(x), cat.Q(y))
			}
			if x, y := a.IsTranslatedNC(p.ID, n, p.Ctx), b.IsTranslatedNC(p.ID, n, p.Ctx); x != y {
				return fmt.Errorf("IsTranslatedNC(%s, %d, %s): %v / %v", cat.Q(p.ID), n, cat.Q(p.Ctx), x, y)
			}
		}
	}
	return nil
}

type bothCase struct {
	Cat    *cat.Cat     `json:"cat"`
	Doc    string       `json:"doc"`
	Layout cat.MoLayout `json:"layout"`
	Counts []int        `json:"counts"`
}

func genBoth(t *rapid.T) bothCase {
	c := cat.GenCat(t, cat.Opts{NoRefs: true, Sparse: true, SpellRule: true})
	doc, _ := cat.GenDoc(t, c, cat.Layout{})
	return bothCase{c, doc, cat.GenMoLayout(t), cat.GenCounts(t)}
}

func TestC03_Objects(t *testing.T) {
	core.Run(t, core.Prop[bothCase]{
		ID: "C03", Checks: 12000,
		Rule: "one catalogue written both as a PO document and as an MO file in random layouts, loaded into a Po and a Mo and compared lookup by lookup and header by header; non-trivial: 2+ entries",
		Gen:  genBoth,
		Check: func(ctx *core.Ctx, c bothCase) error {
			labelCat(ctx, c.Cat)
			ctx.NonTrivial(len(c.Cat.Entries) >= 2)
			po, mo := gotext.NewPo(), gotext.NewMo()
			po.Parse([]byte(c.Doc))
			mo.Parse(cat.WriteMO(c.Cat, c.Layout))
			counts := append(c.Counts, cat.Counts...)
			if err := sameLookups(c.Cat, po, mo, counts); err != nil {
				return fmt.Errorf("Po / Mo differ: %w", err)
			}
			if err := sameLookups(c.Cat, po.GetDomain(), mo.GetDomain(), c.Counts); err != nil {
				return fmt.Errorf("domains of Po / Mo differ: %w", err)
			}
			if err := sameListed(po.GetDomain(), mo.GetDomain()); err != nil {
				return fmt.Errorf("listings of Po / Mo differ: %w", err)
			}
			if po.Language != mo.Language || po.PluralForms != mo.PluralForms {
				return fmt.Errorf("Language %q / %q, PluralForms %q / %q", po.Language, mo.Language, po.PluralForms, mo.PluralForms)
			}
			if len(po.Headers)+len(mo.Headers) > 0 && !reflect.DeepEqual(po.Headers, mo.Headers) {
				return fmt.Errorf("Headers %q / %q", po.Headers, mo.Headers)
			}
			return checkHeaders(c.Cat, mo.Headers)
		},
	})
}

func TestC03_Directory(t *testing.T) {
	core.Run(t, core.Prop[bothCase]{
		ID: "C03", Checks: 2500,
		Rule: "the same catalogue put into two locale directories as d.po and d.mo and loaded with Locale.AddDomain and ParseFile; non-trivial: 2+ entries",
		Gen:  genBoth,
		Check: func(ctx *core.Ctx, c bothCase) error {
			ctx.NonTrivial(len(c.Cat.Entries) >= 2)
			dir, clean := scratch()
			defer clean()
			put(dir, "p/de_DE/LC_MESSAGES/d.po", []byte(c.Doc))
			put(dir, "m/de_DE/LC_MESSAGES/d.mo", cat.WriteMO(c.Cat, c.Layout))
			lp, lm := gotext.NewLocale(dir+"/p", "de_DE"), gotext.NewLocale(dir+"/m", "de_DE")
			lp.AddDomain("d")
			lm.AddDomain("d")
			counts := append(c.Counts, 0, 1, 2, 5)
			for _, d := range []string{"", "d"} {
				if err := sameLookups(c.Cat, cat.LocaleLooker{L: lp, D: d}, cat.LocaleLooker{L: lm, D: d}, counts); err != nil {
					return fmt.Errorf("Locales with d.po / d.mo differ: %w", err)
				}
			}
			if err := cat.CheckAll(c.Cat, cat.LocaleLooker{L: lm, D: "d"}, c.Counts); err != nil {
				return fmt.Errorf("Locale with d.mo: %w", err)
			}
			po, mo := gotext.NewPo(), gotext.NewMo()
			po.ParseFile(dir + "/p/de_DE/LC_MESSAGES/d.po")
			mo.ParseFile(dir + "/m/de_DE/LC_MESSAGES/d.mo")
			if err := sameLookups(c.Cat, po, mo, c.Counts); err != nil {
				return fmt.Errorf("ParseFile of d.po / d.mo differ: %w", err)
			}
			if err := checkHeaders(c.Cat, po.Headers); err != nil {
				return err
			}
			return checkHeaders(c.Cat, mo.Headers)
		},
	})
}

// sameListed compares the listings of two domains: ids, plural ids and non-empty forms.
func sameListed(a, b *gotext.Domain) error {
	show := func(d *gotext.Domain) map[string]string {
		r := map[string]string{}
		add := func(ctx, id string, t *gotext.Translation) {
			forms := map[int]string{}
			for i, s := range t.Trs {
				if s != "" {
					forms[i] = s
				}
			}
			if id != "" && len(forms) > 0 {
				r[fmt.Sprintf("%q %q", ctx, id)] = fmt.Sprintf("%q %q %q", t.ID, t.PluralID, forms)
			}
		}
		for id, t := range d.GetTranslations() {
			add("", id, t)
		}
		for ctx, m := range d.GetCtxTranslations() {
			for id, t := range m {
				add(ctx, id, t)
			}
		}
		return r
	}
	x, y := show(a), show(b)
	for k := range x {
		if x[k] != y[k] {
			return fmt.Errorf("%s: %s / %s", k, x[k], y[k])
		}
	}
	for k := range y {
		if x[k] != y[k] {
			return fmt.Errorf("%s: %s / %s", k, x[k], y[k])
		}
	}
	return nil
}
