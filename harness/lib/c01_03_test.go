package lib

import (
	"fmt"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

type docCase struct {
	Cat    *cat.Cat `json:"cat"`
	Doc    string   `json:"doc"`
	Counts []int    `json:"counts"`
}

func labelCat(ctx *core.Ctx, c *cat.Cat) {
	pl, cx, un := 0, 0, 0
	for i := range c.Entries {
		e := &c.Entries[i]
		if e.Plural != "" {
			pl++
		}
		if e.Ctx != "" {
			cx++
		}
		if e.Str(0) == "" {
			un++
		}
	}
	ctx.LabelIf(pl > 0, "has plural entries")
	ctx.LabelIf(cx > 0, "has contexts")
	ctx.LabelIf(un > 0, "has untranslated entries")
	ctx.LabelIf(c.Rule != nil, "has plural rule")
	ctx.LabelIf(len(c.Entries) >= 5, "5+ entries")
}

func TestC01_Layout(t *testing.T) {
	core.Run(t, core.Prop[docCase]{
		ID: "C01", Checks: 24000,
		Rule: "a catalogue (0-8 entries over colliding ids/contexts, arbitrary UTF-8 text) rendered as a PO document in a random layout; non-trivial: at least 2 entries",
		Gen: func(t *rapid.T) docCase {
			c := cat.GenCat(t, cat.Opts{Sparse: true, Head: true, SpellRule: true})
			doc, _ := cat.GenDoc(t, c, cat.Layout{})
			return docCase{c, doc, cat.GenCounts(t)}
		},
		Check: checkDoc,
	})
}

func checkDoc(ctx *core.Ctx, c docCase) error {
	labelCat(ctx, c.Cat)
	ctx.NonTrivial(len(c.Cat.Entries) >= 2)
	po := gotext.NewPo()
	po.Parse([]byte(c.Doc))
	if err := cat.CheckAll(c.Cat, po, append(c.Counts, cat.Counts...)); err != nil {
		return fmt.Errorf("Po: %w", err)
	}
	if err := cat.CheckAll(c.Cat, po.GetDomain(), c.Counts); err != nil {
		return fmt.Errorf("Po.GetDomain(): %w", err)
	}
	return checkListing(po.GetDomain(), c.Cat)
}

// checkListing compares the listings with the catalogue: nothing missing, nothing invented.
func checkListing(d *gotext.Domain, c *cat.Cat) error {
	all := d.GetTranslations()
	ctxAll := d.GetCtxTranslations()
	for i := range c.Entries {
		e := &c.Entries[i]
		var tr *gotext.Translation
		if e.Ctx == "" {
			tr = all[e.ID]
		} else {
			tr = ctxAll[e.Ctx][e.ID]
		}
		if tr == nil {
			return fmt.Errorf("listing misses id %s ctx %s", cat.Q(e.ID), cat.Q(e.Ctx))
		}
		if tr.ID != e.ID || tr.PluralID != e.Plural {
			return fmt.Errorf("listing of id %s ctx %s has ID %s PluralID %s, want plural %s", cat.Q(e.ID), cat.Q(e.Ctx), cat.Q(tr.ID), cat.Q(tr.PluralID), cat.Q(e.Plural))
		}
		for _, f := range e.Forms {
			if tr.Trs[f.I] != f.S {
				return fmt.Errorf("listing of id %s ctx %s form %d: %s, want %s", cat.Q(e.ID), cat.Q(e.Ctx), f.I, cat.Q(tr.Trs[f.I]), cat.Q(f.S))
			}
		}
		for i, s := range tr.Trs {
			if s != "" && e.Str(i) != s {
				return fmt.Errorf("listing of id %s ctx %s has form %d = %s, want %s", cat.Q(e.ID), cat.Q(e.Ctx), i, cat.Q(s), cat.Q(e.Str(i)))
			}
		}
	}
	for id := range all {
		if id != "" && c.Find("", id) == nil {
			return fmt.Errorf("listing invents id %s", cat.Q(id))
		}
	}
	for x, m := range ctxAll {
		for id := range m {
			if id != "" && c.Find(x, id) == nil {
				return fmt.Errorf("listing invents id %s in context %s", cat.Q(id), cat.Q(x))
			}
		}
	}
	return nil
}

// Large documents: many entries, long strings.
func TestC01_Large(t *testing.T) {
	type bigCase struct {
		N    int `json:"n"`
		Cat  *cat.Cat
		Doc  string
		Reps int
		Long int // length of one line
	}
	core.Run(t, core.Prop[bigCase]{
		ID: "C01", Checks: 60, ThoroughFactor: 10,
		Rule: "documents with up to thousands of systematically named entries and lines of up to 200 KB around a random catalogue; non-trivial: 50+ entries",
		Gen: func(t *rapid.T) bigCase {
			n := rapid.SampledFrom([]int{10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025, 3000}).Draw(t, "n")
			c := cat.GenCat(t, cat.Opts{MaxEntries: 5})
			doc, _ := cat.GenDoc(t, c, cat.Layout{NoCRLF: true})
			return bigCase{N: n, Cat: c, Doc: doc, Reps: rapid.IntRange(1, 200).Draw(t, "reps"), Long: rapid.SampledFrom([]int{0, 4096, 32768, 65535, 65536, 70000, 200000}).Draw(t, "long")}
		},
		Check: func(ctx *core.Ctx, c bigCase) error {
			ctx.NonTrivial(c.N >= 50)
			full := &cat.Cat{Headers: c.Cat.Headers, Rule: c.Cat.Rule, Entries: append([]cat.Entry(nil), c.Cat.Entries...)}
			var extra cat.Cat
			for i := 0; i < c.N; i++ {
				e := cat.Entry{ID: fmt.Sprintf("systematic message %d", i), Forms: []cat.Form{{I: 0, S: fmt.Sprintf("tr %d", i)}}}
				if i%3 == 1 {
					e.Ctx = fmt.Sprintf("ctx %d", i%7)
				}
				if i%4 == 2 {
					e.Plural = fmt.Sprintf("systematic messages %d", i)
					e.Forms = append(e.Forms, cat.Form{I: 1, S: fmt.Sprintf("trs %d", i)})
				}
				if i%50 == 7 {
					for k := 0; k < c.Reps; k++ {
						e.Forms[0].S += fmt.Sprintf("line %d of a long text\n", k)
					}
				}
				extra.Entries = append(extra.Entries, e)
				full.Entries = append(full.Entries, e)
			}
			if c.Long > 0 {
				// one line each
				e := cat.Entry{ID: strings.Repeat("long id, ", c.Long/18), Plural: strings.Repeat("long ids ", c.Long/9), Ctx: strings.Repeat("cé", c.Long/6), Forms: []cat.Form{{I: 0, S: strings.Repeat("x", c.Long)}, {I: 1, S: strings.Repeat("\n\"", c.Long/2)}}}
				extra.Entries = append(extra.Entries, e)
				full.Entries = append(full.Entries, e)
			}
			doc := c.Doc + "\n\n" + cat.WritePlain(&extra)
			po := gotext.NewPo()
			po.Parse([]byte(doc))
			for i := range full.Entries {
				e := &full.Entries[i]
				if err := cat.CheckProbe(full, po, cat.Probe{Ctx: e.Ctx, ID: e.ID, Plural: cat.PluralOf(e)}, []int{1, 2, 5}); err != nil {
					return err
				}
			}
			return checkListing(po.GetDomain(), full)
		},
	})
}

type moCase struct {
	Cat    *cat.Cat     `json:"cat"`
	Layout cat.MoLayout `json:"layout"`
	Counts []int        `json:"counts"`
}

func moView(c *cat.Cat, keepEmpty bool) *cat.Cat {
	v := &cat.Cat{Headers: c.Headers, Rule: c.Rule}
	for i := range c.Entries {
		e := c.Entries[i]
		any := false
		for _, f := range e.Forms {
			any = any || f.S != ""
		}
		if any || keepEmpty {
			v.Entries = append(v.Entries, e)
		}
	}
	return v
}

func TestC02_Layout(t *testing.T) {
	core.Run(t, core.Prop[moCase]{
		ID: "C02", Checks: 24000,
		Rule: "a catalogue written as an MO file by an independent writer with random byte order, revision, table/string placement, padding, string sharing and hash table; non-trivial: 2+ messages",
		Gen: func(t *rapid.T) moCase {
			return moCase{cat.GenCat(t, cat.Opts{NoRefs: true}), cat.GenMoLayout(t), cat.GenCounts(t)}
		},
		Check: func(ctx *core.Ctx, c moCase) error {
			labelCat(ctx, c.Cat)
			ctx.LabelIf(c.Layout.BigEndian, "big endian")
			ctx.LabelIf(c.Layout.Hash > 0, "hash table")
			ctx.LabelIf(c.Layout.Share, "shared strings")
			ctx.NonTrivial(len(c.Cat.Entries) >= 2)
			mo := gotext.NewMo()
			mo.Parse(cat.WriteMO(c.Cat, c.Layout))
			v := moView(c.Cat, c.Layout.Empty)
			if err := cat.CheckAll(v, mo, append(c.Counts, cat.Counts...)); err != nil {
				return err
			}
			if err := cat.CheckAll(v, mo.GetDomain(), c.Counts); err != nil {
				return err
			}
			return checkListing(mo.GetDomain(), v)
		},
	})
}

func TestC02_Large(t *testing.T) {
	type bigCase struct {
		N      int          `json:"n"`
		Len    int          `json:"len"`
		Layout cat.MoLayout `json:"layout"`
	}
	core.Run(t, core.Prop[bigCase]{
		ID: "C02", Checks: 60, ThoroughFactor: 10,
		Rule: "MO files with up to thousands of messages or strings up to 70 KB; non-trivial: 50+ messages",
		Gen: func(t *rapid.T) bigCase {
			return bigCase{
				rapid.SampledFrom([]int{1, 10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025, 3000}).Draw(t, "n"),
				rapid.SampledFrom([]int{1, 10, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 70000}).Draw(t, "len"),
				cat.GenMoLayout(t),
			}
		},
		Check: func(ctx *core.Ctx, c bigCase) error {
			ctx.NonTrivial(c.N >= 50)
			full := &cat.Cat{Headers: []cat.KV{{K: "Language", V: "xx"}}}
			for i := 0; i < c.N; i++ {
				e := cat.Entry{ID: fmt.Sprintf("systematic message %d", i), Forms: []cat.Form{{I: 0, S: fmt.Sprintf("tr %d", i)}}}
				if i%3 == 1 {
					e.Ctx = fmt.Sprintf("ctx %d", i%7)
				}
				if i%4 == 2 {
					e.Plural = fmt.Sprintf("systematic messages %d", i)
					e.Forms = append(e.Forms, cat.Form{I: 1, S: fmt.Sprintf("trs %d", i)})
				}
				if i%301 == 0 {
					for len(e.Forms[0].S) < c.Len {
						e.Forms[0].S += "0123456789abcdef"
					}
					e.Forms[0].S = e.Forms[0].S[:max(c.Len, 1)]
				}
				full.Entries = append(full.Entries, e)
			}
			mo := gotext.NewMo()
			mo.Parse(cat.WriteMO(full, c.Layout))
			for i := range full.Entries {
				e := &full.Entries[i]
				if err := cat.CheckProbe(full, mo, cat.Probe{Ctx: e.Ctx, ID: e.ID, Plural: cat.PluralOf(e)}, []int{1, 2, 5}); err != nil {
					return err
				}
			}
			return checkListing(mo.GetDomain(), full)
		},
	})
}
