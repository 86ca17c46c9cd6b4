package lib

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

type binCase struct {
	H history `json:"h"`
	// Into: the type restored into.
	Into string `json:"into"`
	// Full: what the object restored into holds before; it is replaced.
	Full  *cat.Cat `json:"full,omitempty"`
	After []op     `json:"after"` // operations on original and restored object
	More  string   `json:"more"`  // document parsed afterwards
}

// translator is what the types that can be restored have in common.
type binObject interface {
	cat.Looker
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
}

func sameListings(a, b *gotext.Domain, marks bool) error {
	show := func(m map[string]*gotext.Translation) map[string]string {
		r := map[string]string{}
		for k, t := range m {
			if t == nil {
				r[k] = "nil"
				continue
			}
			forms := map[int]string{}
			for i, s := range t.Trs {
				forms[i] = s
			}
			r[k] = fmt.Sprintf("%q %q %q %q", t.ID, t.PluralID, forms, append([]string{}, t.Refs...))
			if marks {
				r[k] += fmt.Sprint(t.IsStale())
			}
		}
		return r
	}
	x, y := show(a.GetTranslations()), show(b.GetTranslations())
	if !reflect.DeepEqual(x, y) {
		return fmt.Errorf("listings differ: %q / %q", x, y)
	}
	cx, cy := a.GetCtxTranslations(), b.GetCtxTranslations()
	if len(cx) != len(cy) {
		return fmt.Errorf("listings have %d / %d contexts", len(cx), len(cy))
	}
	for c := range cx {
		if x, y := show(cx[c]), show(cy[c]); !reflect.DeepEqual(x, y) {
			return fmt.Errorf("listings of context %s differ: %q / %q", cat.Q(c), x, y)
		}
	}
	return nil
}

func sameMeta(a, b *gotext.Domain) error {
	if len(a.Headers)+len(b.Headers) > 0 && !reflect.DeepEqual(a.Headers, b.Headers) {
		return fmt.Errorf("headers %q / %q", a.Headers, b.Headers)
	}
	if a.Language != b.Language || a.PluralForms != b.PluralForms {
		return fmt.Errorf("Language %q / %q, PluralForms %q / %q", a.Language, b.Language, a.PluralForms, b.PluralForms)
	}
	return nil
}

func publicFields(l binObject) (gotext.HeaderMap, string, string, *gotext.Domain) {
	switch o := l.(type) {
	case *gotext.Po:
		return o.Headers, o.Language, o.PluralForms, o.GetDomain()
	case *gotext.Mo:
		return o.Headers, o.Language, o.PluralForms, o.GetDomain()
	case *gotext.Domain:
		return o.Headers, o.Language, o.PluralForms, o
	}
	panic("harness: unknown type")
}

func newBinObject(kind string) binObject {
	switch kind {
	case "po":
		return gotext.NewPo()
	case "mo":
		return gotext.NewMo()
	}
	return gotext.NewDomain()
}

// fill gives an object content of its own, touching every kind of state.
func fill(r binObject, c *cat.Cat) error {
	switch o := r.(type) {
	case *gotext.Po:
		o.Parse([]byte(cat.WritePlain(c)))
	case *gotext.Mo:
		o.Parse(cat.WriteMO(c, cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}, Empty: true}))
	case *gotext.Domain:
		b, err := encoded(c)
		if err != nil {
			return err
		}
		if err := o.UnmarshalBinary(b); err != nil {
			return err
		}
	}
	_, _, _, d := publicFields(r)
	d.Set("a", "old")
	d.SetC("a", "menu", "old")
	d.SetN("b", "bs", 2, "old")
	d.SetRefs("c", []string{"old.go:1"})
	d.GetN("b", "bs", 2)
	return nil
}

func TestC13_Binary(t *testing.T) {
	core.Run(t, core.Prop[binCase]{
		ID: "C13", Checks: 9000,
		Rule: "a catalogue loaded and/or edited by a generated history, encoded and restored into a new Domain, Po or Mo; then the same further operations (Set functions, Parse, export, encoding) run on both and everything is compared after each; non-trivial: 2+ entries",
		Gen: func(t *rapid.T) binCase {
			c := binCase{H: genHistory(t, cat.Opts{Sparse: true, MaxEntries: 6, SpellRule: true}, histOpts{maxOps: 8, noReadOps: true})}
			c.H.Res = 0
			c.Into = rapid.SampledFrom([]string{"po", "mo", "domain"}).Draw(t, "into")
			if rapid.IntRange(0, 2).Draw(t, "full") == 0 {
				c.Full = cat.GenCat(t, cat.Opts{Small: true, MaxEntries: 5, MinEntries: 1, NoRefs: true})
			}
			c.After = genOps(t, c.H.Cat, histOpts{maxOps: 8, noDrop: true, plainRefs: true})
			if rapid.IntRange(0, 2).Draw(t, "more") == 0 {
				m := cat.GenCat(t, cat.Opts{Small: true, MaxEntries: 4})
				if len(m.AllHeaders()) == 0 {
					for i := range m.Entries {
						m.Entries[i].Refs = nil
					}
				}
				c.More = cat.WritePlain(m)
			}
			return c
		},
		Check: checkBinary,
	})
}

func checkBinary(ctx *core.Ctx, c binCase) error {
	labelHistory(ctx, &c.H)
	ctx.Label("restored into %s", c.Into)
	l, d, m, err := c.H.build()
	if err != nil {
		return err
	}
	ctx.NonTrivial(len(m.m) >= 2)
	data, err := l.MarshalBinary()
	if err != nil {
		return fmt.Errorf("MarshalBinary: %w", err)
	}
	r := newBinObject(c.Into)
	if c.Full != nil {
		ctx.Label("restored into an object with content")
		if err := fill(r, c.Full); err != nil {
			return err
		}
	}
	if err := r.UnmarshalBinary(data); err != nil {
		return fmt.Errorf("UnmarshalBinary: %w", err)
	}
	hd, lang, pf, rd := publicFields(r)
	counts := append([]int{7, 12, 100, 101, 102, 1000000}, smallCounts...)
	compare := func(when string) error {
		mc := m.cat()
		if err := sameLookups(mc, l, r, counts); err != nil {
			return fmt.Errorf("%s: original / restored: %w", when, err)
		}
		if err := sameLookups(mc, d, rd, smallCounts); err != nil {
			return fmt.Errorf("%s: domain of original / restored: %w", when, err)
		}
		if err := sameListings(d, rd, false); err != nil {
			return fmt.Errorf("%s: original / restored: %w", when, err)
		}
		if err := sameMeta(d, rd); err != nil {
			return fmt.Errorf("%s: original / restored: %w", when, err)
		}
		for k := range m.m {
			if k.Ctx == "" && !sameRefs(d.GetRefs(k.ID), rd.GetRefs(k.ID)) {
				return fmt.Errorf("%s: references of %s: %q / %q", when, cat.Q(k.ID), d.GetRefs(k.ID), rd.GetRefs(k.ID))
			}
		}
		return nil
	}
	if err := compare("right after"); err != nil {
		return err
	}
	if err := checkEntries(rd, m); err != nil {
		return fmt.Errorf("restored: %w", err)
	}
	if err := cat.CheckAll(m.cat(), r, counts); err != nil {
		return fmt.Errorf("restored: %w", err)
	}
	if len(hd)+len(d.Headers) > 0 && !reflect.DeepEqual(hd, d.Headers) || lang != d.Language || pf != d.PluralForms {
		return fmt.Errorf("fields of the restored object: Headers %q, Language %q, PluralForms %q, want %q, %q, %q", hd, lang, pf, d.Headers, d.Language, d.PluralForms)
	}
	// the original is not affected by changes of the restored object and vice versa
	var rm mutable = rd
	if p, ok := r.(*gotext.Po); ok {
		rm = p
	}
	for i, o := range c.After {
		if err := o.run(l); err != nil {
			return err
		}
		if err := safely("restored object", func() { err = o.run(rm) }); err != nil {
			return fmt.Errorf("operation %d (%s) on the restored object: %w", i, o.K, err)
		}
		m.apply(o)
	}
	if len(c.After) > 0 {
		if err := compare("after the same operations on both"); err != nil {
			return err
		}
	}
	export := func(when string) error {
		a, err := l.MarshalText()
		if err != nil {
			return err
		}
		b, err := rm.MarshalText()
		if err != nil {
			return err
		}
		if !bytes.Equal(a, b) {
			return fmt.Errorf("%s: exports of original / restored differ:\n%s\n---\n%s", when, a, b)
		}
		return nil
	}
	if err := export("afterwards"); err != nil {
		return err
	}
	po, isPo := l.(*gotext.Po)
	rpo, isRPo := r.(*gotext.Po)
	if c.More != "" && isPo && isRPo {
		ctx.Label("parses more")
		po.Parse([]byte(c.More))
		rpo.Parse([]byte(c.More))
		if err := sameLookups(m.cat(), po, rpo, smallCounts); err != nil {
			return fmt.Errorf("after parsing more into both: %w", err)
		}
		if err := sameListings(d, rd, false); err != nil {
			return fmt.Errorf("after parsing more into both: %w", err)
		}
		if err := sameMeta(d, rd); err != nil {
			return fmt.Errorf("after parsing more into both: %w", err)
		}
		if err := export("after parsing more into both"); err != nil {
			return err
		}
	}
	// and once more
	data, err = r.MarshalBinary()
	if err != nil {
		return fmt.Errorf("MarshalBinary of the restored object: %w", err)
	}
	r2 := gotext.NewPo()
	if err := r2.UnmarshalBinary(data); err != nil {
		return fmt.Errorf("UnmarshalBinary the second time: %w", err)
	}
	if err := sameListings(d, r2.GetDomain(), false); err != nil {
		return fmt.Errorf("restored twice: %w", err)
	}
	return sameLookups(m.cat(), l, r2, smallCounts)
}

type locDomain struct {
	Name string       `json:"name"`
	Kind string       `json:"kind"` // po, mo (files), mempo, memmo, built, nil
	Cat  *cat.Cat     `json:"cat"`
	Mo   cat.MoLayout `json:"mo"`
	Ops  []op         `json:"ops,omitempty"`
}

type locCase struct {
	Lang    string      `json:"lang"`
	Domains []locDomain `json:"domains"`
	Late    *locDomain  `json:"late"` // on disk, added after restoring
	Default string      `json:"default"`
	Counts  []int       `json:"counts"`
	// FS: "" a directory; "fs" os.DirFS, "fspath" os.DirFS of the parent and a path.
	FS string `json:"fs,omitempty"`
}

func genLocDomain(t *rapid.T, name string) locDomain {
	d := locDomain{Name: name, Kind: rapid.SampledFrom([]string{"po", "po", "mo", "mempo", "memmo", "built", "nil"}).Draw(t, "kind")}
	o := cat.Opts{Sparse: true, MaxEntries: 4, Small: rapid.Bool().Draw(t, "small"), NoRefs: true, SpellRule: true}
	switch d.Kind {
	case "built":
		d.Cat = &cat.Cat{}
		d.Ops = genOps(t, d.Cat, histOpts{maxOps: 8, noReadOps: true, noDrop: true})
	case "nil":
		d.Cat = &cat.Cat{}
	case "mo", "memmo":
		d.Mo = cat.GenMoLayout(t)
		d.Mo.Empty = true
		d.Cat = cat.GenCat(t, o)
	default:
		d.Cat = cat.GenCat(t, o)
	}
	return d
}

// attach puts a domain into a locale; the result is the catalogue it must answer with.
func (d *locDomain) attach(l *gotext.Locale, dir string) (*cat.Cat, error) {
	file := l.GetLanguage() + "/LC_MESSAGES/" + d.Name
	switch d.Kind {
	case "po":
		put(dir, file+".po", []byte(cat.WritePlain(d.Cat)))
		l.AddDomain(d.Name)
	case "mo":
		put(dir, file+".mo", cat.WriteMO(d.Cat, d.Mo))
		l.AddDomain(d.Name)
	case "mempo":
		po := gotext.NewPo()
		po.Parse([]byte(cat.WritePlain(d.Cat)))
		l.AddTranslator(d.Name, po)
	case "memmo":
		mo := gotext.NewMo()
		mo.Parse(cat.WriteMO(d.Cat, d.Mo))
		l.AddTranslator(d.Name, mo)
	case "built":
		po := gotext.NewPo()
		m := newModel(d.Cat)
		for _, o := range d.Ops {
			if err := o.run(po); err != nil {
				return nil, err
			}
			m.apply(o)
		}
		l.AddTranslator(d.Name, po)
		return m.cat(), nil
	case "nil":
		l.AddTranslator(d.Name, nil)
	}
	return d.Cat, nil
}

func TestC14_Locale(t *testing.T) {
	core.Run(t, core.Prop[locCase]{
		ID: "C14", Checks: 4000,
		Rule: "a Locale with 0-4 domains from PO and MO files, parsed or built in memory, encoded and restored, then used further (another domain loaded from disk, default changed, encoded again); non-trivial: 2+ domains",
		Gen: func(t *rapid.T) locCase {
			c := locCase{Lang: rapid.SampledFrom([]string{"de_DE", "fr", "sr_RS@latin", "pt_BR.UTF-8"}).Draw(t, "lang"), Counts: append(cat.GenCounts(t), 0, 1, 2, 5)}
			names := rapid.Permutation([]string{"default", "d", "e", "x y", "ü"}).Draw(t, "names")
			for i, n := 0, rapid.IntRange(0, 4).Draw(t, "nd"); i < n; i++ {
				c.Domains = append(c.Domains, genLocDomain(t, names[i]))
			}
			late := genLocDomain(t, names[4])
			if late.Kind == "po" || late.Kind == "mo" {
				c.Late = &late
			}
			if rapid.IntRange(0, 59).Draw(t, "many") == 59 {
				for i, n := 0, rapid.SampledFrom([]int{5, 13, 40}).Draw(t, "nmany"); i < n; i++ {
					d := locDomain{Name: fmt.Sprintf("many%d", i), Kind: []string{"mempo", "memmo", "po"}[i%3], Mo: cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}, Empty: true}, Cat: &cat.Cat{}}
					d.Cat.Entries = []cat.Entry{{ID: "an id", Forms: []cat.Form{{I: 0, S: fmt.Sprintf("text %d", i)}}}}
					for k := 0; i == 3 && k < 1500; k++ {
						d.Cat.Entries = append(d.Cat.Entries, cat.Entry{ID: fmt.Sprintf("message %d", k), Forms: []cat.Form{{I: 0, S: fmt.Sprintf("text of domain %d for message %d", i, k)}}})
					}
					c.Domains = append(c.Domains, d)
				}
			}
			c.Default = rapid.SampledFrom(append([]string{"", "nowhere"}, names...)).Draw(t, "default")
			c.FS = rapid.SampledFrom([]string{"", "", "fs", "fspath"}).Draw(t, "fs")
			return c
		},
		Check: func(ctx *core.Ctx, c locCase) error {
			ctx.NonTrivial(len(c.Domains) >= 2)
			dir, clean := scratch()
			defer clean()
			var l *gotext.Locale
			// empty makes a locale to restore into: it reads files the way the original does
			empty := func() *gotext.Locale { return gotext.NewLocale("/nonexistent", "xx") }
			switch c.FS {
			case "fs":
				l = gotext.NewLocaleFS(c.Lang, os.DirFS(dir))
				empty = func() *gotext.Locale { return gotext.NewLocaleFS("xx", os.DirFS(dir)) }
			case "fspath":
				l = gotext.NewLocaleFSWithPath(c.Lang, os.DirFS(filepath.Dir(dir)), filepath.Base(dir))
				empty = func() *gotext.Locale {
					return gotext.NewLocaleFSWithPath("xx", os.DirFS(filepath.Dir(dir)), "elsewhere")
				}
			default:
				l = gotext.NewLocale(dir, c.Lang)
			}
			ctx.Label("files from %q", c.FS)
			cats := map[string]*cat.Cat{}
			for i := range c.Domains {
				ctx.Label("domain %s", c.Domains[i].Kind)
				m, err := c.Domains[i].attach(l, dir)
				if err != nil {
					return err
				}
				cats[c.Domains[i].Name] = m
			}
			if c.Default != "" {
				l.SetDomain(c.Default)
			}
			data, err := l.MarshalBinary()
			if err != nil {
				return fmt.Errorf("MarshalBinary: %w", err)
			}
			restore := func(data []byte) (*gotext.Locale, error) {
				r := &gotext.Locale{}
				if len(data)%2 == 0 || c.FS != "" {
					r = empty()
				}
				if len(data)%3 == 0 {
					// content of its own, to be replaced
					old := gotext.NewPo()
					old.Set("an id", "old")
					r.AddTranslator("added", old)
					r.AddTranslator("d", old)
					r.SetDomain("old")
				}
				if err := r.UnmarshalBinary(data); err != nil {
					return nil, fmt.Errorf("UnmarshalBinary: %w", err)
				}
				return r, nil
			}
			compare := func(l, r *gotext.Locale, what string) error {
				if l.GetLanguage() != r.GetLanguage() || l.GetDomain() != r.GetDomain() {
					return fmt.Errorf("%s: language %q / %q, default domain %q / %q", what, l.GetLanguage(), r.GetLanguage(), l.GetDomain(), r.GetDomain())
				}
				for name, m := range cats {
					if err := sameLookups(m, cat.LocaleLooker{L: l, D: name}, cat.LocaleLooker{L: r, D: name}, c.Counts); err != nil {
						return fmt.Errorf("%s: domain %q of original / restored: %w", what, name, err)
					}
					if err := cat.CheckAll(m, cat.LocaleLooker{L: r, D: name}, c.Counts); err != nil {
						return fmt.Errorf("%s: domain %q of the restored locale: %w", what, name, err)
					}
				}
				any := &cat.Cat{}
				for _, m := range cats {
					any.Entries = append(any.Entries, m.Entries...)
				}
				if err := sameLookups(any, cat.LocaleLooker{L: l}, cat.LocaleLooker{L: r}, c.Counts); err != nil {
					return fmt.Errorf("%s: default domain of original / restored: %w", what, err)
				}
				if err := sameLookups(any, cat.LocaleLooker{L: l, D: "no such"}, cat.LocaleLooker{L: r, D: "no such"}, c.Counts[:1]); err != nil {
					return fmt.Errorf("%s: unknown domain of original / restored: %w", what, err)
				}
				return nil
			}
			r, err := restore(data)
			if err != nil {
				return err
			}
			if err := compare(l, r, "restored"); err != nil {
				return err
			}
			// headers of the restored domains
			for i := range c.Domains {
				d := &c.Domains[i]
				if d.Kind == "nil" || d.Kind == "built" {
					continue
				}
				r.RLock()
				tr := r.Domains[d.Name]
				r.RUnlock()
				if tr == nil {
					return fmt.Errorf("domain %q is missing in the restored locale", d.Name)
				}
				if err := checkHeaders(d.Cat, tr.GetDomain().Headers); err != nil {
					return fmt.Errorf("restored domain %q: %w", d.Name, err)
				}
			}
			// keeps working
			if c.Late != nil {
				if m, err := c.Late.attach(l, dir); err != nil {
					return err
				} else if r.AddDomain(c.Late.Name); true {
					cats[c.Late.Name] = m
				}
				if got, want := r.GetActualLanguage(c.Late.Name), l.GetActualLanguage(c.Late.Name); got != want {
					return fmt.Errorf("actual language of the late domain: original %q, restored %q", want, got)
				}
			}
			l.SetDomain("d")
			r.SetDomain("d")
			po := gotext.NewPo()
			po.Set("an id", "a translation")
			l.AddTranslator("added", po)
			r.AddTranslator("added", po)
			if got := r.GetD("added", "an id"); got != "a translation" {
				return fmt.Errorf("domain added to the restored locale: got %q", got)
			}
			if err := compare(l, r, "after adding domains"); err != nil {
				return err
			}
			data, err = r.MarshalBinary()
			if err != nil {
				return fmt.Errorf("MarshalBinary of the restored locale: %w", err)
			}
			os.RemoveAll(dir + "/" + l.GetLanguage())
			r2, err := restore(data)
			if err != nil {
				return err
			}
			return compare(l, r2, "restored twice")
		},
	})
}
