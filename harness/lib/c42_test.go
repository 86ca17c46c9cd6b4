package lib

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// The documented layout of the encoded data, spelled out here so that the data are read and written the
// way another release of the library, or another program that knows the layout, does.
type wireTr struct {
	ID       string
	PluralID string
	Trs      map[int]string
	Refs     []string
}

type wireCat struct {
	Headers      map[string][]string
	Language     string
	PluralForms  string
	Nplurals     int
	Plural       string
	Translations map[string]*wireTr
	Contexts     map[string]map[string]*wireTr
}

type wireLocale struct {
	Path          string
	Lang          string
	Domains       map[string][]byte
	DefaultDomain string
}

// The same with fields of a later release, and with fewer fields, as of an earlier one (Refs and the
// header fields were added over time).
type wireTrMore struct {
	Extra    string
	ID       string
	Fuzzy    bool
	PluralID string
	Trs      map[int]string
	Comments []string
	Refs     []string
}

type wireCatMore struct {
	Version      int
	Translations map[string]*wireTrMore
	Contexts     map[string]map[string]*wireTrMore
	Plural       string
	Flags        map[string][]int
	Nplurals     int
	PluralForms  string
	Language     string
	Headers      map[string][]string
}

type wireTrLess struct {
	ID       string
	PluralID string
	Trs      map[int]string
}

type wireCatLess struct {
	Headers      map[string][]string
	Language     string
	PluralForms  string
	Nplurals     int
	Plural       string
	Translations map[string]*wireTrLess
	Contexts     map[string]map[string]*wireTrLess
}

type wireLocaleMore struct {
	DefaultDomain string
	Created       int64
	Domains       map[string][]byte
	Lang          string
	Path          string
	Missing       []string
}

func gobBytes(v interface{}) []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(v); err != nil {
		panic("harness: " + err.Error())
	}
	return b.Bytes()
}

// wireOf is a catalogue in the documented layout.
func wireOf(c *cat.Cat) *wireCat {
	w := &wireCat{Headers: map[string][]string(expHeaders(c)), Language: c.Header("Language"), PluralForms: c.Header("Plural-Forms"), Translations: map[string]*wireTr{}, Contexts: map[string]map[string]*wireTr{}}
	if c.Rule != nil {
		w.Plural, w.Nplurals = c.Rule.Formula, c.Rule.NPlurals
	}
	for i := range c.Entries {
		e := &c.Entries[i]
		t := &wireTr{ID: e.ID, PluralID: e.Plural, Trs: map[int]string{}, Refs: e.Refs}
		for _, f := range e.Forms {
			t.Trs[f.I] = f.S
		}
		if e.Ctx == "" {
			w.Translations[e.ID] = t
			continue
		}
		if w.Contexts[e.Ctx] == nil {
			w.Contexts[e.Ctx] = map[string]*wireTr{}
		}
		w.Contexts[e.Ctx][e.ID] = t
	}
	return w
}

// encode renders the catalogue in one of the styles.
func (w *wireCat) encode(style string) []byte {
	switch style {
	case "more":
		m := &wireCatMore{Version: 7, Flags: map[string][]int{"a": {1}}, Headers: w.Headers, Language: w.Language, PluralForms: w.PluralForms, Nplurals: w.Nplurals, Plural: w.Plural, Translations: map[string]*wireTrMore{}, Contexts: map[string]map[string]*wireTrMore{}}
		conv := func(t *wireTr) *wireTrMore {
			return &wireTrMore{Extra: "x", ID: t.ID, Fuzzy: true, PluralID: t.PluralID, Trs: t.Trs, Comments: []string{"c"}, Refs: t.Refs}
		}
		for k, t := range w.Translations {
			m.Translations[k] = conv(t)
		}
		for x, es := range w.Contexts {
			m.Contexts[x] = map[string]*wireTrMore{}
			for k, t := range es {
				m.Contexts[x][k] = conv(t)
			}
		}
		return gobBytes(m)
	case "less":
		m := &wireCatLess{Headers: w.Headers, Language: w.Language, PluralForms: w.PluralForms, Nplurals: w.Nplurals, Plural: w.Plural, Translations: map[string]*wireTrLess{}, Contexts: map[string]map[string]*wireTrLess{}}
		conv := func(t *wireTr) *wireTrLess {
			return &wireTrLess{ID: t.ID, PluralID: t.PluralID, Trs: t.Trs}
		}
		for k, t := range w.Translations {
			m.Translations[k] = conv(t)
		}
		for x, es := range w.Contexts {
			m.Contexts[x] = map[string]*wireTrLess{}
			for k, t := range es {
				m.Contexts[x][k] = conv(t)
			}
		}
		return gobBytes(m)
	case "bare":
		b := *w
		b.Headers = nil
		if len(b.Translations) == 0 {
			b.Translations = nil
		}
		if len(b.Contexts) == 0 {
			b.Contexts = nil
		}
		return gobBytes(&b)
	}
	return gobBytes(w)
}

// checkWire compares encoded data, as a reader that knows the layout sees them, with what they must say.
func checkWire(data []byte, m *model, headers map[string][]string, language, pluralForms string, parsedRule bool) error {
	var w wireCat
	if err := gob.NewDecoder(bytes.NewReader(data)).Decode(&w); err != nil {
		return fmt.Errorf("decoding the encoded data: %w", err)
	}
	if len(w.Headers)+len(headers) > 0 && !reflect.DeepEqual(w.Headers, headers) {
		return fmt.Errorf("encoded headers %q, want %q", w.Headers, headers)
	}
	if w.Language != language || w.PluralForms != pluralForms {
		return fmt.Errorf("encoded language %q, Plural-Forms %q, want %q, %q", w.Language, w.PluralForms, language, pluralForms)
	}
	if parsedRule {
		if w.Nplurals != m.rule.NPlurals {
			return fmt.Errorf("encoded nplurals %d, want %d", w.Nplurals, m.rule.NPlurals)
		}
		f := strings.TrimSpace(w.Plural)
		if !cat.BareCondition(m.rule.Formula) {
			for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 10, 11, 12, 20, 21, 22, 100, 101, 102, 111, 1000000} {
				want, err1 := cat.CEval(m.rule.Formula, uint64(n))
				got, err2 := cat.CEval(strings.TrimSuffix(f, ";"), uint64(n))
				if err1 == nil && (err2 != nil || got != want) {
					return fmt.Errorf("encoded plural formula %q: %d for n = %d (%v), want %d", w.Plural, got, n, err2, want)
				}
			}
		}
	}
	all := map[mkey]*wireTr{}
	for id, t := range w.Translations {
		all[mkey{"", id}] = t
	}
	for x, es := range w.Contexts {
		for id, t := range es {
			all[mkey{x, id}] = t
		}
	}
	for k, e := range m.m {
		t := all[k]
		if t == nil {
			return fmt.Errorf("encoded data lack id %s ctx %s", cat.Q(k.ID), cat.Q(k.Ctx))
		}
		if err := checkTranslation(k, &gotext.Translation{ID: t.ID, PluralID: t.PluralID, Trs: t.Trs, Refs: t.Refs}, e); err != nil {
			return fmt.Errorf("encoded data: %w", err)
		}
	}
	for k := range all {
		if k.ID != "" && m.m[k] == nil {
			return fmt.Errorf("encoded data have id %s ctx %s, which is not in the catalogue", cat.Q(k.ID), cat.Q(k.Ctx))
		}
	}
	return nil
}

func TestC42_Written(t *testing.T) {
	core.Run(t, core.Prop[history]{
		ID: "C42", Checks: 4000,
		Rule: "a catalogue loaded and/or edited by a generated history and encoded (Po, Mo or Domain): a gob reader with the documented layout spelled out in the harness must find exactly its headers, language, plural rule, messages, forms and references; then the same inside an encoded Locale; non-trivial: 2+ entries",
		Gen: func(t *rapid.T) history {
			return genHistory(t, cat.Opts{Sparse: true, MaxEntries: 6, SpellRule: true}, histOpts{maxOps: 8})
		},
		Check: func(ctx *core.Ctx, h history) error {
			labelHistory(ctx, &h)
			l, d, m, err := h.build()
			if err != nil {
				return err
			}
			ctx.NonTrivial(len(m.m) >= 2)
			headers := h.headers()
			lang, pf := h.Cat.Header("Language"), h.Cat.Header("Plural-Forms")
			rule := h.Res == 0 && h.Cat.Rule != nil && h.Cat.Rule.Formula != ""
			for i, o := range []interface{ MarshalBinary() ([]byte, error) }{l, d} {
				b, err := o.MarshalBinary()
				if err != nil {
					return fmt.Errorf("MarshalBinary: %w", err)
				}
				if err := checkWire(b, m, headers, lang, pf, rule); err != nil {
					return fmt.Errorf("object %d: %w", i, err)
				}
			}
			tr, ok := l.(gotext.Translator)
			if !ok {
				return nil
			}
			loc := gotext.NewLocale("a/path", "de_AT")
			loc.AddTranslator("x y", tr)
			loc.AddTranslator("other", gotext.NewMo())
			loc.SetDomain("other")
			b, err := loc.MarshalBinary()
			if err != nil {
				return fmt.Errorf("MarshalBinary of a Locale: %w", err)
			}
			var w wireLocale
			if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&w); err != nil {
				return fmt.Errorf("decoding an encoded Locale: %w", err)
			}
			if w.Path != "a/path" || w.Lang != "de_AT" || w.DefaultDomain != "other" || len(w.Domains) != 2 || w.Domains["x y"] == nil || w.Domains["other"] == nil {
				return fmt.Errorf("encoded Locale: path %q, language %q, default domain %q, %d domains", w.Path, w.Lang, w.DefaultDomain, len(w.Domains))
			}
			if err := checkWire(w.Domains["x y"], m, headers, lang, pf, rule); err != nil {
				return fmt.Errorf("domain of an encoded Locale: %w", err)
			}
			return nil
		},
	})
}

type wireCase struct {
	Cat    *cat.Cat `json:"cat"`
	Style  string   `json:"style"` // "" the layout, "more" fields than known, "less": an early release, "bare": no header fields
	Into   string   `json:"into"`  // po, mo, domain, locale
	Ops    []op     `json:"ops"`
	Counts []int    `json:"counts"`
}

func TestC42_Read(t *testing.T) {
	core.Run(t, core.Prop[wireCase]{
		ID: "C42", Checks: 4000,
		Rule: "a generated catalogue written with gob by a program that knows the documented layout (exactly, with further fields and another field order, without references as an early release, or without header fields), restored into a Po, Mo, Domain or Locale: headers, lookups, listings and references must be those of the catalogue, also after further edits; non-trivial: 2+ entries",
		Gen: func(t *rapid.T) wireCase {
			c := wireCase{Style: rapid.SampledFrom([]string{"", "more", "less", "bare"}).Draw(t, "style"), Into: rapid.SampledFrom([]string{"po", "mo", "domain", "locale"}).Draw(t, "into"), Counts: append(cat.GenCounts(t), 0, 1, 2, 5)}
			c.Cat = cat.GenCat(t, cat.Opts{Sparse: true, MaxEntries: 6, SpellRule: true, NoRefs: c.Style == "less"})
			c.Ops = genOps(t, c.Cat, histOpts{maxOps: 6, noDrop: true})
			return c
		},
		Check: func(ctx *core.Ctx, c wireCase) error {
			ctx.Label("layout %q into %s", c.Style, c.Into)
			ctx.NonTrivial(len(c.Cat.Entries) >= 2)
			data := wireOf(c.Cat).encode(c.Style)
			m := newModel(c.Cat)
			headers := func(got gotext.HeaderMap) error {
				if c.Style != "bare" {
					return checkHeaders(c.Cat, got)
				}
				if len(got) != 0 {
					return fmt.Errorf("headers %q of data without any", got)
				}
				return nil
			}
			if c.Into == "locale" {
				other := &cat.Cat{Entries: []cat.Entry{{ID: "o", Forms: []cat.Form{{I: 0, S: "O"}}}}}
				domains := map[string][]byte{"x y": data, "other": wireOf(other).encode(c.Style)}
				var b []byte
				if c.Style == "more" {
					b = gobBytes(&wireLocaleMore{DefaultDomain: "other", Created: 12345, Domains: domains, Lang: "de_AT", Path: "a/path", Missing: []string{"m"}})
				} else {
					b = gobBytes(&wireLocale{"a/path", "de_AT", domains, "other"})
				}
				l := gotext.NewLocale("elsewhere", "xx")
				if err := l.UnmarshalBinary(b); err != nil {
					return fmt.Errorf("UnmarshalBinary of a Locale: %w", err)
				}
				if l.GetLanguage() != "de_AT" || l.GetDomain() != "other" {
					return fmt.Errorf("restored Locale: language %q, default domain %q", l.GetLanguage(), l.GetDomain())
				}
				for name, want := range map[string]*cat.Cat{"x y": c.Cat, "other": other, "": other} {
					if err := cat.CheckAll(want, cat.LocaleLooker{L: l, D: name}, c.Counts); err != nil {
						return fmt.Errorf("restored Locale, domain %q: %w", name, err)
					}
				}
				d := l.Domains["x y"].GetDomain()
				if err := headers(d.Headers); err != nil {
					return fmt.Errorf("restored Locale: %w", err)
				}
				return checkEntries(d, m)
			}
			r := newBinObject(c.Into)
			if err := r.UnmarshalBinary(data); err != nil {
				return fmt.Errorf("UnmarshalBinary: %w", err)
			}
			hd, lang, pf, d := publicFields(r)
			if err := headers(hd); err != nil {
				return fmt.Errorf("restored: %w", err)
			}
			if want := c.Cat.Header("Language"); lang != want || d.Language != want {
				return fmt.Errorf("restored: Language %q / %q, want %q", lang, d.Language, want)
			}
			if want := c.Cat.Header("Plural-Forms"); pf != want || d.PluralForms != want {
				return fmt.Errorf("restored: PluralForms %q / %q, want %q", pf, d.PluralForms, want)
			}
			if err := cat.CheckAll(c.Cat, r, c.Counts); err != nil {
				return fmt.Errorf("restored: %w", err)
			}
			if err := checkEntries(d, m); err != nil {
				return fmt.Errorf("restored: %w", err)
			}
			var l mutable = d
			if p, ok := r.(*gotext.Po); ok {
				l = p
			}
			for i, o := range c.Ops {
				if err := o.run(l); err != nil {
					return fmt.Errorf("operation %d (%s) on the restored object: %w", i, o.K, err)
				}
				m.apply(o)
			}
			if err := checkModel(l, d, m); err != nil {
				return fmt.Errorf("restored and edited: %w", err)
			}
			_, err := l.MarshalText()
			return err
		},
	})
}
