package lib

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// sumDoc is one of several documents for one object.
type sumDoc struct {
	Cat    *cat.Cat     `json:"cat"`            // Plural-Forms is among the headers
	Rule   *cat.Rule    `json:"rule,omitempty"` // what it means, if it can be compiled
	PF     bool         `json:"pf,omitempty"`   // there is a Plural-Forms header
	Doc    string       `json:"doc,omitempty"`
	Layout cat.MoLayout `json:"layout"`
}

type sumStep struct {
	K   string `json:"k"` // parse, bin, edit
	Doc int    `json:"doc,omitempty"`
	Op  op     `json:"op"`
}

type sumCase struct {
	Kind  string    `json:"kind"` // po, mo
	Docs  []sumDoc  `json:"docs"`
	Steps []sumStep `json:"steps"`
	Res   int       `json:"res,omitempty"` // custom resolver n % Res
}

func genSumDoc(t *rapid.T, mo bool, old []sumDoc) sumDoc {
	d := sumDoc{Layout: cat.GenMoLayout(t)}
	d.Layout.Empty = true
	c := cat.GenCat(t, cat.Opts{MaxEntries: 6, SpellRule: true, Small: rapid.IntRange(0, 2).Draw(t, "small") > 0, FewIDs: rapid.Bool().Draw(t, "few"), Head: !mo, NoRefs: mo, Sparse: !mo, NoHeader: rapid.IntRange(0, 4).Draw(t, "nohdr") == 0})
	// entries of earlier documents again, with other texts
	for i := range c.Entries {
		if len(old) == 0 || rapid.Bool().Draw(t, "own") {
			continue
		}
		o := old[rapid.IntRange(0, len(old)-1).Draw(t, "from")].Cat
		if len(o.Entries) == 0 {
			continue
		}
		e := &o.Entries[rapid.IntRange(0, len(o.Entries)-1).Draw(t, "key")]
		if c.Find(e.Ctx, e.ID) == nil {
			c.Entries[i].Ctx, c.Entries[i].ID = e.Ctx, e.ID
		}
	}
	for i := range c.Headers {
		c.Headers[i].K = spell(t, c.Headers[i].K)
		if rapid.IntRange(0, 9).Draw(t, "twice") == 0 && !strings.EqualFold(c.Headers[i].K, "Language") {
			c.Headers = append(c.Headers, cat.KV{K: c.Headers[i].K, V: cat.HeaderValue(t, true, "second")})
		}
	}
	pf := func(v string) {
		c.Headers = append(c.Headers, cat.KV{K: spell(t, "Plural-Forms"), V: v})
		d.PF = true
	}
	if c.Rule != nil {
		d.Rule, c.Rule = c.Rule, nil
		pf(cat.PluralHeader(*d.Rule))
	} else if rapid.IntRange(0, 3).Draw(t, "badrule") == 0 {
		pf(rapid.SampledFrom([]string{"nplurals=INTEGER; plural=EXPRESSION;", "", "nplurals=2;", "nplurals=2; plural=n+;", "x"}).Draw(t, "bad"))
	}
	if len(c.Headers) == 0 {
		// comments before the first entry belong to the document
		for i := range c.Entries {
			c.Entries[i].Refs = nil
		}
	}
	d.Cat = c
	if !mo {
		d.Doc, _ = cat.GenDoc(t, c, cat.Layout{RefsOnly: true})
	}
	return d
}

func TestC33_Sum(t *testing.T) {
	core.Run(t, core.Prop[sumCase]{
		ID: "C33", Checks: 5000,
		Rule: "2-5 PO documents (or MO files) with shared messages, header fields and rules that may not compile, parsed in generated order and repeatedly into one Po (Mo), with edits and a binary round trip in between; headers, language, rule, texts, references, listings, head comments and, without edits, the exported text must be those of the sum; non-trivial: 2+ documents sharing a message or a header field",
		Gen: func(t *rapid.T) sumCase {
			c := sumCase{Kind: rapid.SampledFrom([]string{"po", "po", "mo"}).Draw(t, "kind")}
			all := &cat.Cat{}
			for i, n := 0, rapid.IntRange(2, 5).Draw(t, "ndocs"); i < n; i++ {
				d := genSumDoc(t, c.Kind == "mo", c.Docs)
				c.Docs = append(c.Docs, d)
				all.Entries = append(all.Entries, d.Cat.Entries...)
				c.Steps = append(c.Steps, sumStep{K: "parse", Doc: i})
			}
			var edits []op
			if c.Kind == "po" && rapid.IntRange(0, 2).Draw(t, "edited") == 0 {
				edits = genOps(t, all, histOpts{small: true, plainRefs: true, noDrop: true, noReadOps: true, maxOps: 6, pluralSafe: true})
			}
			insert := func(s sumStep) {
				p := rapid.IntRange(0, len(c.Steps)).Draw(t, "pos")
				c.Steps = append(c.Steps[:p:p], append([]sumStep{s}, c.Steps[p:]...)...)
			}
			for _, o := range edits {
				insert(sumStep{K: "edit", Op: o})
			}
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "again"); i < n; i++ {
				if rapid.IntRange(0, 3).Draw(t, "bin") == 0 {
					insert(sumStep{K: "bin"})
				} else {
					insert(sumStep{K: "parse", Doc: rapid.IntRange(0, len(c.Docs)-1).Draw(t, "which")})
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "res") == 0 {
				c.Res = rapid.IntRange(1, 5).Draw(t, "resmod")
			}
			return c
		},
		Check: checkSum,
	})
}

func checkSum(ctx *core.Ctx, c sumCase) error {
	ctx.Label("kind %s", c.Kind)
	l := newBinObject(c.Kind)
	m := newModel(&cat.Cat{})
	var fallback *cat.Rule
	if c.Res > 0 {
		_, _, _, d := publicFields(l)
		d.SetPluralResolver(func(n int) int { return n % c.Res })
		fallback = &cat.Rule{Formula: fmt.Sprintf("n %% %d", c.Res), NPlurals: c.Res}
		m.rule = fallback
	}
	var hs []cat.KV // in the order of the fields' first appearance
	lang, pf := "", ""
	var head []string
	edited := false
	var last []byte
	lastDoc := -1
	for i, s := range c.Steps {
		when := fmt.Sprintf("after step %d (%s)", i, s.K)
		switch s.K {
		case "parse":
			d := &c.Docs[s.Doc]
			when = fmt.Sprintf("after step %d (document %d)", i, s.Doc)
			switch o := l.(type) {
			case *gotext.Po:
				o.Parse([]byte(d.Doc))
			case *gotext.Mo:
				o.Parse(cat.WriteMO(d.Cat, d.Layout))
			}
			for j := range d.Cat.Entries {
				e := &d.Cat.Entries[j]
				if m.m[mkey{e.Ctx, e.ID}] != nil {
					ctx.NonTrivial(true)
				}
				m.m[mkey{e.Ctx, e.ID}] = newModel(&cat.Cat{Entries: []cat.Entry{*e}}).entry(e.Ctx, e.ID)
			}
			var rest []cat.KV
			for _, h := range hs {
				if d.Cat.Has(h.K) {
					ctx.NonTrivial(true)
				} else {
					rest = append(rest, h)
				}
			}
			hs = append(rest, d.Cat.Headers...)
			if d.Cat.Has("Language") {
				lang = d.Cat.Header("Language")
			}
			if d.PF {
				pf = d.Cat.Header("Plural-Forms")
				m.rule = d.Rule
				if d.Rule == nil {
					m.rule = fallback
					ctx.Label("rule that can't be compiled")
				}
			}
			if len(d.Cat.Head) > 0 {
				head = nil
				for _, h := range d.Cat.Head {
					head = append(head, strings.TrimSpace(h))
				}
			}
		case "bin":
			b, err := l.MarshalBinary()
			if err == nil {
				err = l.UnmarshalBinary(b)
			}
			if err != nil {
				return fmt.Errorf("%s: %w", when, err)
			}
			ctx.Label("binary round trip")
		case "edit":
			edited = true
			if err := s.Op.run(l.(mutable)); err != nil {
				return fmt.Errorf("%s: %w", when, err)
			}
			m.apply(s.Op)
			ctx.Label("edited")
		}
		h, lg, p, d := publicFields(l)
		for _, x := range []gotext.HeaderMap{h, d.Headers} {
			if err := checkHeaders(&cat.Cat{Headers: hs}, x); err != nil {
				if s.K == "edit" && h == nil {
					continue // Headers of a Po are set by parsing
				}
				return fmt.Errorf("%s: %w", when, err)
			}
		}
		if lg != lang || d.Language != lang {
			return fmt.Errorf("%s: language %q and %q, want %q", when, lg, d.Language, lang)
		}
		if p != pf || d.PluralForms != pf {
			return fmt.Errorf("%s: plural forms %q and %q, want %q", when, p, d.PluralForms, pf)
		}
		if err := checkEntries(d, m); err != nil {
			return fmt.Errorf("%s: %w", when, err)
		}
		text, err := d.MarshalText()
		if err != nil {
			return err
		}
		if want := strings.Join(append(append([]string(nil), head...), "msgid \"\"\n"), "\n"); !strings.HasPrefix(string(text), want) {
			return fmt.Errorf("%s: the export starts with %.300q, want %q", when, text, want)
		}
		if s.K == "parse" && s.Doc == lastDoc && !bytes.Equal(text, last) {
			return fmt.Errorf("%s: parsing a document twice exports\n%s\nand the first time\n%s", when, text, last)
		}
		last, lastDoc = text, -1
		if s.K == "parse" {
			lastDoc = s.Doc
		}
	}
	merged := m.cat()
	_, _, _, d := publicFields(l)
	for _, o := range []cat.Looker{l, d} {
		if err := cat.CheckAll(merged, o, smallCounts); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
	}
	if c.Kind == "po" && !edited {
		// one document with the sum
		one := gotext.NewPo()
		all := *merged
		all.Rule, all.Headers = nil, append([]cat.KV(nil), hs...)
		if len(hs) == 0 {
			return nil
		}
		one.Parse([]byte(strings.Join(append(append([]string(nil), head...), ""), "\n") + cat.WritePlain(&all)))
		text, err := one.MarshalText()
		if err != nil {
			return err
		}
		if !bytes.Equal(text, last) {
			return fmt.Errorf("the documents export as\n%s\nand one document with the sum of them as\n%s", last, text)
		}
	}
	return nil
}

// ownCase is data handed over and taken out, then changed by the caller.
type ownCase struct {
	X     history  `json:"x"`
	Refs  []string `json:"refs"`
	ID    string   `json:"id"`
	Seed  int      `json:"seed"`
	Langs []string `json:"langs"`
	Dom   string   `json:"dom"`
	Mo    bool     `json:"mo,omitempty"`
	FS    bool     `json:"fs,omitempty"`
}

// scribble overwrites bytes.
func scribble(b []byte, seed int) {
	for i := range b {
		b[i] ^= byte(1 + seed + i)
	}
}

// scribbleStrings changes a slice of strings, also beyond its length.
func scribbleStrings(s []string, seed int) {
	for i := range s {
		s[i] = fmt.Sprintf("scribbled %d %d", seed, i)
	}
	if cap(s) > len(s) {
		s = append(s, "more")
	}
	_ = append(s[:0], "other")
}

// snapshot is everything observable of a catalogue, as text.
func snapshot(d *gotext.Domain) (string, error) {
	text, err := d.MarshalText()
	if err != nil {
		return "", err
	}
	ls, cs := d.GetTranslations(), d.GetCtxTranslations()
	refs := map[string]string{}
	for id := range ls {
		refs[id] = fmt.Sprintf("%q", d.GetRefs(id))
	}
	return fmt.Sprintf("%s\n%q\n%q\n%q\n%q %q %q", text, flat(ls), flatCtx(cs), refs, d.Headers, d.Language, d.PluralForms), nil
}

func TestC34_Catalogue(t *testing.T) {
	core.Run(t, core.Prop[ownCase]{
		ID: "C34", Checks: 4000,
		Rule: "catalogues loaded from a buffer and edited with slices the caller then overwrites: parsed PO and MO bytes, decoded bytes, encoded and exported bytes, references given to and taken from it, prefixes given to Append; nothing observable may change; non-trivial: the catalogue has entries",
		Gen: func(t *rapid.T) ownCase {
			c := ownCase{X: genHistory(t, cat.Opts{MaxEntries: 6, Sparse: true}, histOpts{plainRefs: true, maxOps: 10}), Seed: rapid.IntRange(0, 200).Draw(t, "seed")}
			c.Refs = genRefs(t, true)
			c.ID = rapid.SampledFrom([]string{"a", "b", "One file", "new"}).Draw(t, "id")
			return c
		},
		Check: func(ctx *core.Ctx, c ownCase) error {
			var d *gotext.Domain
			var bufs [][]byte // what was handed over
			keep := func(b []byte) []byte {
				bufs = append(bufs, b)
				return b
			}
			ctx.Label("load %s", c.X.Load)
			ctx.NonTrivial(len(c.X.Cat.Entries) > 0)
			var l mutable
			m := newModel(c.X.Cat)
			switch c.X.Load {
			case "mo":
				mo := gotext.NewMo()
				mo.Parse(keep(cat.WriteMO(c.X.Cat, c.X.Layout)))
				d = mo.GetDomain()
				l = d
			default:
				po := gotext.NewPo()
				if c.X.Load != "none" {
					po.Parse(keep([]byte(c.X.Doc)))
				}
				d, l = po.GetDomain(), po
				if c.X.Load == "bin" {
					b, err := po.MarshalBinary()
					if err != nil {
						return err
					}
					r := gotext.NewDomain()
					if err := r.UnmarshalBinary(keep(b)); err != nil {
						return err
					}
					d, l = r, r
				}
			}
			if c.X.Res > 0 {
				l.SetPluralResolver(func(n int) int { return n % c.X.Res })
				m.rule = &cat.Rule{Formula: fmt.Sprintf("n %% %d", c.X.Res), NPlurals: c.X.Res}
			}
			var refs [][]string
			for _, o := range c.X.Ops {
				if o.K == "SetRefs" {
					// the model keeps its own
					o2 := o
					o2.Refs = append(make([]string, 0, len(o.Refs)+2), o.Refs...)
					refs = append(refs, o2.Refs)
					if err := o2.run(l); err != nil {
						return err
					}
				} else if err := o.run(l); err != nil {
					return err
				}
				m.apply(o)
			}
			given := append(make([]string, 0, 8), c.Refs...)
			l.SetRefs(c.ID, given)
			refs = append(refs, given)
			m.apply(op{K: "SetRefs", ID: c.ID, Refs: c.Refs})
			before, err := snapshot(d)
			if err != nil {
				return err
			}
			same := func(what string) error {
				after, err := snapshot(d)
				if err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
				if before != after {
					return fmt.Errorf("%s changed the catalogue: it was\n%s\nand now is\n%s", what, before, after)
				}
				return nil
			}
			for _, b := range bufs {
				scribble(b, c.Seed)
			}
			if err := same("overwriting the bytes it was loaded from"); err != nil {
				return err
			}
			for _, r := range refs {
				scribbleStrings(r, c.Seed)
			}
			if err := same("changing a slice given to SetRefs"); err != nil {
				return err
			}
			for k := range m.m {
				if k.Ctx == "" {
					scribbleStrings(l.GetRefs(k.ID), c.Seed)
				}
			}
			if err := same("changing a slice returned by GetRefs"); err != nil {
				return err
			}
			text, err := l.MarshalText()
			if err != nil {
				return err
			}
			bin, err := l.MarshalBinary()
			if err != nil {
				return err
			}
			bin2 := append([]byte(nil), bin...)
			scribble(text, c.Seed)
			scribble(bin, c.Seed)
			if err := same("overwriting what MarshalText and MarshalBinary returned"); err != nil {
				return err
			}
			// what is appended belongs to the caller, too
			for k := range m.m {
				prefix := append(make([]byte, 0, 300), "prefix"...)
				var out []byte
				if k.Ctx == "" {
					out = l.AppendN(l.Append(prefix, k.ID), k.ID, "plural", 2)
				} else {
					out = l.AppendNC(l.AppendC(prefix, k.ID, k.Ctx), k.ID, "plural", 2, k.Ctx)
				}
				scribble(out, c.Seed)
			}
			if err := same("overwriting what Append returned"); err != nil {
				return err
			}
			// what was returned stays when the catalogue changes, and other catalogues are exported
			text, err = l.MarshalText()
			if err != nil {
				return err
			}
			if bin, err = l.MarshalBinary(); err != nil {
				return err
			}
			got := l.GetRefs(c.ID)
			copies := []string{string(text), string(bin), fmt.Sprintf("%q", got)}
			other := gotext.NewDomain()
			for _, o := range []mutable{other, l} {
				o.Set("a later message", "set later")
				o.SetNC("a later message", "plural", "later", 7, "set later")
				o.SetRefs(c.ID, []string{"later.go:1", "later.go:2", "later.go:3", "later.go:4"})
				if _, err := o.MarshalText(); err != nil {
					return err
				}
				if _, err := o.MarshalBinary(); err != nil {
					return err
				}
			}
			for i, now := range []string{string(text), string(bin), fmt.Sprintf("%q", got)} {
				if now != copies[i] {
					return fmt.Errorf("editing and exporting changed what %s had returned before:\n%q\nwas\n%q", []string{"MarshalText", "MarshalBinary", "GetRefs"}[i], now, copies[i])
				}
			}
			m.apply(op{K: "Set", ID: "a later message", Str: "set later"})
			m.apply(op{K: "SetNC", ID: "a later message", Plural: "plural", Ctx: "later", N: 7, Str: "set later"})
			m.apply(op{K: "SetRefs", ID: c.ID, Refs: []string{"later.go:1", "later.go:2", "later.go:3", "later.go:4"}})
			if before, err = snapshot(d); err != nil {
				return err
			}
			// the original and a restored one don't share anything
			r := gotext.NewDomain()
			if err := r.UnmarshalBinary(bin2); err != nil {
				return err
			}
			for _, o := range c.X.Ops {
				if err := o.run(r); err != nil {
					return err
				}
			}
			r.SetRefs(c.ID, []string{"elsewhere"})
			if err := same("editing an object decoded from its encoding"); err != nil {
				return err
			}
			return checkModel(l, d, m)
		},
	})
}

// ownPkgCase is a package configuration whose slices the caller changes.
type ownPkgCase struct {
	L    langCase `json:"l"`
	Seed int      `json:"seed"`
}

func TestC34_Package(t *testing.T) {
	core.Run(t, core.Prop[ownPkgCase]{
		ID: "C34", Checks: 2500,
		Rule: "package configurations by names or by Locales; the slices given to SetLocales and returned by GetLanguages and GetLocales are overwritten, then settings and lookups compared with the model; non-trivial: 2+ languages or Locales",
		Gen: func(t *rapid.T) ownPkgCase {
			return ownPkgCase{genLangCase(rapid.SampledFrom([]int{0, 3, 9}).Draw(t, "is"))(t), rapid.IntRange(0, 9).Draw(t, "seed")}
		},
		Check: func(ctx *core.Ctx, c ownPkgCase) error {
			s, clean := newPState()
			defer clean()
			for i := range c.L.Files {
				s.write(&c.L.Files[i])
			}
			s.dom, s.lib = c.L.Dom, s.libs[0]
			s.setLangs(c.L.Langs)
			s.rebuild()
			gotext.Configure(s.lib, c.L.Langs, c.L.Dom)
			if len(c.L.Locales) > 0 {
				ls, ms, err := s.locales(c.L.Locales)
				if err != nil {
					return err
				}
				given := append(make([]*gotext.Locale, 0, len(ls)+2), ls...)
				gotext.SetLocales(given)
				s.setLocales(c.L.Locales, ms)
				for i := range given {
					given[i] = gotext.NewLocale("/nonexistent", "scribbled")
				}
				_ = append(given, nil)
				ctx.Label("SetLocales")
			}
			check := func(when string) error {
				if err := s.getters(); err != nil {
					return fmt.Errorf("%s: %w", when, err)
				}
				for i := range c.L.Queries {
					q := &c.L.Queries[i]
					want, _ := s.want(q)
					if err := s.compare(q, want, q.ask()); err != nil {
						return fmt.Errorf("%s: %w", when, err)
					}
				}
				return nil
			}
			if err := check("after changing the slice given to SetLocales"); err != nil {
				return err
			}
			langs := gotext.GetLanguages()
			ctx.NonTrivial(len(langs) >= 2)
			scribbleStrings(langs, c.Seed)
			if err := check("after changing the slice returned by GetLanguages"); err != nil {
				return err
			}
			ls := gotext.GetLocales()
			n := len(ls)
			for i := range ls {
				ls[i] = gotext.NewLocale("/nonexistent", "scribbled")
			}
			_ = append(ls[:0], nil)
			if err := check("after changing the slice returned by GetLocales"); err != nil {
				return err
			}
			if got := gotext.GetLocales(); len(got) != n {
				return fmt.Errorf("there are %d Locales, there were %d", len(got), n)
			}
			// what was returned stays when the configuration changes
			langs, ls = gotext.GetLanguages(), gotext.GetLocales()
			langs2, ls2 := fmt.Sprintf("%q", langs), fmt.Sprintf("%v", ls)
			gotext.SetLanguage("zz:yy:xx:ww")
			gotext.SetLocales([]*gotext.Locale{gotext.NewLocale("/nonexistent", "vv"), gotext.NewLocale("/nonexistent", "uu")})
			gotext.SetLanguage("tt:ss:rr")
			if fmt.Sprintf("%q", langs) != langs2 || fmt.Sprintf("%v", ls) != ls2 {
				return fmt.Errorf("configuring changed what GetLanguages or GetLocales had returned before: %q, was %s", langs, langs2)
			}
			return nil
		},
	})
}

// Slices handed to and taken from single Translations, Locales and format functions.
type ownMiscCase struct {
	Refs []string  `json:"refs"`
	Args []cat.Arg `json:"args"`
	Fmt  string    `json:"fmt"`
	Seed int       `json:"seed"`
}

func TestC34_Values(t *testing.T) {
	core.Run(t, core.Prop[ownMiscCase]{
		ID: "C34", Checks: 3000,
		Rule: "slices and maps handed to NewTranslationWithRefs, Translation.SetRefs, Sprintf, FormatString and Appendf: the Translation keeps its references and the functions leave the caller's data as it was; non-trivial: 1+ references",
		Gen: func(t *rapid.T) ownMiscCase {
			return ownMiscCase{genRefs(t, false), cat.GenArgs(t, "args"), cat.FormatText(t, "fmt"), rapid.IntRange(0, 99).Draw(t, "seed")}
		},
		Check: func(ctx *core.Ctx, c ownMiscCase) error {
			ctx.NonTrivial(len(c.Refs) > 0)
			a, b := append(make([]string, 0, 9), c.Refs...), append(make([]string, 0, 9), c.Refs...)
			x, y := gotext.NewTranslationWithRefs(a), gotext.NewTranslation()
			y.SetRefs(b)
			scribbleStrings(a, c.Seed)
			scribbleStrings(b, c.Seed)
			if !sameRefs(x.Refs, c.Refs) {
				return fmt.Errorf("the references of NewTranslationWithRefs(%q) are %q after the slice changed", c.Refs, x.Refs)
			}
			if !sameRefs(y.Refs, c.Refs) {
				return fmt.Errorf("the references are %q after the slice given to SetRefs(%q) changed", y.Refs, c.Refs)
			}
			vals := cat.Values(c.Args)
			was := append([]interface{}(nil), vals...)
			prefix := append(make([]byte, 0, 64), "the prefix"...)
			s := gotext.FormatString(c.Fmt, vals...)
			out := gotext.Appendf(prefix[:3], c.Fmt, vals...)
			if string(out) != "the"+s {
				return fmt.Errorf("Appendf gives %q, FormatString %q", out, s)
			}
			params := map[string]interface{}{}
			for i, v := range vals {
				params[fmt.Sprintf("p%d", i)] = v
			}
			n := len(params)
			gotext.Sprintf("%(p0)s %(p1)d %(nope)s "+c.Fmt, params)
			if len(params) != n {
				return fmt.Errorf("Sprintf changed the parameters: %v", params)
			}
			for i, v := range vals {
				if fmt.Sprintf("%#v %#v", v, params[fmt.Sprintf("p%d", i)]) != fmt.Sprintf("%#v %#v", was[i], was[i]) {
					return fmt.Errorf("argument %d changed from %#v to %#v", i, was[i], v)
				}
			}
			if !reflect.DeepEqual(len(vals), len(was)) {
				return fmt.Errorf("the arguments changed")
			}
			return nil
		},
	})
}
