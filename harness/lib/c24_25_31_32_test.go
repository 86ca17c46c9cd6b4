package lib

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

type listCase struct {
	H     history     `json:"h"`
	After []op        `json:"after"`
	Doms  []locDomain `json:"doms"`
	Seed  int         `json:"seed"`
}

// flat renders a listing.
func flat(m map[string]*gotext.Translation) map[string]string {
	r := map[string]string{}
	for k, t := range m {
		if t == nil {
			r[k] = "nil"
			continue
		}
		fs := map[int]string{}
		for i, s := range t.Trs {
			fs[i] = s
		}
		r[k] = fmt.Sprintf("%q %q %q %q %v", t.ID, t.PluralID, fs, append([]string{}, t.Refs...), t.IsStale())
	}
	return r
}

func flatCtx(m map[string]map[string]*gotext.Translation) map[string]map[string]string {
	r := map[string]map[string]string{}
	for x, es := range m {
		r[x] = flat(es)
	}
	return r
}

// ruin changes everything in a listing.
func ruin(m map[string]*gotext.Translation, seed int) {
	i := seed
	for id, t := range m {
		i++
		for k := range t.Refs {
			t.Refs[k] = "ruined.go:1"
		}
		t.Refs = append(t.Refs, "ruined.go:2")
		for k := range t.Trs {
			t.Trs[k] = "ruined"
		}
		t.Trs[0], t.Trs[1], t.Trs[7] = "ruined", "ruined", "ruined"
		switch i % 5 {
		case 0:
			t.Set("ruined")
		case 1:
			t.SetN(1, "ruined")
		case 2:
			t.SetRefs([]string{"r"})
		case 3:
			clear(t.Trs)
		}
		t.ID, t.PluralID = "ruined", "ruined"
		if i%3 == 0 {
			delete(m, id)
		}
	}
	m["ruined"] = gotext.NewTranslation()
	m["a"] = nil
}

func TestC24_Listings(t *testing.T) {
	core.Run(t, core.Prop[listCase]{
		ID: "C24", Checks: 6000,
		Rule: "catalogues loaded and edited by generated histories; listings compared with the model, then the catalogue is edited further and the listing must stay, then the listing is changed in every part and the catalogue must stay; non-trivial: 2+ entries",
		Gen: func(t *rapid.T) listCase {
			c := listCase{H: genHistory(t, cat.Opts{Sparse: true, MaxEntries: 6}, histOpts{maxOps: 8, noReadOps: true}), Seed: rapid.IntRange(0, 4).Draw(t, "seed")}
			c.After = genOps(t, c.H.Cat, histOpts{maxOps: 12})
			return c
		},
		Check: func(ctx *core.Ctx, c listCase) error {
			labelHistory(ctx, &c.H)
			l, d, m, err := c.H.build()
			if err != nil {
				return err
			}
			ctx.NonTrivial(len(m.m) >= 2)
			if err := checkEntries(d, m); err != nil {
				return err
			}
			// staleness marks are those of the entries
			for id, tr := range d.GetTranslations() {
				if e := m.m[mkey{"", id}]; e != nil && tr.IsStale() == e.Touched {
					return fmt.Errorf("listing: entry %s IsStale %v, but touched %v", cat.Q(id), tr.IsStale(), e.Touched)
				}
			}
			ls, cs := d.GetTranslations(), d.GetCtxTranslations()
			wl, wc := flat(ls), flatCtx(cs)
			for _, o := range c.After {
				if err := o.run(l); err != nil {
					return err
				}
				m.apply(o)
			}
			if got := flat(ls); !reflect.DeepEqual(got, wl) {
				return fmt.Errorf("editing the catalogue changed a listing returned before: %q, was %q", got, wl)
			}
			if got := flatCtx(cs); !reflect.DeepEqual(got, wc) {
				return fmt.Errorf("editing the catalogue changed a context listing returned before: %q, was %q", got, wc)
			}
			for i := 0; i < 2; i++ {
				ls, cs = d.GetTranslations(), d.GetCtxTranslations()
				wl, wc = flat(ls), flatCtx(cs)
				refs := map[string]string{}
				for id := range ls {
					refs[id] = fmt.Sprintf("%q", l.GetRefs(id))
				}
				ruin(ls, c.Seed)
				for x, es := range cs {
					ruin(es, c.Seed)
					if c.Seed == 1 {
						delete(cs, x)
					}
				}
				cs["ruined"] = map[string]*gotext.Translation{"a": nil}
				if got := flat(d.GetTranslations()); !reflect.DeepEqual(got, wl) {
					return fmt.Errorf("changing a listing changed the catalogue: %q, was %q", got, wl)
				}
				if got := flatCtx(d.GetCtxTranslations()); !reflect.DeepEqual(got, wc) {
					return fmt.Errorf("changing a context listing changed the catalogue: %q, was %q", got, wc)
				}
				for id, r := range refs {
					if got := fmt.Sprintf("%q", l.GetRefs(id)); got != r {
						return fmt.Errorf("changing a listing changed GetRefs(%s): %s, was %s", cat.Q(id), got, r)
					}
				}
			}
			if err := checkEntries(d, m); err != nil {
				return err
			}
			return cat.CheckAll(m.cat(), l, smallCounts)
		},
	})
}

func TestC24_Locale(t *testing.T) {
	core.Run(t, core.Prop[listCase]{
		ID: "C24", Checks: 2000,
		Rule: "Locales of 0-4 domains of every kind; GetTranslations must hold exactly the entries without context of the domains (of any of them where they share an id) and be isolated; non-trivial: 2+ domains",
		Gen: func(t *rapid.T) listCase {
			var c listCase
			for i, n := 0, rapid.IntRange(0, 4).Draw(t, "nd"); i < n; i++ {
				c.Doms = append(c.Doms, genLocDomain(t, []string{"default", "d", "e", "f"}[i]))
			}
			c.Seed = rapid.IntRange(0, 4).Draw(t, "seed")
			return c
		},
		Check: func(ctx *core.Ctx, c listCase) error {
			ctx.NonTrivial(len(c.Doms) >= 2)
			dir, clean := scratch()
			defer clean()
			l := gotext.NewLocale(dir, "de_DE")
			var cats []*cat.Cat
			for i := range c.Doms {
				ctx.Label("domain %s", c.Doms[i].Kind)
				m, err := c.Doms[i].attach(l, dir)
				if err != nil {
					return err
				}
				cats = append(cats, m)
			}
			if c.Seed == 4 {
				// a domain without a Translator has nothing to list
				l.AddTranslator("none", nil)
				ctx.Label("a domain without Translator")
			}
			check := func(when string) error {
				all := l.GetTranslations()
				n := 0
				for id, tr := range all {
					if id == "" {
						continue
					}
					n++
					ok := false
					for _, k := range cats {
						if e := k.Find("", id); e != nil && checkTranslation(mkey{"", id}, tr, newModel(&cat.Cat{Entries: []cat.Entry{*e}}).entry("", id)) == nil {
							ok = true
						}
					}
					if !ok {
						return fmt.Errorf("%s: listing of the locale has %s as %q, which is in no domain", when, cat.Q(id), flat(map[string]*gotext.Translation{id: tr}))
					}
				}
				for _, k := range cats {
					for i := range k.Entries {
						if e := &k.Entries[i]; e.Ctx == "" && all[e.ID] == nil {
							return fmt.Errorf("%s: listing of the locale misses %s", when, cat.Q(e.ID))
						}
					}
				}
				ruin(all, c.Seed)
				return nil
			}
			for _, when := range []string{"first", "after changing the listing", "again"} {
				if err := check(when); err != nil {
					return err
				}
			}
			for i := range c.Doms {
				if err := cat.CheckAll(cats[i], cat.LocaleLooker{L: l, D: c.Doms[i].Name}, smallCounts[:2]); err != nil {
					return fmt.Errorf("after changing the listing: %w", err)
				}
			}
			return nil
		},
	})
}

// hline is one line of a header block.
type hline struct {
	K  string `json:"k"`
	V  string `json:"v"`
	No bool   `json:"no,omitempty"` // no colon: ignored
}

type headerCase struct {
	Lines  []hline      `json:"lines"`
	Rule   cat.Rule     `json:"rule"`
	HasPF  bool         `json:"pf"`
	Sep    []string     `json:"sep"` // between colon and value, per line
	Tail   []string     `json:"tail"`
	EndNL  bool         `json:"endnl"`
	Chunks int          `json:"chunks"` // PO string per how many bytes; 0: one per line
	Mo     cat.MoLayout `json:"mo"`
	Counts []int        `json:"counts"`
}

func spell(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 4).Draw(t, "spell") {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if rapid.Bool().Draw(t, "swap") {
				b[i] = strings.ToUpper(string(b[i : i+1]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i : i+1]))[0]
			}
		}
		return string(b)
	}
	return s
}

func genHeaderCase(t *rapid.T) headerCase {
	c := headerCase{Rule: cat.GenRule(t, "rule"), EndNL: rapid.Bool().Draw(t, "endnl"), Chunks: rapid.SampledFrom([]int{0, 0, 1, 7, 40}).Draw(t, "chunks"), Mo: cat.GenMoLayout(t), Counts: append(cat.GenCounts(t), 0, 1, 2, 5, 11, 21, 100)}
	keys := []string{"Project-Id-Version", "Last-Translator", "X-A", "X-a", "x-a", "MIME-Version", "Content-Type", "Report-Msgid-Bugs-To", "Language-Team", "X-Poedit-SearchPath-0", "Plural", "PluralForms", "Languages", "é", "A b", "a.b/c", "plural-form"}
	nl := rapid.IntRange(0, 8).Draw(t, "nl")
	if rapid.IntRange(0, 99).Draw(t, "manyfields") == 99 {
		nl = rapid.SampledFrom([]int{20, 40, 80, 150}).Draw(t, "nfields")
	}
	for i := 0; i < nl; i++ {
		if rapid.IntRange(0, 6).Draw(t, "nocolon") == 0 {
			c.Lines = append(c.Lines, hline{K: strings.ReplaceAll(cat.Text(t, cat.TextOpts{NoNewline: true, NoControl: true}, "junk"), ":", ";"), No: true})
			continue
		}
		k := rapid.SampledFrom(keys).Draw(t, "key")
		if rapid.IntRange(0, 9).Draw(t, "anykey") == 0 {
			k = strings.TrimSpace(strings.ReplaceAll(cat.Text(t, cat.TextOpts{NoNewline: true, NoControl: true}, "akey"), ":", ""))
			if l := strings.ToLower(k); k == "" || l == "language" || l == "plural-forms" {
				k = "X-Any"
			}
		}
		c.Lines = append(c.Lines, hline{K: k, V: cat.HeaderValue(t, false, "val")})
	}
	add := func(h hline) {
		p := rapid.IntRange(0, len(c.Lines)).Draw(t, "pos")
		c.Lines = append(c.Lines[:p:p], append([]hline{h}, c.Lines[p:]...)...)
	}
	if rapid.IntRange(0, 3).Draw(t, "lang") > 0 {
		add(hline{K: spell(t, "Language"), V: rapid.SampledFrom([]string{"de", "en_US", "", "sr@latin", "x:y"}).Draw(t, "langv")})
	}
	if c.HasPF = rapid.IntRange(0, 4).Draw(t, "pf") > 0; c.HasPF {
		add(hline{K: spell(t, "Plural-Forms"), V: cat.SpellRule(t, c.Rule)})
	}
	for range c.Lines {
		c.Sep = append(c.Sep, rapid.SampledFrom([]string{" ", " ", " ", "", "  ", "\t"}).Draw(t, "sep"))
		c.Tail = append(c.Tail, rapid.SampledFrom([]string{"", "", "", " ", "\t", "\r", "\n"}).Draw(t, "tail"))
	}
	return c
}

func TestC25_Headers(t *testing.T) {
	core.Run(t, core.Prop[headerCase]{
		ID: "C25", Checks: 7000,
		Rule: "header blocks of 0-10, now and then up to 150, lines (repeated keys, keys differing in case, colons in values, lines without colon, blanks around values, any spelling of Language and Plural-Forms, spacing and order of nplurals and plural) in PO and MO; non-trivial: 2+ lines",
		Gen:  genHeaderCase,
		Check: func(ctx *core.Ctx, c headerCase) error {
			ctx.NonTrivial(len(c.Lines) >= 2)
			ctx.LabelIf(c.HasPF, "has Plural-Forms")
			want := gotext.HeaderMap{}
			var ls []string
			lang, pf := "", ""
			for i, h := range c.Lines {
				if h.No {
					ls = append(ls, h.K+c.Tail[i])
					ctx.Label("line without colon")
					continue
				}
				if len(want[h.K]) > 0 {
					ctx.Label("repeated key")
				}
				want[h.K] = append(want[h.K], h.V)
				switch strings.ToLower(h.K) {
				case "language":
					lang = h.V
				case "plural-forms":
					pf = h.V
				}
				ls = append(ls, h.K+":"+c.Sep[i]+h.V+c.Tail[i])
			}
			text := strings.Join(ls, "\n")
			if c.EndNL {
				text += "\n"
			}
			e := cat.Entry{ID: "a", Plural: "many a"}
			for i := 0; i < c.Rule.NPlurals; i++ {
				e.Forms = append(e.Forms, cat.Form{I: i, S: fmt.Sprintf("form %d", i)})
			}
			body := &cat.Cat{Entries: []cat.Entry{e}}
			if c.HasPF {
				body.Rule = &c.Rule
			}
			// the PO document
			var b strings.Builder
			b.WriteString("msgid \"\"\nmsgstr \"\"\n")
			rest := []rune(text)
			for len(rest) > 0 {
				k := 0
				for k < len(rest) && (c.Chunks == 0 || k < c.Chunks) {
					k++
					if c.Chunks == 0 && rest[k-1] == '\n' {
						break
					}
				}
				b.WriteString("\"" + cat.Plain(string(rest[:k])) + "\"\n")
				rest = rest[k:]
			}
			b.WriteString("\n" + cat.WritePlain(&cat.Cat{Entries: body.Entries}))
			po, mo := gotext.NewPo(), gotext.NewMo()
			po.Parse([]byte(b.String()))
			// the MO file
			raw := &cat.Cat{Entries: []cat.Entry{{ID: "", Forms: []cat.Form{{I: 0, S: text}}}, e}}
			mo.Parse(cat.WriteMO(raw, c.Mo))
			for _, o := range []struct {
				n string
				l binObject
			}{{"Po", po}, {"Mo", mo}, {"Domain of Po", po.GetDomain()}, {"Domain of Mo", mo.GetDomain()}} {
				hd, lg, p, _ := publicFields(o.l)
				if len(hd)+len(want) > 0 && !reflect.DeepEqual(hd, want) {
					return fmt.Errorf("%s: headers %q, want %q", o.n, hd, want)
				}
				if lg != lang || p != pf {
					return fmt.Errorf("%s: Language %q, PluralForms %q, want %q, %q", o.n, lg, p, lang, pf)
				}
				if err := cat.CheckAll(body, o.l, c.Counts); err != nil {
					return fmt.Errorf("%s: %w", o.n, err)
				}
				for k, v := range want {
					if hd.Get(k) != v[0] || !reflect.DeepEqual(hd.Values(k), v) {
						return fmt.Errorf("%s: HeaderMap.Get(%q) = %q, want %q", o.n, k, hd.Get(k), v)
					}
				}
			}
			return nil
		},
	})
}

type refsCase struct {
	Cat  *cat.Cat `json:"cat"`
	Doc  string   `json:"doc"`
	Sets []op     `json:"sets"`
}

func TestC31_Refs(t *testing.T) {
	core.Run(t, core.Prop[refsCase]{
		ID: "C31", Checks: 7000,
		Rule: "documents with a header entry and any distribution of references over entries with and without context and plural, over several lines and between other comments; GetRefs, listings and the exported text (independent reader) compared, then SetRefs and again; non-trivial: 2+ entries of which one has references",
		Gen: func(t *rapid.T) refsCase {
			c := cat.GenCat(t, cat.Opts{MaxEntries: 7, Small: rapid.Bool().Draw(t, "small")})
			if len(c.AllHeaders()) == 0 {
				c.Headers = []cat.KV{{K: "Language", V: "de"}}
			}
			for i := range c.Entries {
				if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
					c.Entries[i].Refs = genRefs(t, true)
				}
			}
			doc, _ := cat.GenDoc(t, c, cat.Layout{NoObsolete: true, Junk: rapid.IntRange(0, 5).Draw(t, "junk") == 0})
			r := refsCase{Cat: c, Doc: doc}
			for _, o := range genOps(t, c, histOpts{maxOps: 12, plainRefs: true, noReadOps: true, noDrop: true}) {
				if o.K == "SetRefs" || rapid.IntRange(0, 3).Draw(t, "keep") == 0 {
					r.Sets = append(r.Sets, o)
				}
			}
			return r
		},
		Check: func(ctx *core.Ctx, c refsCase) error {
			any := false
			for i := range c.Cat.Entries {
				any = any || len(c.Cat.Entries[i].Refs) > 0
			}
			ctx.NonTrivial(len(c.Cat.Entries) >= 2 && any)
			po := gotext.NewPo()
			po.Parse([]byte(c.Doc))
			m := newModel(c.Cat)
			check := func(when string) error {
				if err := checkEntries(po.GetDomain(), m); err != nil {
					return fmt.Errorf("%s: %w", when, err)
				}
				for k, e := range m.m {
					if k.Ctx == "" && !sameRefs(po.GetRefs(k.ID), e.Refs) {
						return fmt.Errorf("%s: Po.GetRefs(%s): %q, want %q", when, cat.Q(k.ID), po.GetRefs(k.ID), e.Refs)
					}
				}
				text, err := po.MarshalText()
				if err != nil {
					return err
				}
				doc, err := cat.ReadPO(string(text))
				if err != nil {
					return fmt.Errorf("%s: exported text: %w", when, err)
				}
				n := 0
				for _, e := range doc.Entries {
					if e.ID == "" {
						continue
					}
					n++
					if x := m.m[mkey{e.Ctx, e.ID}]; x == nil || !sameRefs(x.Refs, e.Refs) {
						return fmt.Errorf("%s: exported text gives id %s ctx %s the references %q", when, cat.Q(e.ID), cat.Q(e.Ctx), e.Refs)
					}
				}
				if n != len(m.m) {
					return fmt.Errorf("%s: exported text has %d entries, want %d", when, n, len(m.m))
				}
				re := gotext.NewPo()
				re.Parse(text)
				if err := checkEntries(re.GetDomain(), m); err != nil {
					return fmt.Errorf("%s: parsed again: %w", when, err)
				}
				return nil
			}
			if err := check("parsed"); err != nil {
				return err
			}
			if po.GetRefs("an id that is not there") != nil {
				return fmt.Errorf("an id that is not there has references")
			}
			for _, o := range c.Sets {
				if err := o.run(po); err != nil {
					return err
				}
				m.apply(o)
			}
			return check("after edits")
		},
	})
}

type gobCase struct {
	Data []byte      `json:"data"`
	Into string      `json:"into"` // domain, po, mo, locale
	Held *cat.Cat    `json:"held"`
	Doms []locDomain `json:"doms,omitempty"`
	What string      `json:"what"`
	// Incomplete: a proper prefix of an encoding, which cannot be decoded.
	Incomplete bool `json:"incomplete,omitempty"`
}

// A byte that starts a long integer in the encoding makes the decoder allocate by its value.
func longInt(b byte) bool { return b >= 0xf8 && b <= 0xfd }

func genGobCase(t *rapid.T) gobCase {
	c := gobCase{Into: rapid.SampledFrom([]string{"domain", "po", "mo", "locale", "locale"}).Draw(t, "into")}
	enc := func(kind string) []byte {
		var b []byte
		var err error
		if kind == "locale" {
			l := gotext.NewLocale("/p", "fr_FR")
			for i, n := 0, rapid.IntRange(0, 2).Draw(t, "nd"); i < n; i++ {
				po := gotext.NewPo()
				po.Parse([]byte(cat.WritePlain(cat.GenCat(t, cat.Opts{MaxEntries: 3, Small: true}))))
				l.AddTranslator([]string{"x", "d"}[i], po)
			}
			b, err = l.MarshalBinary()
		} else {
			po := gotext.NewPo()
			po.Parse([]byte(cat.WritePlain(cat.GenCat(t, cat.Opts{MaxEntries: 4, Small: true}))))
			b, err = po.MarshalBinary()
		}
		if err != nil {
			t.Fatalf("HARNESS: %v", err)
		}
		return b
	}
	kind := c.Into
	if rapid.IntRange(0, 7).Draw(t, "cross") == 0 {
		kind = rapid.SampledFrom([]string{"po", "locale"}).Draw(t, "crosskind")
		c.What = "encoding of another type, "
	}
	switch rapid.IntRange(0, 9).Draw(t, "how") {
	case 0:
		c.What += "intact"
		c.Data = enc(kind)
	case 1, 2:
		c.What += "truncated"
		c.Data = enc(kind)
		c.Data = c.Data[:rapid.IntRange(0, len(c.Data)-1).Draw(t, "cut")]
		c.Incomplete = true
	case 6, 7:
		if kind != "locale" {
			c.What += "mutated"
			c.Data = mutate(t, enc(kind), []string{"\x00", "\x01", "\xff\x80", "\x7f", "x"}, longInt)
			break
		}
		// the encodings of the domains are nested in that of the locale
		var le gotext.LocaleEncoding
		if err := gob.NewDecoder(bytes.NewReader(enc(kind))).Decode(&le); err != nil {
			t.Fatalf("HARNESS: %v", err)
		}
		var names []string
		for n := range le.Domains {
			names = append(names, n)
		}
		sort.Strings(names)
		if len(names) == 0 {
			le.Domains = map[string][]byte{"x": nil}
			names = []string{"x"}
			c.Incomplete = true
		} else {
			n := rapid.SampledFrom(names).Draw(t, "which")
			b := le.Domains[n]
			if c.Incomplete = rapid.Bool().Draw(t, "cutinner"); c.Incomplete {
				le.Domains[n] = b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")]
			} else {
				le.Domains[n] = mutate(t, b, []string{"\x00", "\x01", "\xff\x80", "\x7f", "x"}, longInt)
			}
		}
		c.What += "a damaged domain"
		var buf bytes.Buffer
		if err := gob.NewEncoder(&buf).Encode(le); err != nil {
			t.Fatalf("HARNESS: %v", err)
		}
		c.Data = buf.Bytes()
	case 3:
		c.What += "spliced"
		a, b := enc(kind), enc(kind)
		c.Data = append(a[:rapid.IntRange(0, len(a)).Draw(t, "cut"):len(a)][:0:0], a[:rapid.IntRange(0, len(a)).Draw(t, "cut1")]...)
		c.Data = append(c.Data, b[rapid.IntRange(0, len(b)).Draw(t, "cut2"):]...)
	case 4:
		c.What += "arbitrary"
		c.Data = rapid.SliceOfN(rapid.Byte().Filter(func(b byte) bool { return !longInt(b) }), 0, 80).Draw(t, "bytes")
	default:
		c.What += "mutated"
		c.Data = mutate(t, enc(kind), []string{"\x00", "\x01", "\xff\x80", "\x7f", "x"}, longInt)
	}
	c.Held = cat.GenCat(t, cat.Opts{MaxEntries: 4, Small: true, NoRefs: true})
	if c.Into == "locale" {
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "held"); i < n; i++ {
			d := locDomain{Name: []string{"d", "e"}[i], Kind: "mempo", Cat: cat.GenCat(t, cat.Opts{MaxEntries: 3, Small: true, NoRefs: true})}
			c.Doms = append(c.Doms, d)
		}
	}
	return c
}

func TestC32_Corrupt(t *testing.T) {
	core.Run(t, core.Prop[gobCase]{
		ID: "C32", Checks: 12000,
		Rule: "valid encodings truncated, with truncated or mutated domains inside, spliced, mutated, of another type or arbitrary bytes, decoded into loaded Domain, Po, Mo and Locale objects; after an error everything is compared with before, after success every operation is used; non-trivial: 20+ bytes",
		Gen:  genGobCase,
		Check: func(ctx *core.Ctx, c gobCase) error {
			ctx.NonTrivial(len(c.Data) >= 20)
			if c.Into == "locale" {
				return checkGobLocale(ctx, c)
			}
			r := newBinObject(c.Into)
			_, _, _, d := publicFields(r)
			switch o := r.(type) {
			case *gotext.Po:
				o.Parse([]byte(cat.WritePlain(c.Held)))
			case *gotext.Mo:
				o.Parse(cat.WriteMO(c.Held, cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}, Empty: true}))
			default:
				po := gotext.NewPo()
				po.Parse([]byte(cat.WritePlain(c.Held)))
				d = po.GetDomain()
				r = d
			}
			hd0, lang0, pf0, _ := publicFields(r)
			h0 := fmt.Sprintf("%q", hd0)
			l0, c0 := flat(d.GetTranslations()), flatCtx(d.GetCtxTranslations())
			err := r.UnmarshalBinary(append([]byte(nil), c.Data...))
			if c.Incomplete && err == nil {
				return fmt.Errorf("an incomplete encoding of %d bytes was accepted", len(c.Data))
			}
			ctx.LabelIf(err != nil, c.What+": rejected")
			ctx.LabelIf(err == nil, c.What+": accepted")
			var m mutable = d
			if p, ok := r.(*gotext.Po); ok {
				m = p
			}
			if err != nil {
				hd, lang, pf, _ := publicFields(r)
				if lang != lang0 || pf != pf0 || fmt.Sprintf("%q", hd) != h0 {
					return fmt.Errorf("decoding failed (%v), but the headers changed from %s, %q, %q to %q, %q, %q", err, h0, lang0, pf0, hd, lang, pf)
				}
				if got := flat(d.GetTranslations()); !reflect.DeepEqual(got, l0) {
					return fmt.Errorf("decoding failed (%v), but the entries changed from %q to %q", err, l0, got)
				}
				if got := flatCtx(d.GetCtxTranslations()); !reflect.DeepEqual(got, c0) {
					return fmt.Errorf("decoding failed (%v), but the entries changed from %q to %q", err, c0, got)
				}
				if err2 := cat.CheckAll(c.Held, r, smallCounts); err2 != nil {
					return fmt.Errorf("after failed decoding (%v): %w", err, err2)
				}
				if err := checkHeaders(c.Held, hd); err != nil {
					return err
				}
			}
			return use(r, m, d)
		},
	})
}

// use exercises an object that was the target of a decoding.
func use(r binObject, m mutable, d *gotext.Domain) error {
	for id, tr := range d.GetTranslations() {
		if tr == nil {
			return fmt.Errorf("nil entry in the listing")
		}
		r.Get(id)
		r.GetN(id, "pl", 2)
		r.IsTranslated(id)
		r.IsTranslatedN(id, 2)
		r.Append(nil, id)
		d.SetN(id, "pl", 2, "set again")
		if got := r.GetN(id, "pl", 2); got != "set again" {
			return fmt.Errorf("SetN of %s, then GetN gives %s", cat.Q(id), cat.Q(got))
		}
	}
	for x, es := range d.GetCtxTranslations() {
		for id := range es {
			r.GetC(id, x)
			r.GetNC(id, "pl", 2, x)
			r.IsTranslatedC(id, x)
			d.SetNC(id, "pl", x, 2, "set again")
			if got := r.GetNC(id, "pl", 2, x); got != "set again" {
				return fmt.Errorf("SetNC of %s, then GetNC gives %s", cat.Q(id), cat.Q(got))
			}
			d.SetC("new in "+id, x, "v")
		}
	}
	d.SetC("new", "new context", "v")
	d.Set("new", "v")
	d.SetRefs("new", []string{"a.go:1"})
	if r.Get("new") != "v" || r.GetC("new", "new context") != "v" {
		return fmt.Errorf("Set after decoding has no effect")
	}
	if d.Headers == nil {
		return fmt.Errorf("Headers is nil")
	}
	d.Headers.Set("X-New", "v")
	if _, err := m.MarshalText(); err != nil {
		return fmt.Errorf("MarshalText: %w", err)
	}
	b, err := r.MarshalBinary()
	if err != nil {
		return fmt.Errorf("MarshalBinary: %w", err)
	}
	if err := gotext.NewPo().UnmarshalBinary(b); err != nil {
		return fmt.Errorf("UnmarshalBinary: %w", err)
	}
	doc := []byte("msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\nmsgid \"late\"\nmsgid_plural \"lates\"\nmsgstr[0] \"l0\"\nmsgstr[1] \"l1\"\n")
	switch o := r.(type) {
	case *gotext.Po:
		o.Parse(doc)
	case *gotext.Mo:
		o.Parse(cat.WriteMO(&cat.Cat{Entries: []cat.Entry{{ID: "late", Forms: []cat.Form{{I: 0, S: "l0"}}}}}, cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}}))
	default:
		return nil
	}
	if got := r.Get("late"); got != "l0" {
		return fmt.Errorf("parsing after decoding: got %s", cat.Q(got))
	}
	return nil
}

func checkGobLocale(ctx *core.Ctx, c gobCase) error {
	l := gotext.NewLocale("/nonexistent", "de_DE")
	for i := range c.Doms {
		if _, err := c.Doms[i].attach(l, "/nonexistent"); err != nil {
			return err
		}
	}
	l.SetDomain("e")
	err := l.UnmarshalBinary(append([]byte(nil), c.Data...))
	if c.Incomplete && err == nil {
		return fmt.Errorf("an incomplete encoding (%s) was accepted", c.What)
	}
	ctx.LabelIf(err != nil, "locale, "+c.What+": rejected")
	ctx.LabelIf(err == nil, "locale, "+c.What+": accepted")
	if err != nil {
		if l.GetLanguage() != "de_DE" || l.GetDomain() != "e" || len(l.Domains) != len(c.Doms) {
			return fmt.Errorf("decoding failed (%v), but the locale has now language %q, default domain %q, %d domains", err, l.GetLanguage(), l.GetDomain(), len(l.Domains))
		}
		for i := range c.Doms {
			if err2 := cat.CheckAll(c.Doms[i].Cat, cat.LocaleLooker{L: l, D: c.Doms[i].Name}, smallCounts); err2 != nil {
				return fmt.Errorf("after failed decoding (%v): domain %q: %w", err, c.Doms[i].Name, err2)
			}
		}
	}
	for id := range l.GetTranslations() {
		for d := range l.Domains {
			l.GetD(d, id)
			l.GetND(d, id, "pl", 2)
			l.GetDC(d, id, "menu")
			l.GetNDC(d, id, "pl", 2, "menu")
			l.IsTranslatedND(d, id, 2)
		}
	}
	for _, tr := range l.Domains {
		if tr == nil {
			continue
		}
		p, ok := tr.(*gotext.Po)
		if !ok {
			continue
		}
		if err := use(p, p, p.GetDomain()); err != nil {
			return err
		}
	}
	if _, err := l.MarshalBinary(); err != nil {
		return fmt.Errorf("MarshalBinary: %w", err)
	}
	po := gotext.NewPo()
	po.Set("k", "v")
	l.AddTranslator("added", po)
	l.AddDomain("not on disk")
	l.SetDomain("added")
	if got := l.Get("k"); got != "v" {
		return fmt.Errorf("the locale is unusable: got %q", got)
	}
	return nil
}
