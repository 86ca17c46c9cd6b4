package lib

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// expected header values of a history's object.
func (x *history) headers() map[string][]string {
	want := map[string][]string{}
	for _, h := range append(x.Cat.AllHeaders(), x.Hdrs...) {
		want[h.K] = append(want[h.K], h.V)
	}
	return want
}

// splitHeader reads the header entry of the reference reader.
func splitHeader(text string) (keys []string, vals map[string][]string, err error) {
	vals = map[string][]string{}
	if text == "" {
		return nil, vals, nil
	}
	if !strings.HasSuffix(text, "\n") {
		return nil, nil, fmt.Errorf("header entry %q does not end in a newline", text)
	}
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		k, v, ok := strings.Cut(l, ": ")
		if !ok {
			return nil, nil, fmt.Errorf("header line %q without colon and space", l)
		}
		keys = append(keys, k)
		vals[k] = append(vals[k], v)
	}
	return keys, vals, nil
}

// checkExport compares exported text, as read by the reference reader, with the
// headers, head comments and entries it must hold.
func checkExport(text []byte, head []string, headers map[string][]string, m *model) error {
	doc, err := cat.ReadPO(string(text))
	if err != nil {
		return fmt.Errorf("exported text is not well-formed PO: %w\n%s", err, text)
	}
	if !sameRefs(doc.Head, head) {
		return fmt.Errorf("exported head comments %q, want %q", doc.Head, head)
	}
	if len(doc.Entries) == 0 || doc.Entries[0].ID != "" || doc.Entries[0].HasCtx {
		return fmt.Errorf("exported text does not begin with the header entry")
	}
	_, vals, err := splitHeader(doc.Entries[0].Strs[0])
	if err != nil {
		return err
	}
	if !reflect.DeepEqual(vals, headers) {
		return fmt.Errorf("exported headers %q, want %q", vals, headers)
	}
	if got, want := len(doc.Entries)-1, len(m.m); got != want {
		return fmt.Errorf("%d entries exported, want %d\n%s", got, want, text)
	}
	for i := range doc.Entries[1:] {
		r := &doc.Entries[i+1]
		if r.HasCtx && r.Ctx == "" {
			return fmt.Errorf("entry %s exported with an empty context", cat.Q(r.ID))
		}
		e := m.m[mkey{r.Ctx, r.ID}]
		if e == nil {
			return fmt.Errorf("exported entry id %s ctx %s is not in the catalogue", cat.Q(r.ID), cat.Q(r.Ctx))
		}
		if r.Plural != e.Plural {
			return fmt.Errorf("exported id %s ctx %s has plural %s, want %s", cat.Q(r.ID), cat.Q(r.Ctx), cat.Q(r.Plural), cat.Q(e.Plural))
		}
		if r.HasPlural && e.Plural == "" && !e.otherForms() {
			return fmt.Errorf("id %s ctx %s, which has one form and no plural, is exported as a plural message", cat.Q(r.ID), cat.Q(r.Ctx))
		}
		if !sameRefs(r.Refs, e.Refs) {
			return fmt.Errorf("exported id %s ctx %s has references %q, want %q", cat.Q(r.ID), cat.Q(r.Ctx), r.Refs, e.Refs)
		}
		for k, s := range e.Forms {
			if r.Strs[k] != s {
				return fmt.Errorf("exported id %s ctx %s has form %d = %s, want %s", cat.Q(r.ID), cat.Q(r.Ctx), k, cat.Q(r.Strs[k]), cat.Q(s))
			}
		}
		for k, s := range r.Strs {
			if s != e.Forms[k] {
				return fmt.Errorf("exported id %s ctx %s has form %d = %s, want %s", cat.Q(r.ID), cat.Q(r.Ctx), k, cat.Q(s), cat.Q(e.Forms[k]))
			}
		}
	}
	return nil
}

func TestC11_RoundTrip(t *testing.T) {
	core.Run(t, core.Prop[history]{
		ID: "C11", Checks: 12000,
		Rule: "a catalogue parsed from PO, MO or binary data and/or built by a history of Set operations with arbitrary text, exported with MarshalText, read by an independent PO reader and by a new Po; non-trivial: 2+ entries at the end",
		Gen: func(t *rapid.T) history {
			return genHistory(t, cat.Opts{Sparse: true, Head: true, MaxEntries: 6, SpellRule: true}, histOpts{plainRefs: true, maxOps: 12, noReadOps: true})
		},
		Check: func(ctx *core.Ctx, x history) error {
			labelHistory(ctx, &x)
			l, d, m, err := x.build()
			if err != nil {
				return err
			}
			ctx.NonTrivial(len(m.m) >= 2)
			text, err := l.MarshalText()
			if err != nil {
				return fmt.Errorf("MarshalText: %w", err)
			}
			head := x.Cat.Head
			if x.Load == "bin" {
				head = nil
			}
			if err := checkExport(text, head, x.headers(), m); err != nil {
				return err
			}
			back := gotext.NewPo()
			back.Parse(text)
			if x.Res > 0 {
				back.SetPluralResolver(func(n int) int { return n % x.Res })
			}
			if err := checkModel(back, back.GetDomain(), m); err != nil {
				return fmt.Errorf("after exporting and parsing back: %w\n%s", err, text)
			}
			if err := sameLookups(m.cat(), l, back, smallCounts); err != nil {
				return fmt.Errorf("original / parsed back differ: %w\n%s", err, text)
			}
			if want := x.headers(); len(want)+len(back.Headers) > 0 && !reflect.DeepEqual(want, map[string][]string(back.Headers)) {
				return fmt.Errorf("headers parsed back: %q, want %q", back.Headers, want)
			}
			if back.Language != d.Language || back.PluralForms != d.PluralForms {
				return fmt.Errorf("Language %q, PluralForms %q parsed back, want %q, %q", back.Language, back.PluralForms, d.Language, d.PluralForms)
			}
			return nil
		},
	})
}

type canonCase struct {
	Cat    *cat.Cat     `json:"cat"`
	Doc1   string       `json:"doc1"`
	Doc2   string       `json:"doc2"`
	Layout cat.MoLayout `json:"layout"`
	// order of the Set operations and headers of the built catalogue
	EntryOrder  []int `json:"eorder"`
	FormOrder   []int `json:"forder"`
	HeaderOrder []int `json:"horder"`
}

func upTo(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func genCanon(t *rapid.T) canonCase {
	var c canonCase
	dup := rapid.IntRange(0, 2).Draw(t, "collide") == 0
	o := cat.Opts{Head: true, MaxEntries: 10, Small: dup}
	if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
		o.Small, o.MinEntries, o.MaxEntries = true, 14, 40
	}
	c.Cat = cat.GenCat(t, o)
	// plural entries get all of their forms
	if len(c.Cat.AllHeaders()) == 0 {
		for i := range c.Cat.Entries {
			c.Cat.Entries[i].Refs = nil
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "nohead") > 0 {
		c.Cat.Head = nil
	}
	if rapid.IntRange(0, 2).Draw(t, "norefs") == 0 {
		for i := range c.Cat.Entries {
			c.Cat.Entries[i].Refs = nil
		}
	}
	c.Doc1, _ = cat.GenDoc(t, c.Cat, cat.Layout{RefsOnly: true})
	c.HeaderOrder = rapid.Permutation(upTo(len(c.Cat.AllHeaders()))).Draw(t, "horder")
	c2 := *c.Cat
	c2.Headers, c2.Rule = nil, nil
	hs := c.Cat.AllHeaders()
	for _, i := range c.HeaderOrder {
		c2.Headers = append(c2.Headers, hs[i])
	}
	c.Doc2, _ = cat.GenDoc(t, &c2, cat.Layout{RefsOnly: true})
	c.Layout = cat.GenMoLayout(t)
	c.Layout.Empty = true
	c.EntryOrder = rapid.Permutation(upTo(len(c.Cat.Entries))).Draw(t, "eorder")
	c.FormOrder = rapid.Permutation(upTo(20)).Draw(t, "forder")
	return c
}

var conventional = []string{"project-id-version", "report-msgid-bugs-to", "pot-creation-date", "po-revision-date", "last-translator", "language-team", "language", "mime-version", "", "content-type", "content-transfer-encoding", "plural-forms"}

func headerRank(k string) int {
	for i, c := range conventional {
		if strings.ToLower(k) == c {
			return i
		}
	}
	return 8
}

type orderKey struct {
	path string
	line int
	ctx  string
	id   string
}

func (a orderKey) less(b orderKey) bool {
	if a.path != b.path {
		return a.path < b.path
	}
	if a.line != b.line {
		return a.line < b.line
	}
	if a.ctx != b.ctx {
		return a.ctx < b.ctx
	}
	return a.id < b.id
}

func keyOf(r *cat.RefEntry) orderKey {
	k := orderKey{ctx: r.Ctx, id: r.ID}
	if len(r.Refs) > 0 {
		p, l, ok := strings.Cut(r.Refs[0], ":")
		k.path = p
		if ok {
			k.line, _ = strconv.Atoi(l)
		}
	}
	return k
}

// checkOrder checks the order of headers, entries and forms of exported text.
func checkOrder(text []byte) error {
	doc, err := cat.ReadPO(string(text))
	if err != nil {
		return fmt.Errorf("exported text is not well-formed PO: %w\n%s", err, text)
	}
	keys, _, err := splitHeader(doc.Entries[0].Strs[0])
	if err != nil {
		return err
	}
	if !sort.SliceIsSorted(keys, func(i, j int) bool {
		a, b := headerRank(keys[i]), headerRank(keys[j])
		return a < b || a == b && keys[i] < keys[j]
	}) {
		return fmt.Errorf("headers are exported in the order %q", keys)
	}
	for i := 2; i < len(doc.Entries); i++ {
		if a, b := keyOf(&doc.Entries[i-1]), keyOf(&doc.Entries[i]); b.less(a) {
			return fmt.Errorf("entry %+v is exported before %+v", a, b)
		}
	}
	form := -1
	for _, l := range strings.Split(string(text), "\n") {
		if strings.HasPrefix(l, "msgid") {
			form = -1
		}
		if strings.HasPrefix(l, "msgstr[") {
			i, err := strconv.Atoi(l[len("msgstr["):strings.Index(l, "]")])
			if err != nil || i <= form {
				return fmt.Errorf("form %q is exported after form %d", l, form)
			}
			form = i
		}
	}
	return nil
}

func TestC12_Canonical(t *testing.T) {
	core.Run(t, core.Prop[canonCase]{
		ID: "C12", Checks: 6000,
		Rule: "one content brought into being in several ways - two PO documents with permuted entries, forms and headers, an MO file, binary data, Set operations in random order - must export to identical, idempotent bytes in the specified order; non-trivial: 3+ entries",
		Gen:  genCanon,
		Check: func(ctx *core.Ctx, c canonCase) error {
			ctx.NonTrivial(len(c.Cat.Entries) >= 3)
			var texts [][]byte
			var names []string
			export := func(name string, l interface{ MarshalText() ([]byte, error) }) error {
				first, err := l.MarshalText()
				if err != nil {
					return fmt.Errorf("%s: MarshalText: %w", name, err)
				}
				for i := 0; i < 3; i++ {
					again, err := l.MarshalText()
					if err != nil || !bytes.Equal(first, again) {
						return fmt.Errorf("%s: repeated exports differ (%v):\n%s\n---\n%s", name, err, first, again)
					}
				}
				texts, names = append(texts, first), append(names, name)
				if i := len(texts) - 1; !bytes.Equal(texts[0], texts[i]) {
					return fmt.Errorf("same content, different exports of %s / %s:\n%s\n---\n%s", names[0], name, texts[0], texts[i])
				}
				return nil
			}
			p1, p2 := gotext.NewPo(), gotext.NewPo()
			p1.Parse([]byte(c.Doc1))
			p2.Parse([]byte(c.Doc2))
			if err := export("document 1", p1); err != nil {
				return err
			}
			if err := checkOrder(texts[0]); err != nil {
				return fmt.Errorf("%w\n%s", err, texts[0])
			}
			if err := export("document 2", p2); err != nil {
				return err
			}
			p3 := gotext.NewPo()
			p3.Parse(texts[0])
			if err := export("the export parsed back", p3); err != nil {
				return err
			}
			if len(c.Cat.Head) > 0 {
				return nil // comments of the file head exist in PO documents only
			}
			if b, err := p1.MarshalBinary(); err == nil {
				d := gotext.NewDomain()
				if err := d.UnmarshalBinary(b); err != nil {
					return err
				}
				if err := export("binary data", d); err != nil {
					return err
				}
			}
			refs, ctxRefs, noForms := false, false, false
			for i := range c.Cat.Entries {
				e := &c.Cat.Entries[i]
				refs = refs || len(e.Refs) > 0
				ctxRefs = ctxRefs || len(e.Refs) > 0 && e.Ctx != ""
				noForms = noForms || len(e.Forms) == 0
			}
			if !refs && !noForms {
				mo := gotext.NewMo()
				mo.Parse(cat.WriteMO(c.Cat, c.Layout))
				ctx.Label("also from MO")
				if err := export("MO file", mo.GetDomain()); err != nil {
					return err
				}
			}
			if !ctxRefs && !noForms {
				ctx.Label("also built")
				d := gotext.NewDomain()
				d.SetPluralResolver(func(n int) int { return n })
				hs := c.Cat.AllHeaders()
				for _, i := range c.HeaderOrder {
					d.Headers.Set(hs[i].K, hs[i].V)
				}
				for _, i := range c.EntryOrder {
					e := &c.Cat.Entries[i]
					if len(e.Refs) > 0 && i%2 == 0 {
						d.SetRefs(e.ID, e.Refs)
					}
					for _, k := range c.FormOrder {
						for _, f := range e.Forms {
							if f.I != k {
								continue
							}
							switch {
							case e.Plural == "" && e.Ctx == "":
								d.Set(e.ID, f.S)
							case e.Plural == "":
								d.SetC(e.ID, e.Ctx, f.S)
							case e.Ctx == "":
								d.SetN(e.ID, e.Plural, k, f.S)
							default:
								d.SetNC(e.ID, e.Plural, e.Ctx, k, f.S)
							}
						}
					}
					if len(e.Refs) > 0 && i%2 == 1 {
						d.SetRefs(e.ID, e.Refs)
					}
				}
				if err := export("Set operations", d); err != nil {
					return err
				}
			}
			return nil
		},
	})
}
