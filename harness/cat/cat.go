package cat

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// KV is one header field.
type KV struct {
	K string `json:"k"`
	V string `json:"v"`
}

// Form is one msgstr[i].
type Form struct {
	I int    `json:"i"`
	S string `json:"s"`
}

// Entry is one message. Plural "" means a singular entry with its text in form 0.
type Entry struct {
	Ctx    string   `json:"ctx,omitempty"`
	ID     string   `json:"id"`
	Plural string   `json:"pl,omitempty"`
	Forms  []Form   `json:"forms"`
	Refs   []string `json:"refs,omitempty"`
}

// Cat is a catalogue.
type Cat struct {
	Headers []KV    `json:"headers,omitempty"` // without Plural-Forms, unless Rule is nil
	Rule    *Rule   `json:"rule,omitempty"`
	Entries []Entry `json:"entries"`
	// Comments at the head of the document.
	Head []string `json:"head,omitempty"`
}

// SameSize is the catalogue with other letters in its translations: its files have the same size.
func (c *Cat) SameSize() *Cat {
	d := *c
	d.Entries = nil
	for _, e := range c.Entries {
		var fs []Form
		for _, f := range e.Forms {
			f.S = strings.Map(func(r rune) rune {
				switch {
				case r >= 'a' && r < 'z' || r >= 'A' && r < 'Z' || r >= '0' && r < '9':
					return r + 1
				case r == 'z' || r == 'Z' || r == '9':
					return r - 1
				}
				return r
			}, f.S)
			fs = append(fs, f)
		}
		e.Forms = fs
		d.Entries = append(d.Entries, e)
	}
	return &d
}

// Str returns form i.
func (e *Entry) Str(i int) string {
	for _, f := range e.Forms {
		if f.I == i {
			return f.S
		}
	}
	return ""
}

// Find returns the entry for a context ("" none) and id.
func (c *Cat) Find(ctx, id string) *Entry {
	for i := range c.Entries {
		if c.Entries[i].Ctx == ctx && c.Entries[i].ID == id {
			return &c.Entries[i]
		}
	}
	return nil
}

// ExpGet is the expected Get/GetC result.
func (c *Cat) ExpGet(ctx, id string) (string, bool) {
	if e := c.Find(ctx, id); e != nil {
		if s := e.Str(0); s != "" {
			return s, true
		}
	}
	return id, false
}

// ExpGetN lists the acceptable GetN/GetNC results; translated tells whether it is a stored text.
func (c *Cat) ExpGetN(ctx, id, plural string, n int) (ok []string, translated bool) {
	form := c.Rule.Form(n)
	e := c.Find(ctx, id)
	if e != nil {
		if s := e.Str(form); s != "" {
			return []string{s}, true
		}
		if form == 0 {
			return []string{id}, false
		}
		return []string{plural}, false
	}
	if form == 0 {
		return []string{id}, false
	}
	return []string{plural}, false
}

// AbsentN lists the acceptable results of a plural lookup where no catalogue
// decides: the msgid or plural msgid, fixed where the rule and the Germanic rule agree.
func AbsentN(id, plural string, n, form int) []string {
	switch {
	case n == 1 && form == 0:
		return []string{id}
	case n != 1 && form != 0:
		return []string{plural}
	}
	return []string{id, plural}
}

// Lang returns the Language header value.
func (c *Cat) Header(key string) string {
	for _, h := range c.AllHeaders() {
		if strings.EqualFold(h.K, key) {
			return h.V
		}
	}
	return ""
}

// HeaderLines renders the header fields in order.
func (c *Cat) AllHeaders() []KV {
	hs := append([]KV(nil), c.Headers...)
	if c.Rule != nil {
		hs = append(hs, KV{"Plural-Forms", PluralHeader(*c.Rule)})
	}
	return hs
}

// PluralHeader is the canonical header value of a rule.
func PluralHeader(r Rule) string {
	if r.Value != "" {
		return r.Value
	}
	return fmt.Sprintf("nplurals=%d; plural=%s;", r.NPlurals, strings.TrimSpace(r.Formula))
}

// SpellRule draws a header value that gives the rule, with blanks anywhere and its parts in any order.
func SpellRule(t *rapid.T, r Rule) string {
	sp := func(l string) string {
		return rapid.SampledFrom([]string{"", "", " ", "  ", "\t"}).Draw(t, l)
	}
	np := fmt.Sprintf("nplurals%s=%s%d", sp("s1"), sp("s2"), r.NPlurals)
	pl := fmt.Sprintf("plural%s=%s%s", sp("s3"), sp("s4"), strings.TrimSpace(r.Formula))
	v := np + sp("s5") + ";" + sp("s6") + pl
	if rapid.IntRange(0, 2).Draw(t, "swapped") == 0 {
		v = pl + sp("s5") + ";" + sp("s6") + np
	}
	return v + rapid.SampledFrom([]string{"", ";", " ;", ";;"}).Draw(t, "end")
}

// HeaderText is the msgstr of the header entry.
func (c *Cat) HeaderText() string {
	var b strings.Builder
	for _, h := range c.AllHeaders() {
		b.WriteString(h.K + ": " + h.V + "\n")
	}
	return b.String()
}

var headerKeys = []string{"Project-Id-Version", "Report-Msgid-Bugs-To", "POT-Creation-Date", "PO-Revision-Date", "Last-Translator", "Language-Team", "Language", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "X-Generator", "X-Poedit-Basepath", "X-A", "Zz", "a-lower"}

// Opts controls GenCat.
type Opts struct {
	MaxEntries  int
	NoCtx       bool
	NoRefs      bool
	NoRule      bool // never a plural rule
	ForceRule   bool
	Sparse      bool // forms may be missing
	NoHeader    bool
	Head        bool // head comments
	Small       bool // short texts and ids from a small pool (collisions)
	NoUnTransl  bool
	HeaderPlain bool // header values without odd characters
	MinEntries  int
	FewIDs      bool // with Small: four ids and two contexts
	SpellRule   bool // any spelling of the Plural-Forms value
}

var smallIDs = []string{"a", "b", "c", "File", "One file", "Open", "Hello, %s!", "x\ny", `q"q`, "é"}
var smallCtx = []string{"menu", "door", "Menu", "a", "c\nd", `"`, "b"}

// RefGen draws a source reference.
func RefGen(t *rapid.T, label string) string {
	p := rapid.SampledFrom([]string{"a.go", "b.go", "main.go", "dir/a.go", "Z.go", "sub/dir/file_name.go", "../x.c", "ü.go"}).Draw(t, label+".path")
	if rapid.IntRange(0, 9).Draw(t, label+".nl") == 0 {
		return p
	}
	return fmt.Sprintf("%s:%d", p, rapid.SampledFrom([]int{1, 2, 3, 9, 10, 11, 20, 99, 100, 101, 1000, 32768, 65535, 65536, 70001, 1<<31 - 1}).Draw(t, label+".line"))
}

// HeaderValue draws a header value: one trimmed line.
func HeaderValue(t *rapid.T, plain bool, label string) string {
	var s string
	if plain || rapid.Bool().Draw(t, label+".plain") {
		s = rapid.SampledFrom([]string{"", "1.0", "text/plain; charset=UTF-8", "8bit", "Jane <jane@example.com>", "2024-01-01 10:00+0000", "http://x.org/?a=b:c", "a: b: c", "en", "de_DE"}).Draw(t, label)
	} else {
		s = Text(t, TextOpts{NoNewline: true, NoControl: true}, label)
	}
	return strings.TrimSpace(s)
}

// GenHeaders draws header fields with distinct keys (case-insensitively).
func GenHeaders(t *rapid.T, o Opts, label string) []KV {
	var hs []KV
	n := rapid.IntRange(0, 6).Draw(t, label+".n")
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(headerKeys).Draw(t, label+".key")
		if seen[strings.ToLower(k)] {
			continue
		}
		seen[strings.ToLower(k)] = true
		v := ""
		if k == "Language" {
			v = rapid.SampledFrom([]string{"en", "de_DE", "ar", "", "sr@latin", "zh_Hant"}).Draw(t, label+".lang")
		} else {
			v = HeaderValue(t, o.HeaderPlain, label+".val")
		}
		hs = append(hs, KV{k, v})
	}
	return hs
}

// GenCat draws a catalogue with distinct (context, id) keys.
func GenCat(t *rapid.T, o Opts) *Cat {
	c := &Cat{}
	if !o.NoHeader {
		c.Headers = GenHeaders(t, o, "hdr")
		if !o.NoRule && (o.ForceRule || rapid.IntRange(0, 3).Draw(t, "hasrule") > 0) {
			r := GenRule(t, "rule")
			if o.SpellRule && rapid.IntRange(0, 1).Draw(t, "spelled") == 1 {
				r.Value = SpellRule(t, r)
			}
			c.Rule = &r
		}
	}
	if o.Head {
		n := rapid.IntRange(0, 3).Draw(t, "nhead")
		if n == 3 && rapid.IntRange(0, 9).Draw(t, "longhead") == 9 {
			n = rapid.IntRange(20, 200).Draw(t, "nlonghead")
		}
		for i := 0; i < n; i++ {
			c.Head = append(c.Head, rapid.SampledFrom([]string{"#", "# Copyright (C) Someone", "# Jane <j@x.org>, 2020.", "#, fuzzy", "# \"quoted\" \\", "#. ex", "# é日本", "# msgid \"x\""}).Draw(t, "head"))
		}
	}
	max := o.MaxEntries
	if max == 0 {
		max = 8
	}
	n := rapid.IntRange(o.MinEntries, max).Draw(t, "nent")
	seen := map[[2]string]bool{}
	for i := 0; i < n; i++ {
		e := GenEntry(t, o, c.Rule, fmt.Sprintf("e%d", i))
		if len(c.Entries) > 0 && !o.Small && !o.FewIDs && rapid.IntRange(0, 5).Draw(t, "near") == 5 {
			// differs little from another entry
			f := rapid.SampledFrom(c.Entries).Draw(t, "nearentry")
			e.ID = f.ID
			if f.Ctx != "" && rapid.Bool().Draw(t, "nearctx") {
				e.Ctx = Near(t, f.Ctx, "ctx")
			} else {
				e.ID = Near(t, f.ID, "id")
				e.Ctx = f.Ctx
			}
		}
		k := [2]string{e.Ctx, e.ID}
		if seen[k] {
			continue
		}
		seen[k] = true
		c.Entries = append(c.Entries, e)
	}
	return c
}

// GenEntry draws one entry.
func GenEntry(t *rapid.T, o Opts, rule *Rule, l string) Entry {
	var e Entry
	text := func(opt TextOpts, lab string) string {
		if o.Small {
			s := rapid.SampledFrom([]string{"x", "y", "z", "t1", "t2", "ü", "q\"", "l1\nl2", "%d of %s", "\\"}).Draw(t, lab)
			return s
		}
		return Text(t, opt, lab)
	}
	if o.FewIDs {
		e.ID = rapid.SampledFrom(smallIDs[:4]).Draw(t, l+".id")
	} else if o.Small || rapid.IntRange(0, 3).Draw(t, l+".pool") == 0 {
		e.ID = rapid.SampledFrom(smallIDs).Draw(t, l+".id")
	} else {
		e.ID = ID(t, l+".id")
	}
	if !o.NoCtx && rapid.IntRange(0, 2).Draw(t, l+".hasctx") == 0 {
		if o.FewIDs {
			e.Ctx = rapid.SampledFrom(smallCtx[:2]).Draw(t, l+".ctx")
		} else if o.Small || rapid.Bool().Draw(t, l+".ctxpool") {
			e.Ctx = rapid.SampledFrom(smallCtx).Draw(t, l+".ctx")
		} else {
			e.Ctx = ID(t, l+".ctx")
		}
	}
	if rapid.IntRange(0, 2).Draw(t, l+".haspl") == 0 {
		e.Plural = text(TextOpts{NoEmpty: true}, l+".plural")
		np := 2
		if rule != nil {
			np = rule.NPlurals
		}
		for i := 0; i < np; i++ {
			switch k := rapid.IntRange(0, 9).Draw(t, l+".form"); {
			case k == 0 && !o.NoUnTransl:
				e.Forms = append(e.Forms, Form{i, ""})
			case k == 1 && o.Sparse:
			default:
				e.Forms = append(e.Forms, Form{i, text(TextOpts{NoEmpty: true}, l+".str")})
			}
		}
	} else {
		s := ""
		if o.NoUnTransl || rapid.IntRange(0, 6).Draw(t, l+".untr") > 0 {
			s = text(TextOpts{NoEmpty: true}, l+".str")
		}
		e.Forms = []Form{{0, s}}
	}
	if !o.NoRefs && rapid.IntRange(0, 1).Draw(t, l+".hasrefs") == 0 {
		n := rapid.IntRange(1, 4).Draw(t, l+".nrefs")
		for i := 0; i < n; i++ {
			e.Refs = append(e.Refs, RefGen(t, l+".ref"))
		}
	}
	return e
}

// PluralOf is the plural id a caller would pass for an entry.
func PluralOf(e *Entry) string {
	if e.Plural != "" {
		return e.Plural
	}
	return "plural of " + e.ID
}

// SortForms orders an entry's forms by index.
func SortForms(fs []Form) []Form {
	r := append([]Form(nil), fs...)
	sort.Slice(r, func(i, j int) bool { return r[i].I < r[j].I })
	return r
}

// Has tells whether there is a header field of that name, in any spelling.
func (c *Cat) Has(key string) bool {
	for _, h := range c.Headers {
		if strings.EqualFold(h.K, key) {
			return true
		}
	}
	return false
}
