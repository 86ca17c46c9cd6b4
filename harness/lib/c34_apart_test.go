package lib

import (
	"fmt"
	"testing"
	"testing/fstest"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// apartStep changes one of several catalogues.
type apartStep struct {
	Who int    `json:"who"`
	K   string `json:"k"` // op, parse, header, addheader, delheader, lang, decode, resolver
	Op  op     `json:"op"`
	Doc int    `json:"doc,omitempty"`
	Key string `json:"key,omitempty"`
	Val string `json:"val,omitempty"`
}

// apartCase is several catalogues, made in different ways of a few documents,
// and changes of one at a time.
type apartCase struct {
	Cats  []*cat.Cat  `json:"cats"`
	Docs  []string    `json:"docs"`
	Makes []apartMake `json:"makes"`
	Steps []apartStep `json:"steps"`
}

type apartMake struct {
	How string `json:"how"`
	Doc int    `json:"doc"` // -1: empty
}

var apartLayout = cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: make([]int, 5), Empty: true}

var apartHows = []string{"new po", "new mo", "new domain", "po", "po", "mo", "file", "fs file", "decoded po", "decoded mo", "decoded domain", "encoding", "encoding without maps", "locale", "decoded locale", "decoded locale"}

// ownEncoding is the encoding an external Translator would make of a catalogue.
func ownEncoding(d *gotext.Domain, maps bool) *gotext.TranslatorEncoding {
	te := &gotext.TranslatorEncoding{Language: d.Language, PluralForms: d.PluralForms}
	if maps {
		te.Headers = gotext.HeaderMap{}
		te.Translations = d.GetTranslations()
		te.Contexts = d.GetCtxTranslations()
		for k, v := range d.Headers {
			te.Headers[k] = append([]string(nil), v...)
		}
	}
	return te
}

// make makes a catalogue of its own, and the object it belongs to.
func (c *apartCase) make(m apartMake) (*gotext.Domain, gotext.Translator, error) {
	text, mo := []byte(nil), []byte(nil)
	if m.Doc >= 0 {
		text = []byte(c.Docs[m.Doc])
		mo = cat.WriteMO(c.Cats[m.Doc], apartLayout)
	}
	switch m.How {
	case "new po":
		p := gotext.NewPo()
		return p.GetDomain(), p, nil
	case "new mo":
		p := gotext.NewMo()
		return p.GetDomain(), p, nil
	case "new domain":
		return gotext.NewDomain(), nil, nil
	case "mo":
		p := gotext.NewMo()
		p.Parse(mo)
		return p.GetDomain(), p, nil
	}
	po := gotext.NewPo()
	po.Parse(text)
	switch m.How {
	case "po":
		return po.GetDomain(), po, nil
	case "file", "locale", "decoded locale":
		dir, clean := scratch()
		defer clean()
		put(dir, "de/d.po", text)
		put(dir, "de/e.po", text)
		if m.How == "file" {
			p := gotext.NewPo()
			p.ParseFile(dir + "/de/d.po")
			return p.GetDomain(), p, nil
		}
		l := gotext.NewLocale(dir, "de")
		l.AddDomain("d")
		l.AddDomain("e")
		if m.How == "decoded locale" {
			b, err := l.MarshalBinary()
			if err != nil {
				return nil, nil, err
			}
			l = new(gotext.Locale)
			if err := l.UnmarshalBinary(b); err != nil {
				return nil, nil, err
			}
		}
		return l.Domains["d"].GetDomain(), l.Domains["d"], nil
	case "fs file":
		p := gotext.NewPoFS(fstest.MapFS{"d.po": {Data: text}})
		p.ParseFile("d.po")
		return p.GetDomain(), p, nil
	case "encoding", "encoding without maps":
		tr := ownEncoding(po.GetDomain(), m.How == "encoding").GetTranslator()
		return tr.GetDomain(), tr, nil
	}
	b, err := po.MarshalBinary()
	if err != nil {
		return nil, nil, err
	}
	switch m.How {
	case "decoded po":
		p := gotext.NewPo()
		err = p.UnmarshalBinary(b)
		return p.GetDomain(), p, err
	case "decoded mo":
		p := gotext.NewMo()
		err = p.UnmarshalBinary(b)
		return p.GetDomain(), p, err
	}
	d := gotext.NewDomain()
	return d, nil, d.UnmarshalBinary(b)
}

func TestC34_Apart(t *testing.T) {
	core.Run(t, core.Prop[apartCase]{
		ID: "C34", Checks: 2500,
		Rule: "2-5 catalogues made side by side (new, parsed, read from files, decoded, restored of an encoding, alone or in a Locale), many of the same document or empty; one at a time is changed (entries, references, plural resolver, header values, another document, decoded data) and every other one must stay as it was; non-trivial: 3+ changes",
		Gen: func(t *rapid.T) apartCase {
			var c apartCase
			for i, n := 0, rapid.IntRange(1, 2).Draw(t, "ndocs"); i < n; i++ {
				k := cat.GenCat(t, cat.Opts{MaxEntries: 4, Head: rapid.Bool().Draw(t, "head"), Small: rapid.Bool().Draw(t, "small"), NoHeader: rapid.IntRange(0, 3).Draw(t, "nohdr") == 0})
				if len(k.AllHeaders()) == 0 {
					for j := range k.Entries {
						k.Entries[j].Refs = nil
					}
				}
				doc, _ := cat.GenDoc(t, k, cat.Layout{RefsOnly: true})
				c.Cats, c.Docs = append(c.Cats, k), append(c.Docs, doc)
			}
			n := rapid.IntRange(2, 5).Draw(t, "n")
			for i := 0; i < n; i++ {
				if i > 0 && rapid.IntRange(0, 2).Draw(t, "same") == 0 {
					c.Makes = append(c.Makes, c.Makes[i-1])
					continue
				}
				c.Makes = append(c.Makes, apartMake{rapid.SampledFrom(apartHows).Draw(t, "how"), rapid.IntRange(-1, len(c.Docs)-1).Draw(t, "doc")})
			}
			for i, k := 0, rapid.IntRange(1, 10).Draw(t, "nsteps"); i < k; i++ {
				s := apartStep{Who: rapid.IntRange(0, n-1).Draw(t, "who"), K: rapid.SampledFrom([]string{"op", "op", "op", "parse", "parse", "header", "addheader", "delheader", "decode", "resolver", "append"}).Draw(t, "k")}
				s.Doc = rapid.IntRange(0, len(c.Docs)-1).Draw(t, "sdoc")
				if s.K == "op" {
					ops := genOps(t, c.Cats[s.Doc], histOpts{small: true, plainRefs: true, maxOps: 1})
					if len(ops) == 0 {
						s.K = "parse"
					} else {
						s.Op = ops[0]
					}
				}
				s.Key = rapid.SampledFrom([]string{"X-A", "Language", "Plural-Forms", "New"}).Draw(t, "key")
				s.Val = rapid.SampledFrom([]string{"", "x", "nplurals=3; plural=n%3;"}).Draw(t, "val")
				c.Steps = append(c.Steps, s)
			}
			return c
		},
		Check: func(ctx *core.Ctx, c apartCase) error {
			ctx.NonTrivial(len(c.Steps) >= 3)
			var ds []*gotext.Domain
			var trs []gotext.Translator
			var shots []string
			for i, m := range c.Makes {
				d, tr, err := c.make(m)
				if err != nil {
					return err
				}
				ctx.Label("%s", m.How)
				ctx.LabelIf(i > 0 && c.Makes[i-1] == m, "two of a kind")
				ds, trs = append(ds, d), append(trs, tr)
				shots = append(shots, "")
			}
			look := func(what string, but int) error {
				for i, d := range ds {
					s, err := snapshot(d)
					if err != nil {
						return err
					}
					for _, n := range []int{0, 1, 2, 3} {
						s += fmt.Sprintf("|%q", d.GetN("no such", "forms", n))
					}
					if i != but && s != shots[i] {
						return fmt.Errorf("%s of catalogue %d (%s) changed catalogue %d (%s): it was\n%s\nand now is\n%s", what, but, c.Makes[but].How, i, c.Makes[i].How, shots[i], s)
					}
					shots[i] = s
				}
				return nil
			}
			for i, d := range ds {
				s, err := snapshot(d)
				if err != nil {
					return err
				}
				for _, n := range []int{0, 1, 2, 3} {
					s += fmt.Sprintf("|%q", d.GetN("no such", "forms", n))
				}
				shots[i] = s
			}
			for _, s := range c.Steps {
				d := ds[s.Who]
				what := s.K
				switch s.K {
				case "op":
					what = s.Op.K
					if err := s.Op.run(d); err != nil {
						return err
					}
				case "parse":
					switch tr := trs[s.Who].(type) {
					case nil:
						continue
					case *gotext.Mo:
						tr.Parse(cat.WriteMO(c.Cats[s.Doc], apartLayout))
					default:
						tr.Parse([]byte(c.Docs[s.Doc]))
					}
				case "header":
					d.Headers.Set(s.Key, s.Val)
				case "addheader":
					d.Headers.Add(s.Key, s.Val)
				case "delheader":
					d.Headers.Del(s.Key)
				case "resolver":
					d.SetPluralResolver(func(n int) int { return (n + 1) % 3 })
				case "append":
					for id, tr := range d.GetTranslations() {
						tr.Refs = append(tr.Refs, "z.go:1")
						d.SetRefs(id, tr.Refs)
					}
				case "decode":
					o := gotext.NewPo()
					o.Parse([]byte(c.Docs[s.Doc]))
					b, err := o.MarshalBinary()
					if err != nil {
						return err
					}
					if err := d.UnmarshalBinary(b); err != nil {
						return err
					}
				}
				ctx.Label("change: %s", what)
				if err := look(what, s.Who); err != nil {
					return err
				}
			}
			return nil
		},
	})
}
