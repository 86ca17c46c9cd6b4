package lib

import (
	"bytes"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"testing"
	"testing/fstest"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// largeCase is a catalogue of systematic entries around a generated one.
type largeCase struct {
	Cat   *cat.Cat `json:"cat"`
	N     int      `json:"n"`
	Refs  int      `json:"refs"`            // references of some entries
	Long  int      `json:"long"`            // length of one text
	Forms int      `json:"forms,omitempty"` // plural forms of one entry
	Ctxs  int      `json:"ctxs,omitempty"`  // contexts, 7 if not said
	Hdrs  int      `json:"hdrs,omitempty"`  // further header fields
	Way   string   `json:"way"`             // how it comes into being: po, mo, set
	Seed  int64    `json:"seed"`            // order of the Set operations
}

func genLarge(t *rapid.T) largeCase {
	c := largeCase{
		N:     rapid.SampledFrom([]int{10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025, 2000}).Draw(t, "n"),
		Refs:  rapid.SampledFrom([]int{0, 1, 10, 63, 65, 300}).Draw(t, "refs"),
		Long:  rapid.SampledFrom([]int{0, 0, 79, 81, 4096, 32768, 65535, 65537, 150000}).Draw(t, "long"),
		Way:   rapid.SampledFrom([]string{"po", "po", "mo", "set"}).Draw(t, "way"),
		Forms: rapid.SampledFrom([]int{0, 0, 0, 9, 10, 11, 12, 64, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300}).Draw(t, "forms"),
		Ctxs:  rapid.SampledFrom([]int{0, 0, 1, 65, 129, 300}).Draw(t, "ctxs"),
		Hdrs:  rapid.SampledFrom([]int{0, 0, 10, 33, 65, 300}).Draw(t, "hdrs"),
		Seed:  rapid.Int64Range(0, 1<<30).Draw(t, "seed"),
		Cat:   cat.GenCat(t, cat.Opts{MaxEntries: 5, NoRefs: true}),
	}
	if c.Way == "mo" {
		c.Refs = 0
	}
	if c.Refs > 0 && len(c.Cat.AllHeaders()) == 0 {
		c.Cat.Headers = []cat.KV{{K: "Language", V: "xx"}}
	}
	return c
}

// full is the whole catalogue.
func (c *largeCase) full() *cat.Cat {
	if c.Ctxs == 0 {
		c.Ctxs = 7
	}
	f := &cat.Cat{Headers: append([]cat.KV(nil), c.Cat.Headers...), Rule: c.Cat.Rule, Entries: append([]cat.Entry(nil), c.Cat.Entries...)}
	for i := 0; i < c.Hdrs; i++ {
		f.Headers = append(f.Headers, cat.KV{K: fmt.Sprintf("X-Field-%d", i), V: fmt.Sprintf("value: %d", i)})
	}
	for i := 0; i < c.N; i++ {
		e := cat.Entry{ID: fmt.Sprintf("systematic message %d", i), Forms: []cat.Form{{I: 0, S: fmt.Sprintf("tr %d", i)}}}
		if i%3 == 1 {
			e.Ctx = fmt.Sprintf("ctx %d", i/3%c.Ctxs)
		}
		if i%4 == 2 {
			e.Plural = fmt.Sprintf("systematic messages %d", i)
			e.Forms = append(e.Forms, cat.Form{I: 1, S: fmt.Sprintf("trs %d", i)})
		}
		if i%50 == 7 {
			for k := 0; k < 40; k++ {
				e.Forms[0].S += fmt.Sprintf("line %d of a long text\n", k)
			}
		}
		if i%10 == 4 {
			for k := 0; k < c.Refs; k++ {
				e.Refs = append(e.Refs, fmt.Sprintf("dir/file%d.go:%d", k%20, 1000+i-k))
			}
		}
		f.Entries = append(f.Entries, e)
	}
	if c.Forms > 0 {
		e := cat.Entry{ID: "message of many forms", Plural: "messages of many forms"}
		for i := 0; i < c.Forms; i++ {
			e.Forms = append(e.Forms, cat.Form{I: i, S: fmt.Sprintf("form %d", i)})
		}
		f.Entries = append(f.Entries, e)
	}
	if c.Long > 0 {
		f.Entries = append(f.Entries, cat.Entry{ID: "Z" + strings.Repeat("long id, ", c.Long/18), Plural: strings.Repeat("long ids ", c.Long/9), Ctx: "c" + strings.Repeat("cé", c.Long/6),
			Forms: []cat.Form{{I: 0, S: strings.Repeat("x", c.Long)}, {I: 1, S: strings.Repeat("\n\"", min(c.Long/2, 5000))}}})
	}
	return f
}

// build makes the object; the model is what it then holds.
func (c *largeCase) build() (mutable, *gotext.Domain, *model, map[string][]string, error) {
	full := c.full()
	headers := map[string][]string(expHeaders(full))
	switch c.Way {
	case "mo":
		mo := gotext.NewMo()
		mo.Parse(cat.WriteMO(full, cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}, Empty: true, Hash: c.N * int(c.Seed%3) * 2 / 3}))
		return mo.GetDomain(), mo.GetDomain(), newModel(full), headers, nil
	case "set":
		po := gotext.NewPo()
		m := newModel(&cat.Cat{})
		var ops []op
		for i := range full.Entries {
			e := &full.Entries[i]
			o := op{K: "Set", ID: e.ID, Ctx: e.Ctx, Str: e.Forms[0].S}
			if len(e.Forms) == 0 {
				continue
			}
			if e.Ctx != "" {
				o.K = "SetC"
			}
			ops = append(ops, o)
			if e.Ctx == "" && len(e.Refs) > 0 {
				ops = append(ops, op{K: "SetRefs", ID: e.ID, Refs: e.Refs})
			}
		}
		rand.New(rand.NewSource(c.Seed)).Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
		for _, o := range ops {
			if err := o.run(po); err != nil {
				return nil, nil, nil, nil, err
			}
			m.apply(o)
		}
		return po, po.GetDomain(), m, map[string][]string{}, nil
	}
	po := gotext.NewPo()
	po.Parse([]byte(cat.WritePlain(full)))
	return po, po.GetDomain(), newModel(full), headers, nil
}

func largeTest(t *testing.T, id, rule string, check func(ctx *core.Ctx, c *largeCase, l mutable, d *gotext.Domain, m *model, headers map[string][]string) error) {
	core.Run(t, core.Prop[largeCase]{
		ID: id, Checks: 40, ThoroughFactor: 12,
		Gen: func(t *rapid.T) largeCase {
			c := genLarge(t)
			switch {
			case id == "C01" && c.Way != "po":
				c.Way = "po"
			case id == "C02" && c.Way != "mo":
				c.Way, c.Refs = "mo", 0
			}
			return c
		},
		Rule: "catalogues of up to thousands of systematic entries with up to hundreds of references each and a text of up to 150 KB, parsed from PO or MO or built with Set operations in a random order: " + rule + "; non-trivial: 50+ entries",
		Check: func(ctx *core.Ctx, c largeCase) error {
			l, d, m, headers, err := c.build()
			if err != nil {
				return err
			}
			ctx.NonTrivial(len(m.m) >= 50)
			ctx.Label("way %s", c.Way)
			return check(ctx, &c, l, d, m, headers)
		},
	})
}

// loadedLarge compares the object with the model, and the header fields.
func loadedLarge(ctx *core.Ctx, c *largeCase, l mutable, d *gotext.Domain, m *model, headers map[string][]string) error {
	if len(d.Headers)+len(headers) > 0 && !reflect.DeepEqual(map[string][]string(d.Headers), headers) {
		return fmt.Errorf("headers %q, want %q", d.Headers, headers)
	}
	return checkModel(l, d, m)
}

func TestC01_Systematic(t *testing.T) {
	largeTest(t, "C01", "lookups, listings and headers", loadedLarge)
}

func TestC02_Systematic(t *testing.T) {
	largeTest(t, "C02", "lookups, listings and headers", loadedLarge)
}

func TestC10_Large(t *testing.T) {
	largeTest(t, "C10", "lookups, listings and headers, before and after every fifth message is set again", func(ctx *core.Ctx, c *largeCase, l mutable, d *gotext.Domain, m *model, headers map[string][]string) error {
		if err := loadedLarge(ctx, c, l, d, m, headers); err != nil {
			return err
		}
		full := c.full()
		for i := range full.Entries {
			e := &full.Entries[i]
			if (int64(i)+c.Seed)%5 != 0 {
				continue
			}
			o := op{K: "Set", ID: e.ID, Ctx: e.Ctx, Str: fmt.Sprintf("new text %d", i)}
			if e.Ctx != "" {
				o.K = "SetC"
			}
			if err := o.run(l); err != nil {
				return err
			}
			m.apply(o)
		}
		if err := checkModel(l, d, m); err != nil {
			return fmt.Errorf("after setting some again: %w", err)
		}
		if c.Seed%2 == 0 {
			o := op{K: "DropStale"}
			if err := o.run(l); err != nil {
				return err
			}
			m.apply(o)
			if err := checkModel(l, d, m); err != nil {
				return fmt.Errorf("after dropping the stale ones: %w", err)
			}
		}
		return nil
	})
}

func TestC11_Large(t *testing.T) {
	largeTest(t, "C11", "the export, read by an independent PO reader and by a new Po", func(ctx *core.Ctx, c *largeCase, l mutable, d *gotext.Domain, m *model, headers map[string][]string) error {
		text, err := l.MarshalText()
		if err != nil {
			return fmt.Errorf("MarshalText: %w", err)
		}
		if err := checkExport(text, nil, headers, m); err != nil {
			return err
		}
		back := gotext.NewPo()
		back.Parse(text)
		return checkModel(back, back.GetDomain(), m)
	})
}

func TestC12_Large(t *testing.T) {
	largeTest(t, "C12", "exported twice, exported after parsing the export, and (built by Set) built in another order, the bytes are the same, and in order", func(ctx *core.Ctx, c *largeCase, l mutable, d *gotext.Domain, m *model, headers map[string][]string) error {
		text, err := l.MarshalText()
		if err != nil {
			return fmt.Errorf("MarshalText: %w", err)
		}
		if err := checkOrder(text); err != nil {
			return err
		}
		again, err := d.MarshalText()
		if err != nil || !bytes.Equal(text, again) {
			return fmt.Errorf("exported twice (%v): the texts differ", err)
		}
		back := gotext.NewPo()
		back.Parse(text)
		again, err = back.MarshalText()
		if err != nil || !bytes.Equal(text, again) {
			return fmt.Errorf("exported, parsed and exported (%v): the texts differ", err)
		}
		if c.Way == "set" {
			c2 := *c
			c2.Seed++
			l2, _, m2, _, err := c2.build()
			if err != nil {
				return err
			}
			if !reflect.DeepEqual(m.m, m2.m) {
				return nil // an id occurs twice
			}
			again, err = l2.MarshalText()
			if err != nil || !bytes.Equal(text, again) {
				return fmt.Errorf("built in another order (%v): the texts differ", err)
			}
		}
		return nil
	})
}

func TestC13_Large(t *testing.T) {
	largeTest(t, "C13", "encoded and restored into another object", func(ctx *core.Ctx, c *largeCase, l mutable, d *gotext.Domain, m *model, headers map[string][]string) error {
		b, err := l.MarshalBinary()
		if err != nil {
			return fmt.Errorf("MarshalBinary: %w", err)
		}
		r := newBinObject([]string{"po", "mo", "domain"}[c.N%3])
		if err := r.UnmarshalBinary(b); err != nil {
			return fmt.Errorf("UnmarshalBinary: %w", err)
		}
		hd, _, _, rd := publicFields(r)
		if len(hd)+len(headers) > 0 && !reflect.DeepEqual(map[string][]string(hd), headers) {
			return fmt.Errorf("restored headers %q, want %q", hd, headers)
		}
		return checkModel(r, rd, m)
	})
}

func TestC42_Large(t *testing.T) {
	largeTest(t, "C42", "the encoding as a gob reader with the documented layout sees it, and what the library reads from an encoding so written", func(ctx *core.Ctx, c *largeCase, l mutable, d *gotext.Domain, m *model, headers map[string][]string) error {
		b, err := l.MarshalBinary()
		if err != nil {
			return fmt.Errorf("MarshalBinary: %w", err)
		}
		lang, pf := "", ""
		if c.Way != "set" {
			lang, pf = c.Cat.Header("Language"), c.Cat.Header("Plural-Forms")
		}
		if err := checkWire(b, m, headers, lang, pf, c.Way != "set" && c.Cat.Rule != nil); err != nil {
			return err
		}
		full := c.full()
		r := newBinObject([]string{"po", "mo", "domain"}[c.N%3])
		if err := r.UnmarshalBinary(wireOf(full).encode([]string{"", "more"}[c.N%2])); err != nil {
			return fmt.Errorf("UnmarshalBinary: %w", err)
		}
		_, _, _, rd := publicFields(r)
		return checkModel(r, rd, newModel(full))
	})
}

// hugeCase is a document of more than 2^16 messages.
type hugeCase struct {
	N      int          `json:"n"`
	Layout cat.MoLayout `json:"layout"`
}

func (c *hugeCase) cat() *cat.Cat {
	full := &cat.Cat{Headers: []cat.KV{{K: "Language", V: "xx"}}}
	for i := 0; i < c.N; i++ {
		full.Entries = append(full.Entries, cat.Entry{ID: fmt.Sprintf("id %d", i), Forms: []cat.Form{{I: 0, S: fmt.Sprintf("text %d", i)}}})
	}
	return full
}

func genHuge(t *rapid.T) hugeCase {
	c := hugeCase{N: rapid.SampledFrom([]int{65534, 65535, 65536, 65537, 70000, 131073}).Draw(t, "n"), Layout: cat.GenMoLayout(t)}
	c.Layout.Tails, c.Layout.Share = false, false
	return c
}

func checkHuge(l cat.Looker, d *gotext.Domain, n int) error {
	for i := 0; i < n; i++ {
		if got, want := l.Get(fmt.Sprintf("id %d", i)), fmt.Sprintf("text %d", i); got != want {
			return fmt.Errorf("message %d of %d gives %q", i, n, got)
		}
	}
	all := d.GetTranslations()
	delete(all, "")
	if len(all) != n {
		return fmt.Errorf("%d messages are listed of %d", len(all), n)
	}
	return nil
}

func TestC01_Huge(t *testing.T) {
	core.Run(t, core.Prop[hugeCase]{
		ID: "C01", Checks: 4, ThoroughFactor: 10,
		Rule: "a PO document of more than 65000 messages; always non-trivial",
		Gen:  genHuge,
		Check: func(ctx *core.Ctx, c hugeCase) error {
			ctx.NonTrivial(true)
			po := gotext.NewPo()
			po.Parse([]byte(cat.WritePlain(c.cat())))
			return checkHuge(po, po.GetDomain(), c.N)
		},
	})
}

func TestC02_Huge(t *testing.T) {
	core.Run(t, core.Prop[hugeCase]{
		ID: "C02", Checks: 4, ThoroughFactor: 10,
		Rule: "an MO file of more than 65000 messages; always non-trivial",
		Gen:  genHuge,
		Check: func(ctx *core.Ctx, c hugeCase) error {
			ctx.NonTrivial(true)
			mo := gotext.NewMo()
			mo.Parse(cat.WriteMO(c.cat(), c.Layout))
			return checkHuge(mo, mo.GetDomain(), c.N)
		},
	})
}

// sizeCase is a file of a certain size with an entry at its begin and one at its end.
type sizeCase struct {
	Size int    `json:"size"`
	Kind string `json:"kind"`
	Loc  bool   `json:"locale"` // through a Locale
}

func TestC26_Sizes(t *testing.T) {
	core.Run(t, core.Prop[sizeCase]{
		ID: "C26", Checks: 40, ThoroughFactor: 10,
		Rule: "PO and MO files of sizes around powers of two up to 4 MB, loaded from the operating system and from an fs.FS, by Po, Mo and Locale: the entries at the begin and the end are there; non-trivial: over 4 KB",
		Gen: func(t *rapid.T) sizeCase {
			b := 1 << rapid.IntRange(8, 22).Draw(t, "bits")
			return sizeCase{b + rapid.SampledFrom([]int{-1, 0, 1, 7}).Draw(t, "off"), rapid.SampledFrom([]string{"po", "mo"}).Draw(t, "kind"), rapid.Bool().Draw(t, "locale")}
		},
		Check: func(ctx *core.Ctx, c sizeCase) error {
			ctx.NonTrivial(c.Size > 4096)
			ctx.Label("%s", c.Kind)
			full := &cat.Cat{Headers: []cat.KV{{K: "Language", V: "xx"}}, Entries: []cat.Entry{
				{ID: "Aa", Forms: []cat.Form{{I: 0, S: "the first"}}}, {ID: "zz", Plural: "zzs", Ctx: "zz", Forms: []cat.Form{{I: 0, S: "the last"}, {I: 1, S: "the lasts"}}}}}
			var data []byte
			if c.Kind == "mo" {
				l := cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}}
				data = cat.WriteMO(full, l)
				l.Pad[4] = max(c.Size-len(data), 0)
				l.Order = []int{0, 1, 2, 4, 3}
				data = cat.WriteMO(full, l)
			} else {
				doc := cat.WritePlain(full)
				at := strings.Index(doc, "msgctxt")
				pad := strings.Repeat("# a comment that only takes room\n", 1+c.Size/33)
				data = []byte(doc[:at] + pad[:max(c.Size-len(doc)-1, 0)] + "\n" + doc[at:])
			}
			ctx.LabelIf(len(data) >= 1<<20, "1 MB or more")
			dir, clean := scratch()
			defer clean()
			name := "xx/d." + c.Kind
			put(dir, name, data)
			for _, fsys := range []fs.FS{nil, os.DirFS(dir), fstest.MapFS{name: &fstest.MapFile{Data: data}}} {
				var l cat.Looker
				switch {
				case c.Loc && fsys == nil:
					x := gotext.NewLocale(dir, "xx")
					x.AddDomain("d")
					l = cat.LocaleLooker{L: x, D: "d"}
				case c.Loc:
					x := gotext.NewLocaleFS("xx", fsys)
					x.AddDomain("d")
					l = cat.LocaleLooker{L: x, D: "d"}
				case c.Kind == "po" && fsys == nil:
					x := gotext.NewPo()
					x.ParseFile(dir + "/" + name)
					l = x
				case c.Kind == "po":
					x := gotext.NewPoFS(fsys)
					x.ParseFile(name)
					l = x
				case fsys == nil:
					x := gotext.NewMo()
					x.ParseFile(dir + "/" + name)
					l = x
				default:
					x := gotext.NewMoFS(fsys)
					x.ParseFile(name)
					l = x
				}
				if got := l.Get("Aa"); got != "the first" {
					return fmt.Errorf("a file of %d bytes (%T, %v): the first message gives %q", len(data), fsys, c.Loc, got)
				}
				if got := l.GetNC("zz", "zzs", 3, "zz"); got != "the lasts" {
					return fmt.Errorf("a file of %d bytes (%T, %v): the last message gives %q", len(data), fsys, c.Loc, got)
				}
			}
			return nil
		},
	})
}
