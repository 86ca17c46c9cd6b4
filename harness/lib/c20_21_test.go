package lib

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

type bytesCase struct {
	Data []byte `json:"data"`
	// Before: a document loaded first ("" none).
	Before string `json:"before,omitempty"`
	What   string `json:"what"`
}

var poTokens = []string{
	"msgid", "msgid ", "msgid \"a\"", "msgid \"\"", "msgstr", "msgstr ", "msgstr \"x\"", "msgstr[0] \"x\"", "msgstr[1]", "msgstr[", "msgstr[]", "msgstr[-1] \"n\"", "msgstr[x] \"y\"",
	"msgstr[99999999999999999999] \"z\"", "msgstr[1000000] \"m\"", "msgstr]0[ \"q\"", "msgctxt", "msgctxt \"c\"", "msgid_plural", "msgid_plural \"p\"", "msgid_pluralx", "msgstrx", "msgidx \"i\"",
	"\"", "\"\"", "\"cont\"", "\"\\\"", "\"\\x\"", "\"\\400\"", "\"a\"b\"", "'", "`", "#", "#:", "#: a.go:1", "#: ", "#~ msgid \"o\"", "#~", "#|", "#,", "#.", "\n", "\n", "\n", "\n", "\r\n", "\r", " ", "\t", "\x00", "\x04",
	"\xff", "\xc3", "é", "\ufeff", "Plural-Forms: nplurals=2; plural=n!=1;\\n", "\"Plural-Forms: nplurals=2; plural=(n;\\n\"", "\"Plural-Forms: nplurals=x; plural=;\\n\"", "\"Plural-Forms: ;=;=\\n\"", "\"Plural-Forms: plural=n%0\\n\"",
	"\"Language: \\n\"", "\"language: de\\n\"", "\": v\\n\"", "\"no colon\\n\"", "\"Language\"", "msgid\"a\"", "msgstr\"x\"", "msgstr[0]\"x\"", "msgid \"\\", "[0]", "]",
}

// mutate damages bytes; ins supplies insertions.
func mutate(t *rapid.T, b []byte, ins []string, avoid func(byte) bool) []byte {
	b = append([]byte(nil), b...)
	pick := func(label string) int { return rapid.IntRange(0, len(b)).Draw(t, label) }
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "nmut"); i < n; i++ {
		p := pick("at")
		switch rapid.IntRange(0, 6).Draw(t, "mut") {
		case 0: // truncate
			b = b[:p]
		case 1: // drop a range
			q := min(p+rapid.IntRange(1, 20).Draw(t, "len"), len(b))
			b = append(b[:p:p], b[q:]...)
		case 2, 3: // change a byte
			if p < len(b) {
				v := byte(rapid.IntRange(0, 255).Draw(t, "byte"))
				if rapid.Bool().Draw(t, "flip") {
					v = b[p] ^ 1<<rapid.IntRange(0, 7).Draw(t, "bit")
				}
				if avoid == nil || !avoid(v) {
					b[p] = v
				}
			}
		case 4: // insert
			s := ""
			if len(ins) > 0 {
				s = rapid.SampledFrom(ins).Draw(t, "ins")
			}
			b = append(b[:p:p], append([]byte(s), b[p:]...)...)
		case 5: // duplicate a range
			q := min(p+rapid.IntRange(1, 30).Draw(t, "len"), len(b))
			b = append(b[:q:q], append(append([]byte(nil), b[p:q]...), b[q:]...)...)
		default: // move a range
			q := min(p+rapid.IntRange(1, 30).Draw(t, "len"), len(b))
			x := append([]byte(nil), b[p:q]...)
			b = append(b[:p:p], b[q:]...)
			o := pick("to")
			b = append(b[:o:o], append(x, b[o:]...)...)
		}
	}
	return b
}

func genPoBytes(t *rapid.T) bytesCase {
	var c bytesCase
	switch rapid.IntRange(0, 9).Draw(t, "kind") {
	case 0, 1, 2:
		c.What = "tokens"
		c.Data = []byte(strings.Join(rapid.SliceOfN(rapid.SampledFrom(poTokens), 0, 40).Draw(t, "toks"), rapid.SampledFrom([]string{"", "\n", "\n", " "}).Draw(t, "join")))
	case 3, 4, 5, 6, 7:
		c.What = "mutated"
		k := cat.GenCat(t, cat.Opts{MaxEntries: 4, Small: rapid.Bool().Draw(t, "small"), Head: true})
		doc, _ := cat.GenDoc(t, k, cat.Layout{Junk: true})
		c.Data = mutate(t, []byte(doc), poTokens, nil)
	case 8:
		c.What = "arbitrary"
		c.Data = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes")
	default:
		c.What = "long"
		u := rapid.SampledFrom(poTokens).Draw(t, "u") + rapid.SampledFrom([]string{"", "\n", " "}).Draw(t, "sep")
		if strings.Contains(u, "Plural-Forms") {
			u = "\"X-H: v\\n\"\n"
		}
		c.Data = []byte(rapid.SampledFrom([]string{"", "msgid \"a\"\n", "msgid \"\"\nmsgstr \"\"\n"}).Draw(t, "pre") + strings.Repeat(u, rapid.SampledFrom([]int{10, 500, 5000}).Draw(t, "reps")))
	}
	if rapid.IntRange(0, 3).Draw(t, "before") == 0 {
		c.Before = cat.WritePlain(cat.GenCat(t, cat.Opts{MaxEntries: 3, Small: true}))
	}
	return c
}

// exercise uses every operation of an object.
func exercise(l mutable, d *gotext.Domain) error {
	for id, tr := range d.GetTranslations() {
		if tr == nil {
			return fmt.Errorf("listing has a nil entry for %s", cat.Q(id))
		}
		want := tr.Trs[0]
		if want == "" {
			want = tr.ID
		}
		if got := l.Get(id); got != want {
			return fmt.Errorf("lookup of id %s: got %s, but the listing has %s", cat.Q(id), cat.Q(got), cat.Q(want))
		}
		if got := l.IsTranslated(id); got != (tr.Trs[0] != "") {
			return fmt.Errorf("IsTranslated of id %s: got %v", cat.Q(id), got)
		}
		l.GetRefs(id)
		for _, n := range []int{0, 1, 2, 5, 100} {
			got := l.GetN(id, "pl", n)
			ok := got == "pl" || got == tr.ID
			for _, s := range tr.Trs {
				ok = ok || got == s
			}
			if !ok {
				return fmt.Errorf("plural lookup of id %s n=%d: %s is neither a form of the entry nor the caller's text", cat.Q(id), n, cat.Q(got))
			}
			l.IsTranslatedN(id, n)
		}
	}
	for ctx, es := range d.GetCtxTranslations() {
		for id, tr := range es {
			if tr == nil {
				return fmt.Errorf("listing has a nil entry for %s", cat.Q(id))
			}
			want := tr.Trs[0]
			if want == "" {
				want = tr.ID
			}
			if got := l.GetC(id, ctx); got != want {
				return fmt.Errorf("lookup of id %s ctx %s: got %s, but the listing has %s", cat.Q(id), cat.Q(ctx), cat.Q(got), cat.Q(want))
			}
			l.GetNC(id, "pl", 2, ctx)
			l.IsTranslatedC(id, ctx)
			l.IsTranslatedNC(id, 2, ctx)
		}
	}
	if _, err := l.MarshalText(); err != nil {
		return fmt.Errorf("MarshalText: %w", err)
	}
	data, err := l.MarshalBinary()
	if err != nil {
		return fmt.Errorf("MarshalBinary: %w", err)
	}
	r := gotext.NewPo()
	if err := r.UnmarshalBinary(data); err != nil {
		return fmt.Errorf("UnmarshalBinary of its own encoding: %w", err)
	}
	if err := sameListings(d, r.GetDomain(), false); err != nil {
		return fmt.Errorf("after serialisation: %w", err)
	}
	// edits
	l.SetPluralResolver(nil)
	for _, e := range []struct{ id, ctx string }{{"fresh id", "fresh ctx"}, {"a", "c"}} {
		l.Set(e.id, "set")
		l.SetC(e.id, e.ctx, "set in context")
		if got := l.Get(e.id); got != "set" {
			return fmt.Errorf("after Set: got %s", cat.Q(got))
		}
		if got := l.GetC(e.id, e.ctx); got != "set in context" {
			return fmt.Errorf("after SetC: got %s", cat.Q(got))
		}
		l.SetN(e.id, "plural", 3, "set plural")
		l.SetNC(e.id, "plural", e.ctx, 3, "set plural in context")
		if got := l.GetN(e.id, "plural", 3); got != "set plural" {
			return fmt.Errorf("after SetN: got %s", cat.Q(got))
		}
		if got := l.GetNC(e.id, "plural", 3, e.ctx); got != "set plural in context" {
			return fmt.Errorf("after SetNC: got %s", cat.Q(got))
		}
		l.SetRefs(e.id, []string{"x.go:1"})
		if got := l.GetRefs(e.id); len(got) != 1 || got[0] != "x.go:1" {
			return fmt.Errorf("after SetRefs: got %q", got)
		}
	}
	text, err := l.MarshalText()
	if err != nil {
		return fmt.Errorf("MarshalText after edits: %w", err)
	}
	if _, err := l.MarshalBinary(); err != nil {
		return fmt.Errorf("MarshalBinary after edits: %w", err)
	}
	again := gotext.NewPo()
	again.Parse(text)
	if got := again.GetC("fresh id", "fresh ctx"); len(d.GetTranslations()) < 50 && got == "" {
		return fmt.Errorf("the exported text gives an empty lookup")
	}
	l.DropStaleTranslations()
	l.Get("fresh id")
	return nil
}

func TestC20_Bytes(t *testing.T) {
	core.Run(t, core.Prop[bytesCase]{
		ID: "C20", Checks: 20000,
		Rule: "any bytes as PO: token soups, mutated documents, arbitrary bytes, long repetitions, sometimes into a loaded object; parsed twice with equal results, then every lookup, edit, export and serialisation; non-trivial: the bytes contain a PO keyword",
		Gen:  genPoBytes,
		Check: func(ctx *core.Ctx, c bytesCase) error {
			ctx.Label("%s", c.What)
			ctx.NonTrivial(bytes.Contains(c.Data, []byte("msg")))
			load := func() *gotext.Po {
				po := gotext.NewPo()
				if c.Before != "" {
					po.Parse([]byte(c.Before))
				}
				po.Parse(append([]byte(nil), c.Data...))
				return po
			}
			a, b := load(), load()
			if err := sameListings(a.GetDomain(), b.GetDomain(), false); err != nil {
				return fmt.Errorf("parsing the same bytes twice: %w", err)
			}
			if err := sameMeta(a.GetDomain(), b.GetDomain()); err != nil {
				return fmt.Errorf("parsing the same bytes twice: %w", err)
			}
			ctx.LabelIf(len(a.GetDomain().GetTranslations()) > 1, "something loaded")
			return exercise(a, a.GetDomain())
		},
	})
}

type junkCase struct {
	Cat  *cat.Cat `json:"cat"`
	Doc  string   `json:"doc"`
	Junk int      `json:"junk"`
}

func TestC20_Junk(t *testing.T) {
	core.Run(t, core.Prop[junkCase]{
		ID: "C20", Checks: 7000,
		Rule: "a generated document in a generated layout with lines that are not PO syntax (fixed and arbitrary text) before, between and after its entries and lines without colon in its header must load exactly the catalogue; non-trivial: junk lines and entries are present",
		Gen: func(t *rapid.T) junkCase {
			c := cat.GenCat(t, cat.Opts{Sparse: true, MaxEntries: 6})
			if len(c.AllHeaders()) == 0 {
				for i := range c.Entries {
					c.Entries[i].Refs = nil
				}
			}
			doc, n := cat.GenDoc(t, c, cat.Layout{Junk: true, NoObsolete: true, HeaderJunk: true})
			return junkCase{c, doc, n}
		},
		Check: func(ctx *core.Ctx, c junkCase) error {
			ctx.NonTrivial(c.Junk > 0 && len(c.Cat.Entries) > 0)
			po := gotext.NewPo()
			po.Parse([]byte(c.Doc))
			if err := cat.CheckAll(c.Cat, po, smallCounts); err != nil {
				return err
			}
			if err := checkHeaders(c.Cat, po.Headers); err != nil {
				return err
			}
			m := newModel(c.Cat)
			if len(c.Cat.AllHeaders()) == 0 {
				return nil
			}
			return checkEntries(po.GetDomain(), m)
		},
	})
}

type afterCase struct {
	First []byte   `json:"first"`
	Cat   *cat.Cat `json:"cat"`
	Doc   string   `json:"doc"`
}

// A damaged document leaves nothing behind that changes how the next one is read.
func TestC20_After(t *testing.T) {
	core.Run(t, core.Prop[afterCase]{
		ID: "C20", Checks: 4000,
		Rule: "bytes that are no complete document (as in TestC20_Bytes, or broken off inside an entry) parsed into an object, then a generated document: its entries and references must be as in an object of its own; non-trivial: the first bytes contain a PO keyword",
		Gen: func(t *rapid.T) afterCase {
			var a afterCase
			if rapid.Bool().Draw(t, "tail") {
				a.First = []byte(strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{
					"msgid \"\"\nmsgstr \"\"", "msgctxt \"left\"", "msgid \"left\"", "msgid_plural \"left\"", "msgstr \"left\"", "msgstr[3] \"left\"", "#: left.go:1", "\"left\"", "# left", "",
				}), 1, 6).Draw(t, "lines"), "\n"))
			} else {
				a.First = genPoBytes(t).Data
			}
			a.Cat = cat.GenCat(t, cat.Opts{Sparse: true, MaxEntries: 4})
			if a.Cat.Rule == nil {
				r := cat.GenRule(t, "rule2")
				a.Cat.Rule = &r
				var hs []cat.KV
				for _, h := range a.Cat.Headers {
					if !strings.EqualFold(h.K, "Plural-Forms") {
						hs = append(hs, h)
					}
				}
				a.Cat.Headers = hs
			}
			a.Doc, _ = cat.GenDoc(t, a.Cat, cat.Layout{NoObsolete: true})
			return a
		},
		Check: func(ctx *core.Ctx, c afterCase) error {
			ctx.NonTrivial(bytes.Contains(c.First, []byte("msg")))
			po := gotext.NewPo()
			po.Parse(c.First)
			po.Parse([]byte(c.Doc))
			d := po.GetDomain()
			for i := range c.Cat.Entries {
				e := &c.Cat.Entries[i]
				if err := cat.CheckProbe(c.Cat, po, cat.Probe{Ctx: e.Ctx, ID: e.ID, Plural: cat.PluralOf(e)}, smallCounts); err != nil {
					return err
				}
				tr := d.GetTranslations()[e.ID]
				if e.Ctx != "" {
					tr = d.GetCtxTranslations()[e.Ctx][e.ID]
				}
				if tr == nil {
					return fmt.Errorf("id %s ctx %s is not listed", cat.Q(e.ID), cat.Q(e.Ctx))
				}
				if !sameRefs(tr.Refs, e.Refs) {
					return fmt.Errorf("id %s ctx %s: references %q, want %q", cat.Q(e.ID), cat.Q(e.Ctx), tr.Refs, e.Refs)
				}
			}
			return nil
		},
	})
}

func genMoBytes(t *rapid.T) bytesCase {
	var c bytesCase
	k := cat.GenCat(t, cat.Opts{MaxEntries: 5, Small: rapid.Bool().Draw(t, "small"), NoRefs: true})
	lay := cat.GenMoLayout(t)
	b := cat.WriteMO(k, lay)
	var bo binary.ByteOrder = binary.LittleEndian
	if lay.BigEndian {
		bo = binary.BigEndian
	}
	size := uint32(len(b))
	u32 := func(label string, near uint32) uint32 {
		v := rapid.SampledFrom([]uint32{0, 1, 2, 3, 4, 7, 8, 27, 28, 29, size - 1, size, size + 1, size / 2, size / 8, size / 16, near + 1, near - 1, near * 2, 0xff, 0xffff, 0x10000, 1 << 20, 1 << 24, 1<<28 - 1, 1 << 28, 1 << 29, 1<<31 - 1, 1 << 31, 1<<31 + 8, 1<<32 - 1, 1<<32 - 8, -size, 0x950412de, 0xde120495}).Draw(t, label)
		if rapid.IntRange(0, 5).Draw(t, label+".any") == 0 {
			v = rapid.Uint32().Draw(t, label+".v")
		}
		return v
	}
	switch rapid.IntRange(0, 9).Draw(t, "kind") {
	case 0, 1, 2:
		c.What = "header field"
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "nf"); i < n; i++ {
			f := rapid.IntRange(0, 6).Draw(t, "field")
			bo.PutUint32(b[4*f:], u32("val", bo.Uint32(b[4*f:])))
		}
	case 3, 4, 5:
		c.What = "table field"
		n := int(bo.Uint32(b[8:]))
		for i, m := 0, rapid.IntRange(1, 3).Draw(t, "nf"); i < m && n > 0; i++ {
			tab := int(bo.Uint32(b[rapid.SampledFrom([]int{12, 16}).Draw(t, "tab"):]))
			off := tab + 4*rapid.IntRange(0, 2*n-1).Draw(t, "cell")
			if off+4 <= len(b) {
				bo.PutUint32(b[off:], u32("val", bo.Uint32(b[off:])))
			}
		}
	case 6:
		c.What = "truncated"
		b = b[:rapid.IntRange(0, len(b)).Draw(t, "cut")]
	case 7:
		c.What = "mutated"
		b = mutate(t, b, []string{"\x00", "\x04", "\xff\xff\xff\xff", "\x00\x00\x00\x80", "x"}, nil)
	case 8:
		c.What = "arbitrary after a magic number"
		b = make([]byte, 4)
		bo.PutUint32(b, 0x950412de)
		for i, n := 0, rapid.IntRange(0, 16).Draw(t, "words"); i < n; i++ {
			var w [4]byte
			bo.PutUint32(w[:], u32("word", 28))
			b = append(b, w[:]...)
		}
		b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "tail")...)
	default:
		c.What = "arbitrary"
		b = rapid.SliceOfN(rapid.Byte(), 0, 120).Draw(t, "bytes")
	}
	c.Data = b
	if rapid.Bool().Draw(t, "before") {
		c.Before = "po"
	}
	return c
}

// moText bounds the text an MO file can supply: the sum of the lengths of all
// strings that lie inside the file, if the tables do.
func moText(b []byte) int {
	most := 0
	for _, bo := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
		if len(b) < 28 {
			return 0
		}
		n, sum := int64(bo.Uint32(b[8:])), int64(0)
		for _, f := range []int{12, 16} {
			tab := int64(bo.Uint32(b[f:]))
			if tab+8*n > int64(len(b)) {
				sum = 0
				break
			}
			for i := int64(0); i < n; i++ {
				ln, off := int64(bo.Uint32(b[tab+8*i:])), int64(bo.Uint32(b[tab+8*i+4:]))
				if ln+off <= int64(len(b)) {
					sum += ln
				}
			}
		}
		most = max(most, int(sum))
	}
	return most
}

func TestC21_Corrupt(t *testing.T) {
	core.Run(t, core.Prop[bytesCase]{
		ID: "C21", Checks: 16000,
		Rule: "MO files with damaged header and table fields, truncations, byte mutations and arbitrary words, into empty and loaded objects; allocation volume of Parse against the input and text size, every loaded string searched in the input, earlier entries compared, then every operation; non-trivial: the magic number is intact",
		Gen:  genMoBytes,
		Check: func(ctx *core.Ctx, c bytesCase) error {
			ctx.Label("%s", c.What)
			if len(c.Data) >= 4 {
				le, be := binary.LittleEndian.Uint32(c.Data), binary.BigEndian.Uint32(c.Data)
				ctx.NonTrivial(le == 0x950412de || be == 0x950412de)
			}
			mo := gotext.NewMo()
			before := &cat.Cat{}
			if c.Before != "" {
				before.Headers = []cat.KV{{K: "X-Before", V: "kept-before"}}
				before.Entries = []cat.Entry{
					{ID: "before id", Forms: []cat.Form{{I: 0, S: "before text"}}},
					{ID: "before pl", Plural: "before pls", Forms: []cat.Form{{I: 0, S: "before 0"}, {I: 1, S: "before 1"}}},
					{Ctx: "before ctx", ID: "before id", Forms: []cat.Form{{I: 0, S: "before in context"}}},
				}
				mo.Parse(cat.WriteMO(before, cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}}))
			}
			data := append([]byte(nil), c.Data...)
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			mo.Parse(data)
			runtime.ReadMemStats(&m1)
			bound := uint64(8<<20 + 400*len(c.Data) + 40*moText(c.Data))
			if got := m1.TotalAlloc - m0.TotalAlloc; got > bound {
				return fmt.Errorf("parsing %d bytes holding %d bytes of text allocated %d bytes (bound %d)", len(c.Data), moText(c.Data), got, bound)
			}
			if !bytes.Equal(data, c.Data) {
				return fmt.Errorf("Parse changed its input")
			}
			// nothing made up
			from := func(s, what string) error {
				if s == "" || bytes.Contains(c.Data, []byte(s)) || strings.Contains(s, "before") {
					return nil
				}
				return fmt.Errorf("%s %s does not occur in the input", what, cat.Q(s))
			}
			d := mo.GetDomain()
			loaded := 0
			one := func(id string, tr *gotext.Translation) error {
				if tr == nil {
					return fmt.Errorf("listing has a nil entry")
				}
				loaded++
				for _, s := range append([]string{id, tr.ID}, strings.Split(tr.PluralID, "\x00")...) {
					if err := from(s, "id"); err != nil {
						return err
					}
				}
				for _, s := range tr.Trs {
					if c.Before != "" && id == "" {
						continue // the header entry loaded before
					}
					if err := from(s, "text"); err != nil {
						return err
					}
				}
				return nil
			}
			for id, tr := range d.GetTranslations() {
				if err := one(id, tr); err != nil {
					return err
				}
			}
			for x, es := range d.GetCtxTranslations() {
				if err := from(x, "context"); err != nil {
					return err
				}
				for id, tr := range es {
					if err := one(id, tr); err != nil {
						return err
					}
				}
			}
			for k, vs := range mo.Headers {
				if c.Before != "" && k == "X-Before" {
					continue
				}
				for _, s := range append([]string{k}, vs...) {
					if err := from(s, "header"); err != nil {
						return err
					}
				}
			}
			ctx.LabelIf(loaded > len(before.Entries)+1, "something loaded")
			// earlier entries are kept
			for i := range before.Entries {
				e := &before.Entries[i]
				if bytes.Contains(c.Data, []byte(e.ID)) {
					continue
				}
				tr := d.GetTranslations()[e.ID]
				if e.Ctx != "" {
					tr = d.GetCtxTranslations()[e.Ctx][e.ID]
				}
				if tr == nil {
					return fmt.Errorf("entry %q (context %q) held before is gone", e.ID, e.Ctx)
				}
				if err := checkTranslation(mkey{e.Ctx, e.ID}, tr, newModel(before).entry(e.Ctx, e.ID)); err != nil {
					return fmt.Errorf("entry held before: %w", err)
				}
				got := ""
				if e.Ctx == "" {
					got = mo.Get(e.ID)
				} else {
					got = mo.GetC(e.ID, e.Ctx)
				}
				if got != e.Str(0) {
					return fmt.Errorf("entry %q (context %q) held before gives %q", e.ID, e.Ctx, got)
				}
			}
			return exercise(gotextDomain{d, mo}, d)
		},
	})
}

// gotextDomain edits through the domain and looks up through the Mo.
type gotextDomain struct {
	*gotext.Domain
	mo *gotext.Mo
}

func (g gotextDomain) Get(s string, v ...interface{}) string { return g.mo.Get(s, v...) }
func (g gotextDomain) GetN(s, p string, n int, v ...interface{}) string {
	return g.mo.GetN(s, p, n, v...)
}
func (g gotextDomain) GetC(s, c string, v ...interface{}) string { return g.mo.GetC(s, c, v...) }
func (g gotextDomain) GetNC(s, p string, n int, c string, v ...interface{}) string {
	return g.mo.GetNC(s, p, n, c, v...)
}
func (g gotextDomain) MarshalBinary() ([]byte, error) { return g.mo.MarshalBinary() }

// ---------- C21: formats that are not MO files of a known revision ----------

type moForeign struct {
	Cat    cat.Cat      `json:"cat"`
	Layout cat.MoLayout `json:"layout"`
	Magic  uint32       `json:"magic"` // 0: the right one
	Before bool         `json:"before"`
	How    string       `json:"how"`
}

func TestC21_Foreign(t *testing.T) {
	core.Run(t, core.Prop[moForeign]{
		ID: "C21", Checks: 1500,
		Rule: "complete MO files of another major revision or with another magic number, parsed or loaded from a file, into empty and loaded objects; the object must stay exactly as it was; non-trivial: the file holds an entry",
		Gen: func(t *rapid.T) moForeign {
			c := moForeign{Cat: *cat.GenCat(t, cat.Opts{}), Layout: cat.GenMoLayout(t), Before: rapid.Bool().Draw(t, "before"), How: rapid.SampledFrom([]string{"Parse", "ParseFile"}).Draw(t, "how")}
			if rapid.IntRange(0, 2).Draw(t, "what") == 0 {
				c.Magic = rapid.SampledFrom([]uint32{0x950412df, 0x950412dd, 0x12de9504, 0x950512de, 0x0412de95, 0xde1204, 0x950412, 0xffffffff, 1, 0x3bed6bb7}).Draw(t, "magic")
			} else {
				c.Layout.Rev = rapid.SampledFrom([]uint32{2, 3, 5, 0x7fff, 0xfffe, 0xffff}).Draw(t, "major")<<16 | rapid.Uint32Range(0, 1).Draw(t, "minor")
				if rapid.IntRange(0, 3).Draw(t, "rand") == 0 {
					c.Layout.Rev = rapid.Uint32Range(2, 0xffff).Draw(t, "major")<<16 | rapid.Uint32Range(0, 1).Draw(t, "minor")
				}
			}
			return c
		},
		Check: func(ctx *core.Ctx, c moForeign) error {
			ctx.LabelIf(c.Magic != 0, "another magic number")
			ctx.LabelIf(c.Magic == 0, "another major revision")
			ctx.Label("%s", c.How)
			good := c.Layout
			good.Rev = 0
			mo := gotext.NewMo()
			if c.Before {
				mo.Parse(cat.WriteMO(&cat.Cat{Headers: []cat.KV{{K: "X-Before", V: "kept"}, {K: "Language", V: "xx"}, {K: "Plural-Forms", V: "nplurals=2; plural=n>5;"}},
					Entries: []cat.Entry{{ID: "before id", Forms: []cat.Form{{I: 0, S: "before text"}}}, {Ctx: "q", ID: "before pl", Plural: "before pls", Forms: []cat.Form{{I: 0, S: "b0"}, {I: 1, S: "b1"}}}}},
					cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}}))
			}
			was, err := mo.MarshalBinary()
			if err != nil {
				return err
			}
			data := cat.WriteMO(&c.Cat, c.Layout)
			if c.Magic != 0 {
				if c.Layout.BigEndian {
					binary.BigEndian.PutUint32(data, c.Magic)
				} else {
					binary.LittleEndian.PutUint32(data, c.Magic)
				}
			}
			if c.How == "Parse" {
				mo.Parse(data)
			} else {
				f := filepath.Join(t.TempDir(), "x.mo")
				if err := os.WriteFile(f, data, 0o644); err != nil {
					return nil
				}
				mo.ParseFile(f)
				os.Remove(f)
			}
			// what the file would have supplied, had it been read
			ref := gotext.NewMo()
			ref.Parse(cat.WriteMO(&c.Cat, good))
			ctx.NonTrivial(len(ref.GetDomain().GetTranslations()) > 0 || len(ref.GetDomain().GetCtxTranslations()) > 0)
			now, err := mo.MarshalBinary()
			if err != nil {
				return err
			}
			a, b := gotext.NewMo(), gotext.NewMo()
			if err := a.UnmarshalBinary(was); err != nil {
				return err
			}
			if err := b.UnmarshalBinary(now); err != nil {
				return err
			}
			for _, d := range []struct {
				what string
				x, y any
			}{
				{"entries", a.GetDomain().GetTranslations(), b.GetDomain().GetTranslations()},
				{"entries with a context", a.GetDomain().GetCtxTranslations(), b.GetDomain().GetCtxTranslations()},
				{"headers", a.Headers, b.Headers},
				{"language", a.Language, b.Language},
				{"plural rule", a.PluralForms, b.PluralForms},
			} {
				x, _ := json.Marshal(d.x)
				y, _ := json.Marshal(d.y)
				if !bytes.Equal(x, y) {
					return fmt.Errorf("%s of a file of another format (magic %#x, revision %#x) was read: the %s were %s and are %s", c.How, c.Magic, c.Layout.Rev, d.what, x, y)
				}
			}
			if c.Before {
				if got := mo.Get("before id"); got != "before text" {
					return fmt.Errorf("an entry held before gives %q", got)
				}
				if got := mo.GetNC("before pl", "before pls", 7, "q"); got != "b1" {
					return fmt.Errorf("an entry held before gives %q for 7", got)
				}
			}
			return nil
		},
	})
}
