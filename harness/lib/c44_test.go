package lib

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"testing"
	"testing/fstest"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// locStep is one step in the life of a few Locales.
type locStep struct {
	K string `json:"k"`
	// L is the Locale, To another one.
	L  int `json:"l,omitempty"`
	To int `json:"to,omitempty"`
	// Dom is the domain.
	Dom string `json:"dom,omitempty"`
	// File is what Write writes and Remove removes.
	File *pkgFile `json:"file,omitempty"`
	// T is the in-memory catalogue.
	T int `json:"t,omitempty"`
	// Ops are the edits.
	Ops []op `json:"ops,omitempty"`
}

type locHistory struct {
	FS    string    `json:"fs"` // "", fs, fspath
	Langs []string  `json:"langs"`
	Pool  []poolCat `json:"pool"`
	Steps []locStep `json:"steps"`
	Count int       `json:"count"`
}

// poolCat is a catalogue in memory, for use in several places.
type poolCat struct {
	Mo  bool     `json:"mo,omitempty"`
	Cat *cat.Cat `json:"cat"`
}

var histDoms = []string{"default", "d", "a.b"}

func genLocHistory(t *rapid.T) locHistory {
	c := locHistory{FS: rapid.SampledFrom([]string{"", "", "fs", "fspath"}).Draw(t, "fs")}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "locales"); i < n; i++ {
		c.Langs = append(c.Langs, rapid.SampledFrom([]string{"de_DE", "de", "de_AT", "fr"}).Draw(t, "lang"))
	}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "pool"); i < n; i++ {
		c.Pool = append(c.Pool, poolCat{rapid.Bool().Draw(t, "mo"), genPkgCat(t, fmt.Sprintf("T%d", i))})
	}
	some := genPkgCat(t, "ids")
	file := func(i int) *pkgFile {
		return &pkgFile{
			Dir:  rapid.SampledFrom([]string{"de_DE", "de", "de", "de_AT", "fr"}).Draw(t, "dir"),
			Flat: rapid.IntRange(0, 3).Draw(t, "flat") == 0,
			Dom:  rapid.SampledFrom(histDoms).Draw(t, "dom"),
			Kind: rapid.SampledFrom([]string{"po", "po", "mo"}).Draw(t, "kind"),
			Cat:  genPkgCat(t, fmt.Sprintf("F%d", i)),
		}
	}
	n := rapid.IntRange(6, 30).Draw(t, "steps")
	for i := 0; i < n; i++ {
		s := locStep{
			K:   rapid.SampledFrom([]string{"Write", "Write", "Write", "Remove", "AddDomain", "AddDomain", "AddDomain", "AddDomain", "AddTranslator", "AddTranslator", "SetDomain", "Edit", "EditPool", "Move", "Delete"}).Draw(t, "k"),
			L:   rapid.IntRange(0, len(c.Langs)-1).Draw(t, "l"),
			Dom: rapid.SampledFrom(histDoms).Draw(t, "dom"),
		}
		if i < 3 {
			s.K = "Write"
		}
		switch s.K {
		case "Write":
			s.File = file(i)
			if s.File.Kind == "mo" {
				s.File.Mo = cat.GenMoLayout(t)
				s.File.Mo.Empty = true
			}
		case "Remove":
			s.File = file(i)
			s.File.Cat = nil
		case "SetDomain":
			s.Dom = rapid.SampledFrom(append([]string{"nowhere"}, histDoms...)).Draw(t, "default")
		case "AddTranslator", "EditPool":
			s.T = rapid.IntRange(0, len(c.Pool)-1).Draw(t, "t")
		case "Move":
			s.To = rapid.IntRange(0, len(c.Langs)-1).Draw(t, "to")
		}
		if s.K == "Edit" || s.K == "EditPool" {
			s.Ops = genOps(t, some, histOpts{small: true, noDrop: true, noReadOps: true, maxOps: 4, pluralSafe: true})
		}
		c.Steps = append(c.Steps, s)
		if s.K == "AddDomain" && rapid.IntRange(0, 3).Draw(t, "touch") == 0 {
			// the file changes, but not its size, and is loaded again
			var last *pkgFile
			for _, o := range c.Steps {
				if o.K == "Write" && o.File.Dom == s.Dom {
					last = o.File
				}
			}
			if last != nil {
				f := *last
				f.Cat = f.Cat.SameSize()
				c.Steps = append(c.Steps, locStep{K: "Write", File: &f, L: s.L}, s)
			}
		}
	}
	c.Count = cat.Count(t, "count")
	return c
}

// histLocale is a Locale and what it holds by its history.
type histLocale struct {
	l    *gotext.Locale
	lang string
	def  string
	doms map[string]*model
}

// set notes what a domain holds now; the first domain becomes the default one.
func (h *histLocale) set(dom string, m *model) {
	if h.def == "" {
		h.def = dom
	}
	h.doms[dom] = m
}

// locWorld runs a history.
type locWorld struct {
	dir   string
	m     fstest.MapFS
	below string
	files map[string]*cat.Cat
	ls    []*histLocale
	probs []cat.Probe
	count int
}

func (w *locWorld) write(f *pkgFile) {
	data := []byte(cat.WritePlain(f.Cat))
	if f.Kind == "mo" {
		data = cat.WriteMO(f.Cat, f.Mo)
	}
	p := f.rel(f.Kind)
	w.files[p] = f.Cat
	if w.m != nil {
		w.m[path.Join(w.below, p)] = &fstest.MapFile{Data: data, Mode: 0o644}
	} else {
		put(w.dir, p, data)
	}
}

func (w *locWorld) remove(p string) {
	delete(w.files, p)
	if w.m != nil {
		delete(w.m, path.Join(w.below, p))
	} else {
		os.Remove(filepath.Join(w.dir, p))
	}
}

// check asks a Locale for everything.
func (w *locWorld) check(h *histLocale, all bool) error {
	if got := h.l.GetDomain(); got != h.def {
		return fmt.Errorf("GetDomain() = %q, want %q", got, h.def)
	}
	if got := h.l.GetLanguage(); got != h.lang {
		return fmt.Errorf("GetLanguage() = %q, want %q", got, h.lang)
	}
	counts := []int{1, w.count}
	of := func(d string) *cat.Cat {
		if m := h.doms[d]; m != nil {
			return m.cat()
		}
		return &cat.Cat{}
	}
	for _, d := range append([]string{""}, histDoms...) {
		c := of(d)
		if d == "" {
			c = of(h.def)
		}
		for i, p := range w.probs {
			if !all && i%3 != 0 {
				continue
			}
			if e := c.Find(p.Ctx, p.ID); e != nil {
				p.Plural = cat.PluralOf(e)
			}
			if err := cat.CheckProbe(c, cat.LocaleLooker{L: h.l, D: d}, p, counts); err != nil {
				return fmt.Errorf("domain %q (default %q): %w", d, h.def, err)
			}
		}
	}
	if !all {
		return nil
	}
	// the file of a domain may not be the one it was loaded from
	for _, d := range histDoms {
		want := ""
		for _, x := range candidates(h.lang, d) {
			if _, ok := w.files[x.path]; ok {
				want = x.lang
				break
			}
		}
		if got := h.l.GetActualLanguage(d); got != want {
			return fmt.Errorf("GetActualLanguage(%q) = %q, want %q", d, got, want)
		}
	}
	// every message of every domain is listed, and nothing else is
	listed := h.l.GetTranslations()
	texts := map[string]map[string]bool{}
	for _, m := range h.doms {
		for k, e := range m.m {
			if k.Ctx != "" {
				continue
			}
			if texts[k.ID] == nil {
				texts[k.ID] = map[string]bool{}
			}
			want := e.Forms[0]
			if want == "" {
				want = k.ID
			}
			texts[k.ID][want] = true
		}
	}
	for id, ok := range texts {
		tr := listed[id]
		if tr == nil {
			return fmt.Errorf("GetTranslations does not list %q", id)
		}
		if got := tr.Get(); !ok[got] {
			return fmt.Errorf("GetTranslations has %q for %q, no domain has", got, id)
		}
	}
	for id := range listed {
		if id != "" && texts[id] == nil {
			return fmt.Errorf("GetTranslations lists %q, which no domain has", id)
		}
	}
	return nil
}

func (m *model) clone() *model {
	x := &model{m.rule, map[mkey]*ment{}}
	for k, e := range m.m {
		n := *e
		n.Forms = map[int]string{}
		for i, s := range e.Forms {
			n.Forms[i] = s
		}
		x.m[k] = &n
	}
	return x
}

func checkLocHistory(ctx *core.Ctx, c locHistory) error {
	w := &locWorld{files: map[string]*cat.Cat{}, count: c.Count}
	dir, clean := scratch()
	defer clean()
	w.dir = dir
	if c.FS != "" {
		w.m = fstest.MapFS{}
	}
	for _, lang := range c.Langs {
		var l *gotext.Locale
		switch c.FS {
		case "fs":
			l = gotext.NewLocaleFS(lang, fs.FS(w.m))
		case "fspath":
			w.below = "usr/share/locale"
			l = gotext.NewLocaleFSWithPath(lang, fs.FS(w.m), w.below)
		default:
			l = gotext.NewLocale(dir, lang)
		}
		w.ls = append(w.ls, &histLocale{l, lang, "", map[string]*model{}})
	}
	// what is asked: keys of all catalogues and edits
	seen := map[mkey]bool{}
	key := func(ctx, id, pl string) {
		if id != "" && !seen[mkey{ctx, id}] && len(w.probs) < 60 {
			seen[mkey{ctx, id}] = true
			w.probs = append(w.probs, cat.Probe{Ctx: ctx, ID: id, Plural: pl})
		}
	}
	keys := func(c *cat.Cat) {
		for i := range c.Entries {
			e := &c.Entries[i]
			key(e.Ctx, e.ID, cat.PluralOf(e))
		}
	}
	type pooled struct {
		t gotext.Translator
		m *model
	}
	var pool []pooled
	for _, p := range c.Pool {
		keys(p.Cat)
		if p.Mo {
			mo := gotext.NewMo()
			mo.Parse(cat.WriteMO(p.Cat, plainMo))
			pool = append(pool, pooled{mo, newModel(p.Cat)})
		} else {
			po := gotext.NewPo()
			po.Parse([]byte(cat.WritePlain(p.Cat)))
			pool = append(pool, pooled{po, newModel(p.Cat)})
		}
	}
	for _, s := range c.Steps {
		if s.File != nil && s.File.Cat != nil {
			keys(s.File.Cat)
		}
		for _, o := range s.Ops {
			x := ""
			if o.K == "SetC" || o.K == "SetNC" {
				x = o.Ctx
			}
			if o.K != "SetRefs" {
				key(x, o.ID, "plurals")
			}
		}
	}
	loads, effects := 0, 0
	for i, s := range c.Steps {
		h := w.ls[s.L]
		switch s.K {
		case "Write":
			w.write(s.File)
		case "Remove":
			w.remove(s.File.rel(s.File.Kind))
		case "AddDomain":
			h.l.AddDomain(s.Dom)
			for _, x := range candidates(h.lang, s.Dom) {
				if f, ok := w.files[x.path]; ok {
					if h.doms[s.Dom] != nil {
						ctx.Label("domain loaded again")
					}
					h.set(s.Dom, newModel(f))
					loads++
					break
				}
			}
		case "AddTranslator":
			h.l.AddTranslator(s.Dom, pool[s.T].t)
			if h.doms[s.Dom] != nil {
				ctx.Label("domain replaced by a Translator")
			}
			h.set(s.Dom, pool[s.T].m)
			loads++
		case "SetDomain":
			h.l.SetDomain(s.Dom)
			h.def = s.Dom
		case "Delete":
			delete(h.l.Domains, s.Dom)
			delete(h.doms, s.Dom)
		case "Edit":
			m := h.doms[s.Dom]
			if m == nil {
				continue
			}
			d := h.l.Domains[s.Dom].GetDomain()
			for _, o := range s.Ops {
				if err := o.run(d); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
				m.apply(o)
				effects++
			}
		case "EditPool":
			p := pool[s.T]
			for _, o := range s.Ops {
				if err := o.run(p.t.GetDomain()); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
				p.m.apply(o)
				effects++
			}
		case "Move":
			to := w.ls[s.To]
			data, err := h.l.MarshalBinary()
			if err != nil {
				return fmt.Errorf("step %d: MarshalBinary: %w", i, err)
			}
			if err := to.l.UnmarshalBinary(data); err != nil {
				return fmt.Errorf("step %d: UnmarshalBinary: %w", i, err)
			}
			// copies: edits of one don't reach the other, nor the Translators they came from
			doms := map[string]*model{}
			for d, m := range h.doms {
				doms[d] = m.clone()
			}
			to.lang, to.def, to.doms = h.lang, h.def, doms
			if len(doms) > 0 {
				ctx.Label("state moved to another Locale")
			}
		}
		if err := w.check(h, i%4 == 3); err != nil {
			return fmt.Errorf("after step %d (%s), Locale %d: %w", i, s.K, s.L, err)
		}
	}
	for i, h := range w.ls {
		if err := w.check(h, true); err != nil {
			return fmt.Errorf("at the end, Locale %d (%s): %w", i, h.lang, err)
		}
	}
	ctx.Label("files from %q", c.FS)
	ctx.LabelIf(effects > 0, "edited")
	ctx.NonTrivial(loads >= 2)
	return nil
}

// plainMo is the usual layout, with every message.
var plainMo = cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}, Empty: true}

func TestC44_Locale(t *testing.T) {
	core.Run(t, core.Prop[locHistory]{
		ID: "C44", Checks: 3000,
		Rule:  "histories of 6-30 steps over 1-3 Locales on one tree (a directory or a fs.FS): catalogue files written, replaced and removed, domains loaded and loaded again, in-memory catalogues attached in several places, edited where they are or through the Locale, default domains changed, domains deleted, whole Locales encoded and decoded into each other; after every step every domain is asked for the keys of all catalogues; non-trivial: two domains or more came to hold something",
		Gen:   genLocHistory,
		Check: checkLocHistory,
	})
}
