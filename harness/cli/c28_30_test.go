package cli

import (
	"errors"
	"fmt"
	"go/ast"
	"go/token"
	"io"
	"log"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	core.Main(m)
}

// getter is a kind of call; the numbers are positions of its arguments.
type getter struct {
	name             string
	def              parser.GetterDef
	nargs            int
	plural, ctx, dom bool
}

func mkGetter(name string, def parser.GetterDef, nargs int) getter {
	return getter{name, def, nargs, def.Plural >= 0, def.Context >= 0, def.Domain >= 0}
}

var getters = []getter{
	mkGetter("Get", parser.GetterDef{ID: 0, Plural: -1, Context: -1, Domain: -1}, 1),
	mkGetter("GetN", parser.GetterDef{ID: 0, Plural: 1, Context: -1, Domain: -1}, 3),
	mkGetter("GetD", parser.GetterDef{ID: 1, Plural: -1, Context: -1, Domain: 0}, 2),
	mkGetter("GetND", parser.GetterDef{ID: 1, Plural: 2, Context: -1, Domain: 0}, 4),
	mkGetter("GetC", parser.GetterDef{ID: 0, Plural: -1, Context: 1, Domain: -1}, 2),
	mkGetter("GetNC", parser.GetterDef{ID: 0, Plural: 1, Context: 3, Domain: -1}, 4),
	mkGetter("GetDC", parser.GetterDef{ID: 1, Plural: -1, Context: 2, Domain: 0}, 3),
	mkGetter("GetNDC", parser.GetterDef{ID: 1, Plural: 2, Context: 4, Domain: 0}, 5),
}

// occurrence is one extracted call.
type occurrence struct {
	Dom    string `json:"dom,omitempty"`
	Ctx    string `json:"ctx,omitempty"`
	ID     string `json:"id"`
	Plural string `json:"plural,omitempty"`
	Loc    string `json:"loc"`
}

type msgKey struct{ Dom, Ctx, ID string }

// message is what the occurrences of one key come to.
type message struct {
	Plural string
	Locs   []string
}

func collect(def string, occs []occurrence) map[msgKey]*message {
	want := map[msgKey]*message{}
	for _, o := range occs {
		k := msgKey{o.Dom, o.Ctx, o.ID}
		if k.Dom == "" {
			k.Dom = def
		}
		m := want[k]
		if m == nil {
			m = &message{}
			want[k] = m
		}
		if o.Plural != "" {
			m.Plural = o.Plural
		}
		m.Locs = append(m.Locs, o.Loc)
	}
	for _, m := range want {
		sort.Strings(m.Locs)
	}
	return want
}

// readPots reads every .pot file of a directory with the reference reader.
func readPots(dir string) (map[msgKey]*message, error) {
	files, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	got := map[msgKey]*message{}
	for _, f := range files {
		dom, ok := strings.CutSuffix(f.Name(), ".pot")
		if !ok {
			return nil, fmt.Errorf("unexpected output file %q", f.Name())
		}
		b, err := os.ReadFile(filepath.Join(dir, f.Name()))
		if err != nil {
			return nil, err
		}
		doc, err := cat.ReadPO(string(b))
		if err != nil {
			return nil, fmt.Errorf("%s is not well-formed: %v\n%s", f.Name(), err, b)
		}
		if len(doc.Entries) == 0 || doc.Entries[0].ID != "" || doc.Entries[0].HasCtx {
			return nil, fmt.Errorf("%s does not start with a header:\n%s", f.Name(), b)
		}
		for _, e := range doc.Entries[1:] {
			if e.HasCtx && e.Ctx == "" {
				return nil, fmt.Errorf("%s: empty context on %q", f.Name(), e.ID)
			}
			if e.HasPlural && e.Plural == "" {
				return nil, fmt.Errorf("%s: empty plural id on %q", f.Name(), e.ID)
			}
			for i, s := range e.Strs {
				if s != "" {
					return nil, fmt.Errorf("%s: %q has msgstr[%d] %q", f.Name(), e.ID, i, s)
				}
			}
			got[msgKey{dom, e.Ctx, e.ID}] = &message{e.Plural, e.Refs}
		}
	}
	return got, nil
}

func diff(want, got map[msgKey]*message, sorted bool) error {
	for k, w := range want {
		g := got[k]
		if g == nil {
			return fmt.Errorf("lost: domain %q context %s id %s (at %v)", k.Dom, cat.Q(k.Ctx), cat.Q(k.ID), w.Locs)
		}
		if g.Plural != w.Plural {
			return fmt.Errorf("domain %q context %s id %s: plural id %s, want %s", k.Dom, cat.Q(k.Ctx), cat.Q(k.ID), cat.Q(g.Plural), cat.Q(w.Plural))
		}
		gl := append([]string{}, g.Locs...)
		if !sorted {
			sort.Strings(gl)
		}
		if !reflect.DeepEqual(gl, append([]string{}, w.Locs...)) {
			return fmt.Errorf("domain %q context %s id %s: locations %q, want %q", k.Dom, cat.Q(k.Ctx), cat.Q(k.ID), g.Locs, w.Locs)
		}
	}
	for k, g := range got {
		if want[k] == nil {
			return fmt.Errorf("invented: domain %q context %s id %s plural %s (at %v)", k.Dom, cat.Q(k.Ctx), cat.Q(k.ID), cat.Q(g.Plural), g.Locs)
		}
	}
	return nil
}

// templateCase is a history of extracted calls and a second order of them.
type templateCase struct {
	Default string       `json:"default"`
	Occs    []occurrence `json:"occs"`
	Order   []int        `json:"order"`
	Salt    int          `json:"salt"` // chooses spellings
}

func genOccs(t *rapid.T, def string, maxN int) []occurrence {
	doms := []string{"", "", def, "other", "a.b", "dom-2", "x y", "ünï"}
	doms = doms[:rapid.IntRange(1, len(doms)).Draw(t, "domains")]
	ids := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return cat.ID(t, "id") }), 1, 8).Draw(t, "ids")
	ctxs := []string{""}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nctx"); i < n; i++ {
		ctxs = append(ctxs, cat.ID(t, "ctx"))
	}
	// texts that differ little
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nnear"); i < n; i++ {
		ids = append(ids, cat.Near(t, rapid.SampledFrom(ids).Draw(t, "nearid"), "near"))
		if len(ctxs) > 1 && i > 0 {
			ctxs = append(ctxs, cat.Near(t, ctxs[1], "nearctx"))
		}
	}
	pls := map[msgKey]string{}
	seen := map[string]bool{}
	var occs []occurrence
	for i, n := 0, rapid.IntRange(1, maxN).Draw(t, "n"); i < n; i++ {
		o := occurrence{Dom: rapid.SampledFrom(doms).Draw(t, "dom"), Ctx: rapid.SampledFrom(ctxs).Draw(t, "ctx"), ID: rapid.SampledFrom(ids).Draw(t, "id")}
		k := msgKey{o.Dom, o.Ctx, o.ID}
		if k.Dom == "" {
			k.Dom = def
		}
		if rapid.Bool().Draw(t, "plural") {
			if pls[k] == "" {
				pls[k] = cat.ID(t, "pl")
			}
			o.Plural = pls[k]
		}
		file := rapid.SampledFrom([]string{"main.go", "a.go", "pkg/b.go", "pkg/sub/b.go", "pkg-2/é.go", "z.go"}).Draw(t, "file")
		line := rapid.SampledFrom([]int{1, 2, 3, 9, 10, 11, 99, 100, 1000}).Draw(t, "line")
		o.Loc = fmt.Sprintf("%s:%d", file, line)
		for sk := fmt.Sprint(k, o.Loc); seen[sk]; sk = fmt.Sprint(k, o.Loc) {
			line++
			o.Loc = fmt.Sprintf("%s:%d", file, line)
		}
		seen[fmt.Sprint(k, o.Loc)] = true
		occs = append(occs, o)
	}
	if rapid.IntRange(0, 79).Draw(t, "bulk") == 79 {
		// many domains, messages or locations
		nd := rapid.SampledFrom([]int{1, 2, 9, 33}).Draw(t, "bulkdoms")
		ni := rapid.SampledFrom([]int{1, 10, 129, 400}).Draw(t, "bulkids")
		nl := rapid.SampledFrom([]int{1, 2, 17, 70, 150}).Draw(t, "bulklocs")
		for ; nd*ni*nl > 1500 && nd > 1; nd-- {
		}
		for ; nd*ni*nl > 1500 && nl > 1; nl-- {
		}
		ctx := rapid.SampledFrom([]string{"", "ctx"}).Draw(t, "bulkctx")
		for d := 0; d < nd; d++ {
			for i := 0; i < ni; i++ {
				for l := 0; l < nl; l++ {
					o := occurrence{ID: fmt.Sprintf("bulk %d", i), Loc: fmt.Sprintf("bulk/f%d.go:%d", l%7, 10+i*nl+l)}
					if d > 0 {
						o.Dom = fmt.Sprintf("bulk%d", d)
					}
					if i%2 == 0 && ctx != "" {
						o.Ctx = fmt.Sprintf("%s%d", ctx, i%40)
					}
					if i%3 == 0 {
						o.Plural = fmt.Sprintf("bulks %d", i)
					}
					occs = append(occs, o)
				}
			}
		}
	}
	return occs
}

func genTemplateCase(t *rapid.T) templateCase {
	c := templateCase{Default: rapid.SampledFrom([]string{"default", "main", "", "my.app"}).Draw(t, "default"), Salt: rapid.IntRange(0, 1000).Draw(t, "salt")}
	c.Occs = genOccs(t, defaultName(c.Default), 25)
	for i := range c.Occs {
		c.Order = append(c.Order, i)
	}
	c.Order = rapid.Permutation(c.Order).Draw(t, "order")
	return c
}

func defaultName(d string) string {
	if d == "" {
		return "default"
	}
	return d
}

// spell writes a string literal of Go for s.
func spell(s string, how int) string {
	raw := !strings.ContainsAny(s, "`\r") && !strings.Contains(s, "\ufeff")
	switch how % 5 {
	case 0:
		if raw {
			return "`" + s + "`"
		}
	case 1:
		return fmt.Sprintf("%+q", s)
	case 2: // bytes as hexadecimal or octal escapes
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(s); i++ {
			switch {
			case i%2 == 0:
				fmt.Fprintf(&b, `\x%02x`, s[i])
			default:
				fmt.Fprintf(&b, `\%03o`, s[i])
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	return fmt.Sprintf("%q", s)
}

// feed gives an occurrence to the extractor as a call would.
func feed(dm *parser.DomainMap, o occurrence, salt int) {
	for _, g := range getters {
		if g.plural != (o.Plural != "") || g.ctx != (o.Ctx != "") || g.dom != (o.Dom != "") {
			continue
		}
		lit := func(s string, i int) *ast.BasicLit {
			return &ast.BasicLit{Kind: token.STRING, Value: spell(s, salt+i)}
		}
		args := make([]*ast.BasicLit, g.nargs)
		args[g.def.ID] = lit(o.ID, 0)
		if g.plural {
			args[g.def.Plural] = lit(o.Plural, 1)
		}
		if g.ctx {
			args[g.def.Context] = lit(o.Ctx, 2)
		}
		if g.dom {
			args[g.def.Domain] = lit(o.Dom, 3)
		}
		f := parser.GoFile{Data: dm}
		f.ParseGetter(g.def, args, o.Loc)
		return
	}
	panic("no getter")
}

func TestC28_Template(t *testing.T) {
	core.Run(t, core.Prop[templateCase]{
		ID: "C28", Checks: 6000,
		Rule: "1-25 extracted calls over 1-8 ids, 0-3 contexts and 1-8 domains with any text, spelled as any Go literal, saved in two orders and read back by gotext and by an independent strict reader; non-trivial: two calls share a message or a text needs escaping",
		Gen:  genTemplateCase,
		Check: func(x *core.Ctx, c templateCase) error {
			want := collect(defaultName(c.Default), c.Occs)
			esc := false
			for _, o := range c.Occs {
				if strings.ContainsAny(o.ID+o.Ctx+o.Plural, "\"\\\n\r\t\v\f\a\b\x7f") {
					esc = true
				}
			}
			x.NonTrivial(esc || len(want) < len(c.Occs))
			x.LabelIf(esc, "escapes")
			x.LabelIf(len(want) < len(c.Occs), "merged")
			x.LabelIf(strings.Contains(fmt.Sprint(c.Occs), "\r"), "carriage return")
			var first map[string]string
			for round := 0; round < 2; round++ {
				dm := &parser.DomainMap{Default: c.Default}
				for i := range c.Occs {
					o := c.Occs[i]
					if round == 1 {
						o = c.Occs[c.Order[i]]
					}
					feed(dm, o, c.Salt+round)
				}
				base, err := os.MkdirTemp("", "pot")
				if err != nil {
					return err
				}
				defer os.RemoveAll(base)
				dir := filepath.Join(base, "new", "out")
				if err := dm.Save(dir); err != nil {
					return fmt.Errorf("Save: %w", err)
				}
				got, err := readPots(dir)
				if err != nil {
					return err
				}
				if err := diff(want, got, true); err != nil {
					return err
				}
				bytes := map[string]string{}
				files, _ := os.ReadDir(dir)
				for _, f := range files {
					b, _ := os.ReadFile(filepath.Join(dir, f.Name()))
					bytes[f.Name()] = string(b)
				}
				if round == 0 {
					first = bytes
					if err := readBack(dir, want); err != nil {
						return err
					}
					// saving again changes nothing
					if err := dm.Save(dir); err != nil {
						return err
					}
					for n, b := range bytes {
						if b2, _ := os.ReadFile(filepath.Join(dir, n)); string(b2) != b {
							return fmt.Errorf("saving twice wrote different bytes:\n%s\n---\n%s", b, b2)
						}
					}
				} else if !reflect.DeepEqual(first, bytes) {
					return fmt.Errorf("another order of discovery wrote other bytes:\n%q\n---\n%q", first, bytes)
				}
			}
			return nil
		},
	})
}

// readBack reads the templates with gotext itself.
func readBack(dir string, want map[msgKey]*message) error {
	got := map[msgKey]*message{}
	files, _ := os.ReadDir(dir)
	for _, f := range files {
		dom := strings.TrimSuffix(f.Name(), ".pot")
		po := gotext.NewPo()
		po.ParseFile(filepath.Join(dir, f.Name()))
		add := func(x string, m map[string]*gotext.Translation) error {
			for id, tr := range m {
				if id == "" && x == "" {
					continue
				}
				for i, s := range tr.Trs {
					if s != "" {
						return fmt.Errorf("gotext reads form %d of %s as %s", i, cat.Q(id), cat.Q(s))
					}
				}
				got[msgKey{dom, x, id}] = &message{tr.PluralID, tr.Refs}
			}
			return nil
		}
		if err := add("", po.GetDomain().GetTranslations()); err != nil {
			return err
		}
		for x, m := range po.GetDomain().GetCtxTranslations() {
			if err := add(x, m); err != nil {
				return err
			}
		}
		if pf := po.GetDomain().PluralForms; pf != "nplurals=2; plural=(n != 1);" {
			return fmt.Errorf("%s: Plural-Forms read back as %q", f.Name(), pf)
		}
	}
	if err := diff(want, got, true); err != nil {
		return fmt.Errorf("read by gotext: %w", err)
	}
	return nil
}

// GNU gettext reads the templates too.
func TestC28_GNU(t *testing.T) {
	core.Run(t, core.Prop[templateCase]{
		ID: "C28", Checks: 800,
		Rule: "the same generated calls; every template is read by GNU gettext's msgcat, which must find the same messages; non-trivial: two calls share a message or a text needs escaping",
		Gen:  genTemplateCase,
		Check: func(x *core.Ctx, c templateCase) error {
			if !cat.HaveGNU() {
				x.Label("GNU gettext is not installed")
				return nil
			}
			want := collect(defaultName(c.Default), c.Occs)
			esc := false
			for _, o := range c.Occs {
				esc = esc || strings.ContainsAny(o.ID+o.Ctx+o.Plural, "\"\\\n\r\t\v\f\a\b\x7f")
			}
			x.NonTrivial(esc || len(want) < len(c.Occs))
			dm := &parser.DomainMap{Default: c.Default}
			for _, o := range c.Occs {
				feed(dm, o, c.Salt)
			}
			dir, err := os.MkdirTemp("", "pot")
			if err != nil {
				return err
			}
			defer os.RemoveAll(dir)
			if err := dm.Save(dir); err != nil {
				return fmt.Errorf("Save: %w", err)
			}
			got := map[msgKey]*message{}
			files, _ := os.ReadDir(dir)
			for _, f := range files {
				b, err := os.ReadFile(filepath.Join(dir, f.Name()))
				if err != nil {
					return err
				}
				doc, err := cat.GNURead(b)
				if errors.Is(err, cat.ErrNoGNU) {
					x.Label("not comparable")
					return nil
				}
				if err != nil {
					return fmt.Errorf("GNU gettext does not read %s: %w\n%s", f.Name(), err, b)
				}
				for _, e := range doc.Entries {
					if e.ID == "" && !e.HasCtx {
						continue
					}
					k := msgKey{strings.TrimSuffix(f.Name(), ".pot"), e.Ctx, e.ID}
					w := want[k]
					if w == nil {
						return fmt.Errorf("GNU gettext reads id %s ctx %s in %s, which no call has\n%s", cat.Q(e.ID), cat.Q(e.Ctx), f.Name(), b)
					}
					if e.Plural != w.Plural {
						return fmt.Errorf("GNU gettext reads plural %s of id %s in %s, want %s\n%s", cat.Q(e.Plural), cat.Q(e.ID), f.Name(), cat.Q(w.Plural), b)
					}
					got[k] = w
				}
			}
			for k := range want {
				if got[k] == nil {
					return fmt.Errorf("GNU gettext does not find id %s ctx %s in domain %q", cat.Q(k.ID), cat.Q(k.Ctx), k.Dom)
				}
			}
			return nil
		},
	})
}

// mergeCase adds prepared messages, each with its locations, in two orders.
type mergeCase struct {
	Default string       `json:"default"`
	Occs    []occurrence `json:"occs"` // Loc: locations separated by blanks
	Order   []int        `json:"order"`
}

func quotePO(s string) string {
	if s == "" {
		return ""
	}
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`).Replace(s) + `"`
}

func TestC30_Merge(t *testing.T) {
	core.Run(t, core.Prop[mergeCase]{
		ID: "C30", Checks: 12000,
		Rule: "1-40 messages (0-3 locations each, plural ids agreeing) over few domains, contexts and ids added to a domain map in two orders, its contents compared with the fold of all of them; non-trivial: two messages share a key",
		Gen: func(t *rapid.T) mergeCase {
			c := mergeCase{Default: rapid.SampledFrom([]string{"default", "main", ""}).Draw(t, "default")}
			c.Occs = genOccs(t, defaultName(c.Default), 40)
			for i := range c.Occs {
				c.Order = append(c.Order, i)
				switch rapid.IntRange(0, 5).Draw(t, "locs") {
				case 0:
					c.Occs[i].Loc = ""
				case 1:
					c.Occs[i].Loc += fmt.Sprintf(" more.go:%d", i)
				case 2:
					c.Occs[i].Loc = fmt.Sprintf("more.go:%d %s extra.go:%d", i, c.Occs[i].Loc, i)
				}
			}
			c.Order = rapid.Permutation(c.Order).Draw(t, "order")
			return c
		},
		Check: func(x *core.Ctx, c mergeCase) error {
			want := map[msgKey]*message{}
			for _, o := range c.Occs {
				k := msgKey{o.Dom, o.Ctx, o.ID}
				if k.Dom == "" {
					k.Dom = defaultName(c.Default)
				}
				m := want[k]
				if m == nil {
					m = &message{}
					want[k] = m
				}
				if o.Plural != "" {
					m.Plural = o.Plural
				}
				m.Locs = append(m.Locs, strings.Fields(o.Loc)...)
			}
			for _, m := range want {
				sort.Strings(m.Locs)
			}
			x.NonTrivial(len(want) < len(c.Occs))
			for round := 0; round < 2; round++ {
				dm := &parser.DomainMap{Default: c.Default}
				for i := range c.Occs {
					o := c.Occs[i]
					if round == 1 {
						o = c.Occs[c.Order[i]]
					}
					tr := &parser.Translation{MsgID: o.ID, MsgIDPlural: o.Plural, Context: quotePO(o.Ctx)}
					if l := strings.Fields(o.Loc); len(l) > 0 {
						tr.SourceLocations = l
					}
					dm.AddTranslation(o.Dom, tr)
				}
				got := map[msgKey]*message{}
				n := 0
				for dom, d := range dm.Domains {
					for id, tr := range d.Translations {
						n++
						if tr.MsgID != id || tr.Context != "" {
							return fmt.Errorf("message %+v is kept under %s", tr, cat.Q(id))
						}
						got[msgKey{dom, "", id}] = &message{tr.MsgIDPlural, tr.SourceLocations}
					}
					for ctx, m := range d.ContextTranslations {
						for id, tr := range m {
							n++
							if tr.MsgID != id || tr.Context != ctx {
								return fmt.Errorf("message %+v is kept under %s, %s", tr, ctx, cat.Q(id))
							}
							for _, o := range c.Occs {
								if quotePO(o.Ctx) == ctx {
									ctx = o.Ctx
									break
								}
							}
							got[msgKey{dom, ctx, id}] = &message{tr.MsgIDPlural, tr.SourceLocations}
							ctx = tr.Context
						}
					}
				}
				if n != len(want) {
					return fmt.Errorf("%d messages kept, want %d", n, len(want))
				}
				if err := diff(want, got, false); err != nil {
					return err
				}
			}
			return nil
		},
	})
}
