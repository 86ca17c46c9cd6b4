package lib

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

var localeCopy struct {
	sync.Once
	dir  string
	drop func()
}

// gnuLocale is a directory with the locale xx_XX.UTF-8, "" if there is none.
func gnuLocale() string {
	localeCopy.Do(func() {
		var src string
		for _, d := range []string{"/usr/lib/locale/C.utf8", "/usr/lib/locale/C.UTF-8"} {
			if st, err := os.Stat(d); err == nil && st.IsDir() {
				src = d
				break
			}
		}
		if src == "" {
			return
		}
		d, drop := scratch()
		if err := os.CopyFS(filepath.Join(d, "xx_XX.utf8"), os.DirFS(src)); err != nil {
			drop()
			return
		}
		localeCopy.dir, localeCopy.drop = d, drop
	})
	return localeCopy.dir
}

// sameReading compares a document read by GNU gettext with the catalogue.
func sameReading(doc *cat.RefDoc, c *cat.Cat, dropped func(*cat.Entry) bool, withRefs bool) error {
	n := 0
	header := false
	for i := range doc.Entries {
		r := &doc.Entries[i]
		if r.ID == "" && !r.HasCtx {
			header = true
			_, got, err := splitHeader(r.Strs[0])
			if err != nil {
				return err
			}
			want := map[string][]string(expHeaders(c))
			if len(got) != len(want) {
				return fmt.Errorf("GNU gettext reads header %q, want %q", got, want)
			}
			for k, vs := range want {
				if strings.Join(got[k], "\n") != strings.Join(vs, "\n") {
					return fmt.Errorf("GNU gettext reads header %s: %q, want %q", k, got[k], vs)
				}
			}
			continue
		}
		n++
		e := c.Find(r.Ctx, r.ID)
		if e == nil || (r.HasCtx && r.Ctx == "") || dropped(e) {
			return fmt.Errorf("GNU gettext reads an entry id %s ctx %s that is not in the catalogue", cat.Q(r.ID), cat.Q(r.Ctx))
		}
		if r.Plural != e.Plural {
			return fmt.Errorf("GNU gettext reads plural %s of id %s ctx %s, want %s", cat.Q(r.Plural), cat.Q(r.ID), cat.Q(r.Ctx), cat.Q(e.Plural))
		}
		if r.HasPlural && e.Plural == "" && !e.OtherForms() {
			return fmt.Errorf("GNU gettext reads id %s ctx %s, which has one form and no plural, as a plural message", cat.Q(r.ID), cat.Q(r.Ctx))
		}
		for k, s := range r.Strs {
			if s != e.Str(k) {
				return fmt.Errorf("GNU gettext reads form %d of id %s ctx %s as %s, want %s", k, cat.Q(r.ID), cat.Q(r.Ctx), cat.Q(s), cat.Q(e.Str(k)))
			}
		}
		for _, f := range e.Forms {
			if r.Strs[f.I] != f.S {
				return fmt.Errorf("GNU gettext reads form %d of id %s ctx %s as %s, want %s", f.I, cat.Q(r.ID), cat.Q(r.Ctx), cat.Q(r.Strs[f.I]), cat.Q(f.S))
			}
		}
		if withRefs && simpleRefs(e.Refs) && !subset(e.Refs, r.Refs) {
			return fmt.Errorf("GNU gettext reads references %q of id %s ctx %s, want %q", r.Refs, cat.Q(r.ID), cat.Q(r.Ctx), e.Refs)
		}
	}
	want := 0
	for i := range c.Entries {
		if !dropped(&c.Entries[i]) {
			want++
		}
	}
	if n != want {
		return fmt.Errorf("GNU gettext reads %d entries, want %d", n, want)
	}
	if !header && len(expHeaders(c)) > 0 {
		return fmt.Errorf("GNU gettext reads no header")
	}
	return nil
}

var simpleRef = regexp.MustCompile(`^[\pL./_]*\pL[\pL./_]*(:[1-9][0-9]{0,8})?$`)

// simpleRefs: file names and lines as GNU gettext takes them too.
func simpleRefs(refs []string) bool {
	for _, r := range refs {
		if !simpleRef.MatchString(r) {
			return false
		}
	}
	return true
}

// subset: the same references, however often.
func subset(a, b []string) bool {
	set := func(x []string) map[string]bool {
		m := map[string]bool{}
		for _, s := range x {
			m[s] = true
		}
		return m
	}
	ma, mb := set(a), set(b)
	for k := range ma {
		if !mb[k] {
			return false
		}
	}
	return len(ma) == len(mb)
}

func keepAll(*cat.Entry) bool { return false }

// unfinished entries are left out by msgfmt.
func unfinished(e *cat.Entry) bool { return e.Str(0) == "" }

// compiled is what msgfmt keeps of a catalogue.
func compiled(c *cat.Cat) *cat.Cat {
	k := &cat.Cat{Rule: c.Rule}
	for _, h := range c.Headers {
		if h.K != "POT-Creation-Date" {
			k.Headers = append(k.Headers, h)
		}
	}
	for i := range c.Entries {
		if !unfinished(&c.Entries[i]) {
			k.Entries = append(k.Entries, c.Entries[i])
		}
	}
	return k
}

// fillForms writes missing forms as empty ones: the tools refuse an entry that skips a form.
func fillForms(c *cat.Cat) {
	for i := range c.Entries {
		e := &c.Entries[i]
		last := 0
		for _, f := range e.Forms {
			last = max(last, f.I)
		}
		var fs []cat.Form
		for k := 0; k <= last; k++ {
			fs = append(fs, cat.Form{I: k, S: e.Str(k)})
		}
		e.Forms = fs
	}
}

// sameEnds gives a text the newlines of its msgid at either end: msgfmt refuses any other.
func sameEnds(id, s string) string {
	if s == "" {
		return s
	}
	s = strings.Trim(s, "\n")
	if s == "" {
		s = "x"
	}
	if strings.HasPrefix(id, "\n") {
		s = "\n" + s
	}
	if strings.HasSuffix(id, "\n") {
		s += "\n"
	}
	return s
}

func alignCat(c *cat.Cat) {
	for i := range c.Entries {
		e := &c.Entries[i]
		e.Plural = sameEnds(e.ID, e.Plural)
		for k := range e.Forms {
			e.Forms[k].S = sameEnds(e.ID, e.Forms[k].S)
		}
	}
}

type gnuCase struct {
	Cat    *cat.Cat `json:"cat"`
	Cat2   *cat.Cat `json:"cat2,omitempty"`
	Opts   []string `json:"opts"`
	MoOpts []string `json:"moopts"`
	Counts []int    `json:"counts"`
	Langs  []string `json:"langs,omitempty"`
}

// genGNUCat draws a catalogue with a header GNU gettext needs.
func genGNUCat(t *rapid.T, o cat.Opts) *cat.Cat {
	c := cat.GenCat(t, o)
	hs := []cat.KV{}
	for _, h := range c.Headers {
		// glibc looks for the plural rule and the charset anywhere in the header
		if h.K != "Content-Type" && h.K != "Content-Transfer-Encoding" && !strings.Contains(h.V, "plural") && !strings.Contains(h.V, "charset") {
			hs = append(hs, h)
		}
	}
	at := rapid.IntRange(0, len(hs)).Draw(t, "ctat")
	if rapid.IntRange(0, 3).Draw(t, "align") > 0 {
		alignCat(c)
	}
	c.Headers = append(append(append([]cat.KV{}, hs[:at]...), cat.KV{K: "Content-Type", V: "text/plain; charset=UTF-8"}), hs[at:]...)
	return c
}

func genMsgcatOpts(t *rapid.T) []string {
	var o []string
	add := func(l string, choices ...[]string) {
		o = append(o, rapid.SampledFrom(choices).Draw(t, l)...)
	}
	add("wrap", nil, []string{"--no-wrap"}, []string{"-w", "1"}, []string{"-w", "7"}, []string{"-w", "20"}, []string{"-w", "60"}, []string{"-w", "1000"})
	add("indent", nil, nil, []string{"-i"}, []string{"--strict"})
	add("escape", nil, []string{"-e"}, []string{"-E"})
	add("sort", nil, []string{"-s"}, []string{"-F"})
	add("loc", nil, nil, []string{"--no-location"}, []string{"--add-location=file"})
	return o
}

func genMsgfmtOpts(t *rapid.T) []string {
	var o []string
	for _, c := range [][]string{{"", "--endianness=big", "--endianness=little"}, {"", "--no-hash"}, {"", "-a1", "-a4", "-a8", "-a64"}, {"", "--use-fuzzy"}} {
		if s := rapid.SampledFrom(c).Draw(t, "moopt"); s != "" {
			o = append(o, s)
		}
	}
	return o
}

// gnuReady tells whether GNU gettext is there and reads the model's own document as the model says.
func gnuReady(ctx *core.Ctx, c *cat.Cat) bool {
	if !cat.HaveGNU() {
		ctx.Label("GNU gettext is not installed")
		return false
	}
	doc, err := cat.GNURead([]byte(cat.WritePlain(c)))
	if err == nil {
		err = sameReading(doc, c, keepAll, false)
	}
	if err != nil {
		ctx.Label("not comparable: GNU gettext refuses the model's document")
		return false
	}
	return true
}

// GNU gettext writes, gotext reads.
func TestC38_Written(t *testing.T) {
	core.Run(t, core.Prop[gnuCase]{
		ID: "C38", Checks: 1600,
		Rule: "a catalogue laid out by msgcat (wrapping, indentation, escapes, sorting, locations) and compiled by msgfmt (byte order, alignment, hash table), read as Po and as Mo; non-trivial: 2+ entries",
		Gen: func(t *rapid.T) gnuCase {
			return gnuCase{Cat: genGNUCat(t, cat.Opts{}), Opts: genMsgcatOpts(t), MoOpts: genMsgfmtOpts(t), Counts: cat.GenCounts(t)}
		},
		Check: func(ctx *core.Ctx, x gnuCase) error {
			if !gnuReady(ctx, x.Cat) {
				return nil
			}
			labelCat(ctx, x.Cat)
			ctx.NonTrivial(len(x.Cat.Entries) >= 2)
			plain := []byte(cat.WritePlain(x.Cat))
			text, err := cat.GNURun(nil, plain, "msgcat", append(append([]string{"--force-po"}, x.Opts...), "-")...)
			if err != nil {
				ctx.Label("not comparable: msgcat fails")
				return nil
			}
			po := gotext.NewPo()
			po.Parse(text)
			if err := cat.CheckAll(x.Cat, po, x.Counts); err != nil {
				return fmt.Errorf("msgcat's document %q: %w\n%s", x.Opts, err, text)
			}
			if err := checkListing(po.GetDomain(), x.Cat); err != nil {
				return fmt.Errorf("msgcat's document %q: %w\n%s", x.Opts, err, text)
			}
			if err := checkHeaders(x.Cat, po.Headers); err != nil {
				return fmt.Errorf("msgcat's document %q: %w\n%s", x.Opts, err, text)
			}
			if has := strings.Join(x.Opts, " "); !strings.Contains(has, "location") && !strings.Contains(has, "strict") {
				all, ctxAll := po.GetDomain().GetTranslations(), po.GetDomain().GetCtxTranslations()
				for i := range x.Cat.Entries {
					e := &x.Cat.Entries[i]
					tr := all[e.ID]
					if e.Ctx != "" {
						tr = ctxAll[e.Ctx][e.ID]
					}
					if !subset(tr.Refs, e.Refs) {
						return fmt.Errorf("msgcat's document %q: references %q of id %s ctx %s, want %q\n%s", x.Opts, tr.Refs, cat.Q(e.ID), cat.Q(e.Ctx), e.Refs, text)
					}
				}
			}
			bin, err := cat.GNURun(nil, plain, "msgfmt", append(append([]string{}, x.MoOpts...), "-o", "-", "-")...)
			if err != nil {
				ctx.Label("not compiled: msgfmt refuses the model's document")
				return nil
			}
			mo := gotext.NewMo()
			mo.Parse(bin)
			k := compiled(x.Cat)
			if err := cat.CheckAll(k, mo, x.Counts); err != nil {
				return fmt.Errorf("msgfmt's file %q: %w", x.MoOpts, err)
			}
			if err := checkListing(mo.GetDomain(), k); err != nil {
				return fmt.Errorf("msgfmt's file %q: %w", x.MoOpts, err)
			}
			if err := checkHeaders(k, mo.Headers); err != nil {
				return fmt.Errorf("msgfmt's file %q: %w", x.MoOpts, err)
			}
			return nil
		},
	})
}

// gotext writes, GNU gettext reads.
func TestC38_Exported(t *testing.T) {
	core.Run(t, core.Prop[history]{
		ID: "C38", Checks: 1600,
		Rule: "a catalogue loaded from PO, MO or binary data and edited by a history of Set operations, exported with MarshalText: msgcat reads it as the model says, msgfmt compiles it, and gotext reads the compiled file as the model says; non-trivial: 2+ entries at the end",
		Gen: func(t *rapid.T) history {
			x := genHistory(t, cat.Opts{MaxEntries: 6}, histOpts{plainRefs: true, maxOps: 12, noReadOps: true})
			if rapid.IntRange(0, 3).Draw(t, "align") > 0 {
				alignCat(x.Cat)
				for i := range x.Ops {
					o := &x.Ops[i]
					o.Plural, o.Str = sameEnds(o.ID, o.Plural), sameEnds(o.ID, o.Str)
				}
			}
			// A header GNU gettext can work with.
			x.Cat.Head = nil
			charset := cat.KV{K: "Content-Type", V: "text/plain; charset=UTF-8"}
			ours := func(hs []cat.KV) []cat.KV {
				r := []cat.KV{charset}
				for _, h := range hs {
					if k := strings.ToLower(h.K); k != "content-type" && k != "content-transfer-encoding" {
						r = append(r, h)
					}
				}
				return r
			}
			if x.Load == "none" {
				x.Hdrs, x.Target = ours(x.Hdrs), "domain"
			} else {
				x.Cat.Headers = ours(x.Cat.Headers)
			}
			if x.Load == "po" || x.Load == "bin" {
				x.Doc = cat.WritePlain(x.Cat)
			}
			return x
		},
		Check: func(ctx *core.Ctx, x history) error {
			l, _, m, err := x.build()
			if err != nil {
				return err
			}
			want := m.cat()
			for k, vs := range x.headers() {
				if k == "Plural-Forms" {
					continue
				}
				for _, v := range vs {
					want.Headers = append(want.Headers, cat.KV{K: k, V: v})
				}
			}
			want.Rule = x.Cat.Rule
			fillForms(want)
			if !gnuReady(ctx, want) {
				return nil
			}
			labelHistory(ctx, &x)
			ctx.NonTrivial(len(m.m) >= 2)
			text, err := l.MarshalText()
			if err != nil {
				return fmt.Errorf("MarshalText: %w", err)
			}
			doc, err := cat.GNURead(text)
			if err != nil {
				if errors.Is(err, cat.ErrNoGNU) {
					return nil
				}
				return fmt.Errorf("GNU gettext does not read what MarshalText wrote: %w\n%s", err, text)
			}
			if err := sameReading(doc, want, keepAll, true); err != nil {
				return fmt.Errorf("%w\n%s", err, text)
			}
			bin, err := cat.GNURun(nil, text, "msgfmt", "-o", "-", "-")
			if err != nil {
				if _, e := cat.GNURun(nil, []byte(cat.WritePlain(want)), "msgfmt", "-o", "-", "-"); e != nil {
					ctx.Label("not compiled: msgfmt refuses the model's document")
					return nil
				}
				return fmt.Errorf("GNU gettext does not compile what MarshalText wrote: %w\n%s", err, text)
			}
			mo := gotext.NewMo()
			mo.Parse(bin)
			if err := cat.CheckAll(compiled(want), mo, smallCounts); err != nil {
				return fmt.Errorf("msgfmt's compilation of MarshalText's output: %w\n%s", err, text)
			}
			return nil
		},
	})
}

// The same files and the same calls, at GNU gettext's run time and at gotext's.
func TestC38_Runtime(t *testing.T) {
	core.Run(t, core.Prop[gnuCase]{
		ID: "C38", Checks: 240,
		Rule: "catalogues with generated plural rules compiled by msgfmt into a locale directory, looked up by the gettext and ngettext programs (glibc) and by Locale and package lookups over the same directory and language list; non-trivial: a plural entry looked up",
		Gen: func(t *rapid.T) gnuCase {
			o := cat.Opts{MinEntries: 1, MaxEntries: 4, ForceRule: true, NoUnTransl: true, NoRefs: true, Small: rapid.Bool().Draw(t, "small")}
			x := gnuCase{Cat: genGNUCat(t, o), MoOpts: genMsgfmtOpts(t), Counts: append(cat.GenCounts(t), 0, 1, 2)}
			x.Langs = rapid.SampledFrom([][]string{{"de"}, {"de_DE"}, {"de", "fr"}, {"fr", "de"}, {"de_AT", "fr_FR"}, {"zz", "de"}}).Draw(t, "langs")
			if len(x.Langs) > 1 {
				x.Cat2 = genGNUCat(t, o)
			}
			return x
		},
		Check: func(ctx *core.Ctx, x gnuCase) error {
			loc := gnuLocale()
			if loc == "" || !gnuReady(ctx, x.Cat) || (x.Cat2 != nil && !gnuReady(ctx, x.Cat2)) {
				ctx.LabelIf(loc == "", "no locale for GNU gettext's run time")
				return nil
			}
			dir, drop := scratch()
			defer drop()
			cats := map[string]*cat.Cat{"de": x.Cat}
			if x.Cat2 != nil {
				cats["fr"] = x.Cat2
			}
			for lang, c := range cats {
				bin, err := cat.GNURun(nil, []byte(cat.WritePlain(c)), "msgfmt", append(append([]string{}, x.MoOpts...), "-o", "-", "-")...)
				if err != nil {
					ctx.Label("not compiled: msgfmt refuses the model's document")
					return nil
				}
				put(dir, lang+"/LC_MESSAGES/d.mo", bin)
			}
			env := []string{"LOCPATH=" + loc, "LC_ALL=xx_XX.UTF-8", "LANGUAGE=" + strings.Join(x.Langs, ":"), "TEXTDOMAIN=d", "TEXTDOMAINDIR=" + dir}
			gotext.Configure(dir, strings.Join(x.Langs, ":"), "d")
			defer gotext.Configure("", "en", "default")
			var single *gotext.Locale
			if len(x.Langs) == 1 {
				single = gotext.NewLocale(dir, x.Langs[0])
				single.AddDomain("d")
			}
			run := func(name string, args ...string) (string, bool) {
				out, err := cat.GNURun(env, nil, name, args...)
				if err != nil {
					ctx.Label("not comparable: %s fails", name)
					return "", false
				}
				return string(out), true
			}
			asked := 0
			for _, c := range []*cat.Cat{x.Cat, x.Cat2} {
				if c == nil {
					continue
				}
				for i := range c.Entries {
					e := &c.Entries[i]
					if asked++; asked > 5 {
						break
					}
					var args []string
					if e.Ctx != "" {
						args = append(args, "-c", e.Ctx)
					}
					args = append(args, "--", e.ID)
					if want, ok := run("gettext", args...); ok {
						var got string
						if e.Ctx == "" {
							got = gotext.Get(e.ID)
						} else {
							got = gotext.GetC(e.ID, e.Ctx)
						}
						if got != want {
							return fmt.Errorf("languages %q: id %s ctx %s: gotext gives %s, gettext gives %s", x.Langs, cat.Q(e.ID), cat.Q(e.Ctx), cat.Q(got), cat.Q(want))
						}
						if single != nil {
							if e.Ctx == "" {
								got = single.Get(e.ID)
							} else {
								got = single.GetC(e.ID, e.Ctx)
							}
							if got != want {
								return fmt.Errorf("Locale %q: id %s ctx %s: gotext gives %s, gettext gives %s", x.Langs, cat.Q(e.ID), cat.Q(e.Ctx), cat.Q(got), cat.Q(want))
							}
						}
					}
					if e.Plural == "" {
						continue
					}
					if f := first(x.Langs, cats, e.Ctx, e.ID); f == nil || f.Plural == "" {
						// one language says singular, the other plural: GNU gettext's
						// answer for a missing form is not a translation
						continue
					}
					for _, n := range x.Counts {
						if !x.Cat.Rule.Decides(n) || (x.Cat2 != nil && !x.Cat2.Rule.Decides(n)) {
							continue
						}
						a := append(append([]string{}, args...), e.Plural, strconv.Itoa(n))
						want, ok := run("ngettext", a...)
						if !ok {
							continue
						}
						ctx.NonTrivial(true)
						var got string
						if e.Ctx == "" {
							got = gotext.GetN(e.ID, e.Plural, n)
						} else {
							got = gotext.GetNC(e.ID, e.Plural, n, e.Ctx)
						}
						if got != want {
							return fmt.Errorf("languages %q: id %s ctx %s n=%d (%s): gotext gives %s, ngettext gives %s", x.Langs, cat.Q(e.ID), cat.Q(e.Ctx), n, cat.PluralHeader(*c.Rule), cat.Q(got), cat.Q(want))
						}
					}
				}
			}
			return nil
		},
	})
}

// first is the entry of the first language that has one.
func first(langs []string, cats map[string]*cat.Cat, ctx, id string) *cat.Entry {
	for _, l := range langs {
		c := cats[strings.SplitN(l, "_", 2)[0]]
		if c == nil {
			continue
		}
		if e := c.Find(ctx, id); e != nil {
			return e
		}
	}
	return nil
}
