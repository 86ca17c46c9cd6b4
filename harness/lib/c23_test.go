package lib

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// lazyCase is a configuration queried by several goroutines at once.
type lazyCase struct {
	L       langCase `json:"l"`
	Threads [][]int  `json:"threads"` // indexes of queries
	Warm    bool     `json:"warm,omitempty"`
}

func TestC23_Lazy(t *testing.T) {
	core.Run(t, core.Prop[lazyCase]{
		ID: "C23", Checks: 2500, ReplayRuns: 200, ThoroughFactor: 15,
		Rule: "1-4 languages configured over generated trees or as Locales with in-memory domains, up to 40 package lookups and IsTranslated queries asked by 2-6 goroutines at once, most domains not loaded before, under the race detector; every answer must be the sequential one; non-trivial: 3+ goroutines or 2+ domains asked",
		Gen: func(t *rapid.T) lazyCase {
			c := lazyCase{L: genLangCase(rapid.SampledFrom([]int{0, 3, 9}).Draw(t, "is"))(t), Warm: rapid.IntRange(0, 4).Draw(t, "warm") == 0}
			// the same few queries for all, or different ones
			for g, n := 0, rapid.IntRange(2, 6).Draw(t, "goroutines"); g < n; g++ {
				c.Threads = append(c.Threads, rapid.SliceOfN(rapid.IntRange(0, len(c.L.Queries)-1), 1, 20).Draw(t, "asks"))
			}
			return c
		},
		Check: func(ctx *core.Ctx, c lazyCase) error {
			s, clean := newPState()
			defer clean()
			for i := range c.L.Files {
				s.write(&c.L.Files[i])
			}
			doms := map[string]bool{}
			want := make([][]string, len(c.L.Queries))
			for i := 0; i < 3; i++ {
				s.dom, s.lib = c.L.Dom, s.libs[0]
				s.setLangs(c.L.Langs)
				s.rebuild()
				gotext.Configure(s.lib, c.L.Langs, c.L.Dom)
				if len(c.L.Locales) > 0 {
					ls, ms, err := s.locales(c.L.Locales)
					if err != nil {
						return err
					}
					gotext.SetLocales(ls)
					s.setLocales(c.L.Locales, ms)
				}
				for j := range c.L.Queries {
					want[j], _ = s.want(&c.L.Queries[j])
					doms[c.L.Queries[j].Dom] = true
				}
				if c.Warm {
					gotext.Get("warm")
				}
				var fs []func() error
				for _, asks := range c.Threads {
					fs = append(fs, func() error {
						for _, j := range asks {
							q := &c.L.Queries[j]
							if err := s.compare(q, want[j], q.ask()); err != nil {
								return err
							}
						}
						return nil
					})
				}
				if err := parallel(fs...); err != nil {
					return err
				}
				if err := s.getters(); err != nil {
					return err
				}
			}
			ctx.LabelIf(len(c.L.Locales) > 0, "SetLocales")
			ctx.NonTrivial(len(c.Threads) >= 3 || len(doms) >= 2)
			return nil
		},
	})
}

// The static tree: lib0 and lib1, three languages, domains f0..f2, with one text each.
var (
	treeOnce sync.Once
	treeDir  string
)

func whichText(lib, lang, dom string) string { return lib + "." + lang + "." + dom }

func tree() string {
	treeOnce.Do(func() {
		var err error
		if treeDir, err = os.MkdirTemp("", "tree-"); err != nil {
			panic("harness: " + err.Error())
		}
		for _, lib := range []string{"lib0", "lib1"} {
			for _, lang := range []string{"de", "fr", "pt_BR"} {
				for i, dom := range []string{"f0", "f1", "f2"} {
					c := &cat.Cat{Headers: []cat.KV{{K: "Language", V: lang}}}
					c.Entries = append(c.Entries, cat.Entry{ID: "which", Forms: []cat.Form{{I: 0, S: whichText(lib, lang, dom)}}})
					c.Entries = append(c.Entries, cat.Entry{ID: "only " + dom, Forms: []cat.Form{{I: 0, S: whichText(lib, lang, dom)}}})
					c.Entries = append(c.Entries, cat.Entry{Ctx: "c", ID: "which", Plural: "whiches", Forms: []cat.Form{{I: 0, S: whichText(lib, lang, dom)}, {I: 1, S: whichText(lib, lang, dom)}}})
					for j := 0; j < 20*i; j++ {
						c.Entries = append(c.Entries, cat.Entry{ID: fmt.Sprintf("filler %d", j), Forms: []cat.Form{{I: 0, S: "x"}}})
					}
					if i == 1 {
						put(treeDir, lib+"/"+lang+"/"+dom+".mo", cat.WriteMO(c, cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}}))
					} else {
						put(treeDir, lib+"/"+lang+"/LC_MESSAGES/"+dom+".po", []byte(cat.WritePlain(c)))
					}
				}
			}
		}
	})
	return treeDir
}

// lop is one operation on a Locale or on the package.
type lop struct {
	K   string `json:"k"`
	Dom string `json:"dom,omitempty"`
	Lib int    `json:"lib,omitempty"`
	Arg string `json:"arg,omitempty"`
	Y   bool   `json:"y,omitempty"`
}

type localeCase struct {
	Pkg     bool     `json:"pkg,omitempty"`  // looked up through the package functions
	Init    []string `json:"init,omitempty"` // domains loaded at the start
	Threads [][]lop  `json:"threads"`
}

var localeKinds = []string{"AddTranslator", "AddTranslator", "AddDomain", "SetDomain", "GetD", "GetD", "GetD", "Is", "Get", "GetNDC", "GetDomain", "List", "Marshal", "Set", "GetE", "GetE", "GetX"}
var packageKinds = []string{"AddTranslator", "GetD", "GetD", "GetD", "Is", "Get", "GetNDC", "GetDomain", "Set", "GetE", "GetE"}

func genLocaleCase(t *rapid.T) localeCase {
	c := localeCase{Pkg: rapid.Bool().Draw(t, "pkg")}
	for _, d := range []string{"f0", "f1", "f2"} {
		if rapid.Bool().Draw(t, "init") {
			c.Init = append(c.Init, d)
		}
	}
	kinds := localeKinds
	if c.Pkg {
		kinds = packageKinds
	}
	for g, n := 0, rapid.IntRange(2, 5).Draw(t, "goroutines"); g < n; g++ {
		ks := kinds
		if rapid.Bool().Draw(t, "focus") {
			ks = rapid.SliceOfN(rapid.SampledFrom(kinds), 1, 2).Draw(t, "kinds")
		}
		var ops []lop
		for i, m := 0, rapid.IntRange(1, 15).Draw(t, "nops"); i < m; i++ {
			ops = append(ops, lop{K: rapid.SampledFrom(ks).Draw(t, "k"), Dom: rapid.SampledFrom([]string{"f0", "f1", "f2", "f2"}).Draw(t, "dom"), Y: rapid.IntRange(0, 4).Draw(t, "y") == 0})
		}
		c.Threads = append(c.Threads, ops)
	}
	return c
}

// run lets goroutines attach in-memory domains, edit one of them, load files and look
// up. AddDomain never touches a domain that AddTranslator is used on (f2) unless
// the lookup itself loads it.
func (c *localeCase) run() error {
	const lang = "pt_BR"
	l := gotext.NewLocale(tree()+"/lib0", lang)
	for _, d := range c.Init {
		l.AddDomain(d)
	}
	l.SetDomain("f0")
	edited := gotext.NewPo()
	l.AddTranslator("e", edited)
	if c.Pkg {
		gotext.SetLocales([]*gotext.Locale{l})
		defer gotext.SetLocales([]*gotext.Locale{gotext.NewLocale("/nonexistent", "xx")})
	}
	loaded := func(d string) bool {
		for _, x := range c.Init {
			if x == d {
				return true
			}
		}
		return c.Pkg
	}
	getD := func(dom, id string) string {
		if c.Pkg {
			return gotext.GetD(dom, id)
		}
		return l.GetD(dom, id)
	}
	all := make([][]rec, len(c.Threads))
	var fs []func() error
	for g := range c.Threads {
		fs = append(fs, func() error {
			rs := make([]rec, 0, 256)
			defer func() { all[g] = rs }()
			for i, o := range c.Threads[g] {
				if o.Y {
					runtime.Gosched()
				}
				tag := fmt.Sprintf("g%d.%d", g, i)
				s := now()
				acc := func(reg, val string, write bool) { rs = append(rs, rec{reg, val, write, s, now()}) }
				switch o.K {
				case "AddTranslator":
					po := gotext.NewPo()
					po.Set("which", tag)
					po.SetC("which", "c", tag)
					po.SetNC("which", "whiches", "c", 5, tag)
					s = now()
					l.AddTranslator("f2", po)
					acc("dom|f2", tag, true)
				case "AddDomain":
					d := o.Dom
					if d == "f2" {
						d = "f1"
					}
					l.AddDomain(d)
					acc("load|"+d, "loaded", true)
				case "SetDomain":
					l.SetDomain(o.Dom)
					acc("default", o.Dom, true)
				case "GetDomain":
					if c.Pkg {
						if d := gotext.GetDomain(); d != "f0" {
							return fmt.Errorf("GetDomain() = %q, want f0", d)
						}
					} else {
						acc("default", l.GetDomain(), false)
					}
				case "GetD":
					acc("dom|"+o.Dom, getD(o.Dom, "which"), false)
				case "GetNDC":
					if c.Pkg {
						acc("dom|"+o.Dom, strings.TrimSuffix(gotext.GetNDC(o.Dom, "which", "whiches", 5, "c"), "es"), false)
					} else {
						acc("dom|"+o.Dom, strings.TrimSuffix(l.GetNDC(o.Dom, "which", "whiches", 5, "c"), "es"), false)
					}
				case "Is":
					var is bool
					if c.Pkg {
						is = gotext.IsTranslatedD(o.Dom, "which", "pt_BR")
					} else {
						is = l.IsTranslatedDC(o.Dom, "which", "c")
					}
					acc("is|"+o.Dom, fmt.Sprint(is), false)
				case "Get":
					var got string
					if c.Pkg {
						got = gotext.Get("which")
					} else {
						got = l.Get("which")
					}
					if c.Pkg {
						acc("dom|f0", got, false)
					}
				case "GetX":
					if got := l.GetND("nowhere", "a", "b", 3); got != "b" {
						return fmt.Errorf("lookup in a missing domain: %q", got)
					}
				case "Set":
					edited.Set("e", tag)
					acc("edit", tag, true)
				case "GetE":
					acc("edit", getD("e", "e"), false)
				case "List":
					m := l.GetTranslations()
					for _, d := range c.Init {
						if d != "f2" && m["only "+d] == nil {
							return fmt.Errorf("listing of the locale misses domain %s", d)
						}
					}
					ruin(m, i)
				case "Marshal":
					data, err := l.MarshalBinary()
					if err != nil {
						return err
					}
					e := now()
					r := new(gotext.Locale)
					if err := r.UnmarshalBinary(data); err != nil {
						return fmt.Errorf("decoding a concurrent MarshalBinary: %w", err)
					}
					for _, d := range []string{"f0", "f1", "f2"} {
						rs = append(rs, rec{"dom|" + d, r.GetD(d, "which"), false, s, e})
					}
					rs = append(rs, rec{"default", r.GetDomain(), false, s, e}, rec{"edit", r.GetD("e", "e"), false, s, e})
				}
			}
			return nil
		})
	}
	if err := parallel(fs...); err != nil {
		return err
	}
	by := map[string][]rec{}
	s := now()
	fin := func(reg, val string) { by[reg] = append(by[reg], rec{reg, val, false, s, now()}) }
	for _, r := range all {
		for _, x := range r {
			by[x.Reg] = append(by[x.Reg], x)
		}
	}
	// what is left behind
	for _, d := range []string{"f0", "f1", "f2"} {
		fin("dom|"+d, getD(d, "which"))
	}
	fin("edit", getD("e", "e"))
	if !c.Pkg {
		fin("default", l.GetDomain())
	}
	const never = -1 << 40
	with := func(reg, val string) []rec { return append(by[reg], rec{reg, val, true, never, never}) }
	if err := checkRegister("edit", with("edit", "e")); err != nil {
		return err
	}
	if err := checkLoose("default domain", with("default", "f0")); err != nil {
		return err
	}
	for _, d := range []string{"f0", "f1", "f2"} {
		file := whichText("lib0", lang, d)
		init := "which"
		if loaded(d) {
			init = file
		}
		h := with("dom|"+d, init)
		for _, x := range by["load|"+d] {
			x.Val = file
			h = append(h, x)
		}
		check := checkRegister
		if d != "f2" {
			check = checkLoose
		}
		if err := check("domain "+d, h); err != nil {
			return err
		}
		for _, q := range by["is|"+d] {
			may, must := loaded(d), loaded(d)
			for _, w := range h {
				if w.Write && w.S >= 0 {
					may = may || w.S <= q.E
					must = must || w.E < q.S
				}
			}
			if q.Val == "true" && !may || q.Val == "false" && must {
				return fmt.Errorf("IsTranslated in domain %s: %v, which no order of the operations explains", d, q)
			}
		}
	}
	return nil
}

func TestC23_Locale(t *testing.T) {
	core.Run(t, core.Prop[localeCase]{
		ID: "C23", Checks: 4000, ReplayRuns: 500, ThoroughFactor: 15,
		Rule: "2-5 goroutines on one Locale, directly or through the package functions: in-memory domains attached, files loaded and reloaded (by AddDomain or lazily by the lookup), default domain changed, an attached Po edited, lookups, listings, serialisation; every value must be explained by an order of the operations and the final state must be that of the last changes; non-trivial: something is changed and something looked up",
		Gen:  genLocaleCase,
		Check: func(ctx *core.Ctx, c localeCase) error {
			ctx.LabelIf(c.Pkg, "through the package")
			ctx.LabelIf(!c.Pkg, "on the Locale")
			w, r := false, false
			for _, ops := range c.Threads {
				for _, o := range ops {
					switch o.K {
					case "AddTranslator", "AddDomain", "SetDomain", "Set":
						w = true
					default:
						r = true
					}
				}
			}
			ctx.NonTrivial(w && r)
			for i := 0; i < 3; i++ {
				if err := c.run(); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

type setterCase struct {
	Threads [][]lop `json:"threads"`
}

var setterKinds = []string{"SetLanguage", "SetDomain", "SetLibrary", "Configure", "SetLocales", "Get", "Get", "Get", "GetD", "GetD", "GetNDC", "GetN", "Is", "GetLanguage", "GetLanguages", "GetDomain", "GetLibrary", "GetLocales", "GetStorage", "IsN"}

func TestC23_Setters(t *testing.T) {
	core.Run(t, core.Prop[setterCase]{
		ID: "C23", Checks: 3000, ReplayRuns: 300, ThoroughFactor: 15,
		Rule: "2-5 goroutines calling setters, getters, lookups and IsTranslated of the package at once, over a tree in which every library, language and domain has its own text; every answer must be explained by settings that were in force during the call, and the final lookups must be those of the final settings; non-trivial: 2+ setter calls and a lookup",
		Gen: func(t *rapid.T) setterCase {
			var c setterCase
			for g, n := 0, rapid.IntRange(2, 5).Draw(t, "goroutines"); g < n; g++ {
				ks := setterKinds
				if rapid.Bool().Draw(t, "focus") {
					ks = rapid.SliceOfN(rapid.SampledFrom(setterKinds), 1, 2).Draw(t, "kinds")
				}
				var ops []lop
				for i, m := 0, rapid.IntRange(1, 12).Draw(t, "nops"); i < m; i++ {
					ops = append(ops, lop{K: rapid.SampledFrom(ks).Draw(t, "k"), Dom: rapid.SampledFrom([]string{"f0", "f1", "f2"}).Draw(t, "dom"), Lib: rapid.IntRange(0, 1).Draw(t, "lib"),
						Arg: rapid.SampledFrom([]string{"de", "fr", "pt_BR", "fr:de", "xx:de", "pt_BR:xx"}).Draw(t, "arg"), Y: rapid.IntRange(0, 4).Draw(t, "y") == 0})
				}
				c.Threads = append(c.Threads, ops)
			}
			return c
		},
		Check: func(ctx *core.Ctx, c setterCase) error {
			sets, gets := 0, 0
			for _, ops := range c.Threads {
				for _, o := range ops {
					switch o.K {
					case "SetLanguage", "SetDomain", "SetLibrary", "Configure", "SetLocales":
						sets++
						ctx.Label("has %s", o.K)
					case "Get", "GetD", "GetNDC", "GetN", "Is":
						gets++
					}
				}
			}
			ctx.NonTrivial(sets >= 2 && gets >= 1)
			for i := 0; i < 3; i++ {
				if err := c.run(); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

// effective is the language that answers for a list of languages in the tree.
func effective(list string) string {
	for _, l := range strings.Split(list, ":") {
		if l != "xx" {
			return l
		}
	}
	return ""
}

func (c *setterCase) run() error {
	lib := func(i int) string { return fmt.Sprintf("%s/lib%d", tree(), i) }
	gotext.Configure(lib(0), "de", "f0")
	defer gotext.SetLocales([]*gotext.Locale{gotext.NewLocale("/nonexistent", "xx")})
	all := make([][]rec, len(c.Threads))
	var fs []func() error
	for g := range c.Threads {
		fs = append(fs, func() error {
			rs := make([]rec, 0, 256)
			defer func() { all[g] = rs }()
			for i, o := range c.Threads[g] {
				if o.Y {
					runtime.Gosched()
				}
				s := now()
				acc := func(reg, val string, write bool) { rs = append(rs, rec{reg, val, write, s, now()}) }
				// text records what a lookup tells about the settings.
				text := func(got string, dom bool) error {
					e := now()
					p := strings.Split(got, ".")
					if len(p) != 3 {
						return fmt.Errorf("operation %d.%d (%s): got %q, but every domain of every language has the text", g, i, o.K, got)
					}
					rs = append(rs, rec{"lib", tree() + "/" + p[0], false, s, e}, rec{"lang", p[1], false, s, e})
					if dom {
						rs = append(rs, rec{"dom", p[2], false, s, e})
					} else if p[2] != o.Dom {
						return fmt.Errorf("operation %d.%d: lookup in domain %s answered from %s", g, i, o.Dom, p[2])
					}
					return nil
				}
				var err error
				switch o.K {
				case "SetLanguage":
					gotext.SetLanguage(o.Arg)
					acc("lang", effective(o.Arg), true)
					acc("langs", o.Arg, true)
				case "SetDomain":
					gotext.SetDomain(o.Dom)
					acc("dom", o.Dom, true)
				case "SetLibrary":
					gotext.SetLibrary(lib(o.Lib))
					acc("lib", lib(o.Lib), true)
				case "Configure":
					gotext.Configure(lib(o.Lib), o.Arg, o.Dom)
					acc("lib", lib(o.Lib), true)
					acc("lang", effective(o.Arg), true)
					acc("langs", o.Arg, true)
					acc("dom", o.Dom, true)
				case "SetLocales":
					var ls []*gotext.Locale
					for _, x := range strings.Split(o.Arg, ":") {
						l := gotext.NewLocale(lib(o.Lib), x)
						l.SetDomain(o.Dom)
						ls = append(ls, l)
					}
					s = now()
					gotext.SetLocales(ls)
					acc("lib", lib(o.Lib), true)
					acc("lang", effective(o.Arg), true)
					acc("langs", o.Arg, true)
					acc("dom", o.Dom, true)
				case "Get":
					err = text(gotext.Get("which"), true)
				case "GetN":
					err = text(gotext.GetN("which", "which", 1), true)
				case "GetD":
					err = text(gotext.GetD(o.Dom, "which"), false)
				case "GetNDC":
					err = text(gotext.GetNDC(o.Dom, "which", "whiches", 7, "c"), false)
				case "Is":
					if !gotext.IsTranslatedD(o.Dom, "only "+o.Dom) {
						// a SetLanguage between the two steps of the query can hide the text
						rs = append(rs, rec{"hidden", "", false, s, now()})
					}
				case "IsN":
					if gotext.IsTranslatedNDC(o.Dom, "absent", 3, "c") {
						err = fmt.Errorf("IsTranslated of an absent text")
					}
				case "GetLanguage":
					acc("first", gotext.GetLanguage(), false)
				case "GetLanguages":
					acc("langs", strings.Join(gotext.GetLanguages(), ":"), false)
				case "GetDomain":
					acc("dom", gotext.GetDomain(), false)
				case "GetLibrary":
					acc("lib", gotext.GetLibrary(), false)
				case "GetLocales":
					n := 0
					for _, l := range gotext.GetLocales() {
						if l.GetLanguage() != "xx" && l.GetActualLanguage(o.Dom) != l.GetLanguage() {
							err = fmt.Errorf("Locale %s says its actual language is %q", l.GetLanguage(), l.GetActualLanguage(o.Dom))
						}
						n++
					}
					if n == 0 {
						err = fmt.Errorf("GetLocales() is empty")
					}
				case "GetStorage":
					if l := gotext.GetStorage(); l == nil {
						err = fmt.Errorf("GetStorage() is nil")
					}
				}
				if err != nil {
					return err
				}
			}
			return nil
		})
	}
	if err := parallel(fs...); err != nil {
		return err
	}
	const never = -1 << 40
	rs := []rec{{"lib", lib(0), true, never, never}, {"lang", "de", true, never, never}, {"langs", "de", true, never, never}, {"dom", "f0", true, never, never}}
	for _, r := range all {
		rs = append(rs, r...)
	}
	var hist, langWrites, hidden []rec
	for _, r := range rs {
		switch {
		case r.Reg == "first":
		case r.Reg == "hidden":
			hidden = append(hidden, r)
			continue
		case r.Reg == "langs" && r.Write:
			langWrites = append(langWrites, r)
			hist = append(hist, rec{"first", strings.Split(r.Val, ":")[0], true, r.S, r.E})
		}
		hist = append(hist, r)
	}
	if err := checkAllRegisters(hist, checkLoose); err != nil {
		return err
	}
	for _, q := range hidden {
		busy := false
		for _, w := range langWrites {
			busy = busy || w.S <= q.E && q.S <= w.E
		}
		if !busy {
			return fmt.Errorf("IsTranslated of a text that every language has is false (%v) while no language was being set", q)
		}
	}
	// the final state is that of one configuration
	dom, langs, path := gotext.GetDomain(), gotext.GetLanguages(), gotext.GetLibrary()
	s, e := now(), now()
	for _, r := range []rec{{"lib", path, false, s, e}, {"langs", strings.Join(langs, ":"), false, s, e}, {"dom", dom, false, s, e}} {
		var h []rec
		for _, x := range rs {
			if x.Reg == r.Reg && x.Write {
				h = append(h, x)
			}
		}
		if err := checkLoose("final "+r.Reg, append(h, r)); err != nil {
			return err
		}
	}
	base := path[strings.LastIndex(path, "/")+1:]
	want := whichText(base, effective(strings.Join(langs, ":")), dom)
	if got := gotext.Get("which"); got != want {
		return fmt.Errorf("after all goroutines finished, the settings are library %s, languages %q, domain %q, but Get answers %q, want %q", base, langs, dom, got, want)
	}
	var ls []string
	for _, l := range gotext.GetLocales() {
		ls = append(ls, l.GetLanguage())
		if l.GetDomain() != dom {
			return fmt.Errorf("after all goroutines finished, the domain is %q, but that of Locale %s is %q", dom, l.GetLanguage(), l.GetDomain())
		}
	}
	if !reflect.DeepEqual(ls, langs) {
		return fmt.Errorf("after all goroutines finished, the languages are %q, but the Locales are %q", langs, ls)
	}
	for _, d := range []string{"f0", "f1", "f2"} {
		if got, want := gotext.GetNDC(d, "which", "whiches", 1, "c"), whichText(base, effective(strings.Join(langs, ":")), d); got != want {
			return fmt.Errorf("after all goroutines finished, domain %s answers %q, want %q", d, got, want)
		}
	}
	return nil
}

type decodeCase struct {
	Threads [][]lop `json:"threads"`
}

var decodeKinds = []string{"Decode", "Decode", "GetLanguage", "GetDomain", "GetD", "GetNDC", "Get", "Is", "Marshal", "List", "AddDomain", "Actual", "SetLocales"}

// Decoding replaces a Locale as a whole while others use it.
func TestC23_Decode(t *testing.T) {
	core.Run(t, core.Prop[decodeCase]{
		ID: "C23", Checks: 1500, ReplayRuns: 300, ThoroughFactor: 15,
		Rule: "2-5 goroutines decoding into and using one Locale; language, default domain, texts, listings and encodings must be those of one decoded state, in some order of the calls; non-trivial: something is decoded and something read",
		Gen: func(t *rapid.T) decodeCase {
			var c decodeCase
			for g, n := 0, rapid.IntRange(2, 5).Draw(t, "goroutines"); g < n; g++ {
				ks := decodeKinds
				if rapid.Bool().Draw(t, "focus") {
					ks = rapid.SliceOfN(rapid.SampledFrom(decodeKinds), 1, 2).Draw(t, "kinds")
				}
				var ops []lop
				for i, m := 0, rapid.IntRange(1, 12).Draw(t, "nops"); i < m; i++ {
					ops = append(ops, lop{K: rapid.SampledFrom(ks).Draw(t, "k"), Y: rapid.IntRange(0, 4).Draw(t, "y") == 0})
				}
				c.Threads = append(c.Threads, ops)
			}
			return c
		},
		Check: func(ctx *core.Ctx, c decodeCase) error {
			w, r := false, false
			for _, ops := range c.Threads {
				for _, o := range ops {
					if o.K == "Decode" {
						w = true
					} else {
						r = true
					}
				}
			}
			ctx.NonTrivial(w && r)
			for i := 0; i < 3; i++ {
				if err := c.run(); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

// taggedLocale is a locale all parts of which carry a tag.
func taggedLocale(tag string) ([]byte, error) {
	l := gotext.NewLocale("/nonexistent", "l"+tag)
	for _, d := range []string{"a", "dom-" + tag} {
		po := gotext.NewPo()
		po.Set("state "+d, tag)
		po.Set("state", tag)
		po.SetNC("state", "states", "c", 5, tag)
		l.AddTranslator(d, po)
	}
	l.SetDomain("dom-" + tag)
	return l.MarshalBinary()
}

func (c *decodeCase) run() error {
	l := new(gotext.Locale)
	defer gotext.SetLocales([]*gotext.Locale{gotext.NewLocale("/nonexistent", "xx")})
	first, err := taggedLocale("start")
	if err != nil {
		return err
	}
	if err := l.UnmarshalBinary(first); err != nil {
		return err
	}
	all := make([][]rec, len(c.Threads))
	var fs []func() error
	for g := range c.Threads {
		blobs := map[int][]byte{}
		for i, o := range c.Threads[g] {
			if o.K == "Decode" {
				if blobs[i], err = taggedLocale(fmt.Sprintf("g%dx%d", g, i)); err != nil {
					return err
				}
			}
		}
		fs = append(fs, func() error {
			rs := make([]rec, 0, 256)
			defer func() { all[g] = rs }()
			for i, o := range c.Threads[g] {
				if o.Y {
					runtime.Gosched()
				}
				s := now()
				acc := func(val string, write bool) { rs = append(rs, rec{"state", val, write, s, now()}) }
				switch o.K {
				case "Decode":
					if err := l.UnmarshalBinary(blobs[i]); err != nil {
						return fmt.Errorf("UnmarshalBinary: %w", err)
					}
					acc(fmt.Sprintf("g%dx%d", g, i), true)
				case "GetLanguage":
					acc(strings.TrimPrefix(l.GetLanguage(), "l"), false)
				case "GetDomain":
					acc(strings.TrimPrefix(l.GetDomain(), "dom-"), false)
				case "GetD":
					acc(l.GetD("a", "state"), false)
				case "GetNDC":
					acc(l.GetNDC("a", "state", "states", 5, "c"), false)
				case "Get":
					l.Get("state") // asks for the default domain, then looks up
				case "Is":
					if !l.IsTranslatedD("a", "state") || !l.IsTranslatedNDC("a", "state", 5, "c") {
						return fmt.Errorf("IsTranslated is false in a domain that is always there")
					}
				case "Actual":
					l.GetActualLanguage("a")
				case "AddDomain":
					l.AddDomain("missing")
				case "SetLocales":
					gotext.SetLocales([]*gotext.Locale{l, l})
					if ls := gotext.GetLanguages(); len(ls) != 2 || !strings.HasPrefix(ls[0], "l") || !strings.HasPrefix(gotext.GetDomain(), "dom-") {
						return fmt.Errorf("after SetLocales the languages are %q and the domain is %q", ls, gotext.GetDomain())
					}
				case "List":
					m := l.GetTranslations()
					if m["state a"] == nil {
						return fmt.Errorf("the listing misses a domain that is always there")
					}
					acc(m["state a"].Trs[0], false)
				case "Marshal":
					data, err := l.MarshalBinary()
					if err != nil {
						return err
					}
					e := now()
					r := new(gotext.Locale)
					if err := r.UnmarshalBinary(data); err != nil {
						return fmt.Errorf("decoding a concurrent MarshalBinary: %w", err)
					}
					tag := r.GetD("a", "state")
					if r.GetLanguage() != "l"+tag || r.GetDomain() != "dom-"+tag || r.Get("state") != tag {
						return fmt.Errorf("the encoding mixes states: language %q, default domain %q, texts %q and %q", r.GetLanguage(), r.GetDomain(), tag, r.Get("state"))
					}
					rs = append(rs, rec{"state", tag, false, s, e})
				}
			}
			return nil
		})
	}
	if err := parallel(fs...); err != nil {
		return err
	}
	const never = -1 << 40
	h := []rec{{"state", "start", true, never, never}}
	for _, rs := range all {
		h = append(h, rs...)
	}
	s := now()
	tag := l.GetD("a", "state")
	if l.GetLanguage() != "l"+tag || l.GetDomain() != "dom-"+tag || l.Get("state") != tag {
		return fmt.Errorf("the locale mixes states: language %q, default domain %q, texts %q and %q", l.GetLanguage(), l.GetDomain(), tag, l.Get("state"))
	}
	h = append(h, rec{"state", tag, false, s, now()})
	return checkRegister("state", h)
}
