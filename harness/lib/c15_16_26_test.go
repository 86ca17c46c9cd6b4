package lib

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"testing/fstest"
	"unicode"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// tree is a set of files below a library directory; content nil is a directory.
type treeFile struct {
	Path string `json:"p"` // relative to the library
	// Kind: po, mo, dir, dangling, link (to another file), unreadable (a directory entry that cannot be read as file)
	Kind string `json:"k"`
	// Tag is the translation of "which" in this file.
	Tag string `json:"t"`
}

func (f treeFile) data() []byte {
	c := &cat.Cat{Headers: []cat.KV{{K: "Language", V: "xx"}}, Entries: []cat.Entry{{ID: "which", Forms: []cat.Form{{I: 0, S: f.Tag}}}}}
	if strings.HasSuffix(f.Path, ".mo") {
		return cat.WriteMO(c, cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}})
	}
	return []byte(cat.WritePlain(c))
}

func (f treeFile) put(dir string) {
	switch f.Kind {
	case "dir":
		if err := os.MkdirAll(filepath.Join(dir, f.Path), 0o755); err != nil {
			panic("harness: " + err.Error())
		}
	case "dangling":
		symlink("nowhere", dir, f.Path)
	case "link":
		put(dir, "links/"+f.Tag, f.data())
		abs, _ := filepath.Abs(filepath.Join(dir, "links", f.Tag))
		symlink(abs, dir, f.Path)
	default:
		put(dir, f.Path, f.data())
	}
}

// putFS adds the file to a map file system below prefix.
func (f treeFile) putFS(m fstest.MapFS, prefix string) {
	p := f.Path
	if prefix != "" {
		p = prefix + "/" + p
	}
	switch f.Kind {
	case "dir":
		m[p] = &fstest.MapFile{Mode: fs.ModeDir | 0o755}
	case "dangling":
	default:
		m[p] = &fstest.MapFile{Data: f.data(), Mode: 0o644}
	}
}

// candidates are the files that a domain can come from, in order.
func candidates(lang, dom string) []struct{ path, lang string } {
	base := ""
	if i := strings.IndexAny(lang, "_-"); i > 0 {
		base = lang[:i]
	}
	var cs []struct{ path, lang string }
	for _, ext := range []string{".po", ".mo"} {
		for _, sub := range []string{"LC_MESSAGES/", ""} {
			for _, l := range []string{lang, base} {
				if l != "" {
					cs = append(cs, struct{ path, lang string }{l + "/" + sub + dom + ext, l})
				}
			}
		}
	}
	return cs
}

type precCase struct {
	Lang  string     `json:"lang"`
	Name  string     `json:"name"` // as given to NewLocale
	Doms  []string   `json:"doms"`
	Files []treeFile `json:"files"`
	// Then files that are added or removed before adding the domains again.
	Add    []treeFile `json:"add"`
	Remove []int      `json:"remove"`
	FS     string     `json:"fs"` // os, fs, sub
	SetDom int        `json:"setdom"`
}

func genTreeFiles(t *rapid.T, lang string, doms []string, tag string, density int) []treeFile {
	var fs []treeFile
	for _, d := range doms {
		for i, c := range candidates(lang, d) {
			if rapid.IntRange(0, 9).Draw(t, "exists") >= density {
				continue
			}
			k := rapid.SampledFrom([]string{"file", "file", "file", "file", "dir", "dangling", "link"}).Draw(t, "kind")
			fs = append(fs, treeFile{c.path, k, fmt.Sprintf("%s%d of %s", tag, i, d)})
		}
		// decoys: near names that must not be used
		for _, p := range []string{lang + "/LC_MESSAGES/" + d, lang + "/" + d + ".po.bak", lang + "/" + d + ".pot", "xx/" + d + ".po", d + ".po", lang + "/lc_messages/" + d + ".po", lang + "/LC_MESSAGES/" + d + "x.po", lang + "x/" + d + ".po", strings.ToLower(lang) + "/" + d + ".pO"} {
			if rapid.IntRange(0, 9).Draw(t, "decoy") == 0 && strings.ToLower(lang) != lang || rapid.IntRange(0, 19).Draw(t, "decoy2") == 0 {
				fs = append(fs, treeFile{p, "file", "decoy"})
			}
		}
	}
	return fs
}

func genPrec(t *rapid.T) precCase {
	var c precCase
	c.Lang = rapid.SampledFrom([]string{"de_DE", "de", "pt-BR", "fil_PH", "zh_Hant_TW", "sr_RS-x", "C", "en_US", "tlh", "_x", "haw-US"}).Draw(t, "lang")
	c.Name = c.Lang
	if rapid.IntRange(0, 3).Draw(t, "suffix") == 0 {
		c.Name = " " + c.Lang + rapid.SampledFrom([]string{".UTF-8", "@latin", ":fr", ".UTF-8@euro"}).Draw(t, "suf")
	}
	c.Doms = rapid.SampledFrom([][]string{{"d"}, {"d", "default"}, {"messages", "d", "e"}, {"a.b", "a"}, {"org.x.App-2", "d"}, {"ns/app", "app"}, {"d.po", "d"}, {"my app", "é"}}).Draw(t, "doms")
	density := rapid.SampledFrom([]int{1, 2, 3, 5, 9}).Draw(t, "density")
	c.Files = genTreeFiles(t, c.Lang, c.Doms, "f", density)
	c.FS = rapid.SampledFrom([]string{"os", "os", "fs", "sub"}).Draw(t, "fs")
	if rapid.Bool().Draw(t, "again") {
		c.Add = genTreeFiles(t, c.Lang, c.Doms, "second ", density)
		for i := range c.Files {
			if rapid.IntRange(0, 2).Draw(t, "rm") == 0 {
				c.Remove = append(c.Remove, i)
			}
		}
	}
	c.SetDom = rapid.IntRange(-1, len(c.Doms)-1).Draw(t, "setdom")
	return c
}

// world is a tree on disk or in a map file system.
type world struct {
	kind  string
	dir   string
	m     fstest.MapFS
	files map[string]treeFile
}

func (w *world) prefix() string {
	if w.kind == "sub" {
		return "deep/lib"
	}
	return ""
}

func (w *world) add(f treeFile) {
	// a file and a directory cannot share a path with another file's parent here
	if _, ok := w.files[f.Path]; ok {
		w.remove(f.Path)
	}
	w.files[f.Path] = f
	if w.kind == "os" {
		f.put(w.dir)
	} else {
		f.putFS(w.m, w.prefix())
	}
}

func (w *world) remove(p string) {
	if _, ok := w.files[p]; !ok {
		return
	}
	delete(w.files, p)
	if w.kind == "os" {
		os.RemoveAll(filepath.Join(w.dir, p))
	} else if w.prefix() != "" {
		delete(w.m, w.prefix()+"/"+p)
	} else {
		delete(w.m, p)
	}
}

func (w *world) locale(name string) *gotext.Locale {
	switch w.kind {
	case "fs":
		return gotext.NewLocaleFS(name, w.m)
	case "sub":
		return gotext.NewLocaleFSWithPath(name, w.m, w.prefix())
	}
	return gotext.NewLocale(w.dir, name)
}

// expect names the file a domain is loaded from, and the language directory it is in.
func (w *world) expect(lang, dom string) (tag, actual string, ok bool) {
	for _, c := range candidates(lang, dom) {
		if f, has := w.files[c.path]; has && f.Kind != "dir" && f.Kind != "dangling" {
			return f.Tag, c.lang, true
		}
	}
	return "", "", false
}

func TestC15_Precedence(t *testing.T) {
	core.Run(t, core.Prop[precCase]{
		ID: "C15", Checks: 8000,
		Rule: "any subset of the 8 candidate files of 1-3 domains (as files, links, directories or dangling links) with decoys, on disk or in an fs.FS; AddDomain, GetActualLanguage and the default domain compared with the documented order, also after the tree changed and the domains were added again; non-trivial: 2+ candidate files",
		Gen:  genPrec,
		Check: func(ctx *core.Ctx, c precCase) error {
			ctx.Label("tree %s", c.FS)
			ctx.NonTrivial(len(c.Files) >= 2)
			w := &world{kind: c.FS, m: fstest.MapFS{}, files: map[string]treeFile{}}
			if c.FS == "os" {
				dir, clean := scratch()
				defer clean()
				w.dir = dir
			}
			for _, f := range c.Files {
				w.add(f)
			}
			l := w.locale(c.Name)
			if l.GetLanguage() != c.Lang {
				return fmt.Errorf("language is %q, want %q", l.GetLanguage(), c.Lang)
			}
			current := map[string]string{}
			def := ""
			step := func(when string) error {
				for i, d := range c.Doms {
					tag, actual, ok := w.expect(c.Lang, d)
					l.AddDomain(d)
					if ok {
						current[d] = tag
						if def == "" {
							def = d
						}
					}
					ctx.LabelIf(ok, "domain found")
					ctx.LabelIf(!ok, "domain not found")
					if got := l.GetActualLanguage(d); got != actual {
						return fmt.Errorf("%s: actual language of %q: got %q, want %q", when, d, got, actual)
					}
					want := current[d]
					if want == "" {
						want = "which"
					}
					if got := l.GetD(d, "which"); got != want {
						return fmt.Errorf("%s: domain %q: got the text %q, want %q", when, d, got, want)
					}
					_, has := current[d]
					if got := l.IsTranslatedD(d, "which"); got != has {
						return fmt.Errorf("%s: domain %q: IsTranslated %v, want %v", when, d, got, has)
					}
					if got := l.GetDomain(); got != def {
						return fmt.Errorf("%s: after adding %q the default domain is %q, want %q", when, d, got, def)
					}
					if want := current[def]; def != "" && want != "" && l.Get("which") != want {
						return fmt.Errorf("%s: default domain answers %q, want %q", when, l.Get("which"), want)
					}
					if i == c.SetDom {
						l.SetDomain(d)
						def = d
					}
				}
				return nil
			}
			if err := step("first"); err != nil {
				return err
			}
			if len(c.Add)+len(c.Remove) > 0 {
				ctx.Label("tree changes")
				for _, i := range c.Remove {
					w.remove(c.Files[i].Path)
				}
				for _, f := range c.Add {
					w.add(f)
				}
				return step("after the tree changed")
			}
			return nil
		},
	})
}

type nameCase struct {
	Names []string `json:"names"`
	Other string   `json:"other"`
}

// simplified is the documented simplification.
func simplified(s string) string {
	if i := strings.IndexAny(s, ":@."); i >= 0 {
		s = s[:i]
	}
	return strings.TrimFunc(s, unicode.IsSpace)
}

func genLocaleName(t *rapid.T) string {
	base := rapid.SampledFrom([]string{"de", "de_DE", "en_US", "pt_BR", "zh-Hant", "sr", "C", "POSIX", "fil_PH"}).Draw(t, "base")
	s := base
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nsuf"); i < n; i++ {
		s += rapid.SampledFrom([]string{".UTF-8", "@euro", "@latin", ".ISO-8859-1", " ", "\t", ".", "@", "@x.y", ".x@y", ".é"}).Draw(t, "suf")
	}
	return rapid.SampledFrom([]string{"", "", " ", "\t", "\u00a0"}).Draw(t, "lead") + s
}

func TestC16_Simplified(t *testing.T) {
	core.Run(t, core.Prop[nameCase]{
		ID: "C16", Checks: 30000,
		Rule: "SimplifiedLocale on arbitrary strings full of separators and blanks, against its definition and itself; non-trivial: a separator or blank is present",
		Gen: func(t *rapid.T) nameCase {
			var n string
			switch rapid.IntRange(0, 2).Draw(t, "k") {
			case 0:
				n = genLocaleName(t)
			case 1:
				n = strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{":", "@", ".", " ", "\t", "\n", "de", "DE", "_", "-", "é", "\u00a0", "\u2003", "\x00", "\xff", "UTF-8", "::", "/", "\\"}), 0, 8).Draw(t, "parts"), "")
			default:
				n = rapid.String().Draw(t, "any")
			}
			return nameCase{Names: []string{n}}
		},
		Check: func(ctx *core.Ctx, c nameCase) error {
			n := c.Names[0]
			ctx.NonTrivial(strings.ContainsAny(n, ":@. \t"))
			want := simplified(n)
			if got := gotext.SimplifiedLocale(n); got != want {
				return fmt.Errorf("SimplifiedLocale(%q) = %q, want %q", n, got, want)
			}
			if got := gotext.SimplifiedLocale(want); got != want {
				return fmt.Errorf("SimplifiedLocale(%q) = %q: not idempotent", want, got)
			}
			for name, l := range map[string]*gotext.Locale{"NewLocale": gotext.NewLocale("p", n), "NewLocaleFS": gotext.NewLocaleFS(n, fstest.MapFS{}), "NewLocaleFSWithPath": gotext.NewLocaleFSWithPath(n, fstest.MapFS{}, "p")} {
				if l.GetLanguage() != want {
					return fmt.Errorf("%s(%q).GetLanguage() = %q, want %q", name, n, l.GetLanguage(), want)
				}
			}
			return nil
		},
	})
}

func TestC16_EntryPoints(t *testing.T) {
	core.Run(t, core.Prop[nameCase]{
		ID: "C16", Checks: 3000,
		Rule: "lists of 1-4 decorated locale names given to Configure, SetLanguage, NewLocale and the IsTranslated language lists; getters, loaded files and answers must be those of the simplified names; non-trivial: a name differs from its simplified form",
		Gen: func(t *rapid.T) nameCase {
			var c nameCase
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "n"); i < n; i++ {
				c.Names = append(c.Names, genLocaleName(t))
			}
			c.Other = genLocaleName(t)
			return c
		},
		Check: func(ctx *core.Ctx, c nameCase) error {
			dir, clean := scratch()
			defer clean()
			m := fstest.MapFS{}
			var want []string
			for _, n := range append(append([]string{}, c.Names...), c.Other) {
				s := simplified(n)
				ctx.NonTrivial(s != n)
				f := treeFile{Path: s + "/LC_MESSAGES/d.po", Tag: "in " + s}
				f.put(dir)
				f.putFS(m, "")
				f.putFS(m, "sub/dir")
				want = append(want, s)
			}
			other := want[len(want)-1]
			want = want[:len(want)-1]
			check := func(how string) error {
				if got := gotext.GetLanguages(); !reflect.DeepEqual(got, want) {
					return fmt.Errorf("%s with %q: GetLanguages() = %q, want %q", how, c.Names, got, want)
				}
				if got := gotext.GetLanguage(); got != want[0] {
					return fmt.Errorf("%s with %q: GetLanguage() = %q, want %q", how, c.Names, got, want[0])
				}
				if got := gotext.Get("which"); got != "in "+want[0] {
					return fmt.Errorf("%s with %q: got %q from language %q", how, c.Names, got, want[0])
				}
				var ls []string
				for _, l := range gotext.GetLocales() {
					ls = append(ls, l.GetLanguage())
				}
				if !reflect.DeepEqual(ls, want) {
					return fmt.Errorf("%s with %q: locales of languages %q, want %q", how, c.Names, ls, want)
				}
				for _, n := range c.Names {
					for _, v := range []string{n, simplified(n), simplified(n) + ".UTF-8@x", " " + simplified(n)} {
						if !gotext.IsTranslated("which", v) || !gotext.IsTranslatedD("d", "which", v) || !gotext.IsTranslatedN("which", 1, v) || gotext.IsTranslatedC("which", "c", v) {
							return fmt.Errorf("%s with %q: IsTranslated for language %q is wrong", how, c.Names, v)
						}
					}
				}
				conf := false
				for _, s := range want {
					conf = conf || s == other
				}
				// a language that is the base of a configured one may be its actual language
				if got := gotext.IsTranslated("which", c.Other); got != conf {
					for _, s := range want {
						if strings.HasPrefix(s, other+"_") || strings.HasPrefix(s, other+"-") {
							conf = got
						}
					}
					if got != conf {
						return fmt.Errorf("%s with %q: IsTranslated for language %q is %v", how, c.Names, c.Other, got)
					}
				}
				return nil
			}
			gotext.Configure(dir, strings.Join(c.Names, ":"), "d")
			if err := check("Configure"); err != nil {
				return err
			}
			gotext.SetLanguage(c.Other)
			if got := gotext.Get("which"); got != "in "+other {
				return fmt.Errorf("SetLanguage(%q): got %q", c.Other, got)
			}
			gotext.SetLanguage(strings.Join(c.Names, ":"))
			if err := check("SetLanguage"); err != nil {
				return err
			}
			for i, n := range c.Names {
				for k, l := range []*gotext.Locale{gotext.NewLocale(dir, n), gotext.NewLocaleFS(n, m), gotext.NewLocaleFSWithPath(n, m, "sub/dir")} {
					l.AddDomain("d")
					if got := l.Get("which"); got != "in "+want[i] || l.GetLanguage() != want[i] || l.GetActualLanguage("d") != want[i] {
						return fmt.Errorf("locale constructor %d with %q: language %q, actual %q, text %q", k, n, l.GetLanguage(), l.GetActualLanguage("d"), got)
					}
				}
			}
			return nil
		},
	})
}

// errFS fails to open or read some files, as a disk would.
type errFS struct {
	fs.FS
	bad  map[string]string // path -> open, read, stat
	open map[string]int    // path -> files not closed yet
}

type errFile struct{ fs.File }

func (errFile) Read([]byte) (int, error) { return 0, errors.New("read error") }

// countedFile counts its Close.
type countedFile struct {
	fs.File
	e      errFS
	name   string
	closed bool
}

func (f *countedFile) Close() error {
	if !f.closed {
		f.closed = true
		f.e.open[f.name]--
	}
	return f.File.Close()
}

// left lists the files that were opened and not closed.
func (e errFS) left() []string {
	var l []string
	for n, k := range e.open {
		if k > 0 {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l
}

func (e errFS) Open(name string) (fs.File, error) {
	f, err := e.FS.Open(name)
	if err != nil {
		return nil, err
	}
	e.open[name]++
	c := &countedFile{File: f, e: e, name: name}
	if e.bad[name] != "" {
		c.File = errFile{f}
	}
	return c, nil
}

// failOpen lets Stat succeed and ReadFile fail.
type statFS struct{ errFS }

func (s statFS) Stat(name string) (fs.FileInfo, error) { return fs.Stat(s.FS, name) }
func (s statFS) ReadFile(name string) ([]byte, error) {
	if s.bad[name] != "" {
		return nil, errors.New("read error")
	}
	return fs.ReadFile(s.FS, name)
}

type sourceCase struct {
	Lang  string       `json:"lang"`
	Doms  []locDomain  `json:"doms"`
	Where []int        `json:"where"` // which of the candidate paths
	Bad   []string     `json:"bad"`   // kinds of unreadable paths tried on loaded objects
	Mo    cat.MoLayout `json:"mo"`
	Wrap  bool         `json:"wrap"` // an fs.FS that implements Stat and ReadFile itself
}

func TestC26_Sources(t *testing.T) {
	core.Run(t, core.Prop[sourceCase]{
		ID: "C26", Checks: 2500,
		Rule: "a tree of PO and MO catalogues read from the operating system, from an fs.FS at its root and from an fs.FS below a path, through Locale, Po and Mo; then unreadable paths (missing, directory, failing reads, dangling link) are loaded into loaded objects; non-trivial: 2+ domains or 2+ entries",
		Gen: func(t *rapid.T) sourceCase {
			c := sourceCase{Lang: rapid.SampledFrom([]string{"de_DE", "fr", "pt-BR"}).Draw(t, "lang"), Mo: cat.GenMoLayout(t), Wrap: rapid.Bool().Draw(t, "wrap")}
			c.Mo.Empty = true
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nd"); i < n; i++ {
				d := locDomain{Name: []string{"d", "default", "sub-dom.x"}[i], Kind: rapid.SampledFrom([]string{"po", "mo"}).Draw(t, "kind")}
				d.Cat = cat.GenCat(t, cat.Opts{NoRefs: true, MaxEntries: 4, Sparse: true, Small: rapid.Bool().Draw(t, "small")})
				c.Doms = append(c.Doms, d)
				c.Where = append(c.Where, rapid.IntRange(0, 3).Draw(t, "where"))
			}
			c.Bad = rapid.SliceOfN(rapid.SampledFrom([]string{"missing", "dir", "unreadable", "dangling", "badname", "empty name"}), 1, 3).Draw(t, "bad")
			return c
		},
		Check: checkSources,
	})
}

func checkSources(ctx *core.Ctx, c sourceCase) error {
	ctx.NonTrivial(len(c.Doms) >= 2 || len(c.Doms[0].Cat.Entries) >= 2)
	dir, clean := scratch()
	defer clean()
	m := fstest.MapFS{}
	bad := map[string]string{}
	paths := map[string]string{}
	for i := range c.Doms {
		d := &c.Doms[i]
		var cs []string
		for _, x := range candidates(c.Lang, d.Name) {
			if strings.HasSuffix(x.path, "."+d.Kind) {
				cs = append(cs, x.path)
			}
		}
		p := cs[c.Where[i]%len(cs)]
		data := []byte(cat.WritePlain(d.Cat))
		if d.Kind == "mo" {
			data = cat.WriteMO(d.Cat, c.Mo)
		}
		put(dir, p, data)
		m[p] = &fstest.MapFile{Data: data}
		m["x/y/"+p] = &fstest.MapFile{Data: data}
		paths[d.Name] = p
	}
	// unreadable things
	put(dir, "adir.po/inner", []byte("x"))
	m["adir.po/inner"] = &fstest.MapFile{Data: []byte("x")}
	symlink("nowhere", dir, "dangling.po")
	m["broken.po"] = &fstest.MapFile{Data: []byte("msgid \"a\"\nmsgstr \"b\"\n")}
	bad["broken.po"] = "read"
	efs := errFS{m, bad, map[string]int{}}
	var fsys fs.FS = efs
	if c.Wrap {
		fsys = statFS{efs}
	}
	sub, err := fs.Sub(m, "x/y")
	if err != nil {
		panic("harness: " + err.Error())
	}
	locs := map[string]*gotext.Locale{
		"os": gotext.NewLocale(dir, c.Lang), "fs": gotext.NewLocaleFS(c.Lang, fsys), "fs below a path": gotext.NewLocaleFSWithPath(c.Lang, fsys, "x/y"),
		"os.DirFS": gotext.NewLocaleFS(c.Lang, os.DirFS(dir)), "sub fs": gotext.NewLocaleFSWithPath(c.Lang, sub, ""),
	}
	var names []string
	for n := range locs {
		names = append(names, n)
	}
	sort.Strings(names)
	counts := []int{0, 1, 2, 5}
	check := func(when string) error {
		for _, n := range names {
			l := locs[n]
			for i := range c.Doms {
				d := &c.Doms[i]
				if err := cat.CheckAll(d.Cat, cat.LocaleLooker{L: l, D: d.Name}, counts); err != nil {
					return fmt.Errorf("%s: locale from %s, domain %q: %w", when, n, d.Name, err)
				}
			}
			if got := l.GetDomain(); got != c.Doms[0].Name {
				return fmt.Errorf("%s: locale from %s has default domain %q", when, n, got)
			}
			l.RLock()
			nd := len(l.Domains)
			l.RUnlock()
			if nd != len(c.Doms) {
				return fmt.Errorf("%s: locale from %s has %d domains, want %d", when, n, nd, len(c.Doms))
			}
		}
		return nil
	}
	for _, n := range names {
		for i := range c.Doms {
			d := &c.Doms[i]
			locs[n].AddDomain(d.Name)
			want := strings.SplitN(paths[d.Name], "/", 2)[0]
			if got := locs[n].GetActualLanguage(d.Name); got != want {
				return fmt.Errorf("locale from %s: actual language of %q is %q, want %q", n, d.Name, got, want)
			}
		}
	}
	if err := check("loaded"); err != nil {
		return err
	}
	// single objects
	type obj struct {
		name string
		l    gotext.Translator
		fs   string
		c    *cat.Cat
	}
	var objs []obj
	for i := range c.Doms {
		d := &c.Doms[i]
		p := paths[d.Name]
		if d.Kind == "po" {
			a, b, e := gotext.NewPo(), gotext.NewPoFS(fsys), gotext.NewPoFS(fsys)
			a.ParseFile(filepath.Join(dir, p))
			b.ParseFile(p)
			e.ParseFile("x/y/" + p)
			objs = append(objs, obj{"Po from os", a, "os", d.Cat}, obj{"Po from fs", b, "fs", d.Cat}, obj{"Po from fs below a path", e, "fs", d.Cat})
		} else {
			a, b, e := gotext.NewMo(), gotext.NewMoFS(fsys), gotext.NewMoFS(fsys)
			a.ParseFile(filepath.Join(dir, p))
			b.ParseFile(p)
			e.ParseFile("x/y/" + p)
			objs = append(objs, obj{"Mo from os", a, "os", d.Cat}, obj{"Mo from fs", b, "fs", d.Cat}, obj{"Mo from fs below a path", e, "fs", d.Cat})
		}
	}
	checkObjs := func(when string) error {
		for _, o := range objs {
			if err := cat.CheckAll(o.c, o.l.(cat.Looker), counts); err != nil {
				return fmt.Errorf("%s: %s: %w", when, o.name, err)
			}
			if err := checkHeaders(o.c, o.l.GetDomain().Headers); err != nil {
				return fmt.Errorf("%s: %s: %w", when, o.name, err)
			}
		}
		return nil
	}
	if err := checkObjs("loaded"); err != nil {
		return err
	}
	// unreadable paths leave everything as it is
	for _, kind := range c.Bad {
		ctx.Label("unreadable: %s", kind)
		for _, o := range objs {
			p := map[string]string{"missing": "missing.po", "dir": "adir.po", "unreadable": "broken.po", "dangling": "dangling.po", "badname": "../x\x00.po", "empty name": ""}[kind]
			if kind == "unreadable" && o.fs == "os" {
				p = "adir.po"
			}
			if o.fs == "os" && p != "" {
				p = dir + "/" + p
			}
			if err := safely("ParseFile of "+kind, func() { o.l.ParseFile(p) }); err != nil {
				return fmt.Errorf("%s: %w", o.name, err)
			}
		}
		if err := checkObjs("after loading an unreadable path (" + kind + ")"); err != nil {
			return err
		}
		// replace the domain's file by something unreadable and add it again
		for i := range c.Doms {
			d := &c.Doms[i]
			p := paths[d.Name]
			full := filepath.Join(dir, p)
			switch kind {
			case "dir":
				os.RemoveAll(full)
				os.MkdirAll(full, 0o755)
				for _, q := range []string{p, "x/y/" + p} {
					m[q] = &fstest.MapFile{Mode: fs.ModeDir | 0o755}
				}
			case "dangling":
				os.RemoveAll(full)
				os.Symlink("nowhere", full)
				delete(m, p)
				delete(m, "x/y/"+p)
			case "unreadable":
				os.RemoveAll(full)
				delete(m, p)
				delete(m, "x/y/"+p)
				m[p] = &fstest.MapFile{Data: []byte("msgid \"a\"\nmsgstr \"b\"\n")}
				m["x/y/"+p] = m[p]
				bad[p], bad["x/y/"+p] = "read", "read"
			default:
				os.RemoveAll(full)
				delete(m, p)
				delete(m, "x/y/"+p)
			}
			for _, n := range names {
				if n == "sub fs" && kind == "unreadable" {
					continue // reads the map directly
				}
				if err := safely("AddDomain with file "+kind, func() { locs[n].AddDomain(d.Name) }); err != nil {
					return fmt.Errorf("locale from %s: %w", n, err)
				}
				if err := safely("AddDomain", func() { locs[n].AddDomain("no such domain") }); err != nil {
					return fmt.Errorf("locale from %s: %w", n, err)
				}
			}
		}
		if err := check("after the files became unreadable (" + kind + ")"); err != nil {
			return err
		}
	}
	// what was read is closed again
	if l := efs.left(); len(l) > 0 {
		return fmt.Errorf("files of the fs.FS that were opened and not closed: %q", l)
	}
	if l := openBelow(dir); len(l) > 0 {
		return fmt.Errorf("files that are still open: %q", l)
	}
	return nil
}
