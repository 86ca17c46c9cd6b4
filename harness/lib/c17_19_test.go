package lib

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// pkgFile is a catalogue file of a library directory.
type pkgFile struct {
	Lib  int          `json:"lib"`
	Dir  string       `json:"dir"` // language directory
	Flat bool         `json:"flat,omitempty"`
	Dom  string       `json:"dom"`
	Kind string       `json:"kind"` // po, mo, none (removes it)
	Cat  *cat.Cat     `json:"cat"`
	Mo   cat.MoLayout `json:"mo"`
}

func (f *pkgFile) rel(kind string) string {
	p := f.Dir + "/"
	if !f.Flat {
		p += "LC_MESSAGES/"
	}
	return p + f.Dom + "." + kind
}

// pkgLocale describes a Locale given to SetLocales.
type pkgLocale struct {
	Lib     int         `json:"lib"`
	Lang    string      `json:"lang"`
	Mem     []locDomain `json:"mem,omitempty"`
	Default string      `json:"default,omitempty"`
	How     string      `json:"how,omitempty"` // "", fs, fspath, restored
}

// pkgQuery is one package lookup or IsTranslated query.
type pkgQuery struct {
	Is     bool      `json:"is,omitempty"`
	Dom    string    `json:"dom,omitempty"` // "" for the functions without domain
	Ctx    string    `json:"ctx,omitempty"`
	ID     string    `json:"id"`
	PlFn   bool      `json:"plfn,omitempty"`
	Plural string    `json:"pl,omitempty"`
	N      int       `json:"n,omitempty"`
	Args   []cat.Arg `json:"args,omitempty"`
	Langs  []string  `json:"langs,omitempty"`
}

// mlocale is the model of a configured Locale.
type mlocale struct {
	lib  string // where it finds its files
	rep  string // the path it was given
	lang string
	mem  map[string]*cat.Cat
}

// pstate is the model of the package configuration.
type pstate struct {
	libs  []string
	disk  map[string]*cat.Cat // absolute path -> catalogue
	lib   string
	langs []string
	dom   string
	locs  []mlocale
}

func (s *pstate) write(f *pkgFile) {
	for _, k := range []string{"po", "mo"} {
		p := filepath.Join(s.libs[f.Lib], f.rel(k))
		if f.Kind == k || f.Kind == "none" {
			os.Remove(p)
			delete(s.disk, p)
		}
	}
	if f.Kind == "none" {
		return
	}
	data := []byte(cat.WritePlain(f.Cat))
	if f.Kind == "mo" {
		data = cat.WriteMO(f.Cat, f.Mo)
	}
	put(s.libs[f.Lib], f.rel(f.Kind), data)
	s.disk[filepath.Join(s.libs[f.Lib], f.rel(f.Kind))] = f.Cat
}

func (l *mlocale) cat(s *pstate, dom string) (*cat.Cat, string) {
	actual := ""
	var c *cat.Cat
	for _, x := range candidates(l.lang, dom) {
		if f, ok := s.disk[filepath.Join(l.lib, x.path)]; ok {
			c, actual = f, x.lang
			break
		}
	}
	if m, ok := l.mem[dom]; ok {
		return m, actual
	}
	return c, actual
}

// rebuild is what every setter but SetLocales does.
func (s *pstate) rebuild() {
	s.locs = nil
	for _, l := range s.langs {
		s.locs = append(s.locs, mlocale{lib: s.lib, lang: l})
	}
}

func (s *pstate) setLangs(names string) {
	s.langs = nil
	for _, n := range strings.Split(names, ":") {
		s.langs = append(s.langs, simplified(n))
	}
}

// translated tells which text, if any, a catalogue has for a query.
func (q *pkgQuery) translated(c *cat.Cat) (string, bool) {
	if c == nil {
		return "", false
	}
	if q.PlFn {
		ok, tr := c.ExpGetN(q.Ctx, q.ID, q.Plural, q.N)
		return ok[0], tr
	}
	return c.ExpGet(q.Ctx, q.ID)
}

func sprint(text string, args []interface{}) string {
	if len(args) == 0 {
		return text
	}
	return fmt.Sprintf(text, args...)
}

// ask performs the query.
func (q *pkgQuery) ask() string {
	a := cat.Values(q.Args)
	if q.Is {
		var r bool
		switch {
		case q.Dom == "" && !q.PlFn && q.Ctx == "":
			r = gotext.IsTranslated(q.ID, q.Langs...)
		case q.Dom == "" && q.PlFn && q.Ctx == "":
			r = gotext.IsTranslatedN(q.ID, q.N, q.Langs...)
		case q.Dom == "" && !q.PlFn:
			r = gotext.IsTranslatedC(q.ID, q.Ctx, q.Langs...)
		case q.Dom == "":
			r = gotext.IsTranslatedNC(q.ID, q.N, q.Ctx, q.Langs...)
		case !q.PlFn && q.Ctx == "":
			r = gotext.IsTranslatedD(q.Dom, q.ID, q.Langs...)
		case q.PlFn && q.Ctx == "":
			r = gotext.IsTranslatedND(q.Dom, q.ID, q.N, q.Langs...)
		case !q.PlFn:
			r = gotext.IsTranslatedDC(q.Dom, q.ID, q.Ctx, q.Langs...)
		default:
			r = gotext.IsTranslatedNDC(q.Dom, q.ID, q.N, q.Ctx, q.Langs...)
		}
		return fmt.Sprint(r)
	}
	switch {
	case q.Dom == "" && !q.PlFn && q.Ctx == "":
		return gotext.Get(q.ID, a...)
	case q.Dom == "" && q.PlFn && q.Ctx == "":
		return gotext.GetN(q.ID, q.Plural, q.N, a...)
	case q.Dom == "" && !q.PlFn:
		return gotext.GetC(q.ID, q.Ctx, a...)
	case q.Dom == "":
		return gotext.GetNC(q.ID, q.Plural, q.N, q.Ctx, a...)
	case !q.PlFn && q.Ctx == "":
		return gotext.GetD(q.Dom, q.ID, a...)
	case q.PlFn && q.Ctx == "":
		return gotext.GetND(q.Dom, q.ID, q.Plural, q.N, a...)
	case !q.PlFn:
		return gotext.GetDC(q.Dom, q.ID, q.Ctx, a...)
	default:
		return gotext.GetNDC(q.Dom, q.ID, q.Plural, q.N, q.Ctx, a...)
	}
}

// want tells the acceptable answers to a query and the index of the answering
// language (-1: none).
func (s *pstate) want(q *pkgQuery) (ok []string, which int) {
	dom := q.Dom
	if dom == "" {
		dom = s.dom
	}
	which = -1
	if q.Is {
		for i := range s.locs {
			l := &s.locs[i]
			c, actual := l.cat(s, dom)
			named := len(q.Langs) == 0
			for _, n := range q.Langs {
				n = simplified(n)
				named = named || n == l.lang || n != "" && n == actual
			}
			if _, tr := q.translated(c); named && tr {
				return []string{"true"}, i
			}
		}
		return []string{"false"}, -1
	}
	text := ""
	var last *cat.Cat
	for i := range s.locs {
		last, _ = s.locs[i].cat(s, dom)
		if t, tr := q.translated(last); tr {
			which, text = i, t
			break
		}
	}
	switch {
	case which >= 0:
		ok = []string{text}
	case !q.PlFn:
		ok = []string{q.ID}
	default:
		var r *cat.Rule
		if last != nil {
			r = last.Rule
		}
		ok = cat.AbsentN(q.ID, q.Plural, q.N, r.Form(q.N))
	}
	args := cat.Values(q.Args)
	for i := range ok {
		ok[i] = sprint(ok[i], args)
	}
	return ok, which
}

// check compares a query with the model.
func (s *pstate) check(q *pkgQuery) (which int, err error) {
	ok, which := s.want(q)
	return which, s.compare(q, ok, q.ask())
}

func (s *pstate) compare(q *pkgQuery, ok []string, got string) error {
	for _, t := range ok {
		if got == t {
			return nil
		}
	}
	return fmt.Errorf("languages %q, domain %q: query %+v: got %s, want %s", s.langs, s.dom, *q, cat.Q(got), cat.Q(ok[len(ok)-1]))
}

// getters compares the package getters with the model.
func (s *pstate) getters() error {
	if got := gotext.GetLibrary(); got != s.lib {
		return fmt.Errorf("GetLibrary() = %q, want %q", got, s.lib)
	}
	if got := gotext.GetDomain(); got != s.dom {
		return fmt.Errorf("GetDomain() = %q, want %q", got, s.dom)
	}
	if got := gotext.GetLanguages(); len(got)+len(s.langs) > 0 && !reflect.DeepEqual(got, s.langs) {
		return fmt.Errorf("GetLanguages() = %q, want %q", got, s.langs)
	}
	want := gotext.FallbackLocale
	if len(s.langs) > 0 {
		want = s.langs[0]
	}
	if got := gotext.GetLanguage(); got != want {
		return fmt.Errorf("GetLanguage() = %q, want %q", got, want)
	}
	var ls []string
	for _, l := range gotext.GetLocales() {
		ls = append(ls, l.GetLanguage())
	}
	if len(ls)+len(s.langs) > 0 && !reflect.DeepEqual(ls, s.langs) {
		return fmt.Errorf("GetLocales() are of languages %q, want %q", ls, s.langs)
	}
	if st := gotext.GetStorage(); (st != nil) != (len(s.langs) > 0) || st != nil && st.GetLanguage() != s.langs[0] {
		return fmt.Errorf("GetStorage() is not the first Locale of %q", s.langs)
	}
	return nil
}

// reloaded asks the Locales a setter has just made, without the package functions: the
// catalogue of the domain is loaded already.
func (s *pstate) reloaded() error {
	ls := gotext.GetLocales()
	if len(ls) != len(s.locs) {
		return fmt.Errorf("%d Locales, want %d", len(ls), len(s.locs))
	}
	for i, l := range ls {
		if got := l.GetDomain(); got != s.dom {
			return fmt.Errorf("Locale %d of GetLocales() has default domain %q, want %q", i, got, s.dom)
		}
		c, _ := s.locs[i].cat(s, s.dom)
		if c == nil {
			continue
		}
		if err := cat.CheckAll(c, cat.LocaleLooker{L: l, D: s.dom}, []int{1, 2}); err != nil {
			return fmt.Errorf("Locale %d (%s) of GetLocales(), domain %q: %w", i, s.langs[i], s.dom, err)
		}
	}
	return nil
}

// appear writes files of domains no configured Locale has, after their texts were looked up
// in vain: from now on they are found.
func (s *pstate) appear(ctx *core.Ctx, files []pkgFile) error {
	var fs []*pkgFile
	for i := range files {
		f := &files[i]
		none := f.Kind != "none"
		for j := range s.locs {
			c, _ := s.locs[j].cat(s, f.Dom)
			_, mem := s.locs[j].mem[f.Dom]
			none = none && c == nil && !mem
		}
		if none {
			fs = append(fs, f)
		}
	}
	for round := 0; round < 2; round++ {
		for _, f := range fs {
			for i := range f.Cat.Entries {
				e := &f.Cat.Entries[i]
				for _, q := range []*pkgQuery{{Dom: f.Dom, Ctx: e.Ctx, ID: e.ID}, {Is: true, Dom: f.Dom, Ctx: e.Ctx, ID: e.ID}, {Dom: f.Dom, Ctx: e.Ctx, ID: e.ID, PlFn: true, Plural: "pl " + e.ID, N: i}} {
					if _, err := s.check(q); err != nil {
						return fmt.Errorf("a file that appeared, round %d: %w", round, err)
					}
				}
			}
		}
		if round == 0 {
			for _, f := range fs {
				s.write(f)
				ctx.Label("a file appears")
			}
		}
	}
	return nil
}

// whole looks for Translators nobody gave.
func (s *pstate) whole() error {
	for i, l := range gotext.GetLocales() {
		for n, tr := range l.Domains {
			if _, given := s.locs[i].mem[n]; tr == nil && !given {
				return fmt.Errorf("Locale %d of GetLocales() has no Translator in domain %q, but the domain", i, n)
			}
		}
	}
	return nil
}

// locales builds the Locales of a SetLocales call and their models.
func (s *pstate) locales(specs []pkgLocale) ([]*gotext.Locale, []mlocale, error) {
	var ls []*gotext.Locale
	var ms []mlocale
	for i := range specs {
		sp := &specs[i]
		dir := s.libs[sp.Lib]
		l := gotext.NewLocale(dir, sp.Lang)
		m := mlocale{lib: dir, rep: dir, lang: simplified(sp.Lang), mem: map[string]*cat.Cat{}}
		switch sp.How {
		case "fs":
			l, m.rep = gotext.NewLocaleFS(sp.Lang, os.DirFS(dir)), ""
		case "fspath":
			m.rep = filepath.Base(dir)
			l = gotext.NewLocaleFSWithPath(sp.Lang, os.DirFS(filepath.Dir(dir)), m.rep)
		}
		for j := range sp.Mem {
			c, err := sp.Mem[j].attach(l, s.libs[sp.Lib])
			if err != nil {
				return nil, nil, err
			}
			if sp.Mem[j].Kind == "nil" {
				c = nil
			}
			m.mem[sp.Mem[j].Name] = c
		}
		if sp.Default != "" {
			l.SetDomain(sp.Default)
		}
		if sp.How == "restored" {
			b, err := l.MarshalBinary()
			if err != nil {
				return nil, nil, err
			}
			l = gotext.NewLocale("elsewhere", "yy")
			if err := l.UnmarshalBinary(b); err != nil {
				return nil, nil, err
			}
		}
		ls = append(ls, l)
		ms = append(ms, m)
	}
	return ls, ms, nil
}

var (
	pkgLangs = []string{"de_DE", "de_DE", "de_DE", "fr", "fr", "pt-BR", "pt-BR", "de", "de", "pt", "pt", "zh_Hant_TW", "zh"}
	pkgDoms  = []string{"d", "d", "e", "default"}
)

// genPkgCat draws a catalogue with keys and texts from small pools, every text naming where it is from.
func genPkgCat(t *rapid.T, tag string) *cat.Cat {
	c := cat.GenCat(t, cat.Opts{Small: true, Sparse: true, NoRefs: true, MinEntries: 3, MaxEntries: 9, HeaderPlain: true, FewIDs: true})
	for i := range c.Entries {
		for j := range c.Entries[i].Forms {
			f := &c.Entries[i].Forms[j]
			if f.S == "" {
				continue
			}
			switch rapid.IntRange(0, 9).Draw(t, "text") {
			case 0:
				f.S = c.Entries[i].ID
			case 1:
				f.S = cat.FormatText(t, "fmt")
			default:
				f.S = fmt.Sprintf("%s:%d.%d", tag, i, f.I)
			}
		}
	}
	return c
}

func genPkgFiles(t *rapid.T, label string, most int) []pkgFile {
	var fs []pkgFile
	for i, n := 0, rapid.IntRange(most/3, most).Draw(t, label); i < n; i++ {
		f := pkgFile{Lib: rapid.SampledFrom([]int{0, 0, 0, 0, 1}).Draw(t, "lib"), Dir: rapid.SampledFrom(pkgLangs).Draw(t, "dir"), Flat: rapid.IntRange(0, 3).Draw(t, "flat") == 0,
			Dom: rapid.SampledFrom(pkgDoms).Draw(t, "dom"), Kind: rapid.SampledFrom([]string{"po", "po", "mo"}).Draw(t, "kind")}
		f.Cat = genPkgCat(t, fmt.Sprintf("%s%d %s/%s", label, i, f.Dir, f.Dom))
		if f.Kind == "mo" {
			f.Mo = cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}, Empty: true, BigEndian: rapid.Bool().Draw(t, "be")}
		}
		fs = append(fs, f)
	}
	return fs
}

func genPkgLocales(t *rapid.T) []pkgLocale {
	var ls []pkgLocale
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nloc"); i < n; i++ {
		l := pkgLocale{Lib: rapid.IntRange(0, 1).Draw(t, "llib"), Lang: rapid.SampledFrom(pkgLangs).Draw(t, "llang")}
		for _, d := range pkgDoms {
			if rapid.IntRange(0, 2).Draw(t, "mem") > 0 {
				continue
			}
			x := locDomain{Name: d, Kind: rapid.SampledFrom([]string{"mempo", "memmo", "nil", "mempo"}).Draw(t, "memkind"), Cat: &cat.Cat{}}
			if x.Kind != "nil" {
				x.Cat = genPkgCat(t, fmt.Sprintf("mem%d %s/%s", i, l.Lang, d))
				x.Mo = cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}, Empty: true}
			}
			l.Mem = append(l.Mem, x)
		}
		l.Default = rapid.SampledFrom([]string{"", "d", "d", "e", "nowhere"}).Draw(t, "ldef")
		if l.Default == "" && len(l.Mem) > 0 {
			l.Default = l.Mem[0].Name
		}
		l.How = rapid.SampledFrom([]string{"", "", "fs", "fspath", "restored"}).Draw(t, "how")
		for j := range l.Mem {
			if l.Mem[j].Kind == "nil" && l.How == "restored" {
				l.How = ""
			}
		}
		ls = append(ls, l)
	}
	return ls
}

func genLangList(t *rapid.T, label string) string {
	ls := rapid.SliceOfN(rapid.SampledFrom(pkgLangs), 1, 4).Draw(t, label)
	if rapid.IntRange(0, 11).Draw(t, label+".long") == 0 {
		// languages without files come first
		for k := rapid.IntRange(1, 12).Draw(t, label+".absent"); k > 0; k-- {
			ls = append([]string{rapid.SampledFrom([]string{"xx", "yy_YY", "zz-ZZ", "eo"}).Draw(t, label+".none")}, ls...)
		}
	}
	for i := range ls {
		if rapid.IntRange(0, 5).Draw(t, label+".deco") == 0 {
			ls[i] += rapid.SampledFrom([]string{".UTF-8", "@x", " "}).Draw(t, label+".suf")
		}
	}
	return strings.Join(ls, ":")
}

// keyPool collects the keys of catalogues.
type keyPool struct{ ids, ctxs []string }

func newKeyPool(cs ...*cat.Cat) *keyPool {
	k := &keyPool{ids: []string{"absent"}, ctxs: []string{"no ctx"}}
	for _, c := range cs {
		if c == nil {
			continue
		}
		for i := range c.Entries {
			k.ids = append(k.ids, c.Entries[i].ID)
			if x := c.Entries[i].Ctx; x != "" {
				k.ctxs = append(k.ctxs, x)
			}
		}
	}
	return k
}

func genPkgQuery(t *rapid.T, k *keyPool, is int) pkgQuery {
	q := pkgQuery{Is: rapid.IntRange(0, 9).Draw(t, "is") < is, ID: rapid.SampledFrom(k.ids).Draw(t, "qid"), PlFn: rapid.Bool().Draw(t, "qpl")}
	if rapid.IntRange(0, 2).Draw(t, "qdom") > 0 {
		q.Dom = rapid.SampledFrom(append([]string{"missing", "d", "e"}, pkgDoms...)).Draw(t, "qdomain")
	}
	if rapid.IntRange(0, 2).Draw(t, "qctx") == 0 {
		q.Ctx = rapid.SampledFrom(k.ctxs).Draw(t, "qcontext")
	}
	if q.PlFn {
		q.Plural = "many of " + q.ID
		q.N = rapid.SampledFrom([]int{0, 1, 2, 3, 5, 11, 21, 100}).Draw(t, "qn")
	}
	if q.Is {
		for i, n := 0, rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(t, "qnl"); i < n; i++ {
			l := rapid.SampledFrom(append([]string{"xx", "d", "", "de_AT"}, pkgLangs...)).Draw(t, "qlang")
			if rapid.IntRange(0, 4).Draw(t, "qdeco") == 0 {
				l += rapid.SampledFrom([]string{".UTF-8", "@x", " ", ":fr"}).Draw(t, "qsuf")
			}
			q.Langs = append(q.Langs, l)
		}
	} else if rapid.IntRange(0, 3).Draw(t, "qargs") == 0 {
		q.Args = cat.GenArgs(t, "arg")
	}
	return q
}

// langCase is a configuration and queries on it.
type langCase struct {
	Files   []pkgFile   `json:"files"`
	Langs   string      `json:"langs"`
	Dom     string      `json:"dom"`
	Locales []pkgLocale `json:"locales,omitempty"` // used instead of Configure
	Queries []pkgQuery  `json:"queries"`
	// Setters: the order of SetLibrary (0), SetLanguage (1) and SetDomain (2), used instead of Configure.
	Setters []int `json:"setters,omitempty"`
}

func genLangCase(is int) func(t *rapid.T) langCase {
	return func(t *rapid.T) langCase {
		c := langCase{Files: genPkgFiles(t, "nf", 9), Langs: genLangList(t, "langs"), Dom: rapid.SampledFrom(pkgDoms).Draw(t, "dom")}
		var cs []*cat.Cat
		for i := range c.Files {
			cs = append(cs, c.Files[i].Cat)
		}
		if rapid.IntRange(0, 2).Draw(t, "mem") == 0 {
			c.Locales = genPkgLocales(t)
			for i := range c.Locales {
				for j := range c.Locales[i].Mem {
					cs = append(cs, c.Locales[i].Mem[j].Cat)
				}
			}
		}
		if rapid.Bool().Draw(t, "setters") {
			c.Setters = rapid.Permutation([]int{0, 1, 2}).Draw(t, "setorder")
		}
		k := newKeyPool(cs...)
		for i, n := 0, rapid.IntRange(5, 40).Draw(t, "nq"); i < n; i++ {
			c.Queries = append(c.Queries, genPkgQuery(t, k, is))
		}
		return c
	}
}

func newPState() (*pstate, func()) {
	dir, clean := scratch()
	return &pstate{libs: []string{dir + "/lib0", dir + "/lib1"}, disk: map[string]*cat.Cat{}}, func() {
		gotext.SetLocales([]*gotext.Locale{gotext.NewLocale("/nonexistent", "xx")})
		clean()
	}
}

func checkLangCase(ctx *core.Ctx, c langCase) error {
	s, clean := newPState()
	defer clean()
	for i := range c.Files {
		s.write(&c.Files[i])
	}
	s.dom, s.lib = c.Dom, s.libs[0]
	s.setLangs(c.Langs)
	s.rebuild()
	for _, i := range c.Setters {
		switch i {
		case 0:
			gotext.SetLibrary(s.lib)
		case 1:
			gotext.SetLanguage(c.Langs)
		case 2:
			gotext.SetDomain(c.Dom)
		}
	}
	if len(c.Setters) == 0 {
		gotext.Configure(s.lib, c.Langs, c.Dom)
	}
	if len(c.Locales) > 0 {
		ctx.Label("SetLocales")
		ls, ms, err := s.locales(c.Locales)
		if err != nil {
			return err
		}
		gotext.SetLocales(ls)
		s.setLocales(c.Locales, ms)
	} else if len(c.Setters) > 0 {
		ctx.Label("setters")
	} else {
		ctx.Label("Configure")
	}
	by := map[int]bool{}
	for i := range c.Queries {
		w, err := s.check(&c.Queries[i])
		if err != nil {
			return fmt.Errorf("query %d: %w", i, err)
		}
		by[w] = true
		switch {
		case c.Queries[i].Is:
		case w < 0:
			ctx.Label("answered by no language")
		case w == 0:
			ctx.Label("answered by the first language")
		default:
			ctx.Label("answered by a later language")
		}
	}
	ctx.NonTrivial(len(by) >= 2)
	return s.getters()
}

func (s *pstate) setLocales(specs []pkgLocale, ms []mlocale) {
	s.locs = ms
	s.langs = nil
	for i := range ms {
		s.langs = append(s.langs, ms[i].lang)
	}
	if len(specs) > 0 {
		s.lib, s.dom = ms[0].rep, specs[0].Default
	}
}

func TestC17_Order(t *testing.T) {
	core.Run(t, core.Prop[langCase]{
		ID: "C17", Checks: 6000,
		Rule:  "1-4 languages (repeats, decorated names, base-language fallbacks) configured over generated PO/MO trees or as Locales with in-memory domains, keys from small pools so that languages overlap; up to 40 lookups of every kind compared with the first language that translates; non-trivial: the answers came from 2+ different languages (or none)",
		Gen:   genLangCase(1),
		Check: checkLangCase,
	})
}

func TestC18_Package(t *testing.T) {
	core.Run(t, core.Prop[langCase]{
		ID: "C18", Checks: 6000,
		Rule:  "configurations as for C17 with up to 40 queries, most of them IsTranslated with and without language lists (configured, actual, decorated and unknown names), interleaved with lookups; non-trivial: 2+ different answering languages (or none)",
		Gen:   genLangCase(7),
		Check: checkLangCase,
	})
}

func TestC18_Objects(t *testing.T) {
	core.Run(t, core.Prop[history]{
		ID: "C18", Checks: 5000,
		Rule: "catalogues loaded and edited by a generated history (texts often empty or equal to the id), queried on Domain, Po, Mo and Locale after every operation; IsTranslated must be true exactly where the lookup returns a stored text; non-trivial: 2+ entries",
		Gen: func(t *rapid.T) history {
			h := genHistory(t, cat.Opts{Sparse: true, MaxEntries: 6, Small: rapid.Bool().Draw(t, "small")}, histOpts{maxOps: 10, small: true})
			for i := range h.Ops {
				if h.Ops[i].K != "SetRefs" && rapid.IntRange(0, 5).Draw(t, "same") == 0 {
					h.Ops[i].Str = h.Ops[i].ID
				}
			}
			return h
		},
		Check: func(ctx *core.Ctx, c history) error {
			labelHistory(ctx, &c)
			l, d, m, err := c.start()
			if err != nil {
				return err
			}
			loc := gotext.NewLocale("", "xx")
			// a Locale needs a Translator; the domain is shared with the object under test where possible
			po, isPo := l.(*gotext.Po)
			if isPo {
				loc.AddTranslator("d", po)
			}
			look := func(when string) error {
				mc := m.cat()
				objs := []cat.Looker{l, d}
				if isPo {
					objs = append(objs, cat.LocaleLooker{L: loc}, cat.LocaleLooker{L: loc, D: "d"})
				}
				for _, o := range objs {
					for _, p := range cat.Probes(mc) {
						if err := cat.CheckProbe(mc, o, p, smallCounts); err != nil {
							return fmt.Errorf("%s: %T: %w", when, o, err)
						}
						if err := agrees(mc, o, p, smallCounts); err != nil {
							return fmt.Errorf("%s: %T: %w", when, o, err)
						}
					}
				}
				return nil
			}
			if err := look("loaded"); err != nil {
				return err
			}
			for i, o := range c.Ops {
				if err := o.run(l); err != nil {
					return err
				}
				m.apply(o)
				if i%3 == 2 || i == len(c.Ops)-1 {
					if err := look(fmt.Sprintf("after operation %d (%s)", i, o.K)); err != nil {
						return err
					}
				}
			}
			ctx.NonTrivial(len(m.m) >= 2)
			return nil
		},
	})
}

// agrees relates IsTranslated to the lookup itself, by asking for the key with
// two different fallback texts where possible.
func agrees(c *cat.Cat, l cat.Looker, p cat.Probe, counts []int) error {
	for _, n := range counts {
		var a, b string
		var is bool
		p1, p2 := "plural one", "plural two"
		if p.Ctx == "" {
			a, b, is = l.GetN(p.ID, p1, n), l.GetN(p.ID, p2, n), l.IsTranslatedN(p.ID, n)
		} else {
			a, b, is = l.GetNC(p.ID, p1, n, p.Ctx), l.GetNC(p.ID, p2, n, p.Ctx), l.IsTranslatedNC(p.ID, n, p.Ctx)
		}
		if is && a != b {
			return fmt.Errorf("id %s ctx %s n=%d: IsTranslated, but the lookup returns the caller's plural", cat.Q(p.ID), cat.Q(p.Ctx), n)
		}
		if !is && a == b && a != p.ID {
			return fmt.Errorf("id %s ctx %s n=%d: not IsTranslated, but the lookup returns %s", cat.Q(p.ID), cat.Q(p.Ctx), n, cat.Q(a))
		}
	}
	return nil
}

// stateOp is one step of a package history.
type stateOp struct {
	K       string      `json:"k"`
	Lib     int         `json:"lib,omitempty"`
	Langs   string      `json:"langs,omitempty"`
	Dom     string      `json:"dom,omitempty"`
	Locales []pkgLocale `json:"locales,omitempty"`
	Files   []pkgFile   `json:"files,omitempty"` // written just before the setter
	Query   pkgQuery    `json:"query"`
}

type stateCase struct {
	Files []pkgFile `json:"files"`
	Ops   []stateOp `json:"ops"`
}

func genStateCase(t *rapid.T) stateCase {
	c := stateCase{Files: genPkgFiles(t, "nf", 9)}
	var cs []*cat.Cat
	for i := range c.Files {
		cs = append(cs, c.Files[i].Cat)
	}
	k := newKeyPool(cs...)
	c.Ops = append(c.Ops, stateOp{K: "Configure", Langs: genLangList(t, "langs"), Dom: rapid.SampledFrom(pkgDoms).Draw(t, "dom")})
	for i, n := 0, rapid.IntRange(1, 12).Draw(t, "nops"); i < n; i++ {
		o := stateOp{K: rapid.SampledFrom([]string{"Configure", "SetLibrary", "SetLanguage", "SetDomain", "SetDomain", "SetLocales", "SetStorage", "Same"}).Draw(t, "op")}
		o.Lib = rapid.IntRange(0, 1).Draw(t, "oplib")
		o.Dom = rapid.SampledFrom(append([]string{"missing"}, pkgDoms...)).Draw(t, "opdom")
		switch o.K {
		case "Configure", "SetLanguage":
			o.Langs = genLangList(t, "oplangs")
		case "SetLocales":
			o.Locales = genPkgLocales(t)
		case "SetStorage":
			for len(o.Locales) == 0 {
				o.Locales = genPkgLocales(t)
				if len(o.Locales) == 0 {
					o.Locales = []pkgLocale{{Lang: "fr", Default: "d"}}
				}
			}
			o.Locales = o.Locales[:1]
		}
		if rapid.IntRange(0, 3).Draw(t, "edit") == 0 {
			o.Files = genPkgFiles(t, fmt.Sprintf("ed%d.", i), 2)
			for j := range o.Files {
				if rapid.IntRange(0, 3).Draw(t, "del") == 0 {
					o.Files[j].Kind = "none"
				}
				cs = append(cs, o.Files[j].Cat)
			}
			if len(c.Files) > 0 && rapid.Bool().Draw(t, "touch") {
				// a file changes, but not its size
				f := c.Files[rapid.IntRange(0, len(c.Files)-1).Draw(t, "touched")]
				f.Cat = f.Cat.SameSize()
				o.Files = append(o.Files, f)
				cs = append(cs, f.Cat)
			}
		}
		for j := range o.Locales {
			for x := range o.Locales[j].Mem {
				cs = append(cs, o.Locales[j].Mem[x].Cat)
			}
		}
		k = newKeyPool(cs...)
		c.Ops = append(c.Ops, o)
		if rapid.IntRange(0, 3).Draw(t, "appear") == 0 {
			c.Ops = append(c.Ops, stateOp{K: "Appear", Files: genPkgFiles(t, fmt.Sprintf("ap%d.", i), 3)})
		}
		for j, m := 0, rapid.IntRange(0, 6).Draw(t, "nq"); j < m; j++ {
			c.Ops = append(c.Ops, stateOp{K: "Query", Query: genPkgQuery(t, k, 3)})
		}
	}
	return c
}

// all asks for every key of every catalogue in every domain.
func (s *pstate) all() error {
	var cs []*cat.Cat
	for i := range s.locs {
		for _, d := range append([]string{s.dom}, pkgDoms...) {
			c, _ := s.locs[i].cat(s, d)
			cs = append(cs, c)
		}
	}
	seen := map[pkgQuery2]bool{}
	for _, c := range cs {
		if c == nil {
			continue
		}
		for i := range c.Entries {
			e := &c.Entries[i]
			for _, d := range append([]string{""}, pkgDoms...) {
				x := pkgQuery2{d, e.Ctx, e.ID}
				if seen[x] {
					continue
				}
				seen[x] = true
				for _, is := range []bool{false, true} {
					if _, err := s.check(&pkgQuery{Is: is, Dom: d, Ctx: e.Ctx, ID: e.ID}); err != nil {
						return err
					}
					for _, n := range []int{1, 3} {
						if _, err := s.check(&pkgQuery{Is: is, Dom: d, Ctx: e.Ctx, ID: e.ID, PlFn: true, Plural: "pl " + e.ID, N: n}); err != nil {
							return err
						}
					}
				}
			}
		}
	}
	return nil
}

type pkgQuery2 struct{ dom, ctx, id string }

func TestC19_State(t *testing.T) {
	core.Run(t, core.Prop[stateCase]{
		ID: "C19", Checks: 5000,
		Rule: "histories of up to 12 configuration calls (all setters, SetLocales with in-memory domains, SetStorage, setting the same value again, catalogue files changed just before a setter, files of domains nobody had appearing at any time) interleaved with lookups of any domain, compared after every step with a model configured afresh; non-trivial: 3+ configuration calls",
		Gen:  genStateCase,
		Check: func(ctx *core.Ctx, c stateCase) error {
			s, clean := newPState()
			defer clean()
			for i := range c.Files {
				s.write(&c.Files[i])
			}
			conf := 0
			for i := range c.Ops {
				o := &c.Ops[i]
				if o.K == "Appear" {
					if err := s.appear(ctx, o.Files); err != nil {
						return fmt.Errorf("step %d: %w", i, err)
					}
					continue
				}
				for j := range o.Files {
					s.write(&o.Files[j])
				}
				if o.K == "Query" {
					if _, err := s.check(&o.Query); err != nil {
						return fmt.Errorf("step %d: %w", i, err)
					}
					continue
				}
				conf++
				ctx.Label("%s", o.K)
				switch o.K {
				case "Configure":
					gotext.Configure(s.libs[o.Lib], o.Langs, o.Dom)
					s.lib, s.dom = s.libs[o.Lib], o.Dom
					s.setLangs(o.Langs)
					s.rebuild()
				case "SetLibrary":
					gotext.SetLibrary(s.libs[o.Lib])
					s.lib = s.libs[o.Lib]
					s.rebuild()
				case "SetLanguage":
					gotext.SetLanguage(o.Langs)
					s.setLangs(o.Langs)
					s.rebuild()
				case "SetDomain":
					gotext.SetDomain(o.Dom)
					s.dom = o.Dom
					s.rebuild()
				case "Same":
					gotext.SetDomain(gotext.GetDomain())
					s.rebuild()
				case "SetLocales", "SetStorage":
					ls, ms, err := s.locales(o.Locales)
					if err != nil {
						return err
					}
					if o.K == "SetStorage" {
						gotext.SetStorage(ls[0])
					} else {
						gotext.SetLocales(ls)
					}
					s.setLocales(o.Locales, ms)
				}
				if err := s.getters(); err != nil {
					return fmt.Errorf("step %d (%s): %w", i, o.K, err)
				}
				if o.K != "SetLocales" && o.K != "SetStorage" {
					if err := s.reloaded(); err != nil {
						return fmt.Errorf("step %d (%s): %w", i, o.K, err)
					}
				}
				if i%4 == 3 {
					if err := s.all(); err != nil {
						return fmt.Errorf("step %d (%s): %w", i, o.K, err)
					}
				}
			}
			ctx.NonTrivial(conf >= 3)
			if err := s.all(); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
			if err := s.whole(); err != nil {
				return fmt.Errorf("at the end: %w", err)
			}
			return s.getters()
		},
	})
}

func TestC19_Unconfigured(t *testing.T) {
	core.Run(t, core.Prop[freshCase]{
		ID: "C19", Checks: 80, ThoroughFactor: 10,
		Rule: "a sequence of package lookups, queries, getters and empty SetLocales calls in a process that never configured the package; non-trivial: 2+ queries",
		Gen:  func(t *rapid.T) freshCase { return freshCase{genQueries(t)} },
		Check: func(ctx *core.Ctx, c freshCase) error {
			ctx.NonTrivial(len(c.Queries) > 1)
			return checkFresh(c.Queries)
		},
	})
}
