package cli

import (
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// workCase is a program whose texts are extracted, translated and run.
type workCase struct {
	Default string     `json:"default"`
	Mode    string     `json:"mode"` // in, pkg-tree
	Lang    string     `json:"lang"`
	Calls   []workCall `json:"calls"`
	Rule    cat.Rule   `json:"rule"`
	// Files: what each domain's templates become, in turn
	Files  []string     `json:"files"` // po, mo, edit
	Layout cat.MoLayout `json:"layout"`
	Sub    string       `json:"sub"` // LC_MESSAGES or directly in the language's directory
	Salt   int          `json:"salt"`
}

type workCall struct {
	occurrence
	Recv  string `json:"recv"`
	N     int    `json:"n"`
	Arg   string `json:"arg"` // a further argument, as Go source; "" none
	In    string `json:"in"`  // file of the call
	NExpr string `json:"nexpr"`
}

// receivers by what they answer: all eight getters, or those without a domain
var workRecvs = []struct {
	code string
	all  bool
}{
	{"gotext", true}, {"e.L", true}, {"e.LV", true}, {"locale", true}, {"e.Loc()", true}, {"e.Sub.L", true}, {`e.Map["l"]`, true},
	{"e.P", false}, {"e.M", false}, {"e.T", false}, {"po", false}, {"e.Tr()", false}, {"e.Ts[0]", false},
}

const workEnv = `package env

import "github.com/leonelquinteros/gotext"

type Env struct {
	L   *gotext.Locale
	LV  gotext.Locale
	P   *gotext.Po
	M   *gotext.Mo
	T   gotext.Translator
	Ts  []gotext.Translator
	Map map[string]*gotext.Locale
	Sub struct{ L *gotext.Locale }
}

func (e *Env) Loc() *gotext.Locale    { return e.L }
func (e *Env) Tr() gotext.Translator  { return e.T }
`

func genWorkCase(t *rapid.T) workCase {
	c := workCase{
		Default: rapid.SampledFrom([]string{"default", "main", "my.app"}).Draw(t, "default"),
		Mode:    rapid.SampledFrom([]string{"in", "pkg-tree"}).Draw(t, "mode"),
		Lang:    rapid.SampledFrom([]string{"xx", "de_DE", "pt_BR", "sr_RS"}).Draw(t, "lang"),
		Files:   rapid.SliceOfN(rapid.SampledFrom([]string{"po", "mo", "edit"}), 1, 3).Draw(t, "files"),
		Layout:  cat.GenMoLayout(t),
		Sub:     rapid.SampledFrom([]string{"LC_MESSAGES", ""}).Draw(t, "sub"),
		Salt:    rapid.IntRange(0, 1000).Draw(t, "salt"),
	}
	c.Rule = rapid.SampledFrom(cat.KnownRules).Draw(t, "rule")
	for _, o := range genOccs(t, c.Default, 60) {
		k := workCall{occurrence: o}
		var rs []string
		for _, r := range workRecvs {
			if r.all || o.Dom == "" {
				rs = append(rs, r.code)
			}
		}
		k.Recv = rapid.SampledFrom(rs).Draw(t, "recv")
		k.N = cat.Count(t, "count")
		k.NExpr = rapid.SampledFrom([]string{"lit", "var", "call"}).Draw(t, "nexpr")
		k.Arg = rapid.SampledFrom([]string{"", "", "1", `"arg"`, "n", "2.5"}).Draw(t, "arg")
		k.In = rapid.SampledFrom([]string{"main.go", "more.go", "sub/sub.go", "sub/deep/deep.go"}).Draw(t, "in")
		c.Calls = append(c.Calls, k)
	}
	return c
}

func (c *workCase) tag(dom, ctx, id string, form int) string {
	h := fnv.New64a()
	fmt.Fprintf(h, "%q %q %q", dom, ctx, id)
	return fmt.Sprintf("T%x form %d (%%v)", h.Sum64(), form)
}

// source writes the files of the program; each call prints its number and result.
func (c *workCase) source() map[string]string {
	files := map[string]string{"env/env.go": workEnv}
	head := map[string]string{
		"main.go": `package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/leonelquinteros/gotext"

	"example.com/prog/env"
	"example.com/prog/sub"
)

var n = 7

func same(x int) int { return x }

// args: directory, language, default domain, file of the default domain (.po, .mo), domains
func main() {
	dir, lang, def := os.Args[1], os.Args[2], os.Args[3]
	gotext.Configure(dir, lang, def)
	var e env.Env
	e.L = gotext.NewLocale(dir, lang)
	e.L.AddDomain(def)
	for _, d := range os.Args[5:] {
		e.L.AddDomain(d)
	}
	e.LV = *gotext.NewLocale(dir, lang)
	e.LV.AddDomain(def)
	for _, d := range os.Args[5:] {
		e.LV.AddDomain(d)
	}
	e.P, e.M = gotext.NewPo(), gotext.NewMo()
	for _, f := range strings.Split(os.Args[4], ",") {
		if filepath.Ext(f) == ".mo" {
			e.M.ParseFile(f)
		} else {
			e.P.ParseFile(f)
		}
	}
	e.T = e.M
	e.Ts = []gotext.Translator{e.P}
	e.Map = map[string]*gotext.Locale{"l": e.L}
	e.Sub.L = e.L
	run(&e)
	more(&e)
	sub.Run(&e)
}

func run(e *env.Env) {
`,
		"more.go": `package main

import (
	"fmt"

	"github.com/leonelquinteros/gotext"

	"example.com/prog/env"
)

func more(e *env.Env) {
`,
		"sub/sub.go": `package sub

import (
	"fmt"

	"github.com/leonelquinteros/gotext"

	"example.com/prog/env"
	"example.com/prog/sub/deep"
)

var n = 7

func same(x int) int { return x }

func Run(e *env.Env) {
	deep.Run(e)
`,
		"sub/deep/deep.go": `package deep

import (
	"fmt"

	"github.com/leonelquinteros/gotext"

	"example.com/prog/env"
)

var n = 7

func same(x int) int { return x }

func Run(e *env.Env) {
`,
	}
	for f, h := range head {
		var b strings.Builder
		b.WriteString(h)
		b.WriteString("\tlocale, po := e.L, e.P\n\t_, _, _ = locale, po, gotext.GetDomain\n\tfmt.Print()\n")
		for i, k := range c.Calls {
			if k.In != f {
				continue
			}
			for _, g := range getters {
				if g.plural != (k.Plural != "") || g.ctx != (k.Ctx != "") || g.dom != (k.Dom != "") {
					continue
				}
				args := make([]string, g.nargs)
				lit := func(s string, j int) string { return spell(s, c.Salt+i+j) }
				args[g.def.ID] = lit(k.ID, 0)
				if g.plural {
					args[g.def.Plural] = lit(k.Plural, 1)
					num := strconv.Itoa(k.N)
					switch k.NExpr {
					case "var":
						fmt.Fprintf(&b, "\tc%d := %s\n", i, num)
						num = fmt.Sprintf("c%d", i)
					case "call":
						num = "same(" + num + ")"
					}
					args[g.def.Plural+1] = num
				}
				if g.ctx {
					args[g.def.Context] = lit(k.Ctx, 2)
				}
				if g.dom {
					args[g.def.Domain] = lit(k.Dom, 3)
				}
				if k.Arg != "" {
					args = append(args, k.Arg)
				}
				fmt.Fprintf(&b, "\tfmt.Printf(\"%%d %%q\\n\", %d, %s.%s(%s))\n", i, k.Recv, g.name, strings.Join(args, ", "))
				break
			}
		}
		b.WriteString("}\n")
		files[f] = b.String()
	}
	return files
}

// translate turns a template into the file of a language.
func (c *workCase) translate(pot, dom, how, dst string) (string, *cat.Rule, error) {
	b, err := os.ReadFile(pot)
	if err != nil {
		return "", nil, err
	}
	doc, err := cat.ReadPO(string(b))
	if err != nil {
		return "", nil, fmt.Errorf("%s: %w\n%s", pot, err, b)
	}
	rule := c.Rule
	if how == "edit" { // an editor based on gotext, which keeps the rule of the template
		rule = cat.Rule{Formula: "n != 1", NPlurals: 2}
		po := gotext.NewPo()
		po.Parse(b)
		for _, e := range doc.Entries {
			if e.ID == "" && !e.HasCtx {
				continue
			}
			for f := 0; f < 2; f++ {
				n, s := 1-f, c.tag(dom, e.Ctx, e.ID, f)
				switch {
				case e.HasPlural && e.HasCtx:
					po.SetNC(e.ID, e.Plural, e.Ctx, n, s)
				case e.HasPlural:
					po.SetN(e.ID, e.Plural, n, s)
				case f == 1:
				case e.HasCtx:
					po.SetC(e.ID, e.Ctx, s)
				default:
					po.Set(e.ID, s)
				}
			}
		}
		if b, err = po.MarshalText(); err != nil {
			return "", nil, err
		}
		return dst + ".po", &rule, os.WriteFile(dst+".po", b, 0o644)
	}
	ct := cat.Cat{Rule: &rule, Headers: []cat.KV{{K: "Content-Type", V: "text/plain; charset=UTF-8"}}}
	for _, e := range doc.Entries {
		if e.ID == "" && !e.HasCtx {
			continue
		}
		ne := cat.Entry{Ctx: e.Ctx, ID: e.ID, Plural: e.Plural, Refs: e.Refs}
		n := 1
		if e.HasPlural {
			n = rule.NPlurals
		}
		for f := 0; f < n; f++ {
			ne.Forms = append(ne.Forms, cat.Form{I: f, S: c.tag(dom, e.Ctx, e.ID, f)})
		}
		ct.Entries = append(ct.Entries, ne)
	}
	if how == "mo" {
		return dst + ".mo", &rule, os.WriteFile(dst+".mo", cat.WriteMO(&ct, c.Layout), 0o644)
	}
	return dst + ".po", &rule, os.WriteFile(dst+".po", []byte(cat.WritePlain(&ct)), 0o644)
}

func TestC40_Workflow(t *testing.T) {
	core.Run(t, core.Prop[workCase]{
		ID: "C40", Checks: 48, ThoroughFactor: 12,
		Rule: "generated programs of 1-60 calls of every getter on the package, Locales, Po, Mo and Translator values in four files; xgotext extracts them, every message of its templates is translated to PO, to MO or with gotext's own Set and MarshalText, and the program is compiled and run over the result: each call must give its translation; non-trivial: two domains, or contexts and plurals",
		Gen:  genWorkCase,
		Check: func(x *core.Ctx, c workCase) error {
			doms, ctxs, pls := map[string]bool{}, false, false
			for _, k := range c.Calls {
				doms[k.Dom] = true
				ctxs = ctxs || k.Ctx != ""
				pls = pls || k.Plural != ""
			}
			x.NonTrivial(len(doms) > 1 || ctxs && pls)
			x.Label("-%s", c.Mode)
			base, err := os.MkdirTemp("", "work")
			if err != nil {
				return err
			}
			if os.Getenv("VERIF_KEEP") == "" {
				defer os.RemoveAll(base)
			}
			root := filepath.Join(base, "prog")
			files := c.source()
			for f, s := range files {
				p := filepath.Join(root, f)
				if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
					return err
				}
				if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
					return err
				}
			}
			if err := writeModule(root); err != nil {
				return err
			}
			pots := filepath.Join(base, "pots")
			if err := runExtractor(root, "-"+c.Mode, ".", "-out", pots, "-default", c.Default); err != nil {
				return err
			}
			dir := filepath.Join(base, "locales")
			lang := filepath.Join(dir, c.Lang, c.Sub)
			if err := os.MkdirAll(lang, 0o755); err != nil {
				return err
			}
			templates, err := os.ReadDir(pots)
			if err != nil {
				return err
			}
			rules := map[string]*cat.Rule{}
			var names []string
			defFiles := ""
			for i, f := range templates {
				dom := strings.TrimSuffix(f.Name(), ".pot")
				how := c.Files[i%len(c.Files)]
				x.Label("translated as %s", how)
				path, rule, err := c.translate(filepath.Join(pots, f.Name()), dom, how, filepath.Join(lang, dom))
				if err != nil {
					return err
				}
				rules[dom] = rule
				names = append(names, dom)
				if dom == c.Default {
					// Po and Mo values read the other format too
					other := map[string]string{".po": "mo", ".mo": "po"}[filepath.Ext(path)]
					saved := c.Rule
					c.Rule = *rule
					path2, _, err := c.translate(filepath.Join(pots, f.Name()), dom, other, filepath.Join(base, "other"))
					c.Rule = saved
					if err != nil {
						return err
					}
					defFiles = path + "," + path2
				}
			}
			build := exec.Command("go", "build", "-o", filepath.Join(base, "run"), ".")
			build.Dir = root
			build.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "PWD="+root)
			if out, err := build.CombinedOutput(); err != nil {
				panic(fmt.Sprintf("the generated program does not compile: %s", out))
			}
			cmd := exec.Command(filepath.Join(base, "run"), append([]string{dir, c.Lang, c.Default, defFiles}, names...)...)
			cmd.Dir = base
			out, err := cmd.CombinedOutput()
			if err != nil {
				return fmt.Errorf("the program failed: %v\n%s", err, out)
			}
			got := map[int]string{}
			for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
				num, q, _ := strings.Cut(l, " ")
				i, err := strconv.Atoi(num)
				if err != nil {
					return fmt.Errorf("output %q", l)
				}
				if got[i], err = strconv.Unquote(q); err != nil {
					return fmt.Errorf("output %q", l)
				}
			}
			for i, k := range c.Calls {
				dom := k.Dom
				if dom == "" {
					dom = c.Default
				}
				form := 0
				if k.Plural != "" && rules[dom] != nil {
					form = rules[dom].Form(k.N)
				}
				want := c.tag(dom, k.Ctx, k.ID, form)
				switch k.Arg {
				case "":
				case `"arg"`:
					want = fmt.Sprintf(want, "arg")
				case "n":
					want = fmt.Sprintf(want, 7)
				case "1":
					want = fmt.Sprintf(want, 1)
				default:
					want = fmt.Sprintf(want, 2.5)
				}
				if got[i] != want {
					return fmt.Errorf("call %d in %s, %s: domain %q context %s id %s plural %s n=%d arg %s prints %q, want %q", i, k.In, k.Recv, dom, cat.Q(k.Ctx), cat.Q(k.ID), cat.Q(k.Plural), k.N, k.Arg, got[i], want)
				}
			}
			return nil
		},
	})
}
