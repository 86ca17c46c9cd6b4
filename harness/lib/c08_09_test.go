package lib

import (
	"fmt"
	"io"
	"os"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

type fmtCase struct {
	Cat    *cat.Cat    `json:"cat"`
	Probes []cat.Probe `json:"probes"`
	Args   []cat.Arg   `json:"args"`
	Empty  bool        `json:"empty"` // pass an empty, non-nil argument slice when there are none
	Prefix string      `json:"prefix"`
	Spare  int         `json:"spare"`
	N      int         `json:"n"`
}

func genFmtCase(t *rapid.T) fmtCase {
	c := cat.GenCat(t, cat.Opts{NoRefs: true, MaxEntries: 4, MinEntries: 1, Small: true})
	for i := range c.Entries {
		e := &c.Entries[i]
		if rapid.IntRange(0, 4).Draw(t, "fmtstr") > 0 {
			for k := range e.Forms {
				if e.Forms[k].S != "" {
					e.Forms[k].S = cat.FormatText(t, "f")
				}
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "fmtid") == 0 {
			id := cat.FormatText(t, "id")
			if c.Find(e.Ctx, id) == nil {
				e.ID = id
			}
		}
	}
	fc := fmtCase{Cat: c, Args: cat.GenArgs(t, "arg"), N: cat.Count(t, "n"), Empty: rapid.Bool().Draw(t, "emptyslice"),
		Prefix: cat.Text(t, cat.TextOpts{}, "prefix"), Spare: rapid.SampledFrom([]int{0, 1, 7, 64, 1024}).Draw(t, "spare")}
	if len(fc.Args) > 0 && rapid.IntRange(0, 9).Draw(t, "manyargs") == 9 {
		for n := rapid.IntRange(9, 40).Draw(t, "nargs"); len(fc.Args) < n; {
			fc.Args = append(fc.Args, fc.Args[0])
		}
	}
	for i := range c.Entries {
		e := c.Entries[i]
		pl := cat.PluralOf(&e)
		if rapid.Bool().Draw(t, "otherpl") {
			pl = cat.FormatText(t, "pl")
		}
		fc.Probes = append(fc.Probes, cat.Probe{Ctx: e.Ctx, ID: e.ID, Plural: pl})
	}
	fc.Probes = append(fc.Probes, cat.Probe{ID: cat.FormatText(t, "absent"), Plural: cat.FormatText(t, "absents")},
		cat.Probe{ID: cat.FormatText(t, "absent"), Plural: cat.FormatText(t, "absents"), Ctx: cat.ID(t, "absentctx")})
	return fc
}

// checkFormatted compares formatted lookups and appends of one object with the
// text of the model.
func checkFormatted(name string, l cat.Looker, single string, plural []string, p cat.Probe, c fmtCase) error {
	vars := cat.Values(c.Args)
	if len(vars) == 0 && c.Empty {
		vars = []interface{}{}
	}
	exp := func(s string) string {
		if len(vars) == 0 {
			return s
		}
		return fmt.Sprintf(s, vars...)
	}
	prefix := make([]byte, len(c.Prefix), len(c.Prefix)+c.Spare)
	copy(prefix, c.Prefix)
	if c.Prefix == "" && c.Spare == 0 {
		prefix = nil
	}
	check := func(fn, got string, app []byte, want []string) error {
		ok := false
		for _, w := range want {
			ok = ok || got == exp(w)
		}
		if !ok {
			return fmt.Errorf("%s: %s of id %s plural %s ctx %s n=%d args %+v: got %s, want %s of text %q", name, fn, cat.Q(p.ID), cat.Q(p.Plural), cat.Q(p.Ctx), c.N, c.Args, cat.Q(got), cat.Q(exp(want[0])), want)
		}
		if string(app) != c.Prefix+got {
			return fmt.Errorf("%s: append of %s: got %s, want prefix %s + %s", name, fn, cat.Q(string(app)), cat.Q(c.Prefix), cat.Q(got))
		}
		if string(prefix) != c.Prefix {
			return fmt.Errorf("%s: append of %s changed the caller's bytes to %s", name, fn, cat.Q(string(prefix)))
		}
		return nil
	}
	if p.Ctx == "" {
		if err := check("Get", l.Get(p.ID, vars...), l.Append(prefix, p.ID, vars...), []string{single}); err != nil {
			return err
		}
		return check("GetN", l.GetN(p.ID, p.Plural, c.N, vars...), l.AppendN(prefix, p.ID, p.Plural, c.N, vars...), plural)
	}
	if err := check("GetC", l.GetC(p.ID, p.Ctx, vars...), l.AppendC(prefix, p.ID, p.Ctx, vars...), []string{single}); err != nil {
		return err
	}
	return check("GetNC", l.GetNC(p.ID, p.Plural, c.N, p.Ctx, vars...), l.AppendNC(prefix, p.ID, p.Plural, c.N, p.Ctx, vars...), plural)
}

func TestC08_Formatting(t *testing.T) {
	core.Run(t, core.Prop[fmtCase]{
		ID: "C08", Checks: 24000,
		Rule: "texts, ids and plurals full of formatting directives and stray percent signs, 0-5 arguments of any kind, looked up at every level with every Get and Append function and compared with fmt.Sprintf of the model's text (verbatim without arguments); non-trivial: a text contains %",
		Gen:  genFmtCase,
		Check: func(ctx *core.Ctx, c fmtCase) error {
			ctx.Label("%d args", len(c.Args))
			po, mo := gotext.NewPo(), gotext.NewMo()
			po.Parse([]byte(cat.WritePlain(c.Cat)))
			mo.Parse(cat.WriteMO(c.Cat, cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}, Empty: true}))
			loc := gotext.NewLocale("/nonexistent", "xx")
			loc.AddTranslator("po", po)
			loc.AddTranslator("mo", mo)
			other := gotext.NewLocale("/nonexistent", "yy")
			other.AddTranslator("po", gotext.NewPo())
			other.AddTranslator("mo", gotext.NewMo())
			type obj struct {
				n      string
				l      cat.Looker
				c      *cat.Cat
				absent bool // no catalogue decides the plural form
			}
			objs := []obj{{"Po", po, c.Cat, false}, {"Domain", po.GetDomain(), c.Cat, false}, {"Mo", mo, c.Cat, false},
				{"Locale", cat.LocaleLooker{L: loc}, c.Cat, false}, {"Locale domain", cat.LocaleLooker{L: loc, D: "mo"}, c.Cat, false},
				{"Locale without domain", cat.LocaleLooker{L: loc, D: "none"}, &cat.Cat{}, false},
			}
			for _, o := range objs {
				for _, p := range c.Probes {
					s, _ := o.c.ExpGet(p.Ctx, p.ID)
					pl, _ := o.c.ExpGetN(p.Ctx, p.ID, p.Plural, c.N)
					ctx.NonTrivial(strings.Contains(s+pl[0], "%"))
					if err := checkFormatted(o.n, o.l, s, pl, p, c); err != nil {
						return err
					}
				}
			}
			gotext.SetLocales([]*gotext.Locale{loc, other})
			for _, o := range []obj{{"package", cat.PkgLooker{}, c.Cat, false}, {"package domain", cat.PkgLooker{D: "mo"}, c.Cat, false}, {"package, missing domain", cat.PkgLooker{D: "none"}, &cat.Cat{}, true}} {
				for _, p := range c.Probes {
					s, _ := o.c.ExpGet(p.Ctx, p.ID)
					pl, tr := o.c.ExpGetN(p.Ctx, p.ID, p.Plural, c.N)
					if !tr {
						pl = cat.AbsentN(p.ID, p.Plural, c.N, c.Cat.Rule.Form(c.N))
					}
					if err := checkFormatted(o.n, o.l, s, pl, p, c); err != nil {
						return err
					}
				}
			}
			return nil
		},
	})
}

type helperCase struct {
	Text   string    `json:"text"`
	Args   []cat.Arg `json:"args"`
	Prefix string    `json:"prefix"`
	Spare  int       `json:"spare"`
}

func TestC08_Helpers(t *testing.T) {
	core.Run(t, core.Prop[helperCase]{
		ID: "C08", Checks: 12000,
		Rule: "FormatString, FormatStringWithArgs and Appendf on arbitrary text and arguments; non-trivial: the text contains %",
		Gen: func(t *rapid.T) helperCase {
			c := helperCase{Args: cat.GenArgs(t, "arg"), Prefix: cat.Text(t, cat.TextOpts{}, "prefix"), Spare: rapid.SampledFrom([]int{0, 1, 7, 64, 1024}).Draw(t, "spare")}
			if rapid.Bool().Draw(t, "any") {
				c.Text = cat.Text(t, cat.TextOpts{}, "text")
			} else {
				c.Text = cat.FormatText(t, "text")
			}
			return c
		},
		Check: func(ctx *core.Ctx, c helperCase) error {
			ctx.NonTrivial(strings.Contains(c.Text, "%"))
			vars := cat.Values(c.Args)
			want := c.Text
			if len(vars) > 0 {
				want = fmt.Sprintf(c.Text, vars...)
			}
			if got := gotext.FormatString(c.Text, vars...); got != want {
				return fmt.Errorf("FormatString: got %s, want %s", cat.Q(got), cat.Q(want))
			}
			prefix := make([]byte, len(c.Prefix), len(c.Prefix)+c.Spare)
			copy(prefix, c.Prefix)
			if got := gotext.Appendf(prefix, c.Text, vars...); string(got) != c.Prefix+want || string(prefix) != c.Prefix {
				return fmt.Errorf("Appendf: got %s, want %s", cat.Q(string(got)), cat.Q(c.Prefix+want))
			}
			if len(vars) > 0 {
				if got := gotext.FormatStringWithArgs(c.Text, vars); got != want {
					return fmt.Errorf("FormatStringWithArgs: got %s, want %s", cat.Q(got), cat.Q(want))
				}
			}
			return nil
		},
	})
}

// segment of a named format: literal text, or a directive.
type segment struct {
	Lit  string `json:"lit,omitempty"`
	Name string `json:"name,omitempty"`
	Spec string `json:"spec,omitempty"` // width, precision and verb
}

type namedCase struct {
	Segs   []segment `json:"segs"`
	Names  []string  `json:"names"`
	Values []cat.Arg `json:"values"`
	NilMap bool      `json:"nilmap"`
	// Rep is how often the segments are repeated, once if not said.
	Rep int `json:"rep,omitempty"`
}

var namePool = []string{"a", "b", "name", "Name", "n1", "x_y", "0", "9lives", "_", "type", "aa", "s", "d", "T", "loooooooooooooooong_name_1"}

func genNamed(t *rapid.T) namedCase {
	var c namedCase
	lits := []string{" ", "a", "%%", "%%%%", "100%%", "é日本", "\n", "(x)s", "{}", "$", "\\", "\"", "(", ")", "name", "%%d", ". ", "s", "-", "[1]"}
	// no % directive at all, or (rarely) something like a named directive that is none
	odd := []string{"%(na me)s ", "%()s ", "%(x ", "%d ", "%5v|", "%! ", "%(é)s "}
	for i, n := 0, rapid.IntRange(1, 10).Draw(t, "nseg"); i < n; i++ {
		switch k := rapid.IntRange(0, 19).Draw(t, "seg"); {
		case k == 0:
			c.Segs = append(c.Segs, segment{Lit: rapid.SampledFrom(odd).Draw(t, "odd")})
		case k < 9:
			c.Segs = append(c.Segs, segment{Lit: rapid.SampledFrom(lits).Draw(t, "lit")})
		default:
			spec := ""
			if rapid.IntRange(0, 2).Draw(t, "hasw") == 0 {
				spec = rapid.SampledFrom([]string{"5", "1", "12", "05", "40"}).Draw(t, "w")
			}
			if rapid.IntRange(0, 2).Draw(t, "hasp") == 0 {
				spec += rapid.SampledFrom([]string{".2", ".0", ".", ".10"}).Draw(t, "p")
			}
			spec += rapid.SampledFrom(strings.Split("svTtbcdoqXxUeEfFgGp", "")).Draw(t, "verb")
			name := rapid.SampledFrom(namePool).Draw(t, "name")
			if rapid.IntRange(0, 5).Draw(t, "anyname") == 0 {
				name = rapid.StringMatching(`[a-zA-Z0-9_]{1,12}`).Draw(t, "rname")
				if rapid.IntRange(0, 9).Draw(t, "longname") == 0 {
					name = strings.Repeat(name, 12)
				}
			}
			c.Segs = append(c.Segs, segment{Name: name, Spec: spec})
		}
	}
	seen := map[string]bool{}
	names := append([]string(nil), namePool[:4]...)
	for _, s := range c.Segs {
		if s.Name != "" {
			names = append(names, s.Name)
		}
	}
	for _, nm := range names {
		if !seen[nm] && rapid.IntRange(0, 3).Draw(t, "present") > 0 {
			seen[nm] = true
			c.Names = append(c.Names, nm)
			a := cat.GenArg(t, "val")
			if a.K == "bytes" {
				a.K = "s" // %p of a slice is an address
			}
			c.Values = append(c.Values, a)
		}
	}
	c.NilMap = rapid.IntRange(0, 19).Draw(t, "nilmap") == 0
	if rapid.IntRange(0, 19).Draw(t, "long") == 0 {
		c.Rep = rapid.SampledFrom([]int{2, 9, 33, 100}).Draw(t, "rep")
	}
	return c
}

func (c namedCase) build() (named, positional string, params map[string]interface{}, values []interface{}) {
	if !c.NilMap {
		params = map[string]interface{}{}
		for i, n := range c.Names {
			params[n] = c.Values[i].Value()
		}
	}
	segs := c.Segs
	for i := 1; i < c.Rep; i++ {
		segs = append(segs[:len(segs):len(segs)], c.Segs...)
	}
	for _, s := range segs {
		if s.Name == "" {
			named += s.Lit
			positional += s.Lit
			continue
		}
		named += "%(" + s.Name + ")" + s.Spec
		positional += "%" + s.Spec
		values = append(values, params[s.Name])
	}
	return
}

var stdoutFile *os.File

// captureStdout runs f with os.Stdout replaced by a file.
func captureStdout(f func()) string {
	if stdoutFile == nil {
		var err error
		if stdoutFile, err = os.CreateTemp("", "stdout-"); err != nil {
			panic("harness: " + err.Error())
		}
	}
	stdoutFile.Truncate(0)
	stdoutFile.Seek(0, 0)
	old := os.Stdout
	os.Stdout = stdoutFile
	defer func() { os.Stdout = old }()
	f()
	stdoutFile.Seek(0, 0)
	b, err := io.ReadAll(stdoutFile)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

func TestC09_Named(t *testing.T) {
	core.Run(t, core.Prop[namedCase]{
		ID: "C09", Checks: 40000,
		Rule: "a format of literal text (with %%), named directives with width, precision and any verb, and look-alikes, with parameters of any kind, some missing; compared with fmt.Sprintf of the positional format built from the same segments; non-trivial: 2+ named directives",
		Gen:  genNamed,
		Check: func(ctx *core.Ctx, c namedCase) error {
			named, positional, params, values := c.build()
			ctx.NonTrivial(len(values) >= 2)
			ctx.LabelIf(strings.Contains(named, "%%"), "has %%")
			want := fmt.Sprintf(positional, values...)
			if got := gotext.Sprintf(named, params); got != want {
				return fmt.Errorf("Sprintf(%q, %v): got %q, want %q", named, params, got, want)
			}
			if got := captureStdout(func() { gotext.NPrintf(named, params) }); got != want {
				return fmt.Errorf("NPrintf(%q, %v): printed %q, want %q", named, params, got, want)
			}
			if len(params) > 0 != (len(c.Names) > 0 && !c.NilMap) {
				return fmt.Errorf("the parameters were changed")
			}
			return nil
		},
	})
}
