package lib

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// Resolver is a serialisable custom plural resolver: n mod Mod, plus Add.
type resolverSpec struct {
	Mod int `json:"mod"`
	Add int `json:"add"`
}

func (r *resolverSpec) f(n int) int { return n%r.Mod + r.Add }

type formCase struct {
	// Header: "rule" (a rule), "none", or the raw plural= text of a broken formula.
	Header   string        `json:"header"`
	Rule     *cat.Rule     `json:"rule,omitempty"`
	Broken   string        `json:"broken,omitempty"`
	Resolver *resolverSpec `json:"resolver,omitempty"`
	Entries  []cat.Entry   `json:"entries"`
	Counts   []int         `json:"counts"`
	Late     bool          `json:"late"` // resolver set after parsing
}

// Texts that are no formula under any reading of the grammar.
var brokenFormulas = []string{"", "foo", "n ==", "== 1", "n == 1 ?", "n == 1 ? 0", "n == 1 ? 0 : ", "n == 1 && ", "|| n == 1", "n == x", "n % 0 == 1", "n = = ", "n & 1", "n !", "@", "n == 1 ? a : b", "1 ? 2", "n == 1.5", "n == -1", "n == 99999999999999"}

func TestC06_Forms(t *testing.T) {
	core.Run(t, core.Prop[formCase]{
		ID: "C06", Checks: 12000,
		Rule: "a catalogue with a plural rule (real or generated), none, or a broken one, with or without custom resolver, whose entries have arbitrary sets of forms; looked up through Domain, Po, Mo and Locale at many counts and compared with the form the rule's C value names; non-trivial: a plural entry with 2+ forms",
		Gen: func(t *rapid.T) formCase {
			var c formCase
			c.Header = rapid.SampledFrom([]string{"rule", "rule", "rule", "none", "broken"}).Draw(t, "header")
			switch c.Header {
			case "rule":
				r := cat.GenRule(t, "rule")
				c.Rule = &r
			case "broken":
				c.Broken = rapid.SampledFrom(brokenFormulas).Draw(t, "broken")
			}
			if rapid.IntRange(0, 2).Draw(t, "res") == 0 {
				c.Resolver = &resolverSpec{rapid.IntRange(1, 7).Draw(t, "mod"), rapid.IntRange(0, 3).Draw(t, "add")}
			}
			c.Late = rapid.Bool().Draw(t, "late")
			maxForm := 9
			if c.Rule != nil && c.Rule.NPlurals > 9 {
				maxForm = 17
			}
			for i, n := 0, rapid.IntRange(1, 5).Draw(t, "nent"); i < n; i++ {
				e := cat.Entry{ID: fmt.Sprintf("id%d", i), Plural: fmt.Sprintf("plural%d", i)}
				if rapid.IntRange(0, 2).Draw(t, "ctx") == 0 {
					e.Ctx = rapid.SampledFrom([]string{"c", "d"}).Draw(t, "ctxv")
				}
				set := rapid.IntRange(0, 2).Draw(t, "set")
				for k := 0; k <= maxForm; k++ {
					// no, some or all forms; some empty
					if set == 0 && k > 2 {
						break
					}
					if set == 1 && rapid.IntRange(0, 2).Draw(t, "has") == 0 {
						continue
					}
					s := fmt.Sprintf("form %d of %d", k, i)
					if rapid.IntRange(0, 6).Draw(t, "empty") == 0 {
						s = ""
					}
					e.Forms = append(e.Forms, cat.Form{I: k, S: s})
				}
				if len(e.Forms) == 0 {
					e.Forms = []cat.Form{{I: 0, S: "form 0"}}
				}
				c.Entries = append(c.Entries, e)
			}
			c.Counts = cat.GenCounts(t)
			if c.Rule != nil {
				for _, n := range countsFor(c.Rule.Formula, nil)[131:] {
					if int(n) >= 0 { // int has 32 bits on some platforms
						c.Counts = append(c.Counts, int(n))
					}
				}
			}
			return c
		},
		Check: checkForms,
	})
}

func checkForms(ctx *core.Ctx, c formCase) error {
	multi := 0
	for i := range c.Entries {
		if len(c.Entries[i].Forms) > 1 {
			multi++
		}
	}
	ctx.NonTrivial(multi > 0)
	ctx.Label("header %s, resolver %v", c.Header, c.Resolver != nil)
	cc := &cat.Cat{Rule: c.Rule, Entries: c.Entries}
	if c.Header == "broken" {
		cc.Headers = []cat.KV{{K: "Plural-Forms", V: "nplurals=2; plural=" + c.Broken + ";"}}
	}
	form := func(n int) int {
		if c.Header == "rule" {
			return c.Rule.Form(n)
		}
		if c.Resolver != nil {
			return c.Resolver.f(n)
		}
		if n == 1 {
			return 0
		}
		return 1
	}
	po, mo := gotext.NewPo(), gotext.NewMo()
	set := func() {
		if c.Resolver != nil {
			po.GetDomain().SetPluralResolver(c.Resolver.f)
			mo.GetDomain().SetPluralResolver(c.Resolver.f)
		}
	}
	if !c.Late {
		set()
	}
	po.Parse([]byte(cat.WritePlain(cc)))
	// MO files cannot express a missing form between others: it is empty there, which is the same
	mo.Parse(cat.WriteMO(cc, cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}, Empty: true}))
	if c.Late {
		set()
	}
	loc := gotext.NewLocale("", "xx")
	loc.AddTranslator("po", po)
	loc.AddTranslator("mo", mo)
	objs := []struct {
		name string
		l    cat.Looker
	}{{"Po", po}, {"Mo", mo}, {"Domain of Po", po.GetDomain()}, {"Domain of Mo", mo.GetDomain()},
		{"Locale (default domain)", cat.LocaleLooker{L: loc}}, {"Locale", cat.LocaleLooker{L: loc, D: "mo"}}}
	counts := append([]int{0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 19, 20, 21, 22, 99, 100, 101, 102, 111, 112, 1000, 1001, 1000000, 1<<31 - 1}, c.Counts...)
	for _, n := range []int64{1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 2, 5000000000, 10000000011, math.MaxInt64} {
		if int64(int(n)) == n {
			counts = append(counts, int(n))
		}
	}
	for i := range c.Entries {
		e := &c.Entries[i]
		if f := cc.Find(e.Ctx, e.ID); f != e {
			continue
		}
		for _, n := range counts {
			if c.Header == "rule" && !c.Rule.Decides(n) {
				continue
			}
			fm := form(n)
			want := e.Str(fm)
			if want == "" {
				want = e.Plural
				if fm == 0 {
					want = e.ID
				}
			}
			for _, o := range objs {
				var got string
				var app []byte
				pre := []byte("pre")
				if e.Ctx == "" {
					got, app = o.l.GetN(e.ID, e.Plural, n), o.l.AppendN(pre, e.ID, e.Plural, n)
				} else {
					got, app = o.l.GetNC(e.ID, e.Plural, n, e.Ctx), o.l.AppendNC(pre, e.ID, e.Plural, n, e.Ctx)
				}
				if got != want {
					return fmt.Errorf("%s: plural lookup at n=%d: got %q, want %q (form %d)", o.name, n, got, want, fm)
				}
				if string(app) != "pre"+want {
					return fmt.Errorf("%s: plural append at n=%d: got %q, want %q (form %d)", o.name, n, app, "pre"+want, fm)
				}
			}
		}
	}
	if c.Header != "none" {
		v := cc.AllHeaders()
		if got := po.PluralForms; got != strings.TrimSpace(v[len(v)-1].V) {
			return fmt.Errorf("PluralForms is %q, want %q", got, v[len(v)-1].V)
		}
	}
	return nil
}

// The Germanic default and resolvers for catalogues built in memory.
func TestC06_Built(t *testing.T) {
	core.Run(t, core.Prop[formCase]{
		ID: "C06", Checks: 6000,
		Rule: "a Domain built with SetN/SetNC without any header, with or without resolver: the string set for a count is returned for every count of the same form; non-trivial: 2+ set strings",
		Gen: func(t *rapid.T) formCase {
			var c formCase
			if rapid.Bool().Draw(t, "res") {
				c.Resolver = &resolverSpec{rapid.IntRange(1, 7).Draw(t, "mod"), rapid.IntRange(0, 3).Draw(t, "add")}
			}
			n := rapid.IntRange(1, 5).Draw(t, "n")
			for i := 0; i < n; i++ {
				c.Counts = append(c.Counts, rapid.IntRange(0, 25).Draw(t, "count"))
			}
			return c
		},
		Check: func(ctx *core.Ctx, c formCase) error {
			ctx.NonTrivial(len(c.Counts) > 1)
			form := func(n int) int {
				if n == 1 {
					return 0
				}
				return 1
			}
			do := gotext.NewDomain()
			if c.Resolver != nil {
				form = c.Resolver.f
				do.SetPluralResolver(c.Resolver.f)
			}
			model := map[int]string{}
			for i, n := range c.Counts {
				s := fmt.Sprintf("text %d", i)
				do.SetN("id", "ids", n, s)
				do.SetNC("id", "ids", "ctx", n, "ctx "+s)
				model[form(n)] = s
			}
			for n := 0; n <= 30; n++ {
				w, ok := model[form(n)]
				wc := "ctx " + w
				if !ok {
					w = "ids"
					if form(n) == 0 {
						w = "id"
					}
					wc = w
				}
				if g := do.GetN("id", "ids", n); g != w {
					return fmt.Errorf("GetN at n=%d: got %q, want %q", n, g, w)
				}
				if g := do.GetNC("id", "ids", n, "ctx"); g != wc {
					return fmt.Errorf("GetNC at n=%d: got %q, want %q", n, g, wc)
				}
			}
			return nil
		},
	})
}

// changeStep is one change of the rule in force, or of the catalogue.
type changeStep struct {
	K   string        `json:"k"` // resolver, nil, binary, header
	Res *resolverSpec `json:"res,omitempty"`
	Cat *cat.Cat      `json:"cat,omitempty"`
}

type changeCase struct {
	Kind   string       `json:"kind"`
	Start  *cat.Cat     `json:"start"`
	Steps  []changeStep `json:"steps"`
	Counts []int        `json:"counts"`
}

// genFormsCat is a catalogue with every form of two messages filled in, the text naming the form.
func genFormsCat(t *rapid.T, label string, rule bool) *cat.Cat {
	c := &cat.Cat{Headers: []cat.KV{{K: "Language", V: "xx"}}}
	if rule {
		r := cat.GenRule(t, label)
		c.Rule = &r
	}
	for _, ctx := range []string{"", "c"} {
		e := cat.Entry{Ctx: ctx, ID: "id", Plural: "ids"}
		for k := 0; k < 17; k++ {
			e.Forms = append(e.Forms, cat.Form{I: k, S: fmt.Sprintf("%s %q form %d", label, ctx, k)})
		}
		c.Entries = append(c.Entries, e)
	}
	return c
}

// The form always follows the rule in force now, not one in force at an earlier lookup.
func TestC06_Changes(t *testing.T) {
	core.Run(t, core.Prop[changeCase]{
		ID: "C06", Checks: 5000,
		Rule: "one object whose plural rule changes during use: other resolvers, none, decoded catalogues with another or no rule, a document with a rule, a broken rule or none parsed into the same object; the same counts looked up after every step through every function; non-trivial: 2+ steps",
		Gen: func(t *rapid.T) changeCase {
			c := changeCase{Kind: rapid.SampledFrom([]string{"po", "mo", "domain"}).Draw(t, "kind")}
			c.Start = genFormsCat(t, "start", rapid.Bool().Draw(t, "rule"))
			for i, n := 0, rapid.IntRange(1, 5).Draw(t, "n"); i < n; i++ {
				s := changeStep{K: rapid.SampledFrom([]string{"resolver", "resolver", "nil", "binary", "binary", "header"}).Draw(t, "step")}
				switch s.K {
				case "resolver":
					s.Res = &resolverSpec{rapid.IntRange(1, 7).Draw(t, "mod"), rapid.IntRange(0, 3).Draw(t, "add")}
				case "binary":
					s.Cat = genFormsCat(t, fmt.Sprintf("step %d", i), rapid.Bool().Draw(t, "rule"))
				case "header":
					if c.Kind == "domain" {
						continue
					}
					s.Cat = genFormsCat(t, fmt.Sprintf("step %d", i), rapid.IntRange(0, 3).Draw(t, "rule") > 0)
					if s.Cat.Rule == nil && rapid.Bool().Draw(t, "broken") {
						s.Cat.Headers = append(s.Cat.Headers, cat.KV{K: "Plural-Forms", V: rapid.SampledFrom([]string{"nplurals=INTEGER; plural=EXPRESSION;", "", "nplurals=2; plural=(n;"}).Draw(t, "bad")})
					}
				}
				c.Steps = append(c.Steps, s)
			}
			c.Counts = rapid.SliceOfN(rapid.IntRange(0, 120), 1, 12).Draw(t, "counts")
			return c
		},
		Check: checkChanges,
	})
}

func checkChanges(ctx *core.Ctx, c changeCase) error {
	ctx.NonTrivial(len(c.Steps) >= 2)
	load := func(x *cat.Cat, l interface{}) {
		switch o := l.(type) {
		case *gotext.Po:
			o.Parse([]byte(cat.WritePlain(x)))
		case *gotext.Mo:
			o.Parse(cat.WriteMO(x, cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}, Empty: true}))
		case *gotext.Domain:
			b, err := encoded(x)
			if err == nil {
				err = o.UnmarshalBinary(b)
			}
			if err != nil {
				panic("harness: " + err.Error())
			}
		}
	}
	l := newBinObject(c.Kind)
	_, _, _, d := publicFields(l)
	load(c.Start, l)
	now := c.Start
	var rule *cat.Rule = c.Start.Rule
	var res *resolverSpec
	check := func(when string) error {
		_, _, _, d := publicFields(l)
		for _, n := range append([]int{0, 1, 2, 3, 5, 11}, c.Counts...) {
			f := 1
			if rule != nil {
				f = rule.Form(n)
			} else if res != nil {
				f = res.f(n)
			} else if n == 1 {
				f = 0
			}
			want, wantC := now.Find("", "id").Str(f), now.Find("c", "id").Str(f)
			for _, o := range []cat.Looker{l, d} {
				got := []string{o.GetN("id", "ids", n), string(o.AppendN(nil, "id", "ids", n))}
				gotC := []string{o.GetNC("id", "ids", n, "c"), string(o.AppendNC(nil, "id", "ids", n, "c"))}
				for i := range got {
					if got[i] != want || gotC[i] != wantC {
						return fmt.Errorf("%s, n=%d: got %q and %q, want %q and %q", when, n, got[i], gotC[i], want, wantC)
					}
				}
				if !o.IsTranslatedN("id", n) || !o.IsTranslatedNC("id", n, "c") {
					return fmt.Errorf("%s, n=%d: form %d counts as untranslated", when, n, f)
				}
				// an unknown message: the id for form 0, else the plural
				unknown := "no ids"
				if f == 0 {
					unknown = "no id"
				}
				if g := o.GetN("no id", "no ids", n); g != unknown {
					return fmt.Errorf("%s, n=%d: unknown message: got %q, want %q", when, n, g, unknown)
				}
			}
		}
		return nil
	}
	if err := check("at the start"); err != nil {
		return err
	}
	for i, s := range c.Steps {
		ctx.Label("step %s", s.K)
		switch s.K {
		case "resolver":
			d.SetPluralResolver(s.Res.f)
			res = s.Res
		case "nil":
			d.SetPluralResolver(nil)
			res = nil
		case "binary":
			b, err := encoded(s.Cat)
			if err != nil {
				return err
			}
			if err := l.UnmarshalBinary(b); err != nil {
				return fmt.Errorf("UnmarshalBinary: %w", err)
			}
			now, rule = s.Cat, s.Cat.Rule
		case "header":
			load(s.Cat, l)
			now = s.Cat
			if s.Cat.Rule != nil || s.Cat.Has("Plural-Forms") {
				rule = s.Cat.Rule
			}
		}
		if err := check(fmt.Sprintf("after step %d (%s)", i, s.K)); err != nil {
			return err
		}
	}
	return nil
}

// encoded is the binary encoding of a catalogue.
func encoded(c *cat.Cat) ([]byte, error) {
	po := gotext.NewPo()
	po.Parse([]byte(cat.WritePlain(c)))
	return po.MarshalBinary()
}
