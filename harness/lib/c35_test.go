package lib

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// trOp is one operation on a Translation used by itself.
type trOp struct {
	K    string   `json:"k"`
	N    int      `json:"n,omitempty"`
	S    string   `json:"s,omitempty"`
	Refs []string `json:"refs,omitempty"`
}

type trCase struct {
	New    string   `json:"new"` // plain, refs, literal
	Refs   []string `json:"refs,omitempty"`
	ID     string   `json:"id"`
	Plural string   `json:"pl"`
	Ops    []trOp   `json:"ops"`
}

func TestC35_Translation(t *testing.T) {
	core.Run(t, core.Prop[trCase]{
		ID: "C35", Checks: 12000,
		Rule: "a Translation made in each way (also as a literal without forms), changed by up to 12 calls of Set, SetN and SetRefs; after each, Get, GetN and IsTranslatedN of forms 0 to 20, IsTranslated, IsStale and the fields are compared with a map model; non-trivial: 2+ forms set",
		Gen: func(t *rapid.T) trCase {
			c := trCase{New: rapid.SampledFrom([]string{"plain", "refs", "literal"}).Draw(t, "new"), ID: cat.Text(t, cat.TextOpts{}, "id"), Plural: cat.Text(t, cat.TextOpts{}, "pl")}
			if rapid.IntRange(0, 2).Draw(t, "noplural") == 0 {
				c.Plural = ""
			}
			if c.New == "refs" {
				c.Refs = genRefs(t, false)
			}
			if c.New == "literal" { // a literal without Trs can only be read
				return c
			}
			for i, n := 0, rapid.IntRange(0, 12).Draw(t, "nops"); i < n; i++ {
				o := trOp{K: rapid.SampledFrom([]string{"Set", "SetN", "SetN", "SetN", "SetRefs"}).Draw(t, "k")}
				switch o.K {
				case "SetRefs":
					o.Refs = genRefs(t, false)
				default:
					o.N = rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 5, 15}).Draw(t, "n")
					if rapid.IntRange(0, 3).Draw(t, "empty") > 0 {
						o.S = cat.Text(t, cat.TextOpts{}, "s")
					}
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Check: func(ctx *core.Ctx, c trCase) error {
			var tr *gotext.Translation
			switch c.New {
			case "plain":
				tr = gotext.NewTranslation()
			case "refs":
				tr = gotext.NewTranslationWithRefs(append([]string(nil), c.Refs...))
			default:
				tr = &gotext.Translation{}
			}
			ctx.Label("made %s", c.New)
			tr.ID, tr.PluralID = c.ID, c.Plural
			forms, refs, touched := map[int]string{}, c.Refs, false
			check := func(when string) error {
				for n := 0; n <= 20; n++ {
					want := forms[n]
					if want == "" && n == 0 {
						want = c.ID
					} else if want == "" {
						want = c.Plural
					}
					if got := tr.GetN(n); got != want {
						return fmt.Errorf("%s: GetN(%d) = %q, want %q", when, n, got, want)
					}
					if got := tr.IsTranslatedN(n); got != (forms[n] != "") {
						return fmt.Errorf("%s: IsTranslatedN(%d) = %v, the form is %q", when, n, got, forms[n])
					}
					if n > 0 {
						continue
					}
					if got := tr.Get(); got != want {
						return fmt.Errorf("%s: Get() = %q, want %q", when, got, want)
					}
					if got := tr.IsTranslated(); got != (forms[0] != "") {
						return fmt.Errorf("%s: IsTranslated() = %v, the form is %q", when, got, forms[0])
					}
				}
				if tr.IsStale() == touched {
					return fmt.Errorf("%s: IsStale() = %v", when, tr.IsStale())
				}
				if !sameRefs(tr.Refs, refs) {
					return fmt.Errorf("%s: Refs = %q, want %q", when, tr.Refs, refs)
				}
				if len(tr.Trs)+len(forms) > 0 && !reflect.DeepEqual(tr.Trs, forms) {
					return fmt.Errorf("%s: Trs = %q, want %q", when, tr.Trs, forms)
				}
				if tr.ID != c.ID || tr.PluralID != c.Plural {
					return fmt.Errorf("%s: ids %q, %q", when, tr.ID, tr.PluralID)
				}
				return nil
			}
			if err := check("new"); err != nil {
				return err
			}
			sets := map[int]bool{}
			for i, o := range c.Ops {
				switch o.K {
				case "Set":
					tr.Set(o.S)
					forms[0], sets[0] = o.S, true
				case "SetN":
					tr.SetN(o.N, o.S)
					forms[o.N], sets[o.N] = o.S, true
				case "SetRefs":
					tr.SetRefs(append([]string(nil), o.Refs...))
					refs = o.Refs
				}
				touched = true
				if err := check(fmt.Sprintf("after operation %d (%s)", i, o.K)); err != nil {
					return err
				}
			}
			ctx.NonTrivial(len(sets) > 1)
			return nil
		},
	})
}

// listedAgrees compares one listed entry with the lookups of the catalogue it was listed from.
func listedAgrees(d *gotext.Domain, m *model, e *ment, ctxName, id string, tr *gotext.Translation, counts []int) error {
	get := d.Get(id)
	if ctxName != "" {
		get = d.GetC(id, ctxName)
	}
	if tr.Get() != get {
		return fmt.Errorf("listed entry (%q, %q): Get() = %q, the lookup gives %q", ctxName, id, tr.Get(), get)
	}
	for _, n := range counts {
		f := m.rule.Form(n)
		lookup, is := d.GetN(id, e.Plural, n), d.IsTranslatedN(id, n)
		if ctxName != "" {
			lookup, is = d.GetNC(id, e.Plural, n, ctxName), d.IsTranslatedNC(id, n, ctxName)
		}
		if tr.GetN(f) != lookup {
			return fmt.Errorf("listed entry (%q, %q): GetN(%d) = %q, the lookup for n=%d gives %q", ctxName, id, f, tr.GetN(f), n, lookup)
		}
		if tr.IsTranslatedN(f) != is {
			return fmt.Errorf("listed entry (%q, %q): IsTranslatedN(%d) = %v, the query for n=%d gives %v", ctxName, id, f, tr.IsTranslatedN(f), n, is)
		}
	}
	if tr.IsStale() == e.Touched {
		return fmt.Errorf("listed entry (%q, %q): IsStale() = %v, touched since loading: %v", ctxName, id, tr.IsStale(), e.Touched)
	}
	return nil
}

func TestC35_Listed(t *testing.T) {
	core.Run(t, core.Prop[history]{
		ID: "C35", Checks: 5000,
		Rule: "catalogues loaded in each way and edited by up to 15 operations: every listed Translation answers Get, GetN and IsTranslatedN like the catalogue's lookups, and is stale exactly if no Set function touched it since loading; non-trivial: touched and untouched entries",
		Gen: func(t *rapid.T) history {
			return genHistory(t, cat.Opts{Sparse: true, MaxEntries: 5}, histOpts{maxOps: 15})
		},
		Check: func(ctx *core.Ctx, x history) error {
			l, d, m, err := x.start()
			if err != nil {
				return err
			}
			for _, o := range x.Ops {
				if err := o.run(l); err != nil {
					return err
				}
				m.apply(o)
			}
			plain, ctxs := d.GetTranslations(), d.GetCtxTranslations()
			var stale, fresh bool
			for k, e := range m.m {
				if k.ID == "" {
					continue
				}
				tr := plain[k.ID]
				if k.Ctx != "" {
					tr = ctxs[k.Ctx][k.ID]
				}
				if tr == nil {
					return fmt.Errorf("entry (%q, %q) is not listed", k.Ctx, k.ID)
				}
				if err := listedAgrees(d, m, e, k.Ctx, k.ID, tr, []int{0, 1, 2, 3, 5, 11, 21, 100}); err != nil {
					return err
				}
				if e.Touched {
					fresh = true
				} else {
					stale = true
				}
			}
			ctx.NonTrivial(stale && fresh)
			return nil
		},
	})
}

type hmOp struct {
	K   string `json:"k"`
	Key string `json:"key"`
	V   string `json:"v,omitempty"`
}

type hmCase struct {
	Nil bool   `json:"nil,omitempty"`
	Ops []hmOp `json:"ops"`
}

func TestC35_Headers(t *testing.T) {
	core.Run(t, core.Prop[hmCase]{
		ID: "C35", Checks: 6000,
		Rule: "a HeaderMap, by itself and as the Headers of a Domain, changed by up to 15 calls of Add, Set and Del over keys that differ in case; Get and Values of all keys against a map model after each, and the exported header at the end; non-trivial: 3+ calls on one key; a nil map is read",
		Gen: func(t *rapid.T) hmCase {
			c := hmCase{Nil: rapid.IntRange(0, 19).Draw(t, "nil") == 0}
			if c.Nil {
				return c
			}
			for i, n := 0, rapid.IntRange(0, 15).Draw(t, "nops"); i < n; i++ {
				c.Ops = append(c.Ops, hmOp{rapid.SampledFrom([]string{"Add", "Add", "Set", "Del"}).Draw(t, "k"), rapid.SampledFrom([]string{"X-A", "x-a", "Language", "X-B", "X-Ü"}).Draw(t, "key"), cat.HeaderValue(t, true, "v")})
			}
			return c
		},
		Check: func(ctx *core.Ctx, c hmCase) error {
			keys := []string{"X-A", "x-a", "Language", "X-B", "X-Ü", "", "X-a", "language"}
			if c.Nil {
				var h gotext.HeaderMap
				for _, k := range keys {
					if h.Get(k) != "" || len(h.Values(k)) != 0 {
						return fmt.Errorf("a nil HeaderMap has values for %q", k)
					}
				}
				return nil
			}
			d := gotext.NewDomain()
			h := gotext.HeaderMap{}
			m, per := map[string][]string{}, map[string]int{}
			for i, o := range c.Ops {
				per[o.Key]++
				ctx.NonTrivial(per[o.Key] >= 3)
				for _, x := range []gotext.HeaderMap{h, d.Headers} {
					switch o.K {
					case "Add":
						x.Add(o.Key, o.V)
					case "Set":
						x.Set(o.Key, o.V)
					case "Del":
						x.Del(o.Key)
					}
				}
				switch o.K {
				case "Add":
					m[o.Key] = append(m[o.Key][:len(m[o.Key]):len(m[o.Key])], o.V)
				case "Set":
					m[o.Key] = []string{o.V}
				case "Del":
					delete(m, o.Key)
				}
				for _, x := range []gotext.HeaderMap{h, d.Headers} {
					if len(x) != len(m) {
						return fmt.Errorf("after operation %d (%s): %d keys, want %d", i, o.K, len(x), len(m))
					}
					for _, k := range keys {
						first := ""
						if len(m[k]) > 0 {
							first = m[k][0]
						}
						if got := x.Get(k); got != first {
							return fmt.Errorf("after operation %d (%s): Get(%q) = %q, want %q", i, o.K, k, got, first)
						}
						if got := x.Values(k); len(got)+len(m[k]) > 0 && !reflect.DeepEqual(got, m[k]) {
							return fmt.Errorf("after operation %d (%s): Values(%q) = %q, want %q", i, o.K, k, got, m[k])
						}
					}
				}
			}
			text, err := d.MarshalText()
			if err != nil {
				return err
			}
			back := gotext.NewPo()
			back.Parse(text)
			if len(m)+len(back.Headers) > 0 && !reflect.DeepEqual(m, map[string][]string(back.Headers)) {
				return fmt.Errorf("exported headers read back as %q, want %q", back.Headers, m)
			}
			return nil
		},
	})
}
