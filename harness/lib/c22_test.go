package lib

import (
	"fmt"
	"runtime"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// cop is one operation of a goroutine on a shared catalogue.
type cop struct {
	K   string `json:"k"`
	Ctx string `json:"ctx,omitempty"`
	ID  string `json:"id,omitempty"`
	N   int    `json:"n,omitempty"`
	Dom bool   `json:"dom,omitempty"` // through GetDomain()
	Y   bool   `json:"y,omitempty"`   // yield before
	// Parse: the keys of the document
	Keys []mkey `json:"keys,omitempty"`
}

type concCase struct {
	Target   string  `json:"target"` // po, mo, domain
	Germanic bool    `json:"germanic,omitempty"`
	Base     []mkey  `json:"base"`
	Threads  [][]cop `json:"threads"`
}

var threeForms = cat.Rule{Formula: "n%3==0 ? 0 : n%3==1 ? 1 : 2", NPlurals: 3}

func (c *concCase) form(n int) int {
	if c.Germanic {
		if n == 1 {
			return 0
		}
		return 1
	}
	return n % 3
}

func (c *concCase) forms() int {
	if c.Germanic {
		return 2
	}
	return 3
}

func plOf(id string) string { return "plural of " + id }

func regOf(k mkey, form int) string { return fmt.Sprintf("text|%s|%s|%d", k.Ctx, k.ID, form) }

func fallbackOf(k mkey, form int) string {
	if form == 0 {
		return k.ID
	}
	return plOf(k.ID)
}

// stamped is a document whose texts name their origin.
func (c *concCase) stamped(tag string, keys []mkey) *cat.Cat {
	k := &cat.Cat{Headers: []cat.KV{{K: "Language", V: "xx"}}}
	if !c.Germanic {
		r := threeForms
		k.Rule = &r
	}
	for _, x := range keys {
		e := cat.Entry{Ctx: x.Ctx, ID: x.ID, Plural: plOf(x.ID)}
		for f := 0; f < c.forms(); f++ {
			e.Forms = append(e.Forms, cat.Form{I: f, S: tag + "|" + regOf(x, f)})
		}
		e.Refs = []string{tag + ".go:1", tag + ".go:2"}
		k.Entries = append(k.Entries, e)
	}
	return k
}

func genConcCase(t *rapid.T) concCase {
	c := concCase{Target: rapid.SampledFrom([]string{"po", "po", "mo", "domain"}).Draw(t, "target"), Germanic: rapid.IntRange(0, 3).Draw(t, "germanic") == 0}
	var pool []mkey
	for _, id := range []string{"a", "b"} {
		for _, x := range []string{"", "m"} {
			pool = append(pool, mkey{x, id})
		}
	}
	pool = pool[:rapid.IntRange(1, len(pool)).Draw(t, "keys")]
	for _, k := range pool {
		if rapid.Bool().Draw(t, "base") {
			c.Base = append(c.Base, k)
		}
	}
	kinds := []string{"Set", "Set", "SetN", "SetN", "Set", "SetN", "Get", "Get", "GetN", "GetN", "Is", "IsN", "List", "SetRefs", "GetRefs", "MarshalText", "MarshalBinary", "Resolver", "Append", "AppendN"}
	exotic := rapid.SampledFrom([]string{"none", "drop", "parse", "parse", "decode"}).Draw(t, "exotic")
	if exotic == "drop" {
		kinds = append(kinds, "Drop", "Drop")
	}
	if exotic == "parse" {
		kinds = append(kinds, "Parse", "Parse")
	}
	ng := rapid.IntRange(2, 5).Draw(t, "goroutines")
	base := kinds
	for g := 0; g < ng; g++ {
		kinds := base
		if exotic == "decode" && (g == 0 || c.Target == "domain") {
			// of a Po or Mo, only one goroutine decodes: its public fields have no lock
			kinds = append(append([]string{}, base...), "Decode", "Decode")
		}
		ks := kinds
		switch rapid.IntRange(0, 3).Draw(t, "role") {
		case 0: // reader
			ks = []string{"Get", "GetN", "GetN", "Is", "IsN", "GetRefs", "List", "Append", "AppendN", "AppendN"}
		case 1: // focused
			ks = rapid.SliceOfN(rapid.SampledFrom(kinds), 1, 3).Draw(t, "focus")
		}
		var ops []cop
		for i, n := 0, rapid.IntRange(1, 30).Draw(t, "nops"); i < n; i++ {
			k := rapid.SampledFrom(pool).Draw(t, "key")
			o := cop{K: rapid.SampledFrom(ks).Draw(t, "k"), Ctx: k.Ctx, ID: k.ID, N: rapid.IntRange(0, 5).Draw(t, "n"), Dom: rapid.Bool().Draw(t, "dom"), Y: rapid.IntRange(0, 3).Draw(t, "y") == 0}
			if o.K == "Decode" {
				o.Keys = pool
			}
			if o.K == "Parse" {
				for _, x := range pool {
					if rapid.Bool().Draw(t, "inparse") {
						o.Keys = append(o.Keys, x)
					}
				}
			}
			ops = append(ops, o)
		}
		c.Threads = append(c.Threads, ops)
	}
	return c
}

func (c *concCase) run() error {
	po, mo := gotext.NewPo(), gotext.NewMo()
	parse := func(k *cat.Cat) {
		if c.Target == "mo" {
			mo.Parse(cat.WriteMO(k, cat.MoLayout{Order: []int{0, 1, 2, 3, 4}, Pad: []int{0, 0, 0, 0, 0}}))
		} else {
			po.Parse([]byte(cat.WritePlain(k)))
		}
	}
	d := po.GetDomain()
	var edit mutable = po
	var look cat.Looker = po
	switch c.Target {
	case "mo":
		d = mo.GetDomain()
		edit, look = d, mo
	case "domain":
		edit, look = d, d
	}
	parse(c.stamped("init", c.Base))
	based := map[mkey]bool{}
	for _, k := range c.Base {
		based[k] = true
	}
	all := make([][]rec, len(c.Threads))
	var fs []func() error
	for g := range c.Threads {
		fs = append(fs, func() error {
			rs := make([]rec, 0, 1024)
			defer func() { all[g] = rs }()
			var s int64
			wr := func(reg, val string, e int64) { rs = append(rs, rec{reg, val, true, s, e}) }
			rd := func(reg, val string, e int64) { rs = append(rs, rec{reg, val, false, s, e}) }
			// snapshot records the reads of a listing.
			snapshot := func(x string, m map[string]*gotext.Translation, e int64) error {
				for id, tr := range m {
					if id == "" {
						continue
					}
					k := mkey{x, id}
					if tr == nil || tr.ID != id {
						return fmt.Errorf("listing has %s ctx %q as %+v", id, x, tr)
					}
					if tr.PluralID != "" && tr.PluralID != plOf(id) {
						return fmt.Errorf("listing has %s with plural id %q", id, tr.PluralID)
					}
					for f := 0; f < c.forms(); f++ {
						v := tr.Trs[f]
						if v == "" {
							v = fallbackOf(k, f)
						}
						rd(regOf(k, f), v, e)
					}
					if x == "" && c.Target != "mo" {
						rd("refs|"+id, strings.Join(tr.Refs, " "), e)
					}
				}
				return nil
			}
			for i, o := range c.Threads[g] {
				if o.Y {
					runtime.Gosched()
				}
				l, ed := look, edit
				if o.Dom {
					l, ed = d, d
				}
				k := mkey{o.Ctx, o.ID}
				form := 0
				if o.K == "SetN" || o.K == "GetN" || o.K == "AppendN" {
					form = c.form(o.N)
				}
				tag := fmt.Sprintf("g%d.%d", g, i)
				val := tag + "|" + regOf(k, form)
				got := ""
				s = now()
				switch o.K {
				case "Set", "SetN":
					switch {
					case o.K == "Set" && o.Ctx == "":
						ed.Set(o.ID, val)
					case o.K == "Set":
						ed.SetC(o.ID, o.Ctx, val)
					case o.Ctx == "":
						ed.SetN(o.ID, plOf(o.ID), o.N, val)
					default:
						ed.SetNC(o.ID, plOf(o.ID), o.Ctx, o.N, val)
					}
					wr(regOf(k, form), val, now())
				case "Get", "GetN", "Append", "AppendN":
					switch {
					case o.K == "Append" && o.Ctx == "":
						a, ok := l.(interface {
							Append([]byte, string, ...interface{}) []byte
						})
						if !ok {
							continue
						}
						got = string(a.Append(nil, o.ID))
					case o.K == "Append":
						a, ok := l.(interface {
							AppendC([]byte, string, string, ...interface{}) []byte
						})
						if !ok {
							continue
						}
						got = string(a.AppendC(nil, o.ID, o.Ctx))
					case o.K == "AppendN":
						a, ok := l.(interface {
							AppendN([]byte, string, string, int, ...interface{}) []byte
							AppendNC([]byte, string, string, int, string, ...interface{}) []byte
						})
						if !ok {
							continue
						}
						if o.Ctx == "" {
							got = string(a.AppendN(nil, o.ID, plOf(o.ID), o.N))
						} else {
							got = string(a.AppendNC(nil, o.ID, plOf(o.ID), o.N, o.Ctx))
						}
					case o.K == "Get" && o.Ctx == "":
						got = l.Get(o.ID)
					case o.K == "Get":
						got = l.GetC(o.ID, o.Ctx)
					case o.Ctx == "":
						got = l.GetN(o.ID, plOf(o.ID), o.N)
					default:
						got = l.GetNC(o.ID, plOf(o.ID), o.N, o.Ctx)
					}
					rd(regOf(k, form), got, now())
				case "Is", "IsN":
					f := 0
					var is bool
					if o.K == "IsN" {
						f = c.form(o.N)
					}
					switch {
					case o.K == "Is" && o.Ctx == "":
						is = l.IsTranslated(o.ID)
					case o.K == "Is":
						is = l.IsTranslatedC(o.ID, o.Ctx)
					case o.Ctx == "":
						is = l.IsTranslatedN(o.ID, o.N)
					default:
						is = l.IsTranslatedNC(o.ID, o.N, o.Ctx)
					}
					rd(strings.Replace(regOf(k, f), "text", "is", 1), fmt.Sprint(is), now())
				case "SetRefs":
					refs := []string{tag + ".go:1", tag + ".go:2"}
					ed.SetRefs(o.ID, refs)
					wr("refs|"+o.ID, tag+".go:1 "+tag+".go:2", now())
				case "GetRefs":
					refs := ed.GetRefs(o.ID)
					if c.Target != "mo" {
						rd("refs|"+o.ID, strings.Join(refs, " "), now())
					}
				case "List":
					var m map[string]*gotext.Translation
					if o.Ctx == "" {
						m = d.GetTranslations()
					} else {
						m = d.GetCtxTranslations()[o.Ctx]
					}
					if err := snapshot(o.Ctx, m, now()); err != nil {
						return err
					}
					if m != nil {
						ruin(m, i)
					}
				case "MarshalText":
					text, err := ed.MarshalText()
					e := now()
					if err != nil {
						return err
					}
					doc, err := cat.ReadPO(string(text))
					if err != nil {
						return fmt.Errorf("MarshalText wrote a malformed document: %v\n%s", err, text)
					}
					ms := map[string]map[string]*gotext.Translation{}
					for j := range doc.Entries {
						x := &doc.Entries[j]
						if ms[x.Ctx] == nil {
							ms[x.Ctx] = map[string]*gotext.Translation{}
						}
						if ms[x.Ctx][x.ID] != nil {
							return fmt.Errorf("MarshalText wrote %q (context %q) twice", x.ID, x.Ctx)
						}
						ms[x.Ctx][x.ID] = &gotext.Translation{ID: x.ID, PluralID: x.Plural, Trs: x.Strs, Refs: x.Refs}
					}
					for x, m := range ms {
						if err := snapshot(x, m, e); err != nil {
							return fmt.Errorf("MarshalText: %w", err)
						}
					}
				case "MarshalBinary":
					var data []byte
					var err error
					if c.Target == "mo" && !o.Dom {
						data, err = mo.MarshalBinary()
					} else {
						data, err = ed.MarshalBinary()
					}
					e := now()
					if err != nil {
						return err
					}
					r := gotext.NewPo()
					if err := r.UnmarshalBinary(data); err != nil {
						return fmt.Errorf("decoding a concurrent MarshalBinary: %w", err)
					}
					if err := snapshot("", r.GetDomain().GetTranslations(), e); err != nil {
						return fmt.Errorf("MarshalBinary: %w", err)
					}
					for x, m := range r.GetDomain().GetCtxTranslations() {
						if err := snapshot(x, m, e); err != nil {
							return fmt.Errorf("MarshalBinary: %w", err)
						}
					}
				case "Resolver":
					ed.SetPluralResolver(c.form)
				case "Drop":
					ed.DropStaleTranslations()
					wr("drop", tag, now())
				case "Decode":
					other := gotext.NewPo()
					other.Parse([]byte(cat.WritePlain(c.stamped(tag, o.Keys))))
					data, err := other.MarshalBinary()
					if err != nil {
						return err
					}
					s = now()
					if c.Target == "mo" && !o.Dom {
						err = mo.UnmarshalBinary(data)
					} else if u, ok := ed.(interface{ UnmarshalBinary([]byte) error }); ok {
						err = u.UnmarshalBinary(data)
					}
					e := now()
					if err != nil {
						return fmt.Errorf("UnmarshalBinary: %w", err)
					}
					wr("decode", tag, e)
					for _, x := range o.Keys {
						for f := 0; f < c.forms(); f++ {
							wr(regOf(x, f), tag+"|"+regOf(x, f), e)
						}
						if x.Ctx == "" {
							wr("refs|"+x.ID, tag+".go:1 "+tag+".go:2", e)
						}
					}
				case "Parse":
					doc := c.stamped(tag, o.Keys)
					s = now()
					parse(doc)
					e := now()
					for _, x := range o.Keys {
						for f := 0; f < c.forms(); f++ {
							wr(regOf(x, f), tag+"|"+regOf(x, f), e)
						}
						if x.Ctx == "" {
							wr("refs|"+x.ID, tag+".go:1 "+tag+".go:2", e)
						}
					}
				}
			}
			return nil
		})
	}
	if err := parallel(fs...); err != nil {
		return err
	}
	var rs []rec
	for _, r := range all {
		rs = append(rs, r...)
	}
	return c.judge(rs, based)
}

// judge looks for an explanation of the recorded values.
func (c *concCase) judge(rs []rec, based map[mkey]bool) error {
	const never = -1 << 40
	first, last := int64(1<<62), int64(never)
	by := map[string][]rec{}
	for _, r := range rs {
		if r.Reg == "drop" {
			first, last = min(first, r.S), max(last, r.E)
			continue
		}
		by[r.Reg] = append(by[r.Reg], r)
	}
	for _, id := range []string{"a", "b"} {
		for _, x := range []string{"", "m"} {
			k := mkey{x, id}
			for f := 0; f < c.forms(); f++ {
				reg := regOf(k, f)
				h := by[reg]
				init := fallbackOf(k, f)
				if based[k] {
					init = "init|" + reg
					if last > never && wasRead(h, fallbackOf(k, f)) {
						// the stale entry went at some drop
						h = append(h, rec{reg, fallbackOf(k, f), true, first, last})
					}
				}
				h = append(h, rec{reg, init, true, never, never})
				if err := checkRegister(reg, h); err != nil {
					return err
				}
				// IsTranslated; every text a decode brings counts as translated
				for _, q := range by[strings.Replace(reg, "text", "is", 1)] {
					may, must := based[k], based[k] && first > q.E
					for _, w := range h {
						if w.Write && strings.Contains(w.Val, "|") && w.S >= 0 {
							may = may || w.S <= q.E
							must = must || w.E < q.S
						}
					}
					if q.Val == "true" && !may || q.Val == "false" && must {
						return fmt.Errorf("IsTranslated of %s: %v, which no order of the operations explains", reg, q)
					}
				}
			}
		}
		if c.Target == "mo" {
			continue
		}
		reg := "refs|" + id
		h := by[reg]
		if based[mkey{"", id}] {
			h = append(h, rec{reg, "init.go:1 init.go:2", true, never, never})
			if last > never && wasRead(h, "") {
				h = append(h, rec{reg, "", true, first, last})
			}
		} else {
			h = append(h, rec{reg, "", true, never, never})
		}
		if err := checkRegister(reg, h); err != nil {
			return err
		}
	}
	return nil
}

func wasRead(rs []rec, val string) bool {
	for _, r := range rs {
		if r.Val == val {
			return true
		}
	}
	return false
}

func TestC22_Concurrent(t *testing.T) {
	core.Run(t, core.Prop[concCase]{
		ID: "C22", Checks: 8000, ReplayRuns: 500, ThoroughFactor: 15,
		Rule: "2-5 goroutines with up to 30 operations each (lookups, queries, listings, edits, exports, serialisation, parsing, stale drops, resolver changes) on one Po, Mo or Domain and a few keys, run under the race detector on several fresh objects; every value read must be explained by an order of the operations (register linearizability per text and reference list); non-trivial: some goroutine edits and another one reads",
		Gen:  genConcCase,
		Check: func(ctx *core.Ctx, c concCase) error {
			ctx.Label("target %s", c.Target)
			edits, reads := map[int]bool{}, map[int]bool{}
			kinds := map[string]bool{}
			for g, ops := range c.Threads {
				for _, o := range ops {
					kinds[o.K] = true
					switch o.K {
					case "Set", "SetN", "SetRefs", "Drop", "Parse", "Decode", "Resolver":
						edits[g] = true
					default:
						reads[g] = true
					}
				}
			}
			for k := range kinds {
				ctx.Label("has %s", k)
			}
			for g := range edits {
				for h := range reads {
					ctx.NonTrivial(g != h)
				}
			}
			for i := 0; i < 3; i++ {
				if err := c.run(); err != nil {
					return err
				}
			}
			return nil
		},
	})
}
