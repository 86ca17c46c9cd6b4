package cat

import (
	"fmt"

	"pgregory.net/rapid"
)

// Looker is any single-domain object that can be queried.
type Looker interface {
	Get(str string, vars ...interface{}) string
	GetN(str, plural string, n int, vars ...interface{}) string
	GetC(str, ctx string, vars ...interface{}) string
	GetNC(str, plural string, n int, ctx string, vars ...interface{}) string
	Append(b []byte, str string, vars ...interface{}) []byte
	AppendN(b []byte, str, plural string, n int, vars ...interface{}) []byte
	AppendC(b []byte, str, ctx string, vars ...interface{}) []byte
	AppendNC(b []byte, str, plural string, n int, ctx string, vars ...interface{}) []byte
	IsTranslated(str string) bool
	IsTranslatedN(str string, n int) bool
	IsTranslatedC(str, ctx string) bool
	IsTranslatedNC(str string, n int, ctx string) bool
}

// Probe is one queried key.
type Probe struct {
	Ctx    string
	ID     string
	Plural string
}

// Probes lists the keys worth querying: every entry, every entry's id under the
// other contexts and without one, and ids that are absent or nearly present.
func Probes(c *Cat) []Probe {
	var ps []Probe
	seen := map[Probe]bool{}
	add := func(ctx, id, pl string) {
		if id == "" {
			return
		}
		p := Probe{ctx, id, pl}
		if !seen[p] {
			seen[p] = true
			ps = append(ps, p)
		}
	}
	ctxs := []string{"", "no such context"}
	have := map[string]bool{"": true}
	for i := range c.Entries {
		if x := c.Entries[i].Ctx; !have[x] {
			have[x] = true
			if len(ctxs) < 8 {
				ctxs = append(ctxs, x)
			}
		}
	}
	for i := range c.Entries {
		e := &c.Entries[i]
		add(e.Ctx, e.ID, PluralOf(e))
		if i < 6 {
			add(e.Ctx, e.ID, "other plural of "+e.ID)
		}
	}
	for i := range c.Entries {
		if i > 12 {
			break
		}
		e := &c.Entries[i]
		for _, x := range ctxs {
			if f := c.Find(x, e.ID); f != nil {
				add(x, e.ID, PluralOf(f))
			} else {
				add(x, e.ID, PluralOf(e))
			}
		}
		// ids that differ slightly or are other fields of the entry
		for _, id := range []string{e.ID + " ", e.Plural, e.Ctx, e.Str(0)} {
			if id == "" {
				continue
			}
			pl := "pl:" + id
			if f := c.Find("", id); f != nil {
				pl = PluralOf(f)
			}
			add("", id, pl)
		}
	}
	add("", "absent id", "absent ids")
	add("no such context", "absent id", "absent ids")
	return ps
}

// Counts are the counts every probe is asked for.
var Counts = []int{0, 1, 2, 3, 5, 11, 21, 100, 111}

func in(s string, ok []string) bool {
	for _, o := range ok {
		if s == o {
			return true
		}
	}
	return false
}

// CheckAll compares every lookup and IsTranslated query of an object with what
// the catalogue says.
func CheckAll(c *Cat, l Looker, counts []int) error {
	for _, p := range Probes(c) {
		if err := CheckProbe(c, l, p, counts); err != nil {
			return err
		}
	}
	return nil
}

// CheckProbe compares the lookups of one key with the catalogue.
func CheckProbe(c *Cat, l Looker, p Probe, counts []int) error {
	want, tr := c.ExpGet(p.Ctx, p.ID)
	var got string
	var app []byte
	var is bool
	if p.Ctx == "" {
		got = l.Get(p.ID)
		app = l.Append(nil, p.ID)
		is = l.IsTranslated(p.ID)
	} else {
		got = l.GetC(p.ID, p.Ctx)
		app = l.AppendC(nil, p.ID, p.Ctx)
		is = l.IsTranslatedC(p.ID, p.Ctx)
	}
	if got != want {
		return fmt.Errorf("lookup of id %s ctx %s: got %s, want %s", Q(p.ID), Q(p.Ctx), Q(got), Q(want))
	}
	if string(app) != want {
		return fmt.Errorf("append of id %s ctx %s: got %s, want %s", Q(p.ID), Q(p.Ctx), Q(string(app)), Q(want))
	}
	if is != tr {
		return fmt.Errorf("IsTranslated of id %s ctx %s: got %v, want %v", Q(p.ID), Q(p.Ctx), is, tr)
	}
	for _, n := range counts {
		if !c.Rule.Decides(n) {
			continue
		}
		ok, tr := c.ExpGetN(p.Ctx, p.ID, p.Plural, n)
		if p.Ctx == "" {
			got = l.GetN(p.ID, p.Plural, n)
			app = l.AppendN(nil, p.ID, p.Plural, n)
			is = l.IsTranslatedN(p.ID, n)
		} else {
			got = l.GetNC(p.ID, p.Plural, n, p.Ctx)
			app = l.AppendNC(nil, p.ID, p.Plural, n, p.Ctx)
			is = l.IsTranslatedNC(p.ID, n, p.Ctx)
		}
		if !in(got, ok) {
			return fmt.Errorf("plural lookup of id %s ctx %s n=%d: got %s, want %q", Q(p.ID), Q(p.Ctx), n, Q(got), ok)
		}
		if string(app) != got {
			return fmt.Errorf("plural append of id %s ctx %s n=%d: got %s, lookup gives %s", Q(p.ID), Q(p.Ctx), n, Q(string(app)), Q(got))
		}
		if is != tr {
			return fmt.Errorf("IsTranslatedN of id %s ctx %s n=%d: got %v, want %v", Q(p.ID), Q(p.Ctx), n, is, tr)
		}
	}
	return nil
}

// GenCounts draws extra counts.
func GenCounts(t *rapid.T) []int {
	var ns []int
	for i := 0; i < 3; i++ {
		if rapid.IntRange(0, 7).Draw(t, "nbig") == 0 {
			ns = append(ns, BigCount(t, "n"))
			continue
		}
		ns = append(ns, Count(t, "n"))
	}
	return ns
}
