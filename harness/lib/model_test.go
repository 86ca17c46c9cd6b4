package lib

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/leonelquinteros/gotext"
	"pgregory.net/rapid"

	"verif/harness/cat"
)

type mkey struct{ Ctx, ID string }

type ment struct {
	Plural  string
	Forms   map[int]string
	Refs    []string
	Touched bool
}

// otherForms tells whether there is a text for another form than the first.
func (e *ment) otherForms() bool {
	for i := range e.Forms {
		if i != 0 {
			return true
		}
	}
	return false
}

// model is a catalogue as a plain map.
type model struct {
	rule *cat.Rule
	m    map[mkey]*ment
}

func newModel(c *cat.Cat) *model {
	m := &model{c.Rule, map[mkey]*ment{}}
	for i := range c.Entries {
		e := &c.Entries[i]
		x := m.entry(e.Ctx, e.ID)
		x.Plural = e.Plural
		x.Refs = e.Refs
		for _, f := range e.Forms {
			x.Forms[f.I] = f.S
		}
	}
	return m
}

func (m *model) entry(ctx, id string) *ment {
	k := mkey{ctx, id}
	if m.m[k] == nil {
		m.m[k] = &ment{Forms: map[int]string{}}
	}
	return m.m[k]
}

// cat renders the model as a catalogue, for the lookup oracles.
func (m *model) cat() *cat.Cat {
	c := &cat.Cat{Rule: m.rule}
	var ks []mkey
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i].Ctx < ks[j].Ctx || ks[i].Ctx == ks[j].Ctx && ks[i].ID < ks[j].ID
	})
	for _, k := range ks {
		e := m.m[k]
		ce := cat.Entry{Ctx: k.Ctx, ID: k.ID, Plural: e.Plural, Refs: e.Refs}
		for i, s := range e.Forms {
			ce.Forms = append(ce.Forms, cat.Form{I: i, S: s})
		}
		ce.Forms = cat.SortForms(ce.Forms)
		c.Entries = append(c.Entries, ce)
	}
	return c
}

// op is one operation on a mutable catalogue.
type op struct {
	K      string   `json:"k"`
	Ctx    string   `json:"ctx,omitempty"`
	ID     string   `json:"id,omitempty"`
	Plural string   `json:"pl,omitempty"`
	N      int      `json:"n,omitempty"`
	Str    string   `json:"s,omitempty"`
	Refs   []string `json:"refs,omitempty"`
}

// apply is the meaning of an operation.
func (m *model) apply(o op) {
	switch o.K {
	case "Set":
		e := m.entry("", o.ID)
		e.Forms[0], e.Touched = o.Str, true
	case "SetC":
		e := m.entry(o.Ctx, o.ID)
		e.Forms[0], e.Touched = o.Str, true
	case "SetN", "SetNC":
		ctx := ""
		if o.K == "SetNC" {
			ctx = o.Ctx
		}
		e := m.entry(ctx, o.ID)
		e.Forms[m.rule.Form(o.N)], e.Touched = o.Str, true
		if e.Plural == "" {
			e.Plural = o.Plural
		}
	case "SetRefs":
		e := m.entry("", o.ID)
		e.Refs, e.Touched = o.Refs, true
	case "DropStale":
		for k, e := range m.m {
			if !e.Touched {
				delete(m.m, k)
			}
		}
	}
}

// mutable is what Domain and Po have in common.
type mutable interface {
	cat.Looker
	Set(id, str string)
	SetN(id, plural string, n int, str string)
	SetC(id, ctx, str string)
	SetNC(id, plural, ctx string, n int, str string)
	SetRefs(str string, refs []string)
	GetRefs(str string) []string
	DropStaleTranslations()
	SetPluralResolver(f func(int) int)
	MarshalText() ([]byte, error)
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
}

var (
	_ mutable = (*gotext.Domain)(nil)
	_ mutable = (*gotext.Po)(nil)
)

// run performs the operation on a real object.
func (o op) run(l mutable) error {
	switch o.K {
	case "Set":
		l.Set(o.ID, o.Str)
	case "SetC":
		l.SetC(o.ID, o.Ctx, o.Str)
	case "SetN":
		l.SetN(o.ID, o.Plural, o.N, o.Str)
	case "SetNC":
		l.SetNC(o.ID, o.Plural, o.Ctx, o.N, o.Str)
	case "SetRefs":
		l.SetRefs(o.ID, append([]string(nil), o.Refs...))
	case "DropStale":
		l.DropStaleTranslations()
	case "MarshalText":
		if _, err := l.MarshalText(); err != nil {
			return fmt.Errorf("MarshalText: %w", err)
		}
	case "MarshalBinary":
		if _, err := l.MarshalBinary(); err != nil {
			return fmt.Errorf("MarshalBinary: %w", err)
		}
	case "Lookup":
		l.Get(o.ID)
		l.GetN(o.ID, o.Plural, o.N)
		l.GetC(o.ID, o.Ctx)
		l.GetNC(o.ID, o.Plural, o.N, o.Ctx)
		l.GetRefs(o.ID)
	}
	return nil
}

type histOpts struct {
	small      bool
	plainRefs  bool // references that a PO file can carry
	noDrop     bool
	maxOps     int
	noReadOps  bool
	pluralSafe bool // plural ids are never empty
}

func genRefs(t *rapid.T, plain bool) []string {
	var rs []string
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "nrefs"); i < n; i++ {
		if rapid.IntRange(0, 2).Draw(t, "oddref") > 0 {
			rs = append(rs, cat.RefGen(t, "ref"))
		} else if plain {
			rs = append(rs, rapid.SampledFrom([]string{"x:y:z", `a"b.go:3`, `c:\d\e.go:7`, "#", "#:", "ü/é.go:12", "a.go:x", "a.go:-1", ":5", "a.go:", "msgid", `"q"`, "a.go:00012", "(unknown)"}).Draw(t, "ref"))
		} else {
			rs = append(rs, cat.Text(t, cat.TextOpts{}, "ref"))
		}
	}
	return rs
}

// genOps draws a history over the keys of a catalogue and a pool of others.
func genOps(t *rapid.T, c *cat.Cat, h histOpts) []op {
	kinds := []string{"Set", "Set", "SetN", "SetN", "SetC", "SetC", "SetNC", "SetNC", "SetRefs"}
	if !h.noDrop {
		kinds = append(kinds, "DropStale")
	}
	if !h.noReadOps {
		kinds = append(kinds, "MarshalText", "MarshalBinary", "Lookup")
	}
	ids := []string{"a", "b", "One file", "x\ny"}
	ctxs := []string{"menu", "a", `"`}
	for i := range c.Entries {
		ids = append(ids, c.Entries[i].ID)
		if x := c.Entries[i].Ctx; x != "" {
			ctxs = append(ctxs, x)
		}
		if x := c.Entries[i].Plural; x != "" {
			ids = append(ids, x)
		}
	}
	if h.maxOps == 0 {
		h.maxOps = 25
	}
	text := func(l string) string {
		if h.small || rapid.Bool().Draw(t, l+".small") {
			return rapid.SampledFrom([]string{"", "x", "y", "z1", "ü", "%d of %s", "l1\nl2\n", `q"\`}).Draw(t, l)
		}
		return cat.Text(t, cat.TextOpts{}, l)
	}
	if rapid.IntRange(0, 59).Draw(t, "long") == 59 {
		h.maxOps *= 8
	}
	var ops []op
	for i, n := 0, rapid.IntRange(0, h.maxOps).Draw(t, "nops"); i < n; i++ {
		o := op{K: rapid.SampledFrom(kinds).Draw(t, "op")}
		switch o.K {
		case "DropStale", "MarshalText", "MarshalBinary":
		default:
			o.ID = rapid.SampledFrom(ids).Draw(t, "opid")
			if !h.small && rapid.IntRange(0, 9).Draw(t, "newid") == 0 {
				o.ID = cat.ID(t, "opnewid")
				if rapid.Bool().Draw(t, "nearid") {
					o.ID = cat.Near(t, rapid.SampledFrom(ids).Draw(t, "nearof"), "opid")
				}
				ids = append(ids, o.ID)
			}
			o.Ctx = rapid.SampledFrom(ctxs).Draw(t, "opctx")
			o.N = rapid.SampledFrom([]int{0, 1, 2, 3, 5, 11, 21, 100}).Draw(t, "opn")
			if rapid.IntRange(0, 7).Draw(t, "bigcount") == 7 {
				o.N = cat.Count(t, "opn2")
			}
			o.Plural = text("oppl")
			if h.pluralSafe && o.Plural == "" {
				o.Plural = "plural"
			}
			if o.K == "SetRefs" {
				o.Refs = genRefs(t, h.plainRefs)
			} else {
				o.Str = text("opstr")
			}
		}
		ops = append(ops, o)
	}
	return ops
}

// history is a catalogue brought into being: loaded or not, then edited.
type history struct {
	Load   string       `json:"load"`   // none, po, mo, bin
	Target string       `json:"target"` // po, domain
	Cat    *cat.Cat     `json:"cat"`
	Doc    string       `json:"doc,omitempty"`
	Layout cat.MoLayout `json:"layout"`
	Res    int          `json:"res,omitempty"` // custom resolver n % Res
	Ops    []op         `json:"ops"`
	Hdrs   []cat.KV     `json:"hdrs,omitempty"` // header values set on an object that was not loaded
}

func genHistory(t *rapid.T, o cat.Opts, h histOpts) history {
	var x history
	x.Load = rapid.SampledFrom([]string{"none", "po", "po", "mo", "bin"}).Draw(t, "load")
	x.Target = rapid.SampledFrom([]string{"po", "domain"}).Draw(t, "target")
	x.Cat = &cat.Cat{}
	if x.Load != "none" {
		if x.Load != "po" {
			o.Head = false
		}
		if x.Load == "mo" {
			o.NoRefs, o.Sparse = true, false
			x.Layout = cat.GenMoLayout(t)
			x.Layout.Empty = true
			x.Target = "domain"
		}
		x.Cat = cat.GenCat(t, o)
		if x.Load == "po" || x.Load == "bin" {
			if !x.hasHeader() {
				for i := range x.Cat.Entries {
					x.Cat.Entries[i].Refs = nil
				}
			}
			x.Doc, _ = cat.GenDoc(t, x.Cat, cat.Layout{RefsOnly: true})
		}
	} else if rapid.IntRange(0, 3).Draw(t, "hashdrs") == 0 {
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "nh"); i < n; i++ {
			x.Hdrs = append(x.Hdrs, cat.KV{K: rapid.SampledFrom([]string{"Project-Id-Version", "X-A", "Zz", "content-type", "Last-Translator", "A"}).Draw(t, "hk"), V: cat.HeaderValue(t, false, "hv")})
		}
		x.Target = "domain"
	}
	if x.Cat.Rule == nil && rapid.IntRange(0, 3).Draw(t, "res") == 0 {
		x.Res = rapid.IntRange(1, 5).Draw(t, "resmod")
	}
	x.Ops = genOps(t, x.Cat, h)
	return x
}

func (x *history) hasHeader() bool { return len(x.Cat.AllHeaders()) > 0 }

// start makes the real object and the model, before the operations.
func (x *history) start() (mutable, *gotext.Domain, *model, error) {
	po := gotext.NewPo()
	var l mutable = po
	d := po.GetDomain()
	if x.Target == "domain" {
		d = gotext.NewDomain()
		l = d
	}
	switch x.Load {
	case "po":
		po.Parse([]byte(x.Doc))
		if x.Target == "domain" {
			d = po.GetDomain()
			l = d
		}
	case "mo":
		mo := gotext.NewMo()
		mo.Parse(cat.WriteMO(x.Cat, x.Layout))
		d = mo.GetDomain()
		l = d
	case "bin":
		src := gotext.NewPo()
		src.Parse([]byte(x.Doc))
		b, err := src.MarshalBinary()
		if err != nil {
			return nil, nil, nil, err
		}
		if err := l.UnmarshalBinary(b); err != nil {
			return nil, nil, nil, err
		}
	}
	m := newModel(x.Cat)
	if x.Res > 0 {
		l.SetPluralResolver(func(n int) int { return n % x.Res })
		m.rule = &cat.Rule{Formula: fmt.Sprintf("n %% %d", x.Res), NPlurals: x.Res}
	}
	for _, h := range x.Hdrs {
		d.Headers.Add(h.K, h.V)
	}
	return l, d, m, nil
}

// build runs the whole history.
func (x *history) build() (mutable, *gotext.Domain, *model, error) {
	l, d, m, err := x.start()
	if err != nil {
		return nil, nil, nil, err
	}
	for _, o := range x.Ops {
		if err := o.run(l); err != nil {
			return nil, nil, nil, err
		}
		m.apply(o)
	}
	return l, d, m, nil
}

func sameRefs(a, b []string) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

// checkEntries compares the listings and references of a domain with a model.
func checkEntries(d *gotext.Domain, m *model) error {
	all, ctxAll := d.GetTranslations(), d.GetCtxTranslations()
	for k, e := range m.m {
		tr := all[k.ID]
		if k.Ctx != "" {
			tr = ctxAll[k.Ctx][k.ID]
		} else if got := d.GetRefs(k.ID); !sameRefs(got, e.Refs) {
			return fmt.Errorf("GetRefs(%s): got %q, want %q", cat.Q(k.ID), got, e.Refs)
		}
		if tr == nil {
			return fmt.Errorf("listing misses id %s ctx %s", cat.Q(k.ID), cat.Q(k.Ctx))
		}
		if err := checkTranslation(k, tr, e); err != nil {
			return err
		}
	}
	for id := range all {
		if id != "" && m.m[mkey{"", id}] == nil {
			return fmt.Errorf("listing has id %s, which is not in the catalogue", cat.Q(id))
		}
	}
	for x, es := range ctxAll {
		for id := range es {
			if id != "" && m.m[mkey{x, id}] == nil {
				return fmt.Errorf("listing has id %s ctx %s, which is not in the catalogue", cat.Q(id), cat.Q(x))
			}
		}
	}
	return nil
}

func checkTranslation(k mkey, tr *gotext.Translation, e *ment) error {
	if tr.ID != k.ID || tr.PluralID != e.Plural {
		return fmt.Errorf("id %s ctx %s is listed with ID %s PluralID %s, want plural %s", cat.Q(k.ID), cat.Q(k.Ctx), cat.Q(tr.ID), cat.Q(tr.PluralID), cat.Q(e.Plural))
	}
	if !sameRefs(tr.Refs, e.Refs) {
		return fmt.Errorf("id %s ctx %s is listed with references %q, want %q", cat.Q(k.ID), cat.Q(k.Ctx), tr.Refs, e.Refs)
	}
	for i := range e.Forms {
		if tr.Trs[i] != e.Forms[i] {
			return fmt.Errorf("id %s ctx %s is listed with form %d = %s, want %s", cat.Q(k.ID), cat.Q(k.Ctx), i, cat.Q(tr.Trs[i]), cat.Q(e.Forms[i]))
		}
	}
	for i, s := range tr.Trs {
		if s != e.Forms[i] {
			return fmt.Errorf("id %s ctx %s is listed with form %d = %s, want %s", cat.Q(k.ID), cat.Q(k.Ctx), i, cat.Q(s), cat.Q(e.Forms[i]))
		}
	}
	return nil
}

var smallCounts = []int{0, 1, 2, 3, 5, 11, 21}

// checkModel compares everything observable of a catalogue with the model.
func checkModel(l cat.Looker, d *gotext.Domain, m *model) error {
	if err := cat.CheckAll(m.cat(), l, smallCounts); err != nil {
		return err
	}
	return checkEntries(d, m)
}
