package lib

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/fstest"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/plurals"
	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

// soloStep is a piece of work on objects of its own, or on none.
type soloStep struct {
	K     string       `json:"k"`
	S     string       `json:"s,omitempty"`
	Args  []cat.Arg    `json:"args,omitempty"`
	Named *namedCase   `json:"named,omitempty"`
	Ns    []uint32     `json:"ns,omitempty"`
	Cat   *cat.Cat     `json:"cat,omitempty"`
	Mo    cat.MoLayout `json:"mo"`
	Hist  *history     `json:"hist,omitempty"`
}

type soloCase struct {
	Steps   []soloStep `json:"steps"`
	Threads [][]int    `json:"threads"` // the steps each goroutine does
}

func genSoloStep(t *rapid.T) soloStep {
	s := soloStep{K: rapid.SampledFrom([]string{"sprintf", "sprintf", "format", "simplify", "escape", "formula", "formula", "po", "po", "mo", "binary", "locale", "history", "translation"}).Draw(t, "k")}
	switch s.K {
	case "sprintf":
		n := genNamed(t)
		n.Segs = append(n.Segs, segment{Lit: fmt.Sprintf("#%d", rapid.Uint32().Draw(t, "mark"))})
		s.Named = &n
	case "format":
		s.S, s.Args = cat.FormatText(t, "text"), cat.GenArgs(t, "args")
	case "simplify":
		s.S = rapid.SampledFrom([]string{"de_DE", "en", "el_GR@euro", " fr ", "zh_CN.UTF-8", "x:y"}).Draw(t, "base") + rapid.StringMatching(`[a-zA-Z_@.: ]{0,8}`).Draw(t, "tail")
	case "escape":
		s.S = cat.Text(t, cat.TextOpts{}, "text") + rapid.SampledFrom([]string{"", "\n", "\na\nb", "\\\"\n\"x\"\n"}).Draw(t, "nl")
	case "formula":
		if rapid.Bool().Draw(t, "fresh") {
			s.S = fmt.Sprintf("n==%d ? 1 : n>%d ? 2 : 0", rapid.Uint32().Draw(t, "c1"), rapid.Uint32().Draw(t, "c2"))
		} else {
			s.S = cat.GenRule(t, "rule").Formula
		}
		s.Ns = genCounts32(t)
	case "po", "mo", "binary", "locale", "translation":
		s.Cat = cat.GenCat(t, cat.Opts{MinEntries: 1, MaxEntries: 4, Small: rapid.Bool().Draw(t, "small"), Sparse: s.K != "mo", NoRefs: s.K == "mo"})
		s.Mo = cat.GenMoLayout(t)
		s.Mo.Empty = true
	case "history":
		h := genHistory(t, cat.Opts{Small: true, Sparse: true, MaxEntries: 3}, histOpts{small: true})
		s.Hist = &h
	}
	return s
}

func genSoloCase(t *rapid.T) soloCase {
	c := soloCase{Steps: rapid.SliceOfN(rapid.Custom(genSoloStep), 1, 5).Draw(t, "steps")}
	c.Threads = rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, len(c.Steps)-1), 1, 6), 2, 6).Draw(t, "threads")
	return c
}

// listed renders what a Domain holds.
func listed(d *gotext.Domain) string {
	type tr struct {
		ID, PluralID string
		Trs          map[int]string
		Refs         []string
	}
	all := map[string]map[string]tr{"": {}}
	for id, x := range d.GetTranslations() {
		all[""][id] = tr{x.ID, x.PluralID, x.Trs, x.Refs}
	}
	for ctx, xs := range d.GetCtxTranslations() {
		if all[ctx] == nil {
			all[ctx] = map[string]tr{}
		}
		for id, x := range xs {
			all[ctx]["c "+id] = tr{x.ID, x.PluralID, x.Trs, x.Refs}
		}
	}
	b, err := json.Marshal(all)
	return fmt.Sprint(string(b), err)
}

// digest renders everything an object answers.
func digest(l cat.Looker, d *gotext.Domain, c *cat.Cat) string {
	var b strings.Builder
	for i := range c.Entries {
		e := &c.Entries[i]
		for _, n := range []int{0, 1, 2, 5, 11} {
			b.WriteString(l.GetN(e.ID, "ps", n) + "|" + l.GetNC(e.ID, "ps", n, e.Ctx, n) + "|")
		}
		b.WriteString(l.Get(e.ID) + "|" + l.GetC(e.ID, e.Ctx, "arg") + "|" + string(l.Append([]byte("b"), e.ID, 1)) + "\n")
	}
	text, err := d.MarshalText()
	return fmt.Sprint(b.String(), string(text), err, listed(d))
}

// prepare makes the work of a step; what it closes over is shared by the goroutines and only read.
func (s *soloStep) prepare() func() string {
	switch s.K {
	case "sprintf":
		named, _, params, _ := s.Named.build()
		return func() string { return gotext.Sprintf(named, params) }
	case "format":
		args := cat.Values(s.Args)
		return func() string {
			return gotext.FormatString(s.S, args...) + "|" + string(gotext.Appendf([]byte("p"), s.S, args...)) + "|" + gotext.FormatStringWithArgs(s.S, args)
		}
	case "simplify":
		return func() string { return gotext.SimplifiedLocale(s.S) + "|" + gotext.NewLocale("x", s.S).GetLanguage() }
	case "escape":
		return func() string { return gotext.EscapeSpecialCharacters(s.S) }
	case "formula":
		shared, sharedErr := plurals.Compile(s.S + " ")
		return func() string {
			own, err := plurals.Compile(s.S)
			var b strings.Builder
			fmt.Fprint(&b, err, sharedErr)
			for _, n := range s.Ns {
				if err == nil && sharedErr == nil {
					fmt.Fprint(&b, " ", own.Eval(n), ",", shared.Eval(n))
				}
			}
			return b.String()
		}
	case "po":
		doc := []byte(cat.WritePlain(s.Cat))
		return func() string {
			po := gotext.NewPo()
			po.Parse(doc)
			return digest(po, po.GetDomain(), s.Cat)
		}
	case "mo":
		data := cat.WriteMO(s.Cat, s.Mo)
		return func() string {
			mo := gotext.NewMo()
			mo.Parse(data)
			return digest(mo, mo.GetDomain(), s.Cat)
		}
	case "binary":
		po := gotext.NewPo()
		po.Parse([]byte(cat.WritePlain(s.Cat)))
		data, err := po.MarshalBinary()
		return func() string {
			own := gotext.NewPo()
			e := own.UnmarshalBinary(data)
			again, e2 := own.MarshalBinary()
			mo := gotext.NewMo()
			e3 := mo.UnmarshalBinary(again)
			return fmt.Sprint(err, e, e2, e3, digest(own, own.GetDomain(), s.Cat), digest(mo, mo.GetDomain(), s.Cat))
		}
	case "locale":
		fsys := fstest.MapFS{"de/LC_MESSAGES/d.po": {Data: []byte(cat.WritePlain(s.Cat))}, "de_DE/e.mo": {Data: cat.WriteMO(s.Cat, s.Mo)}}
		return func() string {
			l := gotext.NewLocaleFS("de_DE.UTF-8", fsys)
			l.AddDomain("d")
			l.AddDomain("e")
			data, err := l.MarshalBinary()
			r := gotext.NewLocale("", "xx")
			err2 := r.UnmarshalBinary(data)
			var b strings.Builder
			fmt.Fprint(&b, err, err2, l.GetActualLanguage("d"), l.GetActualLanguage("e"), r.GetLanguage(), r.GetDomain())
			for _, x := range []*gotext.Locale{l, r} {
				var names []string
				for n := range x.Domains {
					names = append(names, n)
				}
				sort.Strings(names)
				for _, n := range names {
					b.WriteString(n + digest(cat.LocaleLooker{L: x, D: n}, x.Domains[n].GetDomain(), s.Cat))
				}
			}
			return b.String()
		}
	case "history":
		return func() string {
			l, d, m, err := s.Hist.start()
			if err != nil {
				return err.Error()
			}
			for _, o := range s.Hist.Ops {
				if err := o.run(l); err != nil {
					return err.Error()
				}
				m.apply(o)
			}
			return digest(l, d, m.cat())
		}
	case "translation":
		refs := []string{"a.go:1", "b.go:2"}
		return func() string {
			var b strings.Builder
			for i := range s.Cat.Entries {
				tr := gotext.NewTranslationWithRefs(refs)
				tr.ID, tr.PluralID = s.Cat.Entries[i].ID, s.Cat.Entries[i].Plural
				tr.SetRefs(refs)
				for _, f := range s.Cat.Entries[i].Forms {
					tr.SetN(f.I, f.S)
				}
				fmt.Fprint(&b, tr.Get(), tr.GetN(1), tr.IsStale(), tr.IsTranslatedN(1), tr.Refs)
			}
			return b.String()
		}
	}
	panic("harness: step " + s.K)
}

func (c *soloCase) run() error {
	work := make([]func() string, len(c.Steps))
	for i := range c.Steps {
		work[i] = c.Steps[i].prepare()
	}
	got := make([][]string, len(c.Threads))
	errs := make([]error, len(c.Threads))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g, steps := range c.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[g] = fmt.Errorf("panic in goroutine %d: %v\n%s", g, r, debug.Stack())
				}
			}()
			<-start
			for _, i := range steps {
				got[g] = append(got[g], work[i]())
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	alone := make([]string, len(c.Steps))
	for i := range work {
		alone[i] = work[i]()
	}
	for g, steps := range c.Threads {
		for j, i := range steps {
			if got[g][j] != alone[i] {
				return fmt.Errorf("goroutine %d, step %d (%s): among others the result is\n%s\nalone it is\n%s", g, j, c.Steps[i].K, got[g][j], alone[i])
			}
		}
	}
	return nil
}

func TestC43_Independent(t *testing.T) {
	core.Run(t, core.Prop[soloCase]{
		ID: "C43", Checks: 4000, ReplayRuns: 300, ThoroughFactor: 15,
		Rule: "2-6 goroutines do 1-6 pieces of work each out of a pool of up to 5: formatting, named formatting, locale names, escaping, compiling and evaluating formulas (own and shared), and loading, editing, looking up, exporting, encoding and restoring Po, Mo, Domain and Locale objects of their own from shared read-only input; run under the race detector, every result compared with that of the same work done alone; non-trivial: two goroutines do work of the same kind",
		Gen:  genSoloCase,
		Check: func(ctx *core.Ctx, c soloCase) error {
			by := map[string]int{}
			for _, steps := range c.Threads {
				seen := map[string]bool{}
				for _, i := range steps {
					if k := c.Steps[i].K; !seen[k] {
						seen[k] = true
						by[k]++
					}
				}
			}
			for k, n := range by {
				ctx.LabelIf(n >= 2, k+" in 2+ goroutines")
				ctx.NonTrivial(n >= 2)
			}
			return c.run()
		},
	})
}
