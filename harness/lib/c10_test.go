package lib

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/cat"
	"verif/harness/core"
)

func labelHistory(ctx *core.Ctx, x *history) {
	ctx.Label("load %s, target %s", x.Load, x.Target)
	kinds := map[string]bool{}
	for _, o := range x.Ops {
		kinds[o.K] = true
	}
	for k := range kinds {
		ctx.Label("has %s", k)
	}
	ctx.LabelIf(len(x.Ops) >= 10, "10+ operations")
}

func TestC10_History(t *testing.T) {
	core.Run(t, core.Prop[history]{
		ID: "C10", Checks: 12000,
		Rule: "a Domain or Po, empty or loaded from PO, MO or binary data, edited by up to 25 operations over colliding keys; after every operation the touched keys are looked up, and all lookups, IsTranslated queries, listings and references are compared with a map model at the end; non-trivial: 2+ Set operations",
		Gen: func(t *rapid.T) history {
			small := rapid.Bool().Draw(t, "smalltexts")
			return genHistory(t, cat.Opts{Small: small, Sparse: true, MaxEntries: 5}, histOpts{small: small})
		},
		Check: func(ctx *core.Ctx, x history) error {
			labelHistory(ctx, &x)
			l, d, m, err := x.start()
			if err != nil {
				return err
			}
			sets := 0
			for i, o := range x.Ops {
				if err := o.run(l); err != nil {
					return err
				}
				m.apply(o)
				if o.K[:1] == "S" {
					sets++
				}
				c := m.cat()
				ids := []mkey{{"", o.ID}, {o.Ctx, o.ID}}
				if o.K == "DropStale" {
					ids = nil
					for k := range m.m {
						ids = append(ids, k)
					}
				}
				for _, k := range ids {
					if k.ID == "" {
						continue
					}
					pl := "plural"
					if e := m.m[k]; e != nil && e.Plural != "" {
						pl = e.Plural
					}
					if err := cat.CheckProbe(c, l, cat.Probe{Ctx: k.Ctx, ID: k.ID, Plural: pl}, []int{0, 1, 2, 3, 5, 11, o.N}); err != nil {
						return fmt.Errorf("after operation %d (%s): %w", i, o.K, err)
					}
				}
				if i%5 == 0 || o.K == "DropStale" {
					if err := checkEntries(d, m); err != nil {
						return fmt.Errorf("after operation %d (%s): %w", i, o.K, err)
					}
				}
			}
			ctx.NonTrivial(sets >= 2)
			if err := checkModel(l, d, m); err != nil {
				return fmt.Errorf("after the history: %w", err)
			}
			return cat.CheckAll(m.cat(), d, []int{0, 1, 2})
		},
	})
}
