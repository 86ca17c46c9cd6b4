package lib

import (
	"fmt"
	"math"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// A rec is one access to a register (one text of the catalogue, one setting)
// by a concurrent history. Times come from the monotonic clock: unlike an atomic
// counter it does not order the goroutines for the race detector.
type rec struct {
	Reg   string
	Val   string
	Write bool
	S, E  int64
}

func (r rec) String() string {
	k := "read of"
	if r.Write {
		k = "write of"
	}
	return fmt.Sprintf("%s %q at [%d,%d]", k, r.Val, r.S, r.E)
}

var epoch = time.Now()

func now() int64 { return int64(time.Since(epoch)) }

// checkRegister decides whether the accesses to one register can be put into an
// order that respects their times and in which every read returns the last value
// written. Every value is written at most once (initial values at minus infinity),
// so the zones of Gibbons and Korach decide it.
func checkRegister(reg string, rs []rec) error {
	type zone struct {
		val  string
		w    rec
		have bool
		f, s int64 // minimal end, maximal start
	}
	zs := map[string]*zone{}
	for _, r := range rs {
		z := zs[r.Val]
		if z == nil {
			z = &zone{val: r.Val, f: math.MaxInt64, s: math.MinInt64}
			zs[r.Val] = z
		}
		if r.Write {
			z.w, z.have = r, true
		}
		z.f, z.s = min(z.f, r.E), max(z.s, r.S)
	}
	var fw, bw []*zone
	for _, z := range zs {
		if !z.have {
			return fmt.Errorf("%s: %q was read but never written there", reg, z.val)
		}
		if z.f < z.w.S {
			return fmt.Errorf("%s: %q was read before it was written (%v)", reg, z.val, z.w)
		}
		if z.f < z.s {
			fw = append(fw, z)
		} else {
			bw = append(bw, z)
		}
	}
	sort.Slice(fw, func(i, j int) bool { return fw[i].f < fw[j].f })
	show := func(a, b *zone) string {
		var out []string
		for _, r := range rs {
			if r.Val == a.val || r.Val == b.val {
				out = append(out, r.String())
			}
		}
		sort.Strings(out)
		if len(out) > 30 {
			out = out[:30]
		}
		return strings.Join(out, "; ")
	}
	for i := 1; i < len(fw); i++ {
		for j := 0; j < i; j++ {
			if fw[i].f < fw[j].s && fw[j].f < fw[i].s {
				return fmt.Errorf("%s: no order of the operations explains the values read: %s", reg, show(fw[j], fw[i]))
			}
		}
	}
	for _, b := range bw {
		for _, f := range fw {
			if f.f < b.s && b.f < f.s {
				return fmt.Errorf("%s: no order of the operations explains the values read: %s", reg, show(f, b))
			}
		}
	}
	return nil
}

// checkLoose decides, for one register whose values may be written repeatedly,
// whether every read returned a value that some write had put there and that no
// later write had certainly replaced.
func checkLoose(reg string, rs []rec) error {
	for _, r := range rs {
		if r.Write {
			continue
		}
		ok := false
		for _, w := range rs {
			if !w.Write || w.Val != r.Val || w.S > r.E {
				continue
			}
			replaced := false
			for _, x := range rs {
				if x.Write && x.Val != r.Val && w.E < x.S && x.E < r.S {
					replaced = true
					break
				}
			}
			if !replaced {
				ok = true
				break
			}
		}
		if !ok {
			return fmt.Errorf("%s: %v, which no order of the operations explains", reg, r)
		}
	}
	return nil
}

func checkAllRegisters(rs []rec, check func(string, []rec) error) error {
	by := map[string][]rec{}
	for _, r := range rs {
		by[r.Reg] = append(by[r.Reg], r)
	}
	var names []string
	for n := range by {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if err := check(n, by[n]); err != nil {
			return err
		}
	}
	return nil
}

// parallel runs functions at the same time and collects errors and panics.
func parallel(fs ...func() error) error {
	errs := make([]error, len(fs))
	gate := make(chan struct{})
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("goroutine %d panics: %v\n%s", i, r, debug.Stack())
				}
			}()
			<-gate
			errs[i] = f()
		}()
	}
	close(gate)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}
