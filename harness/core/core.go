// Package core runs one generated-input property: it draws cases from a rapid
// generator, evaluates the property on each, keeps statistics, and turns a
// (shrunk) failing case into a JSON replay file that can be re-run without
// rapid.
package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx collects what one evaluation of a property saw.
type Ctx struct {
	labels     []string
	nontrivial bool
	note       string
	Replaying  bool
}

// Label counts a class of cases.
func (c *Ctx) Label(format string, args ...any) {
	c.labels = append(c.labels, fmt.Sprintf(format, args...))
}

// LabelIf counts a class when the condition holds.
func (c *Ctx) LabelIf(cond bool, l string) {
	if cond {
		c.labels = append(c.labels, l)
	}
}

// NonTrivial marks the case as non-trivial when the condition holds.
func (c *Ctx) NonTrivial(cond bool) { c.nontrivial = c.nontrivial || cond }

// Prop is one executable property over cases of type C.
type Prop[C any] struct {
	ID     string // property id
	Checks int    // cases in the quick tier, over all shards
	// ThoroughFactor multiplies Checks in the thorough tier (0: default).
	ThoroughFactor int
	Rule           string // what a case is and what makes it non-trivial
	Gen            func(*rapid.T) C
	Check          func(*Ctx, C) error
	// ReplayRuns: how often a replay evaluates the case (schedule-dependent properties).
	ReplayRuns int
	// CPUBudget for one case; exceeding it is reported as non-termination.
	CPUBudget time.Duration
}

type statRecord struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Hashes      []uint64       `json:"hashes"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Failed      bool           `json:"failed"`
}

type replayFile struct {
	Property string          `json:"property"`
	Test     string          `json:"test"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func envInt(k string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return def
}

// Thorough reports the tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func outDir() string { return env("VERIF_OUT", os.TempDir()) }

func shard() int { return envInt("VERIF_SHARD", 0) }

func encodeCase(c any) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic("case not serialisable: " + err.Error())
	}
	return b
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// stuckOnLocks reports whether at least one goroutine is executing code of the
// library and every such goroutine waits for a lock.
func stuckOnLocks() (bool, string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	stuck := false
	for _, g := range strings.Split(string(buf), "\n\n") {
		// created-by lines do not count as executing
		body := g
		if i := strings.Index(body, "\ncreated by "); i >= 0 {
			body = body[:i]
		}
		if !strings.Contains(body, "leonelquinteros/gotext") {
			continue
		}
		open, close := strings.Index(g, "["), strings.Index(g, "]")
		if open < 0 || close < open {
			return false, ""
		}
		st := g[open+1 : close]
		if i := strings.Index(st, ","); i >= 0 {
			st = st[:i]
		}
		if strings.HasPrefix(st, "sync.Mutex") || strings.HasPrefix(st, "sync.RWMutex") || st == "semacquire" {
			stuck = true
			continue
		}
		return false, ""
	}
	return stuck, string(buf)
}

func writeReplay(id, test string, err error, raw []byte) string {
	path := filepath.Join(outDir(), fmt.Sprintf("%s-%s-s%d.json", id, strings.ReplaceAll(test, "/", "_"), shard()))
	b, _ := json.MarshalIndent(replayFile{id, test, err.Error(), raw}, "", " ")
	if werr := os.WriteFile(path, append(b, '\n'), 0o644); werr != nil {
		fmt.Println("HARNESS-ERROR cannot write replay:", werr)
	}
	return path
}

// die reports a violation that cannot be shrunk (the process is no longer usable).
func die(id, test string, err error, raw []byte) {
	path := writeReplay(id, test, err, raw)
	fmt.Printf("\nREPLAY-FILE %s\nVIOLATION-MSG %s\n", path, firstLine(err.Error()))
	os.Exit(1)
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.Index(s, "\n"); i >= 0 {
		s = s[:i]
	}
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// eval evaluates the property on a case, watching for panics, deadlock and non-termination.
func eval[C any](p *Prop[C], test string, ctx *Ctx, c C, raw []byte) error {
	budget := p.CPUBudget
	if budget == 0 {
		budget = 40 * time.Second
	}
	done := make(chan error, 1)
	go func() {
		var err error
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
			}
			done <- err
		}()
		err = p.Check(ctx, c)
	}()
	timer := time.NewTimer(5 * time.Second)
	defer timer.Stop()
	select {
	case err := <-done:
		return err
	case <-timer.C:
	}
	start := cpuTime()
	locked := 0
	for {
		select {
		case err := <-done:
			return err
		case <-time.After(time.Second):
		}
		if cpuTime()-start > budget {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			die(p.ID, test, fmt.Errorf("did not terminate: more than %v of CPU time on one small case\n%s", budget, buf), raw)
		}
		if ok, stacks := stuckOnLocks(); ok {
			locked++
			if locked >= 8 {
				die(p.ID, test, fmt.Errorf("deadlock: every goroutine inside the library waits for a lock\n%s", stacks), raw)
			}
		} else {
			locked = 0
		}
	}
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Run explores (or replays) a property.
func Run[C any](t *testing.T, p Prop[C]) {
	test := t.Name()
	// the checks of other properties, run for a property about where they hold
	p.ID = env("VERIF_AS", p.ID)
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		replay(t, p, test, rp)
		return
	}
	shards := max(envInt("VERIF_SHARDS", 1), 1)
	total := p.Checks
	if Thorough() {
		f := p.ThoroughFactor
		if f == 0 {
			f = 30
		}
		total *= f
	}
	if v := envInt("VERIF_CHECKS_PCT", 100); v != 100 {
		total = max(total*v/100, 1)
	}
	n := max(total/shards, 1)
	rounds := 1
	if n >= 40 {
		rounds = 4
	}
	if Thorough() {
		rounds = min(max(n/100, 1), 60)
	}
	per := max(n/rounds, 1)
	budget := time.Duration(envInt("VERIF_BUDGET_S", 240)) * time.Second
	start := time.Now()

	st := statRecord{Test: test, Rule: p.Rule, Labels: map[string]int{}}
	seen := map[uint64]bool{}
	failed := false
	wal, err := os.Create(filepath.Join(outDir(), fmt.Sprintf("wal-%s-s%d.json", strings.ReplaceAll(test, "/", "_"), shard())))
	if err != nil {
		fmt.Println("HARNESS-ERROR", err)
		os.Exit(3)
	}
	defer func() {
		wal.Close()
		os.Remove(wal.Name())
	}()

	defer func() {
		// rapid.Check leaves with Goexit when a case fails
		if failed {
			fmt.Printf("\nREPLAY-FILE %s\n", filepath.Join(outDir(), fmt.Sprintf("%s-%s-s%d.json", p.ID, strings.ReplaceAll(test, "/", "_"), shard())))
		}
		st.Failed = failed
		for h := range seen {
			st.Hashes = append(st.Hashes, h)
		}
		b, _ := json.Marshal(st)
		_ = os.WriteFile(filepath.Join(outDir(), fmt.Sprintf("stats-%s-s%d.json", strings.ReplaceAll(test, "/", "_"), shard())), b, 0o644)
	}()

	one := func(rt *rapid.T) {
		c := p.Gen(rt)
		raw := encodeCase(c)
		wal.Truncate(0)
		head, _ := json.Marshal(replayFile{p.ID, test, "process died while evaluating this case", raw})
		wal.WriteAt(head, 0)
		ctx := &Ctx{}
		err := eval(&p, test, ctx, c, raw)
		if !failed {
			st.Evaluations++
			for _, l := range ctx.labels {
				st.Labels[l]++
			}
			if ctx.nontrivial {
				h := hash(raw)
				if !seen[h] {
					seen[h] = true
					if len(st.Samples) < 3 || (len(st.Samples) < 6 && st.Evaluations%97 == 0) {
						s := string(raw)
						if len(s) > 1500 {
							s = s[:1500] + "...(cut)"
						}
						st.Samples = append(st.Samples, s)
					}
				}
			}
		}
		if err != nil {
			failed = true
			path := writeReplay(p.ID, test, err, raw)
			rt.Logf("REPLAY-FILE %s", path)
			rt.Fatalf("%s", err)
		}
	}

	base := uint64(envInt("VERIF_SEED", 1))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", env("VERIF_SHRINKTIME", "20s"))
	for r := 0; r < rounds && !t.Failed(); r++ {
		if r > 0 && time.Since(start) > budget {
			fmt.Printf("BUDGET %s stopped after %d of %d rounds\n", test, r, rounds)
			break
		}
		seed := hash([]byte(fmt.Sprintf("%s|%s|%d|%d|%d", p.ID, test, base, shard(), r)))
		if seed == 0 {
			seed = 1
		}
		flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
		flag.Set("rapid.checks", strconv.Itoa(per))
		rapid.Check(t, one)
	}
}

func replay[C any](t *testing.T, p Prop[C], test, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		t.Fatal(err)
	}
	if rf.Property != p.ID || rf.Test != test {
		t.Skip("replay file is for another test")
	}
	var c C
	if err := json.Unmarshal(rf.Case, &c); err != nil {
		t.Fatal(err)
	}
	runs := max(p.ReplayRuns, 1)
	for i := 0; i < runs; i++ {
		if err := eval(&p, test, &Ctx{Replaying: true}, c, rf.Case); err != nil {
			t.Fatalf("still violated (run %d): %v", i+1, err)
		}
	}
	fmt.Printf("replayed %s %d times: property holds\n", filepath.Base(path), runs)
}

// Main runs the tests of a package.
func Main(m *testing.M) {
	flag.Parse()
	os.Exit(m.Run())
}
