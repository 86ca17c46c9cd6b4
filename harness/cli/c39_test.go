package cli

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// saveCase saves templates to a place that may not take them.
type saveCase struct {
	T     templateCase `json:"t"`
	Place string       `json:"place"`
	Part  int          `json:"part"` // where the storage is full, in 1/1000 of the largest file
	Old   string       `json:"old"`  // what the file held before
	Mode  string       `json:"mode"` // binary: in, pkg-tree
}

// failing places: a template cannot be written there
var places = map[string]bool{
	"new": false, "nested": false, "empty": false, "stale": false, "linked": false, "others": false,
	"full": true, "file": true, "below file": true, "directory": true, "device full": true, "dangling": true, "root full": true,
}

func readAll(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

// limited runs f while no file can grow beyond n bytes.
func limited(n uint64, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	signal.Ignore(syscall.SIGXFSZ)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// prepare makes the place below base and gives the output directory.
func prepare(c *saveCase, base string, names []string, ref map[string]string) (string, error) {
	out := filepath.Join(base, "out")
	first := filepath.Join(out, names[c.T.Salt%len(names)])
	mk := func(err error) (string, error) { return out, err }
	switch c.Place {
	case "nested":
		return filepath.Join(base, "a", "b.c", "out"), nil
	case "file":
		return mk(os.WriteFile(out, []byte("x"), 0o644))
	case "below file":
		return filepath.Join(out, "sub"), os.WriteFile(out, []byte("x"), 0o644)
	case "new", "full":
		return mk(nil)
	}
	if c.Place == "linked" {
		if err := os.Mkdir(filepath.Join(base, "real"), 0o755); err != nil {
			return "", err
		}
		return mk(os.Symlink("real", out))
	}
	if err := os.Mkdir(out, 0o755); err != nil {
		return "", err
	}
	switch c.Place {
	case "stale":
		for _, n := range names {
			old := c.Old
			if strings.HasPrefix(old, "same+") {
				old = ref[n] + old[5:]
			}
			if err := os.WriteFile(filepath.Join(out, n), []byte(old), 0o644); err != nil {
				return "", err
			}
		}
	case "others":
		for _, n := range []string{"zz.po", "zz.pot", "README", "sub"} {
			if err := os.WriteFile(filepath.Join(out, n), []byte(c.Old), 0o644); err != nil {
				return "", err
			}
		}
	case "directory":
		return mk(os.Mkdir(first, 0o755))
	case "device full":
		return mk(os.Symlink("/dev/full", first))
	case "root full":
		for _, n := range names {
			if err := os.Symlink("/dev/full", filepath.Join(out, n)); err != nil {
				return "", err
			}
		}
	case "dangling":
		return mk(os.Symlink("missing/x.pot", first))
	}
	return out, nil
}

func genSaveCase(t *rapid.T) saveCase {
	var c saveCase
	var ps []string
	for _, p := range []string{"new", "nested", "empty", "stale", "stale", "linked", "others", "full", "full", "full", "file", "below file", "directory", "device full", "root full", "dangling"} {
		ps = append(ps, p)
	}
	c.Place = rapid.SampledFrom(ps).Draw(t, "place")
	c.T = genTemplateCase(t)
	c.Part = rapid.SampledFrom([]int{0, 1, 100, 300, 500, 900, 990, 999}).Draw(t, "part")
	c.Old = rapid.SampledFrom([]string{"", "x", "same+", "same+\n", "same+\nmsgid \"stale\"\nmsgstr \"\"\n", strings.Repeat("msgid \"old\"\nmsgstr \"\"\n\n", 400)}).Draw(t, "old")
	c.Mode = rapid.SampledFrom([]string{"in", "pkg-tree"}).Draw(t, "mode")
	return c
}

func TestC39_Save(t *testing.T) {
	core.Run(t, core.Prop[saveCase]{
		ID: "C39", Checks: 3000,
		Rule: "templates of generated calls saved to a new, nested, empty, linked or used output directory, and to places that fail: storage full after a generated number of bytes (RLIMIT_FSIZE, /dev/full), the directory or one of its parents is a file, a template's name is taken by a directory or a dangling link; non-trivial: the place fails or holds older templates",
		Gen:  genSaveCase,
		Check: func(x *core.Ctx, c saveCase) error {
			x.Label("%s", c.Place)
			x.NonTrivial(places[c.Place] || c.Place == "stale")
			base, err := os.MkdirTemp("", "save")
			if err != nil {
				return err
			}
			defer os.RemoveAll(base)
			mk := func() *parser.DomainMap {
				dm := &parser.DomainMap{Default: c.T.Default}
				for _, o := range c.T.Occs {
					feed(dm, o, c.T.Salt)
				}
				return dm
			}
			refDir := filepath.Join(base, "ref")
			if err := mk().Save(refDir); err != nil {
				return fmt.Errorf("Save: %w", err)
			}
			ref := readAll(refDir)
			var names []string
			largest := 0
			for _, o := range c.T.Occs {
				n := o.Dom + ".pot"
				if o.Dom == "" {
					n = defaultName(c.T.Default) + ".pot"
				}
				if _, ok := ref[n]; !ok {
					return fmt.Errorf("no template %s in %d files", n, len(ref))
				}
				if !slices.Contains(names, n) {
					names = append(names, n)
				}
				largest = max(largest, len(ref[n]))
			}
			work := filepath.Join(base, "work")
			if err := os.Mkdir(work, 0o755); err != nil {
				return err
			}
			out, err := prepare(&c, work, names, ref)
			if err != nil {
				return err
			}
			before := readAll(work)
			dm := mk()
			save := func() { err = dm.Save(out) }
			if c.Place == "full" {
				limited(uint64(largest*c.Part/1000), save)
			} else {
				save()
			}
			if places[c.Place] {
				if err == nil {
					return fmt.Errorf("%s (limit %d of %d bytes): Save reported no error; the directory holds %q", c.Place, largest*c.Part/1000, largest, readAll(work))
				}
				// once there is space again, saving works
				if c.Place == "full" {
					if err := dm.Save(out); err != nil {
						return fmt.Errorf("saving again after a failure: %w", err)
					}
					if got := readAll(out); fmt.Sprint(got) != fmt.Sprint(ref) {
						return fmt.Errorf("saved again after a failure:\n%q\nwant\n%q", got, ref)
					}
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("%s: Save: %w", c.Place, err)
			}
			real := out
			if c.Place == "linked" {
				real = filepath.Join(work, "real")
			}
			got := readAll(real)
			for n, s := range ref {
				if got[n] != s {
					return fmt.Errorf("%s: %s holds\n%s\nwant\n%s", c.Place, n, got[n], s)
				}
			}
			if c.Place == "others" {
				for n, s := range before {
					n = strings.TrimPrefix(n, "out/")
					if _, ok := ref[n]; !ok && got[n] != s {
						return fmt.Errorf("saving changed %s", n)
					}
				}
			} else if len(got) != len(ref) {
				return fmt.Errorf("%s: unexpected files: %q", c.Place, got)
			}
			return nil
		},
	})
}

// binCase calls the binary.
type binCase struct {
	Place string `json:"place"` // of the output
	Input string `json:"input"` // what is wrong with the input or the flags
	Mode  string `json:"mode"`
	N     int    `json:"n"` // number of messages
	Old   bool   `json:"old"`
}

func TestC39_Binary(t *testing.T) {
	core.Run(t, core.Prop[binCase]{
		ID: "C39", Checks: 56, ThoroughFactor: 8,
		Rule: "the xgotext binary over a generated program, with flags that are missing or contradict each other, an input that does not exist, or an output that cannot be written; its exit status, its messages and the files it leaves; non-trivial: it has to fail",
		Gen: func(t *rapid.T) binCase {
			var c binCase
			c.Mode = rapid.SampledFrom([]string{"in", "pkg-tree"}).Draw(t, "mode")
			c.N = rapid.IntRange(1, 40).Draw(t, "n")
			c.Old = rapid.Bool().Draw(t, "old")
			c.Place = "new"
			c.Input = "good"
			switch rapid.IntRange(0, 4).Draw(t, "what") {
			case 0:
			case 1, 2:
				c.Input = rapid.SampledFrom([]string{"missing", "no input", "both", "no output"}).Draw(t, "input")
			default:
				c.Place = rapid.SampledFrom([]string{"file", "below file", "directory", "device full", "dangling", "stale"}).Draw(t, "place")
			}
			return c
		},
		Check: func(x *core.Ctx, c binCase) error {
			fails := c.Input != "good" || places[c.Place]
			x.NonTrivial(fails)
			x.Label("input %s, output %s", c.Input, c.Place)
			base, err := os.MkdirTemp("", "bin")
			if err != nil {
				return err
			}
			defer os.RemoveAll(base)
			root := filepath.Join(base, "prog")
			if err := os.Mkdir(root, 0o755); err != nil {
				return err
			}
			var b strings.Builder
			b.WriteString("package main\n\nimport \"github.com/leonelquinteros/gotext\"\n\nfunc main() {\n")
			var occs []occurrence
			for i := 0; i < c.N; i++ {
				fmt.Fprintf(&b, "\tgotext.Get(\"text %d\")\n", i)
				occs = append(occs, occurrence{ID: fmt.Sprintf("text %d", i), Loc: fmt.Sprintf("main.go:%d", 6+i)})
			}
			b.WriteString("}\n")
			if err := os.WriteFile(filepath.Join(root, "main.go"), []byte(b.String()), 0o644); err != nil {
				return err
			}
			if err := writeModule(root); err != nil {
				return err
			}
			sc := saveCase{Place: c.Place, Old: strings.Repeat("#\n", 5000)}
			work := filepath.Join(base, "work")
			if err := os.Mkdir(work, 0o755); err != nil {
				return err
			}
			out, err := prepare(&sc, work, []string{"default.pot"}, nil)
			if err != nil {
				return err
			}
			if c.Old && c.Place == "new" {
				if err := os.Mkdir(out, 0o755); err != nil {
					return err
				}
				if err := os.WriteFile(filepath.Join(out, "default.pot"), []byte("# an older one\n"), 0o644); err != nil {
					return err
				}
			}
			before := readAll(work)
			in := "."
			if c.Input == "missing" {
				in = filepath.Join(base, "nowhere")
			}
			args := []string{"-" + c.Mode, in, "-out", out}
			switch c.Input {
			case "no input":
				args = args[2:]
			case "no output":
				args = args[:2]
			case "both":
				args = append(args, "-in", in, "-pkg-tree", in)
			}
			cmd := exec.Command(os.Getenv("VERIF_XGOTEXT"), args...)
			cmd.Dir = root
			cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOMAXPROCS=2", "PWD="+root)
			var stdout, stderr bytes.Buffer
			cmd.Stdout, cmd.Stderr = &stdout, &stderr
			err = cmd.Run()
			if !fails {
				if err != nil {
					return fmt.Errorf("xgotext %q: %v\n%s", args, err, stderr.String())
				}
				got, err := readPots(out)
				if err != nil {
					return err
				}
				return diff(collect("default", occs), got, true)
			}
			ee, ok := err.(*exec.ExitError)
			if !ok || ee.ExitCode() <= 0 {
				return fmt.Errorf("xgotext %q, input %s, output %s: ended with %v\n%s", args, c.Input, c.Place, err, stderr.String())
			}
			if strings.Contains(stderr.String(), "panic: ") || strings.Contains(stderr.String(), "goroutine ") {
				return fmt.Errorf("xgotext %q, input %s, output %s: %s", args, c.Input, c.Place, stderr.String())
			}
			if strings.TrimSpace(stderr.String()) == "" {
				return fmt.Errorf("xgotext %q, input %s, output %s: failed with %v, but says nothing", args, c.Input, c.Place, err)
			}
			if c.Input != "good" {
				if after := readAll(work); fmt.Sprint(after) != fmt.Sprint(before) {
					return fmt.Errorf("xgotext %q, input %s, output %s: changed the output directory: %q", args, c.Input, c.Place, after)
				}
				if files, err := os.ReadDir(root); err != nil || len(files) != 3 {
					return fmt.Errorf("xgotext %q, input %s: left files in the working directory: %v", args, c.Input, files)
				}
			}
			return nil
		},
	})
}
