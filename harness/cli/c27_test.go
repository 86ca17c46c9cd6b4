package cli

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/harness/core"
)

func checkProgram(x *core.Ctx, c program) error {
	base, err := os.MkdirTemp("", "prog")
	if err != nil {
		return err
	}
	if os.Getenv("VERIF_KEEP") == "" {
		defer os.RemoveAll(base)
	}
	root := filepath.Join(base, "prog")
	place := func(f string) string { return filepath.Join(root, f) }
	if c.Module != "" {
		// the files below alpha/beta are a module of their own
		dir := filepath.Join(root, "alpha", "beta")
		if c.Module == "beside" {
			dir = filepath.Join(base, "dep")
			place = func(f string) string {
				if r, ok := strings.CutPrefix(f, "alpha/beta/"); ok {
					return filepath.Join(dir, r)
				}
				return filepath.Join(root, f)
			}
		}
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return err
		}
		if err := writeModuleAs(dir, "example.com/prog/alpha/beta", nil); err != nil {
			return err
		}
		x.Label("module %s", c.Module)
	}
	for f, s := range c.Files {
		p := place(f)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			return err
		}
	}
	var deps map[string]string
	switch c.Module {
	case "nested":
		deps = map[string]string{"example.com/prog/alpha/beta": "./alpha/beta"}
	case "beside":
		deps = map[string]string{"example.com/prog/alpha/beta": "../dep"}
	}
	path := "example.com/prog"
	if c.Path != "" {
		path = c.Path
		x.Label("module path without a dot")
	}
	if err := writeModuleAs(root, path, deps); err != nil {
		return err
	}
	if os.Getenv("VERIF_COMPILE") != "" {
		cmd := exec.Command("go", "build", "-o", os.DevNull, "./...")
		cmd.Dir = root
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod")
		if out, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("the program does not compile: %s", out)
		}
	}
	var occs []occurrence
	for dir, calls := range c.Calls {
		reached := c.Mode == "in"
		for _, r := range c.Reach {
			reached = reached || r == dir
		}
		if reached {
			occs = append(occs, calls...)
		}
	}
	sort.Strings(c.Kinds)
	for _, k := range c.Kinds {
		x.Label("%s", k)
	}
	x.NonTrivial(len(occs) >= 3 && c.NBad >= 1)
	out := filepath.Join(base, "out")
	cwd, arg, prefix := root, ".", ""
	x.Label("-%s, run from %s", c.Mode, c.Cwd)
	switch {
	case c.Cwd == "parent" && c.Mode == "in":
		cwd, arg = base, "prog"
	case c.Cwd == "parent": // locations are relative to the working directory
		cwd, arg, prefix = base, "prog", "prog/"
	case c.Cwd == "abs" && c.Mode == "in":
		cwd, arg = "/", root
	case c.Cwd == "abs":
		arg = root
	case strings.HasPrefix(c.Cwd, "outer") && c.Mode == "in":
		// the scanned root is above the module
		cwd, prefix = base, "prog/"
		if c.Cwd == "outer module" { // and is one itself
			if err := os.WriteFile(filepath.Join(base, "go.mod"), []byte("module example.com/outer\n\ngo 1.23\n"), 0o644); err != nil {
				return err
			}
		}
	case strings.HasPrefix(c.Cwd, "link") && c.Mode == "in":
		link := filepath.Join(base, "link")
		if err := os.Symlink("prog", link); err != nil {
			return err
		}
		cwd = link
		if c.Cwd == "link abs" {
			cwd, arg = "/", link
		}
	}
	for i := range occs {
		if r, ok := strings.CutPrefix(occs[i].Loc, "alpha/beta/"); ok && c.Module == "beside" {
			if occs[i].Loc = "../dep/" + r; cwd == base {
				occs[i].Loc = "dep/" + r
			}
			continue
		}
		occs[i].Loc = prefix + occs[i].Loc
	}
	if err := runExtractor(cwd, "-"+c.Mode, arg, "-out", out, "-default", c.Default); err != nil {
		return err
	}
	got, err := readPots(out)
	if err != nil {
		return err
	}
	want := collect(c.Default, occs)
	if err := diff(want, got, true); err != nil {
		return fmt.Errorf("%w%s", err, c.context(err.Error()))
	}
	return nil
}

// context quotes the source lines an error names.
func (c *program) context(msg string) string {
	var b strings.Builder
	for f, s := range c.Files {
		lines := strings.Split(s, "\n")
		for i, l := range lines {
			if strings.Contains(msg, fmt.Sprintf("%s:%d]", f, i+1)) || strings.Contains(msg, fmt.Sprintf("%s:%d\"", f, i+1)) || strings.Contains(msg, fmt.Sprintf("%s:%d ", f, i+1)) {
				fmt.Fprintf(&b, "\n%s:%d: %s", f, i+1, l)
			}
		}
	}
	return b.String()
}

func TestC27_Dir(t *testing.T) {
	core.Run(t, core.Prop[program]{
		ID: "C27", Checks: 64, ThoroughFactor: 12,
		Rule:  "generated modules of 1-4 packages with some hundred calls each: every kind of receiver and look-alike, every statement position, import name, literal spelling and argument form; extracted with -in by the xgotext binary, the templates compared with what the generator knows of each call; non-trivial: at least three extractable calls and one that is not",
		Gen:   func(t *rapid.T) program { return genProgram(t, "in") },
		Check: checkProgram,
	})
}

func TestC27_PkgTree(t *testing.T) {
	core.Run(t, core.Prop[program]{
		ID: "C27", Checks: 96, ThoroughFactor: 12,
		Rule:  "the same with -pkg-tree, where only the packages that main reaches count",
		Gen:   func(t *rapid.T) program { return genProgram(t, "pkg-tree") },
		Check: checkProgram,
	})
}
