package cli

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
	"github.com/leonelquinteros/gotext/cli/xgotext/parser/dir"
	"pgregory.net/rapid"

	"verif/harness/core"
)

type treeCase struct {
	Dirs    []string `json:"dirs"`  // relative paths of directories (parents implied)
	Files   []string `json:"files"` // names of files put in every third directory
	Exclude []string `json:"exclude"`
	Rel     bool     `json:"rel"`  // root given relative to the working directory
	Root    string   `json:"root"` // path of the root below the scratch directory
	Spell   string   `json:"spell"`
	Mirror  bool     `json:"mirror"` // the tree occurs again below its own absolute path
	Link    string   `json:"link"`   // the root is reached by a link of this name
	Slash   bool     `json:"slash"`
	FailAt  int      `json:"failAt"` // the parser fails at this directory (-1: never)
	Verbose bool     `json:"verbose"`
}

var dirNames = []string{"a", "b", "ab", "a.b", "vendor", "vendor2", "vendors", ".git", ".github", "git", "a b", "é", "testdata", "node_modules", "A", "_x", "internal"}

func genRelDir(t *rapid.T) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(dirNames), 1, 4).Draw(t, "path"), "/")
}

func genTree(t *rapid.T, maxDirs int) treeCase {
	c := treeCase{FailAt: -1}
	c.Dirs = rapid.SliceOfN(rapid.Custom(genRelDir), 1, maxDirs).Draw(t, "dirs")
	c.Exclude = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string {
		var p string
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 0:
			p = genRelDir(t)
		case 1, 2: // one of the directories
			p = rapid.SampledFrom(c.Dirs).Draw(t, "d")
		case 3: // an ancestor of one
			s := strings.Split(rapid.SampledFrom(c.Dirs).Draw(t, "d"), "/")
			p = strings.Join(s[:rapid.IntRange(1, len(s)).Draw(t, "up")], "/")
		default: // almost the name of one
			p = rapid.SampledFrom(c.Dirs).Draw(t, "d")
			if rapid.Bool().Draw(t, "cut") && len(p) > 1 && p[len(p)-1] < 0x80 && p[len(p)-2] != '/' && p[len(p)-2] != '.' {
				p = p[:len(p)-1]
			} else {
				p += rapid.SampledFrom([]string{"2", ".go", "/zz", "s"}).Draw(t, "more")
			}
		}
		switch rapid.IntRange(0, 7).Draw(t, "spelling") {
		case 0:
			p += "/"
		case 1:
			p = "./" + p
		case 2:
			p = strings.Replace(p, "/", "//", 1)
		case 3:
			p = "b/../" + p
		case 4:
			p = "../" + p
		}
		return p
	}), 0, 4).Draw(t, "exclude")
	if rapid.IntRange(0, 3).Draw(t, "empty") == 0 {
		c.Exclude = append([]string{""}, c.Exclude...)
	}
	return c
}

// excluded says whether the directory is listed or lies below a listed one.
func (c *treeCase) excluded(rel string) bool {
	comp := func(p string) []string {
		var out []string
		for _, s := range strings.Split(p, "/") {
			switch {
			case s == "" || s == ".":
			case s == ".." && len(out) > 0 && out[len(out)-1] != "..":
				out = out[:len(out)-1]
			default:
				out = append(out, s)
			}
		}
		return out
	}
	if rel == "." {
		return false
	}
	path := comp(rel)
	for _, e := range c.Exclude {
		x := comp(e)
		if len(x) > 0 && len(x) <= len(path) && reflect.DeepEqual(path[:len(x)], x) {
			return true
		}
	}
	return false
}

// all lists the directories of the tree, the root as ".".
func (c *treeCase) all() []string {
	set := map[string]bool{".": true}
	for _, d := range c.Dirs {
		for p := d; p != "."; p = filepath.Dir(p) {
			set[p] = true
		}
	}
	var out []string
	for d := range set {
		out = append(out, d)
	}
	sort.Strings(out)
	return out
}

func (c *treeCase) build(root string, content func(rel string) map[string]string) error {
	for _, d := range c.all() {
		p := filepath.Join(root, d)
		if err := os.MkdirAll(p, 0o755); err != nil {
			return err
		}
		for n, s := range content(d) {
			if err := os.WriteFile(filepath.Join(p, n), []byte(s), 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}

var visits []string
var visitBase []string
var failAt int
var errVisit = errors.New("stop here")

func init() {
	// registered after the Go parser, which finds no go command here
	dir.AddParser(func(d, base string, data *parser.DomainMap) error {
		visits = append(visits, d)
		visitBase = append(visitBase, base)
		data.AddTranslation("", &parser.Translation{MsgID: d, SourceLocations: []string{"x:1"}})
		if failAt >= 0 && len(visits) > failAt {
			return errVisit
		}
		return nil
	})
}

func TestC29_Scan(t *testing.T) {
	path := os.Getenv("PATH")
	os.Setenv("PATH", "/nonexistent")
	defer os.Setenv("PATH", path)
	core.Run(t, core.Prop[treeCase]{
		ID: "C29", Checks: 4000,
		Rule: "trees of 1-12 generated directory paths up to 4 deep with names that are prefixes of each other, exclude lists of listed, ancestor and almost-matching paths in unclean spellings, the root, with look-alikes inside and beside it, given absolute, relative in several spellings or through a link; the directories a registered parser is given are compared with the definition; non-trivial: something is excluded",
		Gen: func(t *rapid.T) treeCase {
			c := genTree(t, 12)
			c.Rel = rapid.Bool().Draw(t, "rel")
			c.Root = rapid.SampledFrom([]string{"root", "a", "a/b", "b/a", "ab", "vendor", ".git", "A/a", "é"}).Draw(t, "root")
			c.Mirror = rapid.IntRange(0, 5).Draw(t, "mirror") == 0
			c.Spell = rapid.SampledFrom([]string{"plain", "plain", ".", "./", "..", "//"}).Draw(t, "spell")
			if rapid.IntRange(0, 4).Draw(t, "linked") == 0 {
				c.Link = rapid.SampledFrom([]string{"link", "l", ".lnk"}).Draw(t, "link")
			}
			c.Slash = rapid.Bool().Draw(t, "slash")
			c.Verbose = rapid.Bool().Draw(t, "verbose")
			if rapid.IntRange(0, 7).Draw(t, "fail") == 0 {
				c.FailAt = rapid.IntRange(0, 3).Draw(t, "failat")
			}
			return c
		},
		Check: func(x *core.Ctx, c treeCase) error {
			scratch, err := os.MkdirTemp("", "scan")
			if err != nil {
				return err
			}
			defer os.RemoveAll(scratch)
			if scratch, err = filepath.EvalSymlinks(scratch); err != nil {
				return err
			}
			if c.Root == "" {
				c.Root = "root"
			}
			root := filepath.Join(scratch, c.Root)
			if c.Mirror {
				for _, d := range c.all() {
					c.Dirs = append(c.Dirs, strings.TrimPrefix(filepath.Join(root, d), "/"))
				}
			}
			// directories beside the root are none of its business
			for _, d := range []string{c.Root + "2", "zz/" + c.Root, c.Root + ".d/x"} {
				if err := os.MkdirAll(filepath.Join(scratch, d), 0o755); err != nil {
					return err
				}
			}
			// a file named like an excluded directory is not one
			if err := c.build(root, func(rel string) map[string]string {
				return map[string]string{"README": "x", "vendor.txt": "y"}
			}); err != nil {
				return err
			}
			var want []string
			skipped := 0
			for _, d := range c.all() {
				if c.excluded(d) {
					skipped++
				} else {
					want = append(want, filepath.Join(root, d))
				}
			}
			sort.Strings(want)
			x.NonTrivial(skipped > 0)
			x.Label("excluded %v, failing %v", skipped > 0, c.FailAt >= 0)
			arg, name := root, c.Root
			if c.Link != "" {
				name = c.Link
				arg = filepath.Join(scratch, c.Link)
				if err := os.Symlink(c.Root, arg); err != nil {
					return err
				}
			}
			if c.Rel {
				wd, err := os.Getwd()
				if err != nil {
					return err
				}
				to := scratch
				arg = name
				switch c.Spell {
				case ".":
					to, arg = filepath.Join(scratch, name), "."
				case "./":
					arg = "./" + name
				case "..":
					to, arg = filepath.Join(scratch, "zz"), "../"+name
				case "//":
					arg = "zz/..//" + name
				}
				if err := os.Chdir(to); err != nil {
					return err
				}
				pwd := os.Getenv("PWD")
				os.Setenv("PWD", to) // as a shell does
				defer func() { os.Chdir(wd); os.Setenv("PWD", pwd) }()
			}
			if c.Slash {
				arg += "/"
			}
			visits, visitBase, failAt = nil, nil, c.FailAt
			dm := &parser.DomainMap{}
			err = dir.ParseDirRec(arg, c.Exclude, dm, c.Verbose)
			if c.FailAt >= 0 && c.FailAt < len(want) {
				if !errors.Is(err, errVisit) {
					return fmt.Errorf("a parser failed, but the scan returned %v", err)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("scan: %w", err)
			}
			for _, b := range visitBase {
				if r, err := filepath.EvalSymlinks(b); err != nil || r != root {
					return fmt.Errorf("base path %q, want %q", b, root)
				}
			}
			var got []string
			for _, v := range visits {
				r, err := filepath.EvalSymlinks(v)
				if err != nil {
					return err
				}
				got = append(got, r)
			}
			sort.Strings(got)
			if !reflect.DeepEqual(got, want) {
				return fmt.Errorf("exclude %q: visited %s\nwant %s", c.Exclude, short(root, got), short(root, want))
			}
			return nil
		},
	})
}

func short(root string, ps []string) string {
	var out []string
	for _, p := range ps {
		out = append(out, strings.TrimPrefix(strings.TrimPrefix(p, root), "/"))
	}
	return fmt.Sprintf("%q", out)
}

func TestC29_Binary(t *testing.T) {
	core.Run(t, core.Prop[treeCase]{
		ID: "C29", Checks: 32, ThoroughFactor: 15,
		Rule: "a Go package in each directory of a small tree, extracted by the xgotext binary with the exclude list as its -exclude flag (or the default one); the messages tell which directories were visited; non-trivial: something is excluded",
		Gen: func(t *rapid.T) treeCase {
			c := genTree(t, 4)
			if rapid.IntRange(0, 3).Draw(t, "noflag") == 0 {
				c.Exclude = []string{".git"}
				c.Rel = true // no flag given
			}
			// not import paths, or special to the go command
			fix := func(s string) string {
				return strings.NewReplacer("a b", "ab", "é", "e", "vendor", "vend").Replace(s)
			}
			for i := range c.Dirs {
				c.Dirs[i] = fix(c.Dirs[i])
			}
			for i := range c.Exclude {
				c.Exclude[i] = fix(c.Exclude[i])
			}
			return c
		},
		Check: func(x *core.Ctx, c treeCase) error {
			base, err := os.MkdirTemp("", "scanbin")
			if err != nil {
				return err
			}
			defer os.RemoveAll(base)
			root := filepath.Join(base, "prog")
			if err := c.build(root, func(rel string) map[string]string {
				return map[string]string{"x.go": fmt.Sprintf("package x\n\nimport \"github.com/leonelquinteros/gotext\"\n\nvar _ = gotext.Get(%q)\n", "in "+rel)}
			}); err != nil {
				return err
			}
			if err := writeModule(root); err != nil {
				return err
			}
			var occs []occurrence
			skipped := 0
			for _, d := range c.all() {
				if c.excluded(d) {
					skipped++
				} else {
					occs = append(occs, occurrence{ID: "in " + d, Loc: filepath.Join(d, "x.go") + ":5"})
				}
			}
			x.NonTrivial(skipped > 0)
			out := filepath.Join(base, "out")
			args := []string{"-in", root, "-out", out}
			if !c.Rel {
				args = append(args, "-exclude", strings.Join(c.Exclude, ","))
			}
			if err := runExtractor(base, args...); err != nil {
				return err
			}
			got, err := readPots(out)
			if err != nil {
				return err
			}
			return diff(collect("default", occs), got, true)
		},
	})
}

// writeModule makes root a module that uses the gotext under test.
func writeModule(root string) error { return writeModuleAs(root, "example.com/prog", nil) }

// writeModuleAs makes root the module path, which uses the gotext under test and the modules in deps.
func writeModuleAs(root, path string, deps map[string]string) error {
	sum, err := os.ReadFile("/repo/go.sum")
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(root, "go.sum"), sum, 0o644); err != nil {
		return err
	}
	mod := "module " + path + "\n\ngo 1.23\n\nrequire github.com/leonelquinteros/gotext v0.0.0\n\nreplace github.com/leonelquinteros/gotext => /repo\n"
	for p, dir := range deps {
		mod += "\nrequire " + p + " v0.0.0\n\nreplace " + p + " => " + dir + "\n"
	}
	return os.WriteFile(filepath.Join(root, "go.mod"), []byte(mod), 0o644)
}

func runExtractor(cwd string, args ...string) error {
	cmd := exec.Command(os.Getenv("VERIF_XGOTEXT"), args...)
	cmd.Dir = cwd
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOMAXPROCS=2", "PWD="+cwd)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("xgotext %q: %v\n%s", args, err, out)
	}
	return nil
}
