package lib

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/leonelquinteros/gotext"

	"verif/harness/cat"
)

// scratch makes a directory that cleanup removes.
func scratch() (string, func()) {
	d, err := os.MkdirTemp("", "case-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	return d, func() { os.RemoveAll(d) }
}

// put writes a file below dir, making directories.
func put(dir, name string, data []byte) {
	p := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic("harness: " + err.Error())
	}
	if err := os.WriteFile(p, data, 0o644); err != nil {
		panic("harness: " + err.Error())
	}
	if len(data)%3 != 0 {
		// as files from an archive, a copy or a checkout: all of one time
		if err := os.Chtimes(p, putTime, putTime); err != nil {
			panic("harness: " + err.Error())
		}
	}
}

var putTime = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

// openBelow lists the files below dir this process has open.
func openBelow(dir string) []string {
	var open []string
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(to, dir+"/") {
			open = append(open, to)
		}
	}
	return open
}

// expHeaders are the header values a catalogue must report.
func expHeaders(c *cat.Cat) gotext.HeaderMap {
	m := gotext.HeaderMap{}
	for _, h := range c.AllHeaders() {
		m[h.K] = append(m[h.K], h.V)
	}
	return m
}

func checkHeaders(c *cat.Cat, got gotext.HeaderMap) error {
	want := expHeaders(c)
	if len(want) == 0 && len(got) == 0 {
		return nil
	}
	if !reflect.DeepEqual(map[string][]string(want), map[string][]string(got)) {
		return fmt.Errorf("headers: got %q, want %q", got, want)
	}
	return nil
}

// safely runs f and turns a panic into an error.
func safely(what string, f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s panics: %v", what, r)
		}
	}()
	f()
	return nil
}

// symlink makes a link below dir.
func symlink(target, dir, name string) {
	p := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic("harness: " + err.Error())
	}
	if err := os.Symlink(target, p); err != nil {
		panic("harness: " + err.Error())
	}
}
