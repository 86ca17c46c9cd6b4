package cat

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// HaveGNU tells whether GNU gettext's programs are installed.
var HaveGNU = sync.OnceValue(func() bool {
	for _, p := range []string{"msgcat", "msgfmt", "gettext", "ngettext"} {
		if _, err := exec.LookPath(p); err != nil {
			return false
		}
	}
	_, err := GNURead([]byte("msgid \"a\"\nmsgstr \"b\"\n"))
	return err == nil
})

// GNURun runs a program of GNU gettext.
func GNURun(env []string, in []byte, name string, args ...string) ([]byte, error) {
	cmd := exec.Command(name, args...)
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "LC_ALL=C.UTF-8", "LANGUAGE="}, env...)
	cmd.Stdin = bytes.NewReader(in)
	var out, diag bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &diag
	cmd.WaitDelay = 10 * time.Second
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("%s %q: %w: %s", name, args, err, strings.TrimSpace(diag.String()))
	}
	return out.Bytes(), nil
}

// ErrNoGNU: GNU gettext's answer cannot be compared.
var ErrNoGNU = errors.New("not comparable with GNU gettext")

// GNURead is a PO document as GNU gettext reads it.
func GNURead(text []byte) (*RefDoc, error) {
	out, err := GNURun(nil, text, "msgcat", "--no-wrap", "--force-po", "-")
	if err != nil {
		return nil, err
	}
	doc, err := ReadPO(string(out))
	if err != nil {
		return nil, fmt.Errorf("%w: msgcat's output: %v", ErrNoGNU, err)
	}
	return doc, nil
}
