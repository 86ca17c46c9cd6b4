// Package cat models message catalogues: generators, an independent PO writer
// and reader, an independent MO writer, a C evaluator for plural formulas and
// the expected result of every lookup.
package cat

import (
	"fmt"
	"math"
	"strings"

	"pgregory.net/rapid"
)

var words = []string{"a", "b", "c", "ab", "File", "file", "Open", "One file", "%d files", "Hello, %s!", "yes", "no", "x y", "A", "é", "Ünïcødé", "日本語", "0", "1", "msgid", "msgstr"}

var frags = []string{
	`"`, `""`, `\`, `\\`, `\"`, "\n", "\n\n", "\t", "\r", "\r\n", " ", "  ", "%", "%s", "%d", "%%", `\n`, `\t`, `\x41`, `\101`,
	"msgid", "msgid ", "msgstr", "msgstr[0] ", "msgctxt", "msgid_plural", "#", "#:", "#~ ", "é", "日本", "🙂", "\u200f", "'", "`", ":", ";", "=",
	"\u0085", "\u00a0", "{{.}}", "[0]", "[", "]", "0", "1", "\v", "\f", "\a", "\b", "\x01", "\x7f", "\u2028", "\ufeff", "\ufffd", "a", "b", "Z", "word", "e.g.", ",", "(", ")", "|", "&", "\u0000x"[1:],
	"Plural-Forms: nplurals=1; plural=0;\n", "Language: xx\n", "\U0010ffff", "İ", "ß", "%(name)s", "%!", "%v", "%5.2f",
}

// TextOpts narrows Text.
type TextOpts struct {
	NoEmpty   bool // never ""
	NoNewline bool
	NoControl bool
}

// Text draws any UTF-8 text without NUL and EOT (the MO separators).
func Text(t *rapid.T, o TextOpts, label string) string {
	var s string
	switch k := rapid.IntRange(0, 19).Draw(t, label+".kind"); {
	case k < 7:
		s = rapid.SampledFrom(words).Draw(t, label+".word")
	case k < 15:
		s = strings.Join(rapid.SliceOfN(rapid.SampledFrom(frags), 1, 8).Draw(t, label+".frags"), "")
	case k < 17:
		s = rapid.SampledFrom(words).Draw(t, label+".w1") + rapid.SampledFrom(frags).Draw(t, label+".sep") + rapid.SampledFrom(words).Draw(t, label+".w2")
	case k < 19:
		s = rapid.StringN(1, 24, -1).Draw(t, label+".any")
	default:
		n := rapid.SampledFrom([]int{17, 60, 76, 77, 80, 81, 127, 128, 255, 256, 257, 300, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9000}).Draw(t, label+".len")
		f := rapid.SampledFrom(frags).Draw(t, label+".rep") + rapid.SampledFrom(words).Draw(t, label+".rep2")
		s = strings.Repeat(f, n/len(f)+1)
	}
	s = clean(s, o)
	if o.NoEmpty && s == "" {
		s = "e"
	}
	return s
}

func clean(s string, o TextOpts) string {
	s = strings.ToValidUTF8(s, "\ufffd")
	s = strings.Map(func(r rune) rune {
		if r == 0 || r == 4 {
			return -1
		}
		if o.NoNewline && r == '\n' {
			return -1
		}
		if o.NoControl && (r < 0x20 || r == 0x7f || r == 0x85 || r == 0x2028 || r == 0x2029) {
			return -1
		}
		return r
	}, s)
	return s
}

// ID draws a non-empty id; small numbers of distinct ids collide often on purpose.
func ID(t *rapid.T, label string) string { return Text(t, TextOpts{NoEmpty: true}, label) }

// Near draws a text that differs little from s and is not empty.
func Near(t *rapid.T, s, label string) string {
	r := []rune(s)
	n := ""
	switch rapid.IntRange(0, 9).Draw(t, label+".near") {
	case 0:
		n = s + " "
	case 1:
		n = " " + s
	case 2:
		n = s + "\n"
	case 3:
		n = "\n" + s
	case 4:
		n = strings.ToUpper(s)
	case 5:
		n = strings.ToLower(s)
	case 6:
		n = s + s
	case 7:
		if len(r) > 1 {
			n = string(r[:len(r)-1])
		}
	case 8:
		n = s + rapid.SampledFrom([]string{"\\", "\"", ".", "0", "\t", "\u0301", "%", ":"}).Draw(t, label+".tail")
	default:
		n = strings.TrimSpace(s)
	}
	if n == "" {
		return s + "x"
	}
	return n
}

// Count draws a count n for plural selection: small, decimal boundaries, huge.
func Count(t *rapid.T, label string) int {
	switch rapid.IntRange(0, 5).Draw(t, label+".kind") {
	case 0:
		return rapid.IntRange(0, 3).Draw(t, label)
	case 1, 2:
		return rapid.IntRange(0, 130).Draw(t, label)
	case 3:
		base := rapid.SampledFrom([]int64{0, 10, 20, 100, 110, 200, 1000, 1100, 10000, 65535, 65536, 100000, 1000000, 1000100, 1 << 24, 1<<31 - 1, 1 << 31, 4294967200}).Draw(t, label+".base")
		return clip(base + rapid.Int64Range(0, 30).Draw(t, label+".off"))
	case 4:
		return rapid.IntRange(0, 100000).Draw(t, label)
	default:
		return clip(int64(rapid.Uint32().Draw(t, label)))
	}
}

// clip brings a count into the range of int, which has 32 bits on some platforms.
func clip(n int64) int {
	if int64(int(n)) != n {
		n %= math.MaxInt32
	}
	return int(n)
}

// BigCount draws a count beyond 32 bits.
func BigCount(t *rapid.T, label string) int {
	base := rapid.SampledFrom([]int64{1 << 32, 1 << 32, 1 << 33, 5000000000, 10000000000, 1 << 40, 1000000000000, 1 << 53, 1000000000000000000, math.MaxInt64 - 130}).Draw(t, label+".bigbase")
	return clip(base + rapid.Int64Range(0, 130).Draw(t, label+".off"))
}

// Q quotes for messages.
func Q(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q...(%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}
