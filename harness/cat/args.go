package cat

import (
	"errors"

	"pgregory.net/rapid"
)

// Arg is a serialisable format argument.
type Arg struct {
	K string  `json:"k"`
	S string  `json:"s,omitempty"`
	I int64   `json:"i,omitempty"`
	F float64 `json:"f,omitempty"`
}

// Value is the Go value of the argument.
func (a Arg) Value() interface{} {
	switch a.K {
	case "s":
		return a.S
	case "i":
		return int(a.I)
	case "u8":
		return uint8(a.I)
	case "f":
		return a.F
	case "b":
		return a.I != 0
	case "err":
		return errors.New(a.S)
	case "sl":
		return []string{a.S, "x"}
	case "m":
		return map[string]int{a.S: int(a.I)}
	case "bytes":
		return []byte(a.S)
	case "r":
		return rune(a.I & 0xffff)
	case "st":
		return struct {
			A string
			B int64
		}{a.S, a.I}
	}
	return nil
}

// Values converts all arguments; no arguments give a nil slice.
func Values(as []Arg) []interface{} {
	var vs []interface{}
	for _, a := range as {
		vs = append(vs, a.Value())
	}
	return vs
}

// GenArg draws an argument.
func GenArg(t *rapid.T, label string) Arg {
	k := rapid.SampledFrom([]string{"s", "s", "i", "i", "f", "b", "nil", "err", "sl", "m", "bytes", "r", "u8", "st"}).Draw(t, label+".kind")
	a := Arg{K: k}
	switch k {
	case "s", "err", "sl", "m", "bytes", "st":
		a.S = Text(t, TextOpts{}, label+".s")
	}
	switch k {
	case "i", "b", "m", "r", "u8", "st":
		a.I = rapid.SampledFrom([]int64{0, 1, -1, 2, 7, 42, 65, 255, 1000, 1 << 40, -12345}).Draw(t, label+".i")
	case "f":
		a.F = rapid.SampledFrom([]float64{0, 1.5, -2.25, 3.14159, 1e20, 1e-9}).Draw(t, label+".f")
	}
	return a
}

// GenArgs draws an argument list, empty in about a third of the cases.
func GenArgs(t *rapid.T, label string) []Arg {
	n := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 5}).Draw(t, label+".n")
	var as []Arg
	for i := 0; i < n; i++ {
		as = append(as, GenArg(t, label))
	}
	return as
}

// FormatText draws text full of formatting directives and percent signs.
func FormatText(t *rapid.T, label string) string {
	fr := []string{"%s", "%d", "%v", "%%", "%", "%5.2f", "%q", "%+v", "%x", "%[2]v", "%[1]s", "%!", "%*d", "%T", "100%", "%-5s|", "%05d", " of ", "é", "\n", "%%d", "% d", "%c", "a", "%(x)s", "%t", "%p"[:1], "%w"}
	n := rapid.IntRange(1, 6).Draw(t, label+".nfr")
	s := ""
	for i := 0; i < n; i++ {
		s += rapid.SampledFrom(fr).Draw(t, label+".fr")
	}
	return s
}
