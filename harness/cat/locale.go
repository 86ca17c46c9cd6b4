package cat

import "github.com/leonelquinteros/gotext"

// LocaleLooker queries one domain of a Locale; Append* have no Locale counterpart.
type LocaleLooker struct {
	L *gotext.Locale
	// D is the domain; "" uses the functions for the default domain.
	D string
}

func (l LocaleLooker) Get(str string, vars ...interface{}) string {
	if l.D == "" {
		return l.L.Get(str, vars...)
	}
	return l.L.GetD(l.D, str, vars...)
}
func (l LocaleLooker) GetN(str, plural string, n int, vars ...interface{}) string {
	if l.D == "" {
		return l.L.GetN(str, plural, n, vars...)
	}
	return l.L.GetND(l.D, str, plural, n, vars...)
}
func (l LocaleLooker) GetC(str, ctx string, vars ...interface{}) string {
	if l.D == "" {
		return l.L.GetC(str, ctx, vars...)
	}
	return l.L.GetDC(l.D, str, ctx, vars...)
}
func (l LocaleLooker) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string {
	if l.D == "" {
		return l.L.GetNC(str, plural, n, ctx, vars...)
	}
	return l.L.GetNDC(l.D, str, plural, n, ctx, vars...)
}
func (l LocaleLooker) Append(b []byte, str string, vars ...interface{}) []byte {
	return append(b, l.Get(str, vars...)...)
}
func (l LocaleLooker) AppendN(b []byte, str, plural string, n int, vars ...interface{}) []byte {
	return append(b, l.GetN(str, plural, n, vars...)...)
}
func (l LocaleLooker) AppendC(b []byte, str, ctx string, vars ...interface{}) []byte {
	return append(b, l.GetC(str, ctx, vars...)...)
}
func (l LocaleLooker) AppendNC(b []byte, str, plural string, n int, ctx string, vars ...interface{}) []byte {
	return append(b, l.GetNC(str, plural, n, ctx, vars...)...)
}
func (l LocaleLooker) IsTranslated(str string) bool {
	if l.D == "" {
		return l.L.IsTranslated(str)
	}
	return l.L.IsTranslatedD(l.D, str)
}
func (l LocaleLooker) IsTranslatedN(str string, n int) bool {
	if l.D == "" {
		return l.L.IsTranslatedN(str, n)
	}
	return l.L.IsTranslatedND(l.D, str, n)
}
func (l LocaleLooker) IsTranslatedC(str, ctx string) bool {
	if l.D == "" {
		return l.L.IsTranslatedC(str, ctx)
	}
	return l.L.IsTranslatedDC(l.D, str, ctx)
}
func (l LocaleLooker) IsTranslatedNC(str string, n int, ctx string) bool {
	if l.D == "" {
		return l.L.IsTranslatedNC(str, n, ctx)
	}
	return l.L.IsTranslatedNDC(l.D, str, n, ctx)
}

// PkgLooker queries one domain through the package functions.
type PkgLooker struct{ D string }

func (l PkgLooker) Get(str string, vars ...interface{}) string {
	if l.D == "" {
		return gotext.Get(str, vars...)
	}
	return gotext.GetD(l.D, str, vars...)
}
func (l PkgLooker) GetN(str, plural string, n int, vars ...interface{}) string {
	if l.D == "" {
		return gotext.GetN(str, plural, n, vars...)
	}
	return gotext.GetND(l.D, str, plural, n, vars...)
}
func (l PkgLooker) GetC(str, ctx string, vars ...interface{}) string {
	if l.D == "" {
		return gotext.GetC(str, ctx, vars...)
	}
	return gotext.GetDC(l.D, str, ctx, vars...)
}
func (l PkgLooker) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string {
	if l.D == "" {
		return gotext.GetNC(str, plural, n, ctx, vars...)
	}
	return gotext.GetNDC(l.D, str, plural, n, ctx, vars...)
}
func (l PkgLooker) Append(b []byte, str string, vars ...interface{}) []byte {
	return append(b, l.Get(str, vars...)...)
}
func (l PkgLooker) AppendN(b []byte, str, plural string, n int, vars ...interface{}) []byte {
	return append(b, l.GetN(str, plural, n, vars...)...)
}
func (l PkgLooker) AppendC(b []byte, str, ctx string, vars ...interface{}) []byte {
	return append(b, l.GetC(str, ctx, vars...)...)
}
func (l PkgLooker) AppendNC(b []byte, str, plural string, n int, ctx string, vars ...interface{}) []byte {
	return append(b, l.GetNC(str, plural, n, ctx, vars...)...)
}
func (l PkgLooker) IsTranslated(str string) bool {
	if l.D == "" {
		return gotext.IsTranslated(str)
	}
	return gotext.IsTranslatedD(l.D, str)
}
func (l PkgLooker) IsTranslatedN(str string, n int) bool {
	if l.D == "" {
		return gotext.IsTranslatedN(str, n)
	}
	return gotext.IsTranslatedND(l.D, str, n)
}
func (l PkgLooker) IsTranslatedC(str, ctx string) bool {
	if l.D == "" {
		return gotext.IsTranslatedC(str, ctx)
	}
	return gotext.IsTranslatedDC(l.D, str, ctx)
}
func (l PkgLooker) IsTranslatedNC(str string, n int, ctx string) bool {
	if l.D == "" {
		return gotext.IsTranslatedNC(str, n, ctx)
	}
	return gotext.IsTranslatedNDC(l.D, str, n, ctx)
}
