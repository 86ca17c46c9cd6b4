package cat

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Plain escapes a string as one PO string body.
func Plain(s string) string {
	return strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`, "\t", `\t`, "\r", `\r`).Replace(s)
}

// WritePlain renders a catalogue in one fixed plain layout.
func WritePlain(c *Cat) string {
	var b strings.Builder
	if ht := c.HeaderText(); ht != "" {
		b.WriteString("msgid \"\"\nmsgstr \"\"\n")
		for _, h := range c.AllHeaders() {
			b.WriteString("\"" + Plain(h.K+": "+h.V+"\n") + "\"\n")
		}
		b.WriteString("\n")
	}
	for i := range c.Entries {
		e := &c.Entries[i]
		for _, r := range e.Refs {
			b.WriteString("#: " + r + "\n")
		}
		if e.Ctx != "" {
			b.WriteString("msgctxt \"" + Plain(e.Ctx) + "\"\n")
		}
		b.WriteString("msgid \"" + Plain(e.ID) + "\"\n")
		if e.Plural != "" || e.OtherForms() {
			b.WriteString("msgid_plural \"" + Plain(e.Plural) + "\"\n")
			for _, f := range e.Forms {
				fmt.Fprintf(&b, "msgstr[%d] \"%s\"\n", f.I, Plain(f.S))
			}
		} else {
			b.WriteString("msgstr \"" + Plain(e.Str(0)) + "\"\n")
		}
		b.WriteString("\n")
	}
	return b.String()
}

// OtherForms tells whether the entry has a text for another form than the first.
func (e *Entry) OtherForms() bool {
	for _, f := range e.Forms {
		if f.I != 0 {
			return true
		}
	}
	return false
}

// Layout options of GenDoc.
type Layout struct {
	Junk     bool // junk lines between entries (not PO syntax)
	RefsOnly bool // no other comments than references
	// NoObsolete leaves out #~ and #| comments.
	NoObsolete bool
	NoCRLF     bool
	// HeaderJunk puts lines without a colon into the header text.
	HeaderJunk bool
}

type poWriter struct {
	t    *rapid.T
	b    strings.Builder
	l    Layout
	eol  string
	wild int // 0 plain .. 3 wild
	// Junk lines written
	junk int
}

// headerJunk is a line of the header text without colon, or nothing.
func (w *poWriter) headerJunk() string {
	if !w.l.HeaderJunk || w.pick(4, "hjunk") > 0 {
		return ""
	}
	w.junk++
	return rapid.SampledFrom([]string{"\n", "no colon\n", "Language\n", "Plural-Forms\n", "  \n", "nplurals=1; plural=0;\n", "-- x --\n", "é\n"}).Draw(w.t, "hjunktext")
}

func (w *poWriter) pick(n int, l string) int { return rapid.IntRange(0, n-1).Draw(w.t, l) }

func (w *poWriter) line(s string) {
	if w.wild > 1 && w.pick(12, "indent") == 0 {
		s = rapid.SampledFrom([]string{" ", "\t", "   "}).Draw(w.t, "ind") + s
	}
	if w.wild > 1 && w.pick(12, "trail") == 0 {
		s += rapid.SampledFrom([]string{" ", "\t", "  "}).Draw(w.t, "trl")
	}
	w.b.WriteString(s + w.eol)
}

// escape renders one chunk body with a random choice of raw and escaped characters.
func (w *poWriter) escape(s string) string {
	var b strings.Builder
	rs := []rune(s)
	for _, r := range rs {
		switch r {
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			if w.wild > 0 && w.pick(2, "rawtab") == 0 {
				b.WriteRune(r)
			} else {
				b.WriteString(`\t`)
			}
		case '\a', '\b', '\f', '\v':
			if w.wild > 0 && w.pick(2, "rawctl") == 0 {
				b.WriteRune(r)
			} else {
				b.WriteString(map[rune]string{'\a': `\a`, '\b': `\b`, '\f': `\f`, '\v': `\v`}[r])
			}
		default:
			if w.wild > 2 && w.pick(30, "oct") == 0 {
				for _, c := range []byte(string(r)) {
					fmt.Fprintf(&b, `\%03o`, c)
				}
			} else {
				b.WriteRune(r)
			}
		}
	}
	return b.String()
}

// keyword renders keyword + string in a random split.
func (w *poWriter) keyword(kw, s string) {
	sep := " "
	if w.wild > 1 && w.pick(10, "sep") == 0 {
		sep = rapid.SampledFrom([]string{"  ", "\t", ""}).Draw(w.t, "seps")
	}
	var chunks []string
	rest := s
	mode := 0
	if w.wild > 0 {
		mode = w.pick(6, "split")
	}
	switch mode {
	case 0, 1: // one line
		chunks = []string{rest}
	case 2: // by newline, empty first line
		chunks = append([]string{""}, strings.SplitAfter(rest, "\n")...)
	case 3: // by newline
		chunks = strings.SplitAfter(rest, "\n")
	default: // arbitrary
		rs := []rune(rest)
		for len(rs) > 0 {
			k := rapid.IntRange(0, min(len(rs), 20)).Draw(w.t, "chunk")
			if len(chunks) > 12 {
				k = len(rs)
			}
			chunks = append(chunks, string(rs[:k]))
			rs = rs[k:]
		}
		if w.pick(3, "emptylast") == 0 {
			chunks = append(chunks, "")
		}
	}
	if len(chunks) == 0 {
		chunks = []string{""}
	}
	for i, c := range chunks {
		body := `"` + w.escape(c) + `"`
		if i == 0 {
			w.line(kw + sep + body)
		} else {
			w.line(body)
		}
		if w.wild > 2 && w.pick(25, "blankin") == 0 {
			w.line("")
		}
	}
}

var otherComments = []string{
	"# translator comment", "#", "#. extracted", "#, fuzzy", "#, c-format, no-wrap", "#| msgid \"old id\"", "#| \"more\"", "#| msgctxt \"oldctx\"",
	"#~ msgid \"obsolete\"", "#~ msgstr \"obsolet\"", "#~ msgid_plural \"x\"", "# \"quoted\"", "#\t", "# msgid \"no\"", "#~ \"cont\"", "#~| msgid \"prev\"", "# é", "#-",
}

var plainComments = []string{"# translator comment", "#", "#. extracted", "#, fuzzy", "#, c-format, no-wrap", "# \"quoted\"", "#\t", "# msgid \"no\"", "# é", "#-", "# : no:1", "#.: no:2"}

// Junk lines are not PO syntax: no comment mark, keyword or quote at the start.
var junkLines = []string{"garbage", "<<<<<<< HEAD", "=======", ">>>>>>> branch", "domain \"x\"", "foo \"bar\"", "\\", "[0] \"x\"", "str \"x\"", "'single'", "Msgid \"x\"", "id \"x\"", "\x00", "é", "msg", "msgi \"d\"", "msgct \"x\"", "_msgid \"x\""}

func (w *poWriter) comments(refs []string) {
	otherComments := otherComments
	if w.l.NoObsolete {
		otherComments = plainComments
	}
	if w.wild > 0 && w.pick(3, "c1") == 0 && !w.l.RefsOnly {
		w.line(rapid.SampledFrom(otherComments).Draw(w.t, "comment"))
	}
	// references over one or several lines
	for len(refs) > 0 {
		k := len(refs)
		if w.wild > 0 {
			k = rapid.IntRange(1, len(refs)).Draw(w.t, "refsline")
		}
		sep := "#: "
		if w.wild > 1 && w.pick(6, "refsep") == 0 {
			sep = rapid.SampledFrom([]string{"#:  ", "#:", "#:\t"}).Draw(w.t, "refseps")
		}
		w.line(sep + strings.Join(refs[:k], " "))
		refs = refs[k:]
		if w.wild > 1 && w.pick(6, "c2") == 0 && !w.l.RefsOnly {
			w.line(rapid.SampledFrom(otherComments).Draw(w.t, "comment"))
		}
	}
	if w.wild > 0 && w.pick(4, "c3") == 0 && !w.l.RefsOnly {
		w.line(rapid.SampledFrom(otherComments).Draw(w.t, "comment"))
	}
}

func (w *poWriter) junkLine() {
	if w.l.Junk && w.pick(2, "junk") == 0 {
		n := rapid.IntRange(1, 3).Draw(w.t, "njunk")
		for i := 0; i < n; i++ {
			w.line(w.junkText())
			w.junk++
		}
	}
}

// junkText draws a line that is no comment, keyword or string.
func (w *poWriter) junkText() string {
	s := rapid.SampledFrom(junkLines).Draw(w.t, "junkline")
	if w.pick(3, "junkkind") == 0 {
		s = Text(w.t, TextOpts{NoNewline: true}, "junktext")
	}
	c := strings.TrimSpace(s)
	for _, k := range []string{"#", "\"", "msgid", "msgctxt", "msgstr"} {
		if strings.HasPrefix(c, k) {
			return "junk " + s
		}
	}
	return s
}

// GenDoc renders a catalogue as a PO document in a random layout. The catalogue
// may be used as the oracle of the document. With junk, the number of junk lines is returned.
func GenDoc(t *rapid.T, c *Cat, l Layout) (string, int) {
	w := &poWriter{t: t, l: l, eol: "\n"}
	w.wild = rapid.IntRange(0, 3).Draw(t, "wild")
	if !l.NoCRLF && rapid.IntRange(0, 4).Draw(t, "crlf") == 0 {
		w.eol = "\r\n"
	}
	for _, h := range c.Head {
		w.b.WriteString(h + w.eol)
	}
	hdr := func() {
		hs := c.AllHeaders()
		if len(hs) == 0 {
			return
		}
		if w.wild > 1 && w.pick(4, "hdrsplit") == 0 {
			w.keyword("msgid", "")
			text := ""
			for _, h := range hs {
				text += w.headerJunk() + h.K + ": " + h.V + "\n"
			}
			w.keyword("msgstr", text+w.headerJunk())
		} else {
			w.line(`msgid ""`)
			w.line(`msgstr ""`)
			for _, h := range hs {
				if j := w.headerJunk(); j != "" {
					w.line(`"` + w.escape(j) + `"`)
				}
				w.line(`"` + w.escape(h.K+": "+h.V+"\n") + `"`)
			}
		}
		w.line("")
	}
	// Comments before the first entry are the document's, so with references the header comes first.
	hdrLast := rapid.IntRange(0, 24).Draw(t, "hdrlast") == 24 && !l.RefsOnly
	for i := range c.Entries {
		hdrLast = hdrLast && len(c.Entries[i].Refs) == 0
	}
	if !hdrLast {
		hdr()
	}
	w.junkLine()
	order := make([]int, len(c.Entries))
	for i := range order {
		order[i] = i
	}
	order = rapid.Permutation(order).Draw(t, "order")
	for _, i := range order {
		e := &c.Entries[i]
		w.comments(e.Refs)
		if e.Ctx != "" {
			w.keyword("msgctxt", e.Ctx)
		}
		w.keyword("msgid", e.ID)
		if e.Plural != "" {
			w.keyword("msgid_plural", e.Plural)
			fs := e.Forms
			if w.wild > 1 {
				fs = rapid.Permutation(e.Forms).Draw(t, "forms")
			}
			for _, f := range fs {
				w.keyword(fmt.Sprintf("msgstr[%d]", f.I), f.S)
			}
		} else {
			w.keyword("msgstr", e.Str(0))
		}
		n := 1
		if w.wild > 0 {
			n = rapid.IntRange(0, 2).Draw(t, "blanks")
		}
		for ; n > 0; n-- {
			w.line("")
		}
		w.junkLine()
	}
	if hdrLast {
		w.line("")
		hdr()
	}
	return w.finish(), w.junk
}

func (w *poWriter) finish() string {
	s := w.b.String()
	if w.wild > 0 && rapid.IntRange(0, 3).Draw(w.t, "noeof") == 0 {
		s = strings.TrimRight(s, "\r\n")
	}
	return s
}

// RefEntry is an entry as read by the reference reader.
type RefEntry struct {
	Ctx       string
	HasCtx    bool
	ID        string
	Plural    string
	HasPlural bool
	Strs      map[int]string
	Refs      []string
}

// RefDoc is a document as read by the reference reader.
type RefDoc struct {
	Head    []string // comment lines before the first entry
	Entries []RefEntry
}

// ReadPO is an independent strict reader of PO text.
func ReadPO(text string) (*RefDoc, error) {
	doc := &RefDoc{}
	var cur *RefEntry
	var target *string
	var idx int
	var refs []string
	state := ""
	flush := func() error {
		if cur == nil {
			return nil
		}
		if len(cur.Strs) == 0 {
			return fmt.Errorf("entry %q has no msgstr", cur.ID)
		}
		doc.Entries = append(doc.Entries, *cur)
		cur = nil
		return nil
	}
	for ln, raw := range strings.Split(text, "\n") {
		line := strings.Trim(raw, " \t\r")
		if line == "" {
			continue
		}
		bad := func(m string) error { return fmt.Errorf("line %d: %s: %q", ln+1, m, line) }
		if line[0] == '#' {
			if state == "" {
				doc.Head = append(doc.Head, line)
			}
			if strings.HasPrefix(line, "#:") && state != "" {
				refs = append(refs, strings.Fields(line[2:])...)
			}
			continue
		}
		if line[0] == '"' {
			if target == nil {
				return nil, bad("string without keyword")
			}
			s, err := unquotePO(line)
			if err != nil {
				return nil, bad(err.Error())
			}
			if state == "msgstr" {
				cur.Strs[idx] += s
			} else {
				*target += s
			}
			continue
		}
		k := strings.IndexAny(line, " \t\"")
		if k < 0 {
			return nil, bad("keyword without string")
		}
		kw, rest := line[:k], strings.Trim(line[k:], " \t")
		s, err := unquotePO(rest)
		if err != nil {
			return nil, bad(err.Error())
		}
		switch {
		case kw == "msgctxt":
			if err := flush(); err != nil {
				return nil, err
			}
			cur = &RefEntry{Strs: map[int]string{}, Refs: refs}
			refs = nil
			cur.Ctx, cur.HasCtx = s, true
			target, state = &cur.Ctx, "msgctxt"
		case kw == "msgid":
			if state != "msgctxt" {
				if err := flush(); err != nil {
					return nil, err
				}
				cur = &RefEntry{Strs: map[int]string{}, Refs: refs}
				refs = nil
			}
			cur.ID = s
			target, state = &cur.ID, "msgid"
		case kw == "msgid_plural":
			if state != "msgid" {
				return nil, bad("misplaced msgid_plural")
			}
			cur.Plural, cur.HasPlural = s, true
			target, state = &cur.Plural, "msgid_plural"
		case kw == "msgstr":
			if state != "msgid" {
				return nil, bad("misplaced msgstr")
			}
			idx = 0
			cur.Strs[0] = s
			target, state = new(string), "msgstr"
		case strings.HasPrefix(kw, "msgstr[") && strings.HasSuffix(kw, "]"):
			if state != "msgid_plural" && state != "msgstr" || !cur.HasPlural {
				return nil, bad("misplaced msgstr[]")
			}
			i, err := strconv.Atoi(kw[len("msgstr[") : len(kw)-1])
			if err != nil || i < 0 {
				return nil, bad("bad index")
			}
			if _, dup := cur.Strs[i]; dup {
				return nil, bad("duplicate form")
			}
			idx = i
			cur.Strs[i] = s
			target, state = new(string), "msgstr"
		default:
			return nil, bad("unknown keyword")
		}
	}
	if state == "msgctxt" {
		return nil, errors.New("dangling msgctxt")
	}
	if err := flush(); err != nil {
		return nil, err
	}
	seen := map[string]bool{}
	for _, e := range doc.Entries {
		k := fmt.Sprintf("%v|%q|%q", e.HasCtx, e.Ctx, e.ID)
		if seen[k] {
			return nil, fmt.Errorf("duplicate entry %s", k)
		}
		seen[k] = true
	}
	return doc, nil
}

func unquotePO(s string) (string, error) {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return "", errors.New("string not quoted")
	}
	s = s[1 : len(s)-1]
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			return "", errors.New("unescaped quote inside string")
		}
		if c != '\\' {
			b = append(b, c)
			continue
		}
		i++
		if i == len(s) {
			return "", errors.New("string ends in a backslash (closing quote escaped)")
		}
		switch s[i] {
		case 'n':
			b = append(b, '\n')
		case 't':
			b = append(b, '\t')
		case 'r':
			b = append(b, '\r')
		case 'a':
			b = append(b, 7)
		case 'b':
			b = append(b, 8)
		case 'f':
			b = append(b, 12)
		case 'v':
			b = append(b, 11)
		case '\\', '"':
			b = append(b, s[i])
		case '0', '1', '2', '3', '4', '5', '6', '7':
			v := 0
			k := 0
			for ; k < 3 && i+k < len(s) && s[i+k] >= '0' && s[i+k] <= '7'; k++ {
				v = v*8 + int(s[i+k]-'0')
			}
			i += k - 1
			b = append(b, byte(v))
		case 'x':
			if i+2 >= len(s) {
				return "", errors.New("bad hex escape")
			}
			v, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
			if err != nil {
				return "", errors.New("bad hex escape")
			}
			i += 2
			b = append(b, byte(v))
		default:
			return "", fmt.Errorf("invalid escape \\%c", s[i])
		}
	}
	if !utf8.Valid(b) {
		return "", errors.New("not UTF-8")
	}
	return string(b), nil
}
