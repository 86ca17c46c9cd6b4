From 71f22f67775907bd9a54ebf080ba83488177b00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 01/58] fix: append msgstr[N] continuation lines to form N

---
 domain.go | 7 ++++---
 po.go     | 5 ++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/domain.go b/domain.go
index 328b255..2fc70cb 100644
--- a/domain.go
+++ b/domain.go
@@ -42,9 +42,10 @@ type Domain struct {
 	pluralMutex sync.RWMutex
 
 	// Parsing buffers
-	trBuffer  *Translation
-	ctxBuffer string
-	refBuffer string
+	trBuffer   *Translation
+	ctxBuffer  string
+	refBuffer  string
+	formBuffer int
 
 	customPluralResolver func(int) int
 }
diff --git a/po.go b/po.go
index e70eb87..ab6e840 100644
--- a/po.go
+++ b/po.go
@@ -221,6 +221,7 @@ func (po *Po) Parse(buf []byte) {
 	po.domain.trBuffer = NewTranslation()
 	po.domain.ctxBuffer = ""
 	po.domain.refBuffer = ""
+	po.domain.formBuffer = 0
 
 	state := head
 	for _, l := range lines {
@@ -372,6 +373,7 @@ func (po *Po) parseMessage(l string) {
 
 		// Parse Translation string
 		po.domain.trBuffer.Trs[i], _ = strconv.Unquote(strings.TrimSpace(l[idx+1:]))
+		po.domain.formBuffer = i
 
 		// Loop
 		return
@@ -379,6 +381,7 @@ func (po *Po) parseMessage(l string) {
 
 	// Save single Translation form under 0 index
 	po.domain.trBuffer.Trs[0], _ = strconv.Unquote(l)
+	po.domain.formBuffer = 0
 }
 
 // parseString takes a well formatted string without prefix
@@ -389,7 +392,7 @@ func (po *Po) parseString(l string, state parseState) {
 	switch state {
 	case msgStr:
 		// Append to last Translation found
-		po.domain.trBuffer.Trs[len(po.domain.trBuffer.Trs)-1] += clean
+		po.domain.trBuffer.Trs[po.domain.formBuffer] += clean
 
 	case msgID:
 		// Multiline msgid - Append to current id
-- 
2.43.0


From f46e958e72fe32b08d2131c43d04ade2492166f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 02/58] fix: attach source references and contexts only to the
 entry they precede

---
 po.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/po.go b/po.go
index ab6e840..f437147 100644
--- a/po.go
+++ b/po.go
@@ -243,7 +243,7 @@ func (po *Po) Parse(buf []byte) {
 
 		// Buffer msgid and continue
 		if strings.HasPrefix(l, "msgid") && !strings.HasPrefix(l, "msgid_plural") {
-			po.parseID(l)
+			po.parseID(l, state)
 			state = msgID
 			continue
 		}
@@ -296,17 +296,16 @@ func (po *Po) saveBuffer() {
 		}
 		po.domain.contextTranslations[po.domain.ctxBuffer][po.domain.trBuffer.ID] = po.domain.trBuffer
 
-		// Cleanup current context buffer if needed
-		if po.domain.trBuffer.ID != "" {
-			po.domain.ctxBuffer = ""
-		}
+		// Cleanup current context buffer
+		po.domain.ctxBuffer = ""
 	}
 
 	// Flush Translation buffer
 	if po.domain.refBuffer == "" {
 		po.domain.trBuffer = NewTranslation()
 	} else {
-		po.domain.trBuffer = NewTranslationWithRefs(strings.Split(po.domain.refBuffer, " "))
+		po.domain.trBuffer = NewTranslationWithRefs(strings.Fields(po.domain.refBuffer))
+		po.domain.refBuffer = ""
 	}
 }
 
@@ -320,7 +319,7 @@ func (po *Po) parseComment(l string, state parseState) {
 			switch l[1] {
 			case ':':
 				if len(l) > 2 {
-					po.domain.refBuffer = strings.TrimSpace(l[2:])
+					po.domain.refBuffer += " " + l[2:]
 				}
 			}
 		}
@@ -339,9 +338,11 @@ func (po *Po) parseContext(l string) {
 
 // parseID takes a line starting with "msgid",
 // saves the current Translation and creates a new msgid buffer.
-func (po *Po) parseID(l string) {
-	// Save current Translation buffer.
-	po.saveBuffer()
+func (po *Po) parseID(l string, state parseState) {
+	// Save current Translation buffer, unless parseContext() just did.
+	if state != msgCtxt {
+		po.saveBuffer()
+	}
 
 	// Set id
 	po.domain.trBuffer.ID, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
-- 
2.43.0


From d5b70274250a69a6b1671df37a1c75a73724aaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 03/58] fix: untranslated plural lookups return the caller's
 plural, never an empty string

---
 domain.go      | 8 ++++----
 translation.go | 8 ++++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/domain.go b/domain.go
index 2fc70cb..2e2fd06 100644
--- a/domain.go
+++ b/domain.go
@@ -331,7 +331,7 @@ func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return FormatString(do.translations[str].GetN(do.pluralForm(n)), vars...)
+			return FormatString(do.translations[str].getN(do.pluralForm(n), plural), vars...)
 		}
 	}
 
@@ -351,7 +351,7 @@ func (do *Domain) AppendN(b []byte, str, plural string, n int, vars ...interface
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return Appendf(b, do.translations[str].GetN(do.pluralForm(n)), vars...)
+			return Appendf(b, do.translations[str].getN(do.pluralForm(n), plural), vars...)
 		}
 	}
 
@@ -467,7 +467,7 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return FormatString(do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
+					return FormatString(do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
 				}
 			}
 		}
@@ -489,7 +489,7 @@ func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return Appendf(b, do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
+					return Appendf(b, do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
 				}
 			}
 		}
diff --git a/translation.go b/translation.go
index 2aa42f8..570e5be 100644
--- a/translation.go
+++ b/translation.go
@@ -84,6 +84,14 @@ func (t *Translation) GetN(n int) string {
 	return t.PluralID
 }
 
+// getN works like GetN, but an untranslated plural without a plural ID of its own returns the given one
+func (t *Translation) getN(n int, plural string) string {
+	if n != 0 && t.PluralID == "" && !t.IsTranslatedN(n) {
+		return plural
+	}
+	return t.GetN(n)
+}
+
 // IsTranslated reports whether a string is translated
 func (t *Translation) IsTranslated() bool {
 	tr, ok := t.Trs[0]
-- 
2.43.0


From 2d827ad7a5c64fb7d4b90473ed197122444c0cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 04/58] fix: MO entries without plural must not use their msgid
 as plural id

---
 mo.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mo.go b/mo.go
index 389deba..27b31e0 100644
--- a/mo.go
+++ b/mo.go
@@ -290,12 +290,11 @@ func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 	dd := bytes.Split(msgid, []byte(NulSeparator))
 	if len(dd) > 1 {
 		msgid = dd[0]
-		dd = dd[1:]
+		msgidPlural = bytes.Join(dd[1:], []byte(NulSeparator))
 	}
 
 	translation.ID = string(msgid)
 
-	msgidPlural = bytes.Join(dd, []byte(NulSeparator))
 	if len(msgidPlural) > 0 {
 		translation.PluralID = string(msgidPlural)
 	}
-- 
2.43.0


From 82daa7e0eb39f7d2243fd244d3dcbef4cc7d3db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 05/58] fix: report errors in the last branch of a plural
 formula instead of returning a nil expression

---
 plurals/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index c28297a..05afd50 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -54,7 +54,7 @@ func (ternaryStruct) compile(tokens []string) (expr Expression, err error) {
 	}
 	falseAction, err := compileExpression(strings.Join(actions.Right, ""))
 	if err != nil {
-		return expr, nil
+		return expr, err
 	}
 	return ternary{
 		test:      test,
-- 
2.43.0


From f2ac3d47f61a155341d7db79b9859410bee9a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 06/58] fix: reject a plural formula with modulo zero instead
 of panicking on evaluation

---
 plurals/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 05afd50..de07d6d 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -134,6 +134,9 @@ func compileMod(tokens []string) (math math, err error) {
 	if err != nil {
 		return math, err
 	}
+	if i == 0 {
+		return math, errors.New("modulus operation requires a non-zero right operand")
+	}
 	return mod{value: uint32(i)}, nil
 }
 
-- 
2.43.0


From c15a41de7f18afd2a023540561c17d95dbcf0b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 07/58] fix: do not leak goroutines when a plural formula fails
 to compile

---
 plurals/compiler.go | 94 +++++++++++++++++++++------------------------
 1 file changed, 44 insertions(+), 50 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index de07d6d..dbd56e0 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -299,58 +299,52 @@ func splitTokens(tokens []string, sep string) (s splitted, err error) {
 }
 
 // Scan a string for parenthesis
-func scan(s string) <-chan match {
-	ch := make(chan match)
-	go func() {
-		depth := 0
-		opener := 0
-		for index, char := range s {
-			switch char {
-			case '(':
-				if depth == 0 {
-					opener = index
-				}
-				depth++
-			case ')':
-				depth--
-				if depth == 0 {
-					ch <- match{
-						openPos:  opener,
-						closePos: index + 1,
-					}
-				}
-			}
-
-		}
-		close(ch)
-	}()
-	return ch
-}
-
-// Split the string into tokens
-func split(s string) <-chan string {
-	ch := make(chan string)
-	go func() {
-		s = strings.ReplaceAll(s, " ", "")
-		if !strings.Contains(s, "(") {
-			ch <- s
-		} else {
-			last := 0
-			end := len(s)
-			for info := range scan(s) {
-				if last != info.openPos {
-					ch <- s[last:info.openPos]
-				}
-				ch <- s[info.openPos:info.closePos]
-				last = info.closePos
+func scan(s string) []match {
+	var matches []match
+	depth := 0
+	opener := 0
+	for index, char := range s {
+		switch char {
+		case '(':
+			if depth == 0 {
+				opener = index
 			}
-			if last != end {
-				ch <- s[last:]
+			depth++
+		case ')':
+			depth--
+			if depth == 0 {
+				matches = append(matches, match{
+					openPos:  opener,
+					closePos: index + 1,
+				})
 			}
 		}
-		close(ch)
-	}()
-	return ch
+
+	}
+	return matches
+}
+
+// Split the string into chunks, each either a parenthesised group or the text
+// between two groups
+func split(s string) []string {
+	s = strings.ReplaceAll(s, " ", "")
+	if !strings.Contains(s, "(") {
+		return []string{s}
+	}
+	var chunks []string
+	last := 0
+	end := len(s)
+	for _, info := range scan(s) {
+		if last != info.openPos {
+			chunks = append(chunks, s[last:info.openPos])
+		}
+		chunks = append(chunks, s[info.openPos:info.closePos])
+		last = info.closePos
+	}
+	if last != end {
+		chunks = append(chunks, s[last:])
+	}
+	return chunks
 }
 
 // Tokenizes a string into a list of strings, tokens grouped by parenthesis are
@@ -369,7 +363,7 @@ func tokenize(s string) ([]string, error) {
 		s = s[1 : len(s)-1]
 	}
 	ret := []string{}
-	for chunk := range split(s) {
+	for _, chunk := range split(s) {
 		if len(chunk) != 0 {
 			if chunk[0] == '(' && chunk[len(chunk)-1] == ')' {
 				ret = append(ret, chunk)
-- 
2.43.0


From abb244581128b46fa0044f12796f7f3c81055c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 08/58] fix: only strip parentheses of a plural formula that
 form a matching pair

---
 plurals/compiler.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index dbd56e0..9686560 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -347,21 +347,27 @@ func split(s string) []string {
 	return chunks
 }
 
+// Strip the parentheses enclosing the whole string, as often as there are any.
+//
+// Eg: ((foo)) -> foo; (foo)(bar) -> (foo)(bar)
+func trimParens(s string) string {
+	for {
+		s = strings.TrimSpace(s)
+		matches := scan(s)
+		if len(matches) != 1 || matches[0].openPos != 0 || matches[0].closePos != len(s) {
+			return s
+		}
+		s = s[1 : len(s)-1]
+	}
+}
+
 // Tokenizes a string into a list of strings, tokens grouped by parenthesis are
 // not split! If the string starts with ( and ends in ), those are stripped.
 func tokenize(s string) ([]string, error) {
-	/*
-		TODO: Properly detect if the string starts with a ( and ends with a )
-		and that those two form a matching pair.
-
-		Eg: (foo) -> true; (foo)(bar) -> false;
-	*/
 	if len(s) == 0 {
 		return []string{}, nil
 	}
-	if s[0] == '(' && s[len(s)-1] == ')' {
-		s = s[1 : len(s)-1]
-	}
+	s = trimParens(s)
 	ret := []string{}
 	for _, chunk := range split(s) {
 		if len(chunk) != 0 {
-- 
2.43.0


From c968d0a5b3894043fca85f3ba70b8fbd11d7b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 09/58] fix: find the ':' that belongs to a '?' in nested
 plural formulas

---
 plurals/compiler.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 9686560..59801ee 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -44,7 +44,7 @@ func (ternaryStruct) compile(tokens []string) (expr Expression, err error) {
 	if err != nil {
 		return expr, err
 	}
-	actions, err := splitTokens(main.Right, ":")
+	actions, err := splitActions(main.Right)
 	if err != nil {
 		return expr, err
 	}
@@ -298,6 +298,27 @@ func splitTokens(tokens []string, sep string) (s splitted, err error) {
 	}, nil
 }
 
+// Split the tokens after a '?' by the ':' that belongs to it, skipping over
+// the ones of conditional expressions nested in between.
+func splitActions(tokens []string) (s splitted, err error) {
+	depth := 0
+	for index, token := range tokens {
+		switch token {
+		case "?":
+			depth++
+		case ":":
+			if depth == 0 {
+				return splitted{
+					Left:  tokens[:index],
+					Right: tokens[index+1:],
+				}, nil
+			}
+			depth--
+		}
+	}
+	return s, fmt.Errorf("':' not found in ['%s']", strings.Join(tokens, "','"))
+}
+
 // Scan a string for parenthesis
 func scan(s string) []match {
 	var matches []match
-- 
2.43.0


From da8b3a2228e96697bf8e552617c30ad76beb3540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 10/58] fix: compile plural formulas that are a constant, not
 only a bare 0

---
 plurals/compiler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 59801ee..2318910 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -415,10 +415,10 @@ func tokenize(s string) ([]string, error) {
 
 // Compile a string containing a plural form expression to a Expression object.
 func Compile(s string) (expr Expression, err error) {
-	if s == "0" {
-		return constValue{value: 0}, nil
-	}
 	if !strings.Contains(s, "?") {
+		if i, err := parseUint32(trimParens(s)); err == nil {
+			return constValue{value: int(i)}, nil
+		}
 		s += "?1:0"
 	}
 	return compileExpression(s)
-- 
2.43.0


From e5a62d89b2874e6c8811064372f601a780ee1908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 11/58] fix: accept parenthesised operands in plural formulas

---
 plurals/compiler.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 2318910..29f65ad 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -124,6 +124,9 @@ func compileMod(tokens []string) (math math, err error) {
 	if err != nil {
 		return math, err
 	}
+	if split, err = unwrapOperands(split); err != nil {
+		return math, err
+	}
 	if len(split.Left) != 1 || split.Left[0] != "n" {
 		return math, errors.New("modulus operation requires 'n' as left operand")
 	}
@@ -164,6 +167,9 @@ func compileEquality(tokens []string, sep string, builder cmpTestBuilder) (test
 	if err != nil {
 		return test, err
 	}
+	if split, err = unwrapOperands(split); err != nil {
+		return test, err
+	}
 	if contains(split.Left, "n") && !contains(split.Left, "%") && len(split.Left) == 1 {
 		i, err := parseUint32(strings.Join(split.Right, ""))
 		if err != nil {
@@ -298,6 +304,17 @@ func splitTokens(tokens []string, sep string) (s splitted, err error) {
 	}, nil
 }
 
+// Tokenize operands that are enclosed in parentheses as a whole, like the left
+// one of (n%10)==1.
+func unwrapOperands(s splitted) (splitted, error) {
+	var err error
+	if s.Left, err = tokenize(strings.Join(s.Left, "")); err != nil {
+		return s, err
+	}
+	s.Right, err = tokenize(strings.Join(s.Right, ""))
+	return s, err
+}
+
 // Split the tokens after a '?' by the ':' that belongs to it, skipping over
 // the ones of conditional expressions nested in between.
 func splitActions(tokens []string) (s splitted, err error) {
-- 
2.43.0


From 0717e2c151663c155bb4d00f623e1e460b47eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 12/58] fix: IsTranslated queries without count check the form
 that Get returns

---
 domain.go | 12 ++++++++++--
 locale.go | 20 ++++++++++++++------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/domain.go b/domain.go
index 2e2fd06..8466861 100644
--- a/domain.go
+++ b/domain.go
@@ -503,7 +503,11 @@ func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars
 
 // IsTranslated reports whether a string is translated
 func (do *Domain) IsTranslated(str string) bool {
-	return do.IsTranslatedN(str, 1)
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
+	tr, ok := do.translations[str]
+	return ok && tr.IsTranslated()
 }
 
 // IsTranslatedN reports whether a plural string is translated
@@ -523,7 +527,11 @@ func (do *Domain) IsTranslatedN(str string, n int) bool {
 
 // IsTranslatedC reports whether a context string is translated
 func (do *Domain) IsTranslatedC(str, ctx string) bool {
-	return do.IsTranslatedNC(str, 1, ctx)
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
+	tr, ok := do.contextTranslations[ctx][str]
+	return ok && tr.IsTranslated()
 }
 
 // IsTranslatedNC reports whether a plural context string is translated
diff --git a/locale.go b/locale.go
index 381e560..f76d465 100644
--- a/locale.go
+++ b/locale.go
@@ -357,7 +357,7 @@ func (l *Locale) GetTranslations() map[string]*Translation {
 
 // IsTranslated reports whether a string is translated
 func (l *Locale) IsTranslated(str string) bool {
-	return l.IsTranslatedND(l.GetDomain(), str, 1)
+	return l.IsTranslatedD(l.GetDomain(), str)
 }
 
 // IsTranslatedN reports whether a plural string is translated
@@ -367,7 +367,11 @@ func (l *Locale) IsTranslatedN(str string, n int) bool {
 
 // IsTranslatedD reports whether a domain string is translated
 func (l *Locale) IsTranslatedD(dom, str string) bool {
-	return l.IsTranslatedND(dom, str, 1)
+	l.RLock()
+	defer l.RUnlock()
+
+	translator, ok := l.Domains[dom]
+	return ok && translator != nil && translator.GetDomain().IsTranslated(str)
 }
 
 // IsTranslatedND reports whether a plural domain string is translated
@@ -379,7 +383,7 @@ func (l *Locale) IsTranslatedND(dom, str string, n int) bool {
 		return false
 	}
 	translator, ok := l.Domains[dom]
-	if !ok {
+	if !ok || translator == nil {
 		return false
 	}
 	return translator.GetDomain().IsTranslatedN(str, n)
@@ -387,7 +391,7 @@ func (l *Locale) IsTranslatedND(dom, str string, n int) bool {
 
 // IsTranslatedC reports whether a context string is translated
 func (l *Locale) IsTranslatedC(str, ctx string) bool {
-	return l.IsTranslatedNDC(l.GetDomain(), str, 1, ctx)
+	return l.IsTranslatedDC(l.GetDomain(), str, ctx)
 }
 
 // IsTranslatedNC reports whether a plural context string is translated
@@ -397,7 +401,11 @@ func (l *Locale) IsTranslatedNC(str string, n int, ctx string) bool {
 
 // IsTranslatedDC reports whether a domain context string is translated
 func (l *Locale) IsTranslatedDC(dom, str, ctx string) bool {
-	return l.IsTranslatedNDC(dom, str, 1, ctx)
+	l.RLock()
+	defer l.RUnlock()
+
+	translator, ok := l.Domains[dom]
+	return ok && translator != nil && translator.GetDomain().IsTranslatedC(str, ctx)
 }
 
 // IsTranslatedNDC reports whether a plural domain context string is translated
@@ -409,7 +417,7 @@ func (l *Locale) IsTranslatedNDC(dom string, str string, n int, ctx string) bool
 		return false
 	}
 	translator, ok := l.Domains[dom]
-	if !ok {
+	if !ok || translator == nil {
 		return false
 	}
 	return translator.GetDomain().IsTranslatedNC(str, n, ctx)
-- 
2.43.0


From 97a6ebb04b852d233cd662cdf80570e42173ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 13/58] fix: package lookups without any locale return the
 caller's text instead of panicking

---
 gotext.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/gotext.go b/gotext.go
index 059403c..8c5ad67 100644
--- a/gotext.go
+++ b/gotext.go
@@ -68,7 +68,7 @@ func init() {
 func loadLocales(rebuildCache bool) {
 	globalConfig.Lock()
 
-	if globalConfig.locales == nil || rebuildCache {
+	if len(globalConfig.locales) == 0 || rebuildCache {
 		var locales []*Locale
 		for _, language := range globalConfig.languages {
 			locales = append(locales, NewLocale(globalConfig.library, language))
@@ -90,7 +90,7 @@ func loadLocales(rebuildCache bool) {
 func GetDomain() string {
 	var dom string
 	globalConfig.RLock()
-	if globalConfig.locales != nil {
+	if len(globalConfig.locales) > 0 {
 		// All locales have the same domain
 		dom = globalConfig.locales[0].GetDomain()
 	}
@@ -194,8 +194,10 @@ func SetLocales(locales []*Locale) {
 	defer globalConfig.Unlock()
 
 	globalConfig.locales = locales
-	globalConfig.library = locales[0].path
-	globalConfig.domain = locales[0].defaultDomain
+	if len(locales) > 0 {
+		globalConfig.library = locales[0].path
+		globalConfig.domain = locales[0].defaultDomain
+	}
 
 	var languages []string
 	for _, locale := range locales {
@@ -250,6 +252,11 @@ func GetD(dom, str string, vars ...interface{}) string {
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
 
+	if len(globalConfig.locales) == 0 {
+		// Return the default of a Locale without domains
+		return new(Locale).GetD(dom, str, vars...)
+	}
+
 	var tr string
 	for i, locale := range globalConfig.locales {
 		if _, ok := locale.Domains[dom]; !ok {
@@ -273,6 +280,11 @@ func GetND(dom, str, plural string, n int, vars ...interface{}) string {
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
 
+	if len(globalConfig.locales) == 0 {
+		// Return the default of a Locale without domains
+		return new(Locale).GetND(dom, str, plural, n, vars...)
+	}
+
 	var tr string
 	for i, locale := range globalConfig.locales {
 		if _, ok := locale.Domains[dom]; !ok {
@@ -308,6 +320,11 @@ func GetDC(dom, str, ctx string, vars ...interface{}) string {
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
 
+	if len(globalConfig.locales) == 0 {
+		// Return the default of a Locale without domains
+		return new(Locale).GetDC(dom, str, ctx, vars...)
+	}
+
 	var tr string
 	for i, locale := range globalConfig.locales {
 		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
@@ -329,6 +346,11 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
 
+	if len(globalConfig.locales) == 0 {
+		// Return the default of a Locale without domains
+		return new(Locale).GetNDC(dom, str, plural, n, ctx, vars...)
+	}
+
 	var tr string
 	for i, locale := range globalConfig.locales {
 		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
-- 
2.43.0


From aca86c6c9f6e93d4ccabf4d2a7d69de6eab81fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 14/58] fix: look for loaded domains under the lock of the
 Locale in package lookups

---
 gotext.go | 12 +++---------
 locale.go | 11 +++++++++++
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/gotext.go b/gotext.go
index 8c5ad67..8a3607c 100644
--- a/gotext.go
+++ b/gotext.go
@@ -77,9 +77,7 @@ func loadLocales(rebuildCache bool) {
 	}
 
 	for _, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[globalConfig.domain]; !ok || rebuildCache {
-			locale.AddDomain(globalConfig.domain)
-		}
+		locale.loadDomain(globalConfig.domain)
 		locale.SetDomain(globalConfig.domain)
 	}
 
@@ -259,9 +257,7 @@ func GetD(dom, str string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[dom]; !ok {
-			locale.AddDomain(dom)
-		}
+		locale.loadDomain(dom)
 		if !locale.IsTranslatedD(dom, str) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
@@ -287,9 +283,7 @@ func GetND(dom, str, plural string, n int, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[dom]; !ok {
-			locale.AddDomain(dom)
-		}
+		locale.loadDomain(dom)
 		if !locale.IsTranslatedND(dom, str, n) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
diff --git a/locale.go b/locale.go
index f76d465..836a388 100644
--- a/locale.go
+++ b/locale.go
@@ -198,6 +198,17 @@ func (l *Locale) AddDomain(dom string) {
 	l.Unlock()
 }
 
+// loadDomain adds a domain unless it's already available.
+func (l *Locale) loadDomain(dom string) {
+	l.RLock()
+	_, ok := l.Domains[dom]
+	l.RUnlock()
+
+	if !ok {
+		l.AddDomain(dom)
+	}
+}
+
 // AddTranslator takes a domain name and a Translator object to make it available in the Locale object.
 func (l *Locale) AddTranslator(dom string, tr Translator) {
 	l.Lock()
-- 
2.43.0


From 7a8acd380dd5d9cfe381c668fc27abe3fbd02bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 15/58] fix: load the domain of package lookups with context
 like those without

---
 gotext.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gotext.go b/gotext.go
index 8a3607c..6b345ae 100644
--- a/gotext.go
+++ b/gotext.go
@@ -321,6 +321,7 @@ func GetDC(dom, str, ctx string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
+		locale.loadDomain(dom)
 		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
@@ -347,6 +348,7 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 
 	var tr string
 	for i, locale := range globalConfig.locales {
+		locale.loadDomain(dom)
 		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
-- 
2.43.0


From 8405f4dfec5597cac61d7551f490bebd07d3f77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 16/58] fix: package IsTranslated queries agree with the
 package lookups

---
 gotext.go | 51 +++++++++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/gotext.go b/gotext.go
index 6b345ae..1867bb4 100644
--- a/gotext.go
+++ b/gotext.go
@@ -361,7 +361,7 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 // IsTranslated reports whether a string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslated(str string, langs ...string) bool {
-	return IsTranslatedND(GetDomain(), str, 1, langs...)
+	return IsTranslatedD(GetDomain(), str, langs...)
 }
 
 // IsTranslatedN reports whether a plural string is translated in given languages.
@@ -373,38 +373,23 @@ func IsTranslatedN(str string, n int, langs ...string) bool {
 // IsTranslatedD reports whether a domain string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedD(dom, str string, langs ...string) bool {
-	return IsTranslatedND(dom, str, 1, langs...)
+	return isTranslated(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedD(dom, str)
+	})
 }
 
 // IsTranslatedND reports whether a plural domain string is translated in any of given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedND(dom, str string, n int, langs ...string) bool {
-	if len(langs) == 0 {
-		langs = GetLanguages()
-	}
-
-	loadLocales(false)
-
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
-	for _, lang := range langs {
-		lang = SimplifiedLocale(lang)
-
-		for _, supportedLocale := range globalConfig.locales {
-			if lang != supportedLocale.GetActualLanguage(dom) {
-				continue
-			}
-			return supportedLocale.IsTranslatedND(dom, str, n)
-		}
-	}
-	return false
+	return isTranslated(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedND(dom, str, n)
+	})
 }
 
 // IsTranslatedC reports whether a context string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedC(str, ctx string, langs ...string) bool {
-	return IsTranslatedNDC(GetDomain(), str, 1, ctx, langs...)
+	return IsTranslatedDC(GetDomain(), str, ctx, langs...)
 }
 
 // IsTranslatedNC reports whether a plural context string is translated in given languages.
@@ -416,12 +401,22 @@ func IsTranslatedNC(str string, n int, ctx string, langs ...string) bool {
 // IsTranslatedDC reports whether a domain context string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedDC(dom, str, ctx string, langs ...string) bool {
-	return IsTranslatedNDC(dom, str, 0, ctx, langs...)
+	return isTranslated(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedDC(dom, str, ctx)
+	})
 }
 
 // IsTranslatedNDC reports whether a plural domain context string is translated in any of given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
+	return isTranslated(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedNDC(dom, str, n, ctx)
+	})
+}
+
+// isTranslated reports whether the check succeeds for any of the locales of the given languages.
+// When no languages are given, the output of GetLanguages is used.
+func isTranslated(dom string, langs []string, check func(locale *Locale) bool) bool {
 	if len(langs) == 0 {
 		langs = GetLanguages()
 	}
@@ -435,10 +430,14 @@ func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
 		lang = SimplifiedLocale(lang)
 
 		for _, locale := range globalConfig.locales {
-			if lang != locale.GetActualLanguage(dom) {
+			if lang != locale.GetLanguage() && lang != locale.GetActualLanguage(dom) {
 				continue
 			}
-			return locale.IsTranslatedNDC(dom, str, n, ctx)
+
+			locale.loadDomain(dom)
+			if check(locale) {
+				return true
+			}
 		}
 	}
 	return false
-- 
2.43.0


From d040c45b7b63569cb3098e759625e18bf9f1dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 17/58] fix: restore the plural rule and empty maps of
 deserialised catalogues

---
 domain.go     | 36 ++++++++++++++++++++++++++++++++++--
 translator.go |  5 +++++
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/domain.go b/domain.go
index 8466861..c7a5111 100644
--- a/domain.go
+++ b/domain.go
@@ -866,10 +866,42 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 	do.plural = obj.Plural
 	do.translations = obj.Translations
 	do.contextTranslations = obj.Contexts
+	do.complete()
 
+	return nil
+}
+
+// complete makes a domain usable after its content was replaced by decoded data:
+// empty maps aren't part of the encoding, and neither is the compiled plural rule.
+func (do *Domain) complete() {
+	if do.Headers == nil {
+		do.Headers = make(HeaderMap)
+	}
+	if do.translations == nil {
+		do.translations = make(map[string]*Translation)
+	}
+	if do.contextTranslations == nil {
+		do.contextTranslations = make(map[string]map[string]*Translation)
+	}
+	if do.pluralTranslations == nil {
+		do.pluralTranslations = make(map[string]*Translation)
+	}
+
+	for _, trans := range do.translations {
+		if trans.Trs == nil {
+			trans.Trs = make(map[int]string)
+		}
+	}
+	for _, ctx := range do.contextTranslations {
+		for _, trans := range ctx {
+			if trans.Trs == nil {
+				trans.Trs = make(map[int]string)
+			}
+		}
+	}
+
+	do.pluralforms = nil
 	if expr, err := plurals.Compile(do.plural); err == nil {
 		do.pluralforms = expr
 	}
-
-	return nil
 }
diff --git a/translator.go b/translator.go
index e32e3ab..c11e54d 100644
--- a/translator.go
+++ b/translator.go
@@ -71,6 +71,11 @@ func (te *TranslatorEncoding) GetTranslator() Translator {
 	po.domain.plural = te.Plural
 	po.domain.translations = te.Translations
 	po.domain.contextTranslations = te.Contexts
+	po.domain.complete()
+
+	po.Headers = po.domain.Headers
+	po.Language = po.domain.Language
+	po.PluralForms = po.domain.PluralForms
 
 	return po
 }
-- 
2.43.0


From 3c8f41f19de1bc44eb2f67069c89901185c9f757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 18/58] fix: deserialised Po and Mo objects report their
 headers

---
 mo.go | 12 +++++++++++-
 po.go | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/mo.go b/mo.go
index 27b31e0..4db2cf6 100644
--- a/mo.go
+++ b/mo.go
@@ -142,7 +142,17 @@ func (mo *Mo) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary unmarshals the Mo object from a binary format
 func (mo *Mo) UnmarshalBinary(data []byte) error {
-	return mo.domain.UnmarshalBinary(data)
+	if err := mo.domain.UnmarshalBinary(data); err != nil {
+		return err
+	}
+
+	// set values on this struct
+	// this is for backwards compatibility
+	mo.Language = mo.domain.Language
+	mo.PluralForms = mo.domain.PluralForms
+	mo.Headers = mo.domain.Headers
+
+	return nil
 }
 
 // ParseFile loads the translations specified in the provided file, in the GNU gettext .mo format
diff --git a/po.go b/po.go
index f437147..d7e7eff 100644
--- a/po.go
+++ b/po.go
@@ -189,7 +189,17 @@ func (po *Po) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary unmarshals the Po object from binary
 func (po *Po) UnmarshalBinary(data []byte) error {
-	return po.domain.UnmarshalBinary(data)
+	if err := po.domain.UnmarshalBinary(data); err != nil {
+		return err
+	}
+
+	// set values on this struct
+	// this is for backwards compatibility
+	po.Language = po.domain.Language
+	po.PluralForms = po.domain.PluralForms
+	po.Headers = po.domain.Headers
+
+	return nil
 }
 
 // ParseFile loads the translations from a file
-- 
2.43.0


From 3ce7663595f9dc32b94a8a88deb79823ec91f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 19/58] fix: leave a Locale untouched when deserialising one of
 its domains fails

---
 locale.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/locale.go b/locale.go
index 836a388..4d0e1d3 100644
--- a/locale.go
+++ b/locale.go
@@ -475,12 +475,8 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
-	l.defaultDomain = obj.DefaultDomain
-	l.lang = obj.Lang
-	l.path = obj.Path
-
 	// Decode Domains
-	l.Domains = make(map[string]Translator)
+	domains := make(map[string]Translator)
 	for k, v := range obj.Domains {
 		var tr TranslatorEncoding
 		buff := bytes.NewBuffer(v)
@@ -490,8 +486,13 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 			return err
 		}
 
-		l.Domains[k] = tr.GetTranslator()
+		domains[k] = tr.GetTranslator()
 	}
 
+	l.defaultDomain = obj.DefaultDomain
+	l.lang = obj.Lang
+	l.path = obj.Path
+	l.Domains = domains
+
 	return nil
 }
-- 
2.43.0


From 7192a312c2186c4b5783810d2897fcb3a4ce27a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 20/58] fix: take the locks when exporting, listing and
 (de)serialising catalogues

---
 domain.go | 22 ++++++++++++++++++----
 locale.go |  6 ++++++
 po.go     |  2 +-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/domain.go b/domain.go
index c7a5111..0037bd6 100644
--- a/domain.go
+++ b/domain.go
@@ -103,6 +103,9 @@ func NewDomain() *Domain {
 
 // SetPluralResolver sets a custom plural resolver function
 func (do *Domain) SetPluralResolver(f func(int) int) {
+	do.pluralMutex.Lock()
+	defer do.pluralMutex.Unlock()
+
 	do.customPluralResolver = f
 }
 
@@ -555,11 +558,11 @@ func (do *Domain) IsTranslatedNC(str string, n int, ctx string) bool {
 
 // GetTranslations returns a copy of every translation in the domain. It does not support contexts.
 func (do *Domain) GetTranslations() map[string]*Translation {
-	all := make(map[string]*Translation, len(do.translations))
-
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	all := make(map[string]*Translation, len(do.translations))
+
 	for msgID, trans := range do.translations {
 		newTrans := NewTranslation()
 		newTrans.ID = trans.ID
@@ -580,11 +583,11 @@ func (do *Domain) GetTranslations() map[string]*Translation {
 
 // GetCtxTranslations returns a copy of every translation in the domain with context
 func (do *Domain) GetCtxTranslations() map[string]map[string]*Translation {
-	all := make(map[string]map[string]*Translation, len(do.contextTranslations))
-
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	all := make(map[string]map[string]*Translation, len(do.contextTranslations))
+
 	for ctx, translations := range do.contextTranslations {
 		for msgID, trans := range translations {
 			newTrans := NewTranslation()
@@ -636,6 +639,9 @@ func extractPathAndLine(ref string) (string, int) {
 // MarshalText implements encoding.TextMarshaler interface
 // Assists round-trip of POT/PO content
 func (do *Domain) MarshalText() ([]byte, error) {
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
 	var buf bytes.Buffer
 	if len(do.headerComments) > 0 {
 		buf.WriteString(strings.Join(do.headerComments, "\n"))
@@ -832,6 +838,9 @@ func EscapeSpecialCharacters(s string) string {
 
 // MarshalBinary implements encoding.BinaryMarshaler interface
 func (do *Domain) MarshalBinary() ([]byte, error) {
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
 	obj := new(TranslatorEncoding)
 	obj.Headers = do.Headers
 	obj.Language = do.Language
@@ -859,6 +868,11 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	do.trMutex.Lock()
+	do.pluralMutex.Lock()
+	defer do.trMutex.Unlock()
+	defer do.pluralMutex.Unlock()
+
 	do.Headers = obj.Headers
 	do.Language = obj.Language
 	do.PluralForms = obj.PluralForms
diff --git a/locale.go b/locale.go
index 4d0e1d3..4085e92 100644
--- a/locale.go
+++ b/locale.go
@@ -444,6 +444,9 @@ type LocaleEncoding struct {
 
 // MarshalBinary implements encoding BinaryMarshaler interface
 func (l *Locale) MarshalBinary() ([]byte, error) {
+	l.RLock()
+	defer l.RUnlock()
+
 	obj := new(LocaleEncoding)
 	obj.DefaultDomain = l.defaultDomain
 	obj.Domains = make(map[string][]byte)
@@ -489,6 +492,9 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 		domains[k] = tr.GetTranslator()
 	}
 
+	l.Lock()
+	defer l.Unlock()
+
 	l.defaultDomain = obj.DefaultDomain
 	l.lang = obj.Lang
 	l.path = obj.Path
diff --git a/po.go b/po.go
index d7e7eff..c2561bb 100644
--- a/po.go
+++ b/po.go
@@ -94,7 +94,7 @@ func (po *Po) GetRefs(str string) []string {
 
 // SetPluralResolver sets the plural resolver function
 func (po *Po) SetPluralResolver(f func(int) int) {
-	po.domain.customPluralResolver = f
+	po.domain.SetPluralResolver(f)
 }
 
 // Set translation
-- 
2.43.0


From f9e6cde630d82307e688de982313701bfcc97f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 21/58] fix: escape backslashes and quotes everywhere in
 exported PO text

---
 domain.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/domain.go b/domain.go
index 0037bd6..397d04e 100644
--- a/domain.go
+++ b/domain.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -696,7 +695,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		v := do.Headers[k]
 
 		for _, value := range v {
-			buf.WriteString("\n\"" + k + ": " + value + "\\n\"")
+			buf.WriteString("\n\"" + specialCharacters.Replace(k) + ": " + specialCharacters.Replace(value) + "\\n\"")
 		}
 	}
 
@@ -789,9 +788,9 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		if trans.PluralID == "" {
 			buf.WriteString("\nmsgstr \"" + EscapeSpecialCharacters(trans.Trs[0]) + "\"")
 		} else {
-			buf.WriteString("\nmsgid_plural \"" + trans.PluralID + "\"")
+			buf.WriteString("\nmsgid_plural \"" + EscapeSpecialCharacters(trans.PluralID) + "\"")
 			for i, tr := range trans.Trs {
-				buf.WriteString("\nmsgstr[" + EscapeSpecialCharacters(strconv.Itoa(i)) + "] \"" + tr + "\"")
+				buf.WriteString("\nmsgstr[" + strconv.Itoa(i) + "] \"" + EscapeSpecialCharacters(tr) + "\"")
 			}
 		}
 	}
@@ -799,9 +798,12 @@ func (do *Domain) MarshalText() ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// specialCharacters escapes the characters that can't be part of a quoted PO string
+var specialCharacters = strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\r", "\\r")
+
 // EscapeSpecialCharacters escapes special characters in a string
 func EscapeSpecialCharacters(s string) string {
-	s = regexp.MustCompile(`([^\\])(")`).ReplaceAllString(s, "$1\\\"") // Escape non-escaped double quotation marks
+	s = specialCharacters.Replace(s) // Escape backslashes, double quotation marks and carriage returns
 
 	if strings.Count(s, "\n") == 0 {
 		return s
-- 
2.43.0


From f636a2e6f551fefd0c2a1cb7fc55f8a62f8b8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 22/58] fix: export plural forms in the order of their index

---
 domain.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/domain.go b/domain.go
index 397d04e..882a8d9 100644
--- a/domain.go
+++ b/domain.go
@@ -789,8 +789,13 @@ func (do *Domain) MarshalText() ([]byte, error) {
 			buf.WriteString("\nmsgstr \"" + EscapeSpecialCharacters(trans.Trs[0]) + "\"")
 		} else {
 			buf.WriteString("\nmsgid_plural \"" + EscapeSpecialCharacters(trans.PluralID) + "\"")
-			for i, tr := range trans.Trs {
-				buf.WriteString("\nmsgstr[" + strconv.Itoa(i) + "] \"" + EscapeSpecialCharacters(tr) + "\"")
+			forms := make([]int, 0, len(trans.Trs))
+			for i := range trans.Trs {
+				forms = append(forms, i)
+			}
+			sort.Ints(forms)
+			for _, i := range forms {
+				buf.WriteString("\nmsgstr[" + strconv.Itoa(i) + "] \"" + EscapeSpecialCharacters(trans.Trs[i]) + "\"")
 			}
 		}
 	}
-- 
2.43.0


From 92cef4d5aa8cc7beeffe497daa238e1d54f912ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 23/58] fix: SetRefs on an existing entry keeps it from being
 dropped as stale

---
 domain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index 882a8d9..257982c 100644
--- a/domain.go
+++ b/domain.go
@@ -230,7 +230,7 @@ func (do *Domain) SetRefs(str string, refs []string) {
 	defer do.pluralMutex.Unlock()
 
 	if trans, ok := do.translations[str]; ok {
-		trans.Refs = refs
+		trans.SetRefs(refs)
 	} else {
 		trans = NewTranslation()
 		trans.ID = str
-- 
2.43.0


From 0b2afc138b982be34b024801e13295d9f52e0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 24/58] fix: SetN and SetNC keep the plural id with the entry

---
 domain.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/domain.go b/domain.go
index 257982c..6752e0d 100644
--- a/domain.go
+++ b/domain.go
@@ -315,6 +315,9 @@ func (do *Domain) SetN(id, plural string, n int, str string) {
 
 	if trans, ok := do.translations[id]; ok {
 		trans.SetN(pluralForm, str)
+		if trans.PluralID == "" {
+			trans.PluralID = plural
+		}
 	} else {
 		trans = NewTranslation()
 		trans.ID = id
@@ -443,15 +446,20 @@ func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
 	if context, ok := do.contextTranslations[ctx]; ok {
 		if trans, hasTrans := context[id]; hasTrans {
 			trans.SetN(pluralForm, str)
+			if trans.PluralID == "" {
+				trans.PluralID = plural
+			}
 		} else {
 			trans = NewTranslation()
 			trans.ID = id
+			trans.PluralID = plural
 			trans.SetN(pluralForm, str)
 			context[id] = trans
 		}
 	} else {
 		trans := NewTranslation()
 		trans.ID = id
+		trans.PluralID = plural
 		trans.SetN(pluralForm, str)
 		do.contextTranslations[ctx] = map[string]*Translation{
 			id: trans,
-- 
2.43.0


From 572b5b850df30e0938913cf883e86c149f4813d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 25/58] fix: export plural forms of entries without plural id

---
 domain.go      |  2 +-
 translation.go | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index 6752e0d..848a1cc 100644
--- a/domain.go
+++ b/domain.go
@@ -793,7 +793,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 			buf.WriteString("\nmsgctxt \"" + EscapeSpecialCharacters(ref.context) + "\"\nmsgid \"" + EscapeSpecialCharacters(trans.ID) + "\"")
 		}
 
-		if trans.PluralID == "" {
+		if trans.PluralID == "" && !trans.hasPluralForms() {
 			buf.WriteString("\nmsgstr \"" + EscapeSpecialCharacters(trans.Trs[0]) + "\"")
 		} else {
 			buf.WriteString("\nmsgid_plural \"" + EscapeSpecialCharacters(trans.PluralID) + "\"")
diff --git a/translation.go b/translation.go
index 570e5be..92c5f29 100644
--- a/translation.go
+++ b/translation.go
@@ -92,6 +92,16 @@ func (t *Translation) getN(n int, plural string) string {
 	return t.GetN(n)
 }
 
+// hasPluralForms reports whether there are strings for other forms than the singular
+func (t *Translation) hasPluralForms() bool {
+	for n := range t.Trs {
+		if n != 0 {
+			return true
+		}
+	}
+	return false
+}
+
 // IsTranslated reports whether a string is translated
 func (t *Translation) IsTranslated() bool {
 	tr, ok := t.Trs[0]
-- 
2.43.0


From 5b252912377b7685e21f54586096c4b231ace708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 26/58] fix: export a msgstr for plural entries without any
 form

---
 domain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/domain.go b/domain.go
index 848a1cc..57ba77a 100644
--- a/domain.go
+++ b/domain.go
@@ -801,6 +801,9 @@ func (do *Domain) MarshalText() ([]byte, error) {
 			for i := range trans.Trs {
 				forms = append(forms, i)
 			}
+			if len(forms) == 0 {
+				forms = append(forms, 0)
+			}
 			sort.Ints(forms)
 			for _, i := range forms {
 				buf.WriteString("\nmsgstr[" + strconv.Itoa(i) + "] \"" + EscapeSpecialCharacters(trans.Trs[i]) + "\"")
-- 
2.43.0


From 36ec13d6f692ccf4d00d7a3892d778bf3672b349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 27/58] fix: check the bounds of tables and strings in MO files
 before reading them

---
 mo.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mo.go b/mo.go
index 4db2cf6..800c440 100644
--- a/mo.go
+++ b/mo.go
@@ -213,6 +213,13 @@ func (mo *Mo) Parse(buf []byte) {
 		// return fmt.Errorf("gettext: %v", "invalid version number")
 	}
 
+	// Both tables have to be inside of the file
+	tableSize := 8 * int64(header.MsgIDCount)
+	if int64(header.MsgIDOffset)+tableSize > int64(len(buf)) || int64(header.MsgStrOffset)+tableSize > int64(len(buf)) {
+		return
+		// return fmt.Errorf("gettext: %v", "table out of bounds")
+	}
+
 	msgIDStart := make([]uint32, header.MsgIDCount)
 	msgIDLen := make([]uint32, header.MsgIDCount)
 	if _, err := r.Seek(int64(header.MsgIDOffset), 0); err != nil {
@@ -230,8 +237,8 @@ func (mo *Mo) Parse(buf []byte) {
 		}
 	}
 
-	msgStrStart := make([]int32, header.MsgIDCount)
-	msgStrLen := make([]int32, header.MsgIDCount)
+	msgStrStart := make([]uint32, header.MsgIDCount)
+	msgStrLen := make([]uint32, header.MsgIDCount)
 	if _, err := r.Seek(int64(header.MsgStrOffset), 0); err != nil {
 		return
 		// return fmt.Errorf("gettext: %v", err)
@@ -247,6 +254,14 @@ func (mo *Mo) Parse(buf []byte) {
 		}
 	}
 
+	// And so does every string
+	for i := 0; i < int(header.MsgIDCount); i++ {
+		if int64(msgIDStart[i])+int64(msgIDLen[i]) > int64(len(buf)) || int64(msgStrStart[i])+int64(msgStrLen[i]) > int64(len(buf)) {
+			return
+			// return fmt.Errorf("gettext: %v", "string out of bounds")
+		}
+	}
+
 	for i := 0; i < int(header.MsgIDCount); i++ {
 		if _, err := r.Seek(int64(msgIDStart[i]), 0); err != nil {
 			return
-- 
2.43.0


From d33da71107d65e7071972ffc4bc3d3696a9b9833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 28/58] fix: fall back to the language before the country, also
 for three-letter languages

---
 locale.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/locale.go b/locale.go
index 4085e92..d3c5a91 100644
--- a/locale.go
+++ b/locale.go
@@ -11,6 +11,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"strings"
 	"sync"
 )
 
@@ -96,8 +97,8 @@ func (l *Locale) findExt(dom, ext string) string {
 		return filename
 	}
 
-	if len(l.lang) > 2 {
-		filename = path.Join(l.path, l.lang[:2], "LC_MESSAGES", dom+"."+ext)
+	if ll := l.baseLanguage(); ll != "" {
+		filename = path.Join(l.path, ll, "LC_MESSAGES", dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
@@ -108,8 +109,8 @@ func (l *Locale) findExt(dom, ext string) string {
 		return filename
 	}
 
-	if len(l.lang) > 2 {
-		filename = path.Join(l.path, l.lang[:2], dom+"."+ext)
+	if ll := l.baseLanguage(); ll != "" {
+		filename = path.Join(l.path, ll, dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
@@ -118,6 +119,14 @@ func (l *Locale) findExt(dom, ext string) string {
 	return ""
 }
 
+// baseLanguage returns the ll part of a ll_CC language, or nothing if there is no CC part to strip.
+func (l *Locale) baseLanguage() string {
+	if idx := strings.IndexAny(l.lang, "_-"); idx > 0 {
+		return l.lang[:idx]
+	}
+	return ""
+}
+
 // GetActualLanguage inspects the filesystem and decides whether to strip
 // a CC part of the ll_CC locale string.
 func (l *Locale) GetActualLanguage(dom string) string {
@@ -130,10 +139,10 @@ func (l *Locale) GetActualLanguage(dom string) string {
 			return l.lang
 		}
 		// 'll' exists, but 'll_CC' was specified
-		if len(l.lang) > 2 {
-			fp = path.Join(l.path, l.lang[:2], "LC_MESSAGES", dom+"."+ext)
+		if ll := l.baseLanguage(); ll != "" {
+			fp = path.Join(l.path, ll, "LC_MESSAGES", dom+"."+ext)
 			if l.fileExists(fp) {
-				return l.lang[:2]
+				return ll
 			}
 		}
 		// 'll' (or 'll_CC') exists outside of LC_category, and it was specified as-is
@@ -142,10 +151,10 @@ func (l *Locale) GetActualLanguage(dom string) string {
 			return l.lang
 		}
 		// 'll' exists outside of LC_category, but 'll_CC' was specified
-		if len(l.lang) > 2 {
-			fp = path.Join(l.path, l.lang[:2], dom+"."+ext)
+		if ll := l.baseLanguage(); ll != "" {
+			fp = path.Join(l.path, ll, dom+"."+ext)
 			if l.fileExists(fp) {
-				return l.lang[:2]
+				return ll
 			}
 		}
 	}
-- 
2.43.0


From f344b5f2331de9fbd7b1ca1ad6eb0638c98786d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 29/58] fix: GetActualLanguage looks for files in the order
 AddDomain does

---
 locale.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/locale.go b/locale.go
index d3c5a91..0903b76 100644
--- a/locale.go
+++ b/locale.go
@@ -130,7 +130,7 @@ func (l *Locale) baseLanguage() string {
 // GetActualLanguage inspects the filesystem and decides whether to strip
 // a CC part of the ll_CC locale string.
 func (l *Locale) GetActualLanguage(dom string) string {
-	extensions := []string{"mo", "po"}
+	extensions := []string{"po", "mo"}
 	var fp string
 	for _, ext := range extensions {
 		// 'll' (or 'll_CC') exists, and it was specified as-is
-- 
2.43.0


From 01ed301006d4cd7b7b687b52ec162fab427e0fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 30/58] fix: an unreadable file doesn't replace the domain of a
 Locale

---
 locale.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/locale.go b/locale.go
index 0903b76..7a7f06d 100644
--- a/locale.go
+++ b/locale.go
@@ -163,11 +163,11 @@ func (l *Locale) GetActualLanguage(dom string) string {
 
 func (l *Locale) fileExists(filename string) bool {
 	if l.fs != nil {
-		_, err := fs.Stat(l.fs, filename)
-		return err == nil
+		info, err := fs.Stat(l.fs, filename)
+		return err == nil && !info.IsDir()
 	}
-	_, err := os.Stat(filename)
-	return err == nil
+	info, err := os.Stat(filename)
+	return err == nil && !info.IsDir()
 }
 
 // AddDomain creates a new domain for a given locale object and initializes the Po object.
@@ -178,20 +178,25 @@ func (l *Locale) AddDomain(dom string) {
 	file := l.findExt(dom, "po")
 	if file != "" {
 		poObj = NewPoFS(l.fs)
-		// Parse file.
-		poObj.ParseFile(file)
 	} else {
 		file = l.findExt(dom, "mo")
 		if file != "" {
 			poObj = NewMoFS(l.fs)
-			// Parse file.
-			poObj.ParseFile(file)
 		} else {
 			// fallback return if no file found with
 			return
 		}
 	}
 
+	// Keep the domain as it is if the file can't be read
+	data, err := getFileData(file, l.fs)
+	if err != nil {
+		return
+	}
+
+	// Parse file.
+	poObj.Parse(data)
+
 	// Save new domain
 	l.Lock()
 
-- 
2.43.0


From 81db000b1858a9437b9aa8f772eb9605ceaac04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 31/58] fix: named Sprintf leaves escaped percent signs alone

---
 helper.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/helper.go b/helper.go
index 1e6a610..48039ba 100644
--- a/helper.go
+++ b/helper.go
@@ -11,7 +11,7 @@ import (
 	"strings"
 )
 
-var re = regexp.MustCompile(`%\(([a-zA-Z0-9_]+)\)[.0-9]*[svTtbcdoqXxUeEfFgGp]`)
+var re = regexp.MustCompile(`%%|%\(([a-zA-Z0-9_]+)\)[.0-9]*[svTtbcdoqXxUeEfFgGp]`)
 
 // SimplifiedLocale simplified locale like " en_US"/"de_DE "/en_US.UTF-8/zh_CN/zh_TW/el_GR@euro/... to en_US, de_DE, zh_CN, el_GR...
 func SimplifiedLocale(lang string) string {
@@ -81,11 +81,19 @@ func reformatSprintf(f string) (string, []string) {
 
 	ord := []string{}
 	for _, v := range m {
+		if v[1] == "" {
+			// escaped percent sign
+			continue
+		}
 		ord = append(ord, v[1])
 	}
 
 	pair := []int{0}
 	for _, v := range i {
+		if v[2] < 0 {
+			// escaped percent sign
+			continue
+		}
 		pair = append(pair, v[2]-1)
 		pair = append(pair, v[3]+1)
 	}
-- 
2.43.0


From 3372d23e90f9dc28d89046c5b28e0ece9ae9df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 32/58] fix: skip missing translators when listing and
 serialising a Locale

---
 locale.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/locale.go b/locale.go
index 7a7f06d..e0f5173 100644
--- a/locale.go
+++ b/locale.go
@@ -372,6 +372,9 @@ func (l *Locale) GetTranslations() map[string]*Translation {
 	l.RLock()
 	defer l.RUnlock()
 	for _, translator := range l.Domains {
+		if translator == nil {
+			continue
+		}
 		for msgID, trans := range translator.GetDomain().GetTranslations() {
 			all[msgID] = trans
 		}
@@ -465,6 +468,9 @@ func (l *Locale) MarshalBinary() ([]byte, error) {
 	obj.DefaultDomain = l.defaultDomain
 	obj.Domains = make(map[string][]byte)
 	for k, v := range l.Domains {
+		if v == nil {
+			continue
+		}
 		var err error
 		obj.Domains[k], err = v.MarshalBinary()
 		if err != nil {
-- 
2.43.0


From 70830648eadb4f41386c68b9c19737a9e56713aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 33/58] fix: xgotext skips calls whose domain isn't a literal
 instead of crashing

---
 cli/xgotext/parser/gofile.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 9e93dbc..0c42507 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -155,6 +155,11 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 	// get domain
 	var domain string
 	if def.Domain != -1 {
+		// domain must be a string
+		if args[def.Domain] == nil || args[def.Domain].Kind != token.STRING {
+			log.Printf("ERR: Unsupported call at %s (Domain not a string)", pos)
+			return
+		}
 		domain, _ = strconv.Unquote(args[def.Domain].Value)
 	}
 
-- 
2.43.0


From 429462fba2206561b970fa7599929d353ff8a301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 34/58] fix: xgotext writes contexts as PO strings whatever
 literal they came from

---
 cli/xgotext/parser/gofile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 0c42507..2e086cc 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -189,7 +189,8 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 			log.Printf("ERR: Unsupported call at %s (Context not a string)", pos)
 			return
 		}
-		trans.Context = args[def.Context].Value
+		context, _ := strconv.Unquote(args[def.Context].Value)
+		trans.Context = formatMultiline(fixSpecialChars(context))
 	}
 
 	g.Data.AddTranslation(domain, &trans)
-- 
2.43.0


From 33aebee677e376a3dc9f4369ce6e7c46b0f56b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 35/58] fix: xgotext skips empty ids, which are reserved for
 the header

---
 cli/xgotext/parser/gofile.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 2e086cc..43b698c 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -170,6 +170,12 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 	}
 
 	msgID, _ := strconv.Unquote(args[def.ID].Value)
+
+	// the empty ID is reserved for the header
+	if msgID == "" {
+		log.Printf("ERR: Unsupported call at %s (ID is empty)", pos)
+		return
+	}
 	trans := Translation{
 		MsgID:           msgID,
 		SourceLocations: []string{pos},
-- 
2.43.0


From 770f993087a4bcd05029d4801952150adbbd55f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 36/58] fix: xgotext keeps the plural id whatever occurrence of
 a message has it

---
 cli/xgotext/parser/domain.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/domain.go b/cli/xgotext/parser/domain.go
index 35146ad..bfa0b11 100644
--- a/cli/xgotext/parser/domain.go
+++ b/cli/xgotext/parser/domain.go
@@ -25,6 +25,14 @@ func (t *Translation) AddLocations(locations []string) {
 	}
 }
 
+// Merge adds the locations and the plural ID of another occurrence of the translation
+func (t *Translation) Merge(other *Translation) {
+	t.AddLocations(other.SourceLocations)
+	if t.MsgIDPlural == "" {
+		t.MsgIDPlural = other.MsgIDPlural
+	}
+}
+
 // Dump translation as string
 func (t *Translation) Dump() string {
 	data := make([]string, 0, len(t.SourceLocations)+5)
@@ -130,7 +138,7 @@ func (d *Domain) AddTranslation(translation *Translation) {
 
 	if translation.Context == "" {
 		if t, ok := d.Translations[translation.MsgID]; ok {
-			t.AddLocations(translation.SourceLocations)
+			t.Merge(translation)
 		} else {
 			d.Translations[translation.MsgID] = translation
 		}
@@ -140,7 +148,7 @@ func (d *Domain) AddTranslation(translation *Translation) {
 		}
 
 		if t, ok := d.ContextTranslations[translation.Context][translation.MsgID]; ok {
-			t.AddLocations(translation.SourceLocations)
+			t.Merge(translation)
 		} else {
 			d.ContextTranslations[translation.Context][translation.MsgID] = translation
 		}
-- 
2.43.0


From f616b9286f91d1e3db85050f376320b2a7eb077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 37/58] fix: xgotext only excludes the listed directories, not
 others with the same prefix

---
 cli/xgotext/parser/dir/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/dir/parser.go b/cli/xgotext/parser/dir/parser.go
index 9f92c27..2125c01 100644
--- a/cli/xgotext/parser/dir/parser.go
+++ b/cli/xgotext/parser/dir/parser.go
@@ -50,7 +50,11 @@ func ParseDirRec(dirPath string, exclude []string, data *parser.DomainMap, verbo
 			// skip directory if in exclude list
 			subDir, _ := filepath.Rel(dirPath, path)
 			for _, d := range exclude {
-				if strings.HasPrefix(subDir, d) {
+				if d == "" {
+					continue
+				}
+				d = filepath.Clean(d)
+				if subDir == d || strings.HasPrefix(subDir, d+string(filepath.Separator)) {
 					return nil
 				}
 			}
-- 
2.43.0


From 8da02f73559a3fe1e375512cf22ca3563d6893cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 38/58] fix: xgotext keeps the types of a package that imports
 another of the same name

---
 cli/xgotext/parser/dir/golang.go      | 3 ++-
 cli/xgotext/parser/pkg-tree/golang.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/dir/golang.go b/cli/xgotext/parser/dir/golang.go
index ec924ee..622fad6 100644
--- a/cli/xgotext/parser/dir/golang.go
+++ b/cli/xgotext/parser/dir/golang.go
@@ -51,8 +51,9 @@ func goParser(dirPath, basePath string, data *parser.DomainMap) error {
 				Data:     data,
 				FileSet:  fileSet,
 
+				// the own package has no name an import could replace
 				ImportedPackages: map[string]*packages.Package{
-					pkgs[0].Name: pkgs[0],
+					"": pkgs[0],
 				},
 			},
 		}
diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index d66e351..f30a422 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -40,8 +40,9 @@ func pkgParser(dirPath, basePath string, data *parser.DomainMap, verbose bool) e
 					Data:     data,
 					FileSet:  pkg.Fset,
 
+					// the own package has no name an import could replace
 					ImportedPackages: map[string]*packages.Package{
-						pkg.Name: pkg,
+						"": pkg,
 					},
 				},
 			}
-- 
2.43.0


From 3588b3dbee880467c8bfd67e5c8fbf0548a28cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 39/58] fix: xgotext -pkg-tree looks into packages that get
 gotext objects from others

---
 cli/xgotext/parser/pkg-tree/golang.go | 28 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index f30a422..1abaccc 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -78,23 +78,31 @@ func loadPackage(name string) (*packages.Package, error) {
 }
 
 func filterPkgs(pkg *packages.Package) []*packages.Package {
-	result := filterPkgsRec(pkg)
+	result := make([]*packages.Package, 0, 100)
+	filterPkgsRec(pkg, make(map[string]bool), &result)
 	return result
 }
 
-func filterPkgsRec(pkg *packages.Package) []*packages.Package {
-	result := make([]*packages.Package, 0, 100)
+// filterPkgsRec collects the packages that import gotext, directly or through
+// another package: they can get a gotext object from that one.
+func filterPkgsRec(pkg *packages.Package, seen map[string]bool, result *[]*packages.Package) bool {
+	if uses, ok := seen[pkg.ID]; ok {
+		return uses
+	}
+	seen[pkg.ID] = false
 	pkgCache[pkg.ID] = pkg
+
+	uses := false
 	for _, importedPkg := range pkg.Imports {
-		if importedPkg.ID == "github.com/leonelquinteros/gotext" {
-			result = append(result, pkg)
+		if filterPkgsRec(importedPkg, seen, result) || importedPkg.ID == "github.com/leonelquinteros/gotext" {
+			uses = true
 		}
-		if _, ok := pkgCache[importedPkg.ID]; ok {
-			continue
-		}
-		result = append(result, filterPkgsRec(importedPkg)...)
 	}
-	return result
+	if uses {
+		*result = append(*result, pkg)
+	}
+	seen[pkg.ID] = uses
+	return uses
 }
 
 // GoFile handles the parsing of one go file
-- 
2.43.0


From 88438561e752b759bfd051afc14b20dc04324aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 40/58] fix: untranslated plural lookups with context follow
 the plural rule like those without

---
 domain.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/domain.go b/domain.go
index 57ba77a..ad758b9 100644
--- a/domain.go
+++ b/domain.go
@@ -483,7 +483,8 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 		}
 	}
 
-	if n == 1 {
+	// Parse plural forms to distinguish between plural and singular
+	if do.pluralForm(n) == 0 {
 		return FormatString(str, vars...)
 	}
 	return FormatString(plural, vars...)
@@ -505,7 +506,8 @@ func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars
 		}
 	}
 
-	if n == 1 {
+	// Parse plural forms to distinguish between plural and singular
+	if do.pluralForm(n) == 0 {
 		return Appendf(b, str, vars...)
 	}
 	return Appendf(b, plural, vars...)
-- 
2.43.0


From 37aece3b24fc6daa861c10c7f8b8895b500f81e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 41/58] fix: untranslated plural lookups return the caller's
 plural id, not another one stored with the entry

---
 translation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/translation.go b/translation.go
index 92c5f29..fc05bff 100644
--- a/translation.go
+++ b/translation.go
@@ -84,9 +84,9 @@ func (t *Translation) GetN(n int) string {
 	return t.PluralID
 }
 
-// getN works like GetN, but an untranslated plural without a plural ID of its own returns the given one
+// getN works like GetN, but an untranslated plural returns the given one
 func (t *Translation) getN(n int, plural string) string {
-	if n != 0 && t.PluralID == "" && !t.IsTranslatedN(n) {
+	if n != 0 && !t.IsTranslatedN(n) {
 		return plural
 	}
 	return t.GetN(n)
-- 
2.43.0


From 9f9ae560d9cdcc514927a18eb56c455c37a3729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 42/58] fix: an empty language name is not the language of a
 domain without a file

---
 gotext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gotext.go b/gotext.go
index 1867bb4..72d6436 100644
--- a/gotext.go
+++ b/gotext.go
@@ -430,7 +430,7 @@ func isTranslated(dom string, langs []string, check func(locale *Locale) bool) b
 		lang = SimplifiedLocale(lang)
 
 		for _, locale := range globalConfig.locales {
-			if lang != locale.GetLanguage() && lang != locale.GetActualLanguage(dom) {
+			if lang != locale.GetLanguage() && (lang == "" || lang != locale.GetActualLanguage(dom)) {
 				continue
 			}
 
-- 
2.43.0


From e45a50d0eea751635f85ca8f74bc02f9342f3ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 43/58] fix: the package's default domain is the configured
 one, not one that a lookup made the first Locale's default

---
 gotext.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/gotext.go b/gotext.go
index 72d6436..1bed12c 100644
--- a/gotext.go
+++ b/gotext.go
@@ -86,15 +86,8 @@ func loadLocales(rebuildCache bool) {
 
 // GetDomain is the domain getter for the package configuration
 func GetDomain() string {
-	var dom string
 	globalConfig.RLock()
-	if len(globalConfig.locales) > 0 {
-		// All locales have the same domain
-		dom = globalConfig.locales[0].GetDomain()
-	}
-	if dom == "" {
-		dom = globalConfig.domain
-	}
+	dom := globalConfig.domain
 	globalConfig.RUnlock()
 
 	return dom
-- 
2.43.0


From a64780c59cd79c96e15f1ca02802b55e494c1125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 44/58] fix: allow tabs between the tokens of a plural formula

---
 plurals/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 29f65ad..e869ed4 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -365,7 +365,7 @@ func scan(s string) []match {
 // Split the string into chunks, each either a parenthesised group or the text
 // between two groups
 func split(s string) []string {
-	s = strings.ReplaceAll(s, " ", "")
+	s = strings.Join(strings.Fields(s), "")
 	if !strings.Contains(s, "(") {
 		return []string{s}
 	}
-- 
2.43.0


From 401aca2188484064cb7959df1e0045cb28c0a2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 45/58] fix: don't let a lookup's lazy load replace a domain
 added meanwhile

---
 locale.go | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/locale.go b/locale.go
index e0f5173..bb5a3cd 100644
--- a/locale.go
+++ b/locale.go
@@ -173,6 +173,20 @@ func (l *Locale) fileExists(filename string) bool {
 // AddDomain creates a new domain for a given locale object and initializes the Po object.
 // If the domain exists, it gets reloaded.
 func (l *Locale) AddDomain(dom string) {
+	poObj := l.readDomain(dom)
+	if poObj == nil {
+		return
+	}
+
+	// Save new domain
+	l.Lock()
+	l.saveDomain(dom, poObj)
+	// Unlock "Save new domain"
+	l.Unlock()
+}
+
+// readDomain parses the file of a domain. It returns nil if there is none or it can't be read.
+func (l *Locale) readDomain(dom string) Translator {
 	var poObj Translator
 
 	file := l.findExt(dom, "po")
@@ -184,32 +198,30 @@ func (l *Locale) AddDomain(dom string) {
 			poObj = NewMoFS(l.fs)
 		} else {
 			// fallback return if no file found with
-			return
+			return nil
 		}
 	}
 
 	// Keep the domain as it is if the file can't be read
 	data, err := getFileData(file, l.fs)
 	if err != nil {
-		return
+		return nil
 	}
 
 	// Parse file.
 	poObj.Parse(data)
+	return poObj
+}
 
-	// Save new domain
-	l.Lock()
-
+// saveDomain makes a Translator available. The lock must be held.
+func (l *Locale) saveDomain(dom string, tr Translator) {
 	if l.Domains == nil {
 		l.Domains = make(map[string]Translator)
 	}
 	if l.defaultDomain == "" {
 		l.defaultDomain = dom
 	}
-	l.Domains[dom] = poObj
-
-	// Unlock "Save new domain"
-	l.Unlock()
+	l.Domains[dom] = tr
 }
 
 // loadDomain adds a domain unless it's already available.
@@ -217,10 +229,21 @@ func (l *Locale) loadDomain(dom string) {
 	l.RLock()
 	_, ok := l.Domains[dom]
 	l.RUnlock()
+	if ok {
+		return
+	}
+
+	tr := l.readDomain(dom)
+	if tr == nil {
+		return
+	}
 
-	if !ok {
-		l.AddDomain(dom)
+	// Don't replace a domain that was added while the file was read
+	l.Lock()
+	if _, ok := l.Domains[dom]; !ok {
+		l.saveDomain(dom, tr)
 	}
+	l.Unlock()
 }
 
 // AddTranslator takes a domain name and a Translator object to make it available in the Locale object.
-- 
2.43.0


From b983977daf753c2dab0a5c787c5e46c141cc7215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 46/58] fix: read a Locale's path and language under its lock

---
 locale.go | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/locale.go b/locale.go
index bb5a3cd..edf9a65 100644
--- a/locale.go
+++ b/locale.go
@@ -92,25 +92,26 @@ func NewLocaleFSWithPath(l string, filesystem fs.FS, p string) *Locale {
 }
 
 func (l *Locale) findExt(dom, ext string) string {
-	filename := path.Join(l.path, l.lang, "LC_MESSAGES", dom+"."+ext)
+	dir, lang := l.location()
+	filename := path.Join(dir, lang, "LC_MESSAGES", dom+"."+ext)
 	if l.fileExists(filename) {
 		return filename
 	}
 
-	if ll := l.baseLanguage(); ll != "" {
-		filename = path.Join(l.path, ll, "LC_MESSAGES", dom+"."+ext)
+	if ll := baseLanguage(lang); ll != "" {
+		filename = path.Join(dir, ll, "LC_MESSAGES", dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
 	}
 
-	filename = path.Join(l.path, l.lang, dom+"."+ext)
+	filename = path.Join(dir, lang, dom+"."+ext)
 	if l.fileExists(filename) {
 		return filename
 	}
 
-	if ll := l.baseLanguage(); ll != "" {
-		filename = path.Join(l.path, ll, dom+"."+ext)
+	if ll := baseLanguage(lang); ll != "" {
+		filename = path.Join(dir, ll, dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
@@ -119,10 +120,17 @@ func (l *Locale) findExt(dom, ext string) string {
 	return ""
 }
 
+// location returns the directory and the language to look for files with.
+func (l *Locale) location() (dir, lang string) {
+	l.RLock()
+	defer l.RUnlock()
+	return l.path, l.lang
+}
+
 // baseLanguage returns the ll part of a ll_CC language, or nothing if there is no CC part to strip.
-func (l *Locale) baseLanguage() string {
-	if idx := strings.IndexAny(l.lang, "_-"); idx > 0 {
-		return l.lang[:idx]
+func baseLanguage(lang string) string {
+	if idx := strings.IndexAny(lang, "_-"); idx > 0 {
+		return lang[:idx]
 	}
 	return ""
 }
@@ -131,28 +139,29 @@ func (l *Locale) baseLanguage() string {
 // a CC part of the ll_CC locale string.
 func (l *Locale) GetActualLanguage(dom string) string {
 	extensions := []string{"po", "mo"}
+	dir, lang := l.location()
 	var fp string
 	for _, ext := range extensions {
 		// 'll' (or 'll_CC') exists, and it was specified as-is
-		fp = path.Join(l.path, l.lang, "LC_MESSAGES", dom+"."+ext)
+		fp = path.Join(dir, lang, "LC_MESSAGES", dom+"."+ext)
 		if l.fileExists(fp) {
-			return l.lang
+			return lang
 		}
 		// 'll' exists, but 'll_CC' was specified
-		if ll := l.baseLanguage(); ll != "" {
-			fp = path.Join(l.path, ll, "LC_MESSAGES", dom+"."+ext)
+		if ll := baseLanguage(lang); ll != "" {
+			fp = path.Join(dir, ll, "LC_MESSAGES", dom+"."+ext)
 			if l.fileExists(fp) {
 				return ll
 			}
 		}
 		// 'll' (or 'll_CC') exists outside of LC_category, and it was specified as-is
-		fp = path.Join(l.path, l.lang, dom+"."+ext)
+		fp = path.Join(dir, lang, dom+"."+ext)
 		if l.fileExists(fp) {
-			return l.lang
+			return lang
 		}
 		// 'll' exists outside of LC_category, but 'll_CC' was specified
-		if ll := l.baseLanguage(); ll != "" {
-			fp = path.Join(l.path, ll, dom+"."+ext)
+		if ll := baseLanguage(lang); ll != "" {
+			fp = path.Join(dir, ll, dom+"."+ext)
 			if l.fileExists(fp) {
 				return ll
 			}
-- 
2.43.0


From 63f2a385f8ab39dfddbeeba44c84071120893b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 47/58] fix: let a parsed document replace the header fields
 and comments of an earlier one

---
 domain.go | 27 ++++++++++++++++++++++-----
 po.go     |  8 ++++++++
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/domain.go b/domain.go
index ad758b9..373e597 100644
--- a/domain.go
+++ b/domain.go
@@ -139,6 +139,9 @@ func (do *Domain) parseHeaders() {
 	languageKey := "Language"
 	pluralFormsKey := "Plural-Forms"
 
+	header := make(HeaderMap)
+	names := make(map[string]bool)
+
 	rawLines := strings.Split(raw, "\n")
 	for _, line := range rawLines {
 		if len(line) == 0 {
@@ -159,17 +162,31 @@ func (do *Domain) parseHeaders() {
 		}
 
 		value := strings.TrimSpace(line[colonIdx+1:])
-		do.Headers.Add(key, value)
+		header.Add(key, value)
+		names[lowerKey] = true
+	}
+
+	// Replace the values a previously parsed document gave to the same fields
+	for key := range do.Headers {
+		if names[strings.ToLower(key)] {
+			do.Headers.Del(key)
+		}
+	}
+	for key, values := range header {
+		do.Headers[key] = values
 	}
 
 	// Get/save needed headers
-	do.Language = do.Headers.Get(languageKey)
+	if len(do.Headers.Values(languageKey)) > 0 {
+		do.Language = do.Headers.Get(languageKey)
+	}
+	if len(do.Headers.Values(pluralFormsKey)) == 0 {
+		return
+	}
 	do.PluralForms = do.Headers.Get(pluralFormsKey)
 
 	// Parse Plural-Forms formula
-	if do.PluralForms == "" {
-		return
-	}
+	do.nplurals, do.plural, do.pluralforms = 0, "", nil
 
 	// Split plural form header value
 	pfs := strings.Split(do.PluralForms, ";")
diff --git a/po.go b/po.go
index c2561bb..5bd903c 100644
--- a/po.go
+++ b/po.go
@@ -233,6 +233,10 @@ func (po *Po) Parse(buf []byte) {
 	po.domain.refBuffer = ""
 	po.domain.formBuffer = 0
 
+	// The comments of a previously parsed document are replaced by the ones of this document
+	previousComments := po.domain.headerComments
+	po.domain.headerComments = make([]string, 0)
+
 	state := head
 	for _, l := range lines {
 		// Trim spaces
@@ -283,6 +287,10 @@ func (po *Po) Parse(buf []byte) {
 	// Save last Translation buffer.
 	po.saveBuffer()
 
+	if len(po.domain.headerComments) == 0 {
+		po.domain.headerComments = previousComments
+	}
+
 	// Parse headers
 	po.domain.parseHeaders()
 
-- 
2.43.0


From 32525d44fe504876ba1f18fb9ed09438d344dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:14 +0000
Subject: [PATCH 48/58] fix: keep references, languages and locales apart from
 the caller's slices

---
 domain.go      | 2 +-
 gotext.go      | 6 +++---
 translation.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/domain.go b/domain.go
index 373e597..0f80ddb 100644
--- a/domain.go
+++ b/domain.go
@@ -264,7 +264,7 @@ func (do *Domain) GetRefs(str string) []string {
 
 	if do.translations != nil {
 		if trans, ok := do.translations[str]; ok {
-			return trans.Refs
+			return append([]string(nil), trans.Refs...)
 		}
 	}
 	return nil
diff --git a/gotext.go b/gotext.go
index 1bed12c..f3336b3 100644
--- a/gotext.go
+++ b/gotext.go
@@ -123,7 +123,7 @@ func GetLanguage() string {
 func GetLanguages() []string {
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
-	return globalConfig.languages
+	return append([]string(nil), globalConfig.languages...)
 }
 
 // SetLanguage sets the language code (or colon separated language codes) to be used at package level.
@@ -163,7 +163,7 @@ func SetLibrary(lib string) {
 func GetLocales() []*Locale {
 	globalConfig.RLock()
 	defer globalConfig.RUnlock()
-	return globalConfig.locales
+	return append([]*Locale(nil), globalConfig.locales...)
 }
 
 // GetStorage is the locale storage getter for the package configuration.
@@ -184,7 +184,7 @@ func SetLocales(locales []*Locale) {
 	globalConfig.Lock()
 	defer globalConfig.Unlock()
 
-	globalConfig.locales = locales
+	globalConfig.locales = append([]*Locale(nil), locales...)
 	if len(locales) > 0 {
 		globalConfig.library = locales[0].path
 		globalConfig.domain = locales[0].defaultDomain
diff --git a/translation.go b/translation.go
index fc05bff..beed876 100644
--- a/translation.go
+++ b/translation.go
@@ -26,7 +26,7 @@ func NewTranslation() *Translation {
 func NewTranslationWithRefs(refs []string) *Translation {
 	return &Translation{
 		Trs:  make(map[int]string),
-		Refs: refs,
+		Refs: append([]string(nil), refs...),
 	}
 }
 
@@ -37,7 +37,7 @@ func (t *Translation) IsStale() bool {
 
 // SetRefs sets the references of the translation
 func (t *Translation) SetRefs(refs []string) {
-	t.Refs = refs
+	t.Refs = append([]string(nil), refs...)
 	t.dirty = true
 }
 
-- 
2.43.0


From 97c750037132eab0616950e01c0e05151d9b43c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:22 +0000
Subject: [PATCH 49/58] fix: read the Locales' fields under their locks in
 SetLocales

---
 gotext.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gotext.go b/gotext.go
index f3336b3..c951ff2 100644
--- a/gotext.go
+++ b/gotext.go
@@ -186,13 +186,13 @@ func SetLocales(locales []*Locale) {
 
 	globalConfig.locales = append([]*Locale(nil), locales...)
 	if len(locales) > 0 {
-		globalConfig.library = locales[0].path
-		globalConfig.domain = locales[0].defaultDomain
+		globalConfig.library, _ = locales[0].location()
+		globalConfig.domain = locales[0].GetDomain()
 	}
 
 	var languages []string
 	for _, locale := range locales {
-		languages = append(languages, locale.lang)
+		languages = append(languages, locale.GetLanguage())
 	}
 	globalConfig.languages = languages
 }
-- 
2.43.0


From 44723e4a60e3dc841bf9b7c7e134dd8bc859f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 50/58] fix: resolve the imports of a package from its own
 directory

Below a scanned root that is not the package's module, imports could not be
loaded and the calls on them were not extracted.
---
 cli/xgotext/parser/dir/golang.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/dir/golang.go b/cli/xgotext/parser/dir/golang.go
index 622fad6..43c481e 100644
--- a/cli/xgotext/parser/dir/golang.go
+++ b/cli/xgotext/parser/dir/golang.go
@@ -27,7 +27,7 @@ func goParser(dirPath, basePath string, data *parser.DomainMap) error {
 			packages.NeedTypes |
 			packages.NeedTypesInfo,
 		Fset: fileSet,
-		Dir:  basePath,
+		Dir:  dirPath,
 	}
 
 	// load package from path
-- 
2.43.0


From 8a63fed5c73ae944d65a32fed120f6780fee7241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 51/58] fix: scan a root directory that is reached through a
 symbolic link

---
 cli/xgotext/parser/dir/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/xgotext/parser/dir/parser.go b/cli/xgotext/parser/dir/parser.go
index 2125c01..afe5d0a 100644
--- a/cli/xgotext/parser/dir/parser.go
+++ b/cli/xgotext/parser/dir/parser.go
@@ -41,6 +41,11 @@ func ParseDir(dirPath, basePath string, data *parser.DomainMap) error {
 func ParseDirRec(dirPath string, exclude []string, data *parser.DomainMap, verbose bool) error {
 	dirPath, _ = filepath.Abs(dirPath)
 
+	// Walk does not follow links, so a link to the root would be all it visits
+	if resolved, err := filepath.EvalSymlinks(dirPath); err == nil {
+		dirPath = resolved
+	}
+
 	err := filepath.Walk(dirPath, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
 			return err
-- 
2.43.0


From 8299f0137ac92feaa908835156a11929d658ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:39 +0000
Subject: [PATCH 52/58] fix: format outside of the Domain's lock, arguments may
 use it in their methods

---
 domain.go | 104 ++++++++++++++++++------------------------------------
 1 file changed, 34 insertions(+), 70 deletions(-)

diff --git a/domain.go b/domain.go
index 0f80ddb..053f3c9 100644
--- a/domain.go
+++ b/domain.go
@@ -289,35 +289,29 @@ func (do *Domain) Set(id, str string) {
 
 // Get retrieves the Translation for the given string.
 func (do *Domain) Get(str string, vars ...interface{}) string {
+	return FormatString(do.text(str), vars...)
+}
+
+// text retrieves what Get formats. The lock is only held in here, the arguments may use the Domain while they are formatted.
+func (do *Domain) text(str string) string {
 	// Sync read
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return FormatString(do.translations[str].Get(), vars...)
+			return do.translations[str].Get()
 		}
 	}
 
 	// Return the same we received by default
-	return FormatString(str, vars...)
+	return str
 }
 
 // Append retrieves the Translation for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) Append(b []byte, str string, vars ...interface{}) []byte {
-	// Sync read
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.translations != nil {
-		if _, ok := do.translations[str]; ok {
-			return Appendf(b, do.translations[str].Get(), vars...)
-		}
-	}
-
-	// Return the same we received by default
-	return Appendf(b, str, vars...)
+	return Appendf(b, do.text(str), vars...)
 }
 
 // SetN sets the (N)th plural form for the given string
@@ -347,41 +341,32 @@ func (do *Domain) SetN(id, plural string, n int, str string) {
 // GetN retrieves the (N)th plural form of Translation for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
+	return FormatString(do.textN(str, plural, n), vars...)
+}
+
+// textN retrieves what GetN formats. The lock is only held in here, the arguments may use the Domain while they are formatted.
+func (do *Domain) textN(str, plural string, n int) string {
 	// Sync read
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return FormatString(do.translations[str].getN(do.pluralForm(n), plural), vars...)
+			return do.translations[str].getN(do.pluralForm(n), plural)
 		}
 	}
 
 	// Parse plural forms to distinguish between plural and singular
 	if do.pluralForm(n) == 0 {
-		return FormatString(str, vars...)
+		return str
 	}
-	return FormatString(plural, vars...)
+	return plural
 }
 
 // AppendN adds the (N)th plural form of Translation for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendN(b []byte, str, plural string, n int, vars ...interface{}) []byte {
-	// Sync read
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.translations != nil {
-		if _, ok := do.translations[str]; ok {
-			return Appendf(b, do.translations[str].getN(do.pluralForm(n), plural), vars...)
-		}
-	}
-
-	// Parse plural forms to distinguish between plural and singular
-	if do.pluralForm(n) == 0 {
-		return Appendf(b, str, vars...)
-	}
-	return Appendf(b, plural, vars...)
+	return Appendf(b, do.textN(str, plural, n), vars...)
 }
 
 // SetC sets the translation for the given string in the given context
@@ -413,6 +398,11 @@ func (do *Domain) SetC(id, ctx, str string) {
 // GetC retrieves the corresponding Translation for a given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) GetC(str, ctx string, vars ...interface{}) string {
+	return FormatString(do.textC(str, ctx), vars...)
+}
+
+// textC retrieves what GetC formats. The lock is only held in here, the arguments may use the Domain while they are formatted.
+func (do *Domain) textC(str, ctx string) string {
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
@@ -420,34 +410,20 @@ func (do *Domain) GetC(str, ctx string, vars ...interface{}) string {
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return FormatString(do.contextTranslations[ctx][str].Get(), vars...)
+					return do.contextTranslations[ctx][str].Get()
 				}
 			}
 		}
 	}
 
 	// Return the string we received by default
-	return FormatString(str, vars...)
+	return str
 }
 
 // AppendC retrieves the corresponding Translation for a given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendC(b []byte, str, ctx string, vars ...interface{}) []byte {
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.contextTranslations != nil {
-		if _, ok := do.contextTranslations[ctx]; ok {
-			if do.contextTranslations[ctx] != nil {
-				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return Appendf(b, do.contextTranslations[ctx][str].Get(), vars...)
-				}
-			}
-		}
-	}
-
-	// Return the string we received by default
-	return Appendf(b, str, vars...)
+	return Appendf(b, do.textC(str, ctx), vars...)
 }
 
 // SetNC sets the (N)th plural form for the given string in the given context
@@ -487,6 +463,11 @@ func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
 // GetNC retrieves the (N)th plural form of Translation for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string {
+	return FormatString(do.textNC(str, plural, n, ctx), vars...)
+}
+
+// textNC retrieves what GetNC formats. The lock is only held in here, the arguments may use the Domain while they are formatted.
+func (do *Domain) textNC(str, plural string, n int, ctx string) string {
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
@@ -494,7 +475,7 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return FormatString(do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
+					return do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural)
 				}
 			}
 		}
@@ -502,32 +483,15 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 
 	// Parse plural forms to distinguish between plural and singular
 	if do.pluralForm(n) == 0 {
-		return FormatString(str, vars...)
+		return str
 	}
-	return FormatString(plural, vars...)
+	return plural
 }
 
 // AppendNC retrieves the (N)th plural form of Translation for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars ...interface{}) []byte {
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.contextTranslations != nil {
-		if _, ok := do.contextTranslations[ctx]; ok {
-			if do.contextTranslations[ctx] != nil {
-				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return Appendf(b, do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
-				}
-			}
-		}
-	}
-
-	// Parse plural forms to distinguish between plural and singular
-	if do.pluralForm(n) == 0 {
-		return Appendf(b, str, vars...)
-	}
-	return Appendf(b, plural, vars...)
+	return Appendf(b, do.textNC(str, plural, n, ctx), vars...)
 }
 
 // IsTranslated reports whether a string is translated
-- 
2.43.0


From ef6969d3436171f3e41ab451ffeae7b03709963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:39 +0000
Subject: [PATCH 53/58] fix: ask a Translator without holding the Locale's lock

---
 locale.go | 56 ++++++++++++++++---------------------------------------
 1 file changed, 16 insertions(+), 40 deletions(-)

diff --git a/locale.go b/locale.go
index edf9a65..6785345 100644
--- a/locale.go
+++ b/locale.go
@@ -285,6 +285,14 @@ func (l *Locale) SetDomain(dom string) {
 	l.Unlock()
 }
 
+// translator returns the Translator of a domain, or nil if there is none.
+// The lock isn't kept while it's used, the arguments may use the Locale while they are formatted.
+func (l *Locale) translator(dom string) Translator {
+	l.RLock()
+	defer l.RUnlock()
+	return l.Domains[dom]
+}
+
 // GetLanguage is the lang getter for Locale configuration
 func (l *Locale) GetLanguage() string {
 	l.RLock()
@@ -308,16 +316,8 @@ func (l *Locale) GetN(str, plural string, n int, vars ...interface{}) string {
 // GetD returns the corresponding Translation in the given domain for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetD(dom, str string, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].Get(str, vars...)
-			}
-		}
+	if tr := l.translator(dom); tr != nil {
+		return tr.Get(str, vars...)
 	}
 
 	return FormatString(str, vars...)
@@ -326,16 +326,8 @@ func (l *Locale) GetD(dom, str string, vars ...interface{}) string {
 // GetND retrieves the (N)th plural form of Translation in the given domain for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetND(dom, str, plural string, n int, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetN(str, plural, n, vars...)
-			}
-		}
+	if tr := l.translator(dom); tr != nil {
+		return tr.GetN(str, plural, n, vars...)
 	}
 
 	// Use western default rule (plural > 1) to handle missing domain default result.
@@ -360,16 +352,8 @@ func (l *Locale) GetNC(str, plural string, n int, ctx string, vars ...interface{
 // GetDC returns the corresponding Translation in the given domain for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetDC(dom, str, ctx string, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetC(str, ctx, vars...)
-			}
-		}
+	if tr := l.translator(dom); tr != nil {
+		return tr.GetC(str, ctx, vars...)
 	}
 
 	return FormatString(str, vars...)
@@ -378,16 +362,8 @@ func (l *Locale) GetDC(dom, str, ctx string, vars ...interface{}) string {
 // GetNDC retrieves the (N)th plural form of Translation in the given domain for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetNC(str, plural, n, ctx, vars...)
-			}
-		}
+	if tr := l.translator(dom); tr != nil {
+		return tr.GetNC(str, plural, n, ctx, vars...)
 	}
 
 	// Use western default rule (plural > 1) to handle missing domain default result.
-- 
2.43.0


From e123fd9f6e565f577e87628d08feda5acbf250c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:39 +0000
Subject: [PATCH 54/58] fix: don't hold the configuration's lock while a lookup
 formats its arguments

---
 gotext.go | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/gotext.go b/gotext.go
index c951ff2..0433cd9 100644
--- a/gotext.go
+++ b/gotext.go
@@ -240,18 +240,20 @@ func GetD(dom, str string, vars ...interface{}) string {
 	// Try to load default package Locales
 	loadLocales(false)
 
+	// Don't keep the lock, the arguments may use the package while they are formatted
 	globalConfig.RLock()
-	defer globalConfig.RUnlock()
+	locales := globalConfig.locales
+	globalConfig.RUnlock()
 
-	if len(globalConfig.locales) == 0 {
+	if len(locales) == 0 {
 		// Return the default of a Locale without domains
 		return new(Locale).GetD(dom, str, vars...)
 	}
 
 	var tr string
-	for i, locale := range globalConfig.locales {
+	for i, locale := range locales {
 		locale.loadDomain(dom)
-		if !locale.IsTranslatedD(dom, str) && i < (len(globalConfig.locales)-1) {
+		if !locale.IsTranslatedD(dom, str) && i < (len(locales)-1) {
 			continue
 		}
 		tr = locale.GetD(dom, str, vars...)
@@ -266,18 +268,20 @@ func GetND(dom, str, plural string, n int, vars ...interface{}) string {
 	// Try to load default package Locales
 	loadLocales(false)
 
+	// Don't keep the lock, the arguments may use the package while they are formatted
 	globalConfig.RLock()
-	defer globalConfig.RUnlock()
+	locales := globalConfig.locales
+	globalConfig.RUnlock()
 
-	if len(globalConfig.locales) == 0 {
+	if len(locales) == 0 {
 		// Return the default of a Locale without domains
 		return new(Locale).GetND(dom, str, plural, n, vars...)
 	}
 
 	var tr string
-	for i, locale := range globalConfig.locales {
+	for i, locale := range locales {
 		locale.loadDomain(dom)
-		if !locale.IsTranslatedND(dom, str, n) && i < (len(globalConfig.locales)-1) {
+		if !locale.IsTranslatedND(dom, str, n) && i < (len(locales)-1) {
 			continue
 		}
 		tr = locale.GetND(dom, str, plural, n, vars...)
@@ -304,18 +308,20 @@ func GetDC(dom, str, ctx string, vars ...interface{}) string {
 	// Try to load default package Locales
 	loadLocales(false)
 
+	// Don't keep the lock, the arguments may use the package while they are formatted
 	globalConfig.RLock()
-	defer globalConfig.RUnlock()
+	locales := globalConfig.locales
+	globalConfig.RUnlock()
 
-	if len(globalConfig.locales) == 0 {
+	if len(locales) == 0 {
 		// Return the default of a Locale without domains
 		return new(Locale).GetDC(dom, str, ctx, vars...)
 	}
 
 	var tr string
-	for i, locale := range globalConfig.locales {
+	for i, locale := range locales {
 		locale.loadDomain(dom)
-		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
+		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(locales)-1) {
 			continue
 		}
 		tr = locale.GetDC(dom, str, ctx, vars...)
@@ -331,18 +337,20 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 	loadLocales(false)
 
 	// Return Translation
+	// Don't keep the lock, the arguments may use the package while they are formatted
 	globalConfig.RLock()
-	defer globalConfig.RUnlock()
+	locales := globalConfig.locales
+	globalConfig.RUnlock()
 
-	if len(globalConfig.locales) == 0 {
+	if len(locales) == 0 {
 		// Return the default of a Locale without domains
 		return new(Locale).GetNDC(dom, str, plural, n, ctx, vars...)
 	}
 
 	var tr string
-	for i, locale := range globalConfig.locales {
+	for i, locale := range locales {
 		locale.loadDomain(dom)
-		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
+		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(locales)-1) {
 			continue
 		}
 		tr = locale.GetNDC(dom, str, plural, n, ctx, vars...)
-- 
2.43.0


From 8ad27ef94d2b1311cec2bd481c77a054564c34e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:05 +0000
Subject: [PATCH 55/58] fix: select the plural form of counts beyond 32 bits

Counts were truncated to 32 bits before the formula was evaluated, so 4294967297 took the form of 1.
---
 domain.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/domain.go b/domain.go
index 053f3c9..85e363b 100644
--- a/domain.go
+++ b/domain.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -125,6 +126,11 @@ func (do *Domain) pluralForm(n int) int {
 		}
 		return 1
 	}
+	// Formulas are evaluated with 32 bits. They look at small numbers and last digits only,
+	// so larger counts are replaced the way the gettext manual recommends.
+	if n > 0 && uint64(n) > math.MaxUint32 {
+		n = n%1000000 + 1000000
+	}
 	return do.pluralforms.Eval(uint32(n))
 }
 
-- 
2.43.0


From d7b6ea36201d70e36ec1060e7ed1b25be7336d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:05 +0000
Subject: [PATCH 56/58] fix: export every plural form up to the last one

An entry with a form missing below another (SetN with one count only) was exported with a gap, which msgfmt and msgcat refuse.
---
 domain.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/domain.go b/domain.go
index 85e363b..83a54f5 100644
--- a/domain.go
+++ b/domain.go
@@ -13,6 +13,9 @@ import (
 	"github.com/leonelquinteros/gotext/plurals"
 )
 
+// maxWrittenForms bounds the plural forms MarshalText writes for the sake of completeness; languages have up to six.
+const maxWrittenForms = 100
+
 // Domain has all the common functions for dealing with a gettext domain
 // it's initialized with a GettextFile (which represents either a Po or Mo file)
 type Domain struct {
@@ -794,6 +797,13 @@ func (do *Domain) MarshalText() ([]byte, error) {
 				forms = append(forms, 0)
 			}
 			sort.Ints(forms)
+			// The gettext tools refuse an entry that skips a form: missing ones are written empty
+			if last := forms[len(forms)-1]; forms[0] >= 0 && last < maxWrittenForms {
+				forms = forms[:0]
+				for i := 0; i <= last; i++ {
+					forms = append(forms, i)
+				}
+			}
 			for _, i := range forms {
 				buf.WriteString("\nmsgstr[" + strconv.Itoa(i) + "] \"" + EscapeSpecialCharacters(trans.Trs[i]) + "\"")
 			}
-- 
2.43.0


From d96fb359dfb069ece547cba84d701c374cb6fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:37 +0000
Subject: [PATCH 57/58] fix: xgotext extracted the keys of HeaderMap.Get as
 messages

---
 cli/xgotext/parser/gofile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 43b698c..327bbae 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -89,6 +89,10 @@ func (g *GoFile) CheckType(rawType types.Type) bool {
 		if t.Obj().Pkg() == nil || t.Obj().Pkg().Path() != "github.com/leonelquinteros/gotext" {
 			return false
 		}
+		// A HeaderMap has a Get, too, but only what translates has a GetC
+		if getter, _, _ := types.LookupFieldOrMethod(t, true, t.Obj().Pkg(), "GetC"); getter == nil {
+			return false
+		}
 
 	case *types.Alias:
 		return g.CheckType(t.Rhs())
-- 
2.43.0


From 93640065bb8b5d0c2b93c2cb56eb90525f803ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:08 +0000
Subject: [PATCH 58/58] fix: nplurals with blanks around its value was taken as
 0

---
 domain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index 83a54f5..603ebcb 100644
--- a/domain.go
+++ b/domain.go
@@ -209,7 +209,7 @@ func (do *Domain) parseHeaders() {
 
 		switch strings.TrimSpace(vs[0]) {
 		case "nplurals":
-			do.nplurals, _ = strconv.Atoi(vs[1])
+			do.nplurals, _ = strconv.Atoi(strings.TrimSpace(vs[1]))
 
 		case "plural":
 			do.plural = vs[1]
-- 
2.43.0

