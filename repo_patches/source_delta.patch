From c5cf0b91a0e0de37bee511c8b8de19702d92e893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 01/24] fix: provide runesio.AsRunesWriter, which linebreak
 needs to compile

---
 terminal/runes/runesio/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/terminal/runes/runesio/writer.go b/terminal/runes/runesio/writer.go
index d44ac3a..ee406b2 100644
--- a/terminal/runes/runesio/writer.go
+++ b/terminal/runes/runesio/writer.go
@@ -69,3 +69,8 @@ func (rw *runesWriter) writeRunes(runes []rune) (int, error) {
 
 	return rw.Writer.Write(buf)
 }
+
+// AsRunesWriter presents an io.Writer as a runes Writer.
+func AsRunesWriter(w io.Writer) Writer {
+	return NewWriter(w)
+}
-- 
2.43.0


From e2ac50801eca0ccc39cde10963aa4ea184f1acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 02/24] fix: recognise three-digit parameters in escape
 sequences (ESC[123 panicked)

---
 terminal/ansi/ansi.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index 33de825..ab2b936 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -255,6 +255,10 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 
 		runeCount++
 		nextStart++
+
+		if i == maxDigits-1 {
+			r, _, err = rdr.ReadRune() // what follows a parameter of maximum length
+		}
 	}
 
 	for r == ';' || r == ':' { // can have more that 2 sections, as in ESC[38,5;(n)m (256 bit color) or ESC[38;2;(r);(g);(b)m (Gnome term, kconsole)
@@ -273,6 +277,10 @@ func decodeANSISequence(rdr *runesio.SliceReader) ([]rune, kind) {
 
 			runeCount++
 			nextStart++
+
+			if i == maxDigits-1 {
+				r, _, err = rdr.ReadRune() // what follows a parameter of maximum length
+			}
 		}
 	}
 
-- 
2.43.0


From b5557c4520e182f812fe30611ae56e6378a0966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 03/24] fix: recognise an escape sequence that follows a lone
 escape

---
 terminal/ansi/ansi.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index ab2b936..c942499 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -336,6 +336,13 @@ func decodeText(rdr *runesio.SliceReader) []rune {
 				return rdr.Slice(int(current), int(current)+runeCount)
 			}
 
+			if r == esc {
+				_, _ = rdr.Seek(-1, io.SeekCurrent) // this one may start a sequence
+				runeCount++
+
+				continue
+			}
+
 			runeCount++
 		}
 
-- 
2.43.0


From f1ee925f8dcee8c78e5fd7d8938cbd7a5c161352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 04/24] fix: do not write into the runes being stripped

---
 terminal/ansi/ansi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminal/ansi/ansi.go b/terminal/ansi/ansi.go
index c942499..18911b1 100644
--- a/terminal/ansi/ansi.go
+++ b/terminal/ansi/ansi.go
@@ -134,7 +134,7 @@ func StripANSIFromRunes(rns []rune) StrippedToken {
 				groups[1] = endANSI // should normally never end up here
 			} else {
 				// indulge into one allocation
-				groups[1] = append(groups[1], endANSI...)
+				groups[1] = append(groups[1][:len(groups[1]):len(groups[1])], endANSI...)
 			}
 
 		case sequenceKind == otherSequence && len(groups[2]) > 0:
-- 
2.43.0


From 973d9b6736f9817cd4fdd319afb65a0202152dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 05/24] fix: Widths agrees with Width on invalid runes (it
 panicked) and U+2E3B

---
 terminal/runes/width.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/terminal/runes/width.go b/terminal/runes/width.go
index 9d1632d..5bdb0ee 100644
--- a/terminal/runes/width.go
+++ b/terminal/runes/width.go
@@ -50,6 +50,12 @@ func Widths(runes []rune, opts ...Option) (width int) {
 
 	buildLookupOnce.Do(initLookupTable) // builds the cache once
 	for _, r := range runes {
+		if !utf8.ValidRune(r) || r == 0x2E3B {
+			width += Width(r) // not in the lookup table
+
+			continue
+		}
+
 		width += int((lookupTable[r>>2] >> ((r % 4) * 2)) & 3)
 	}
 
-- 
2.43.0


From 4a9e3eaf3cf405362a56a66093400e3d9b4d25e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 06/24] fix: look up hyphenation exceptions in lower case

---
 wordbreak/hyphenator/hyphenator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index d17b20b..d6cb511 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -84,7 +84,12 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 }
 
 func (h *Hyphenator) isException(word []rune) ([]int, bool) {
-	val := h.exceptions.Get(word)
+	lower := make([]rune, 0, len(word)) // exceptions are stored in lower case
+	for _, r := range word {
+		lower = append(lower, unicode.ToLower(r))
+	}
+
+	val := h.exceptions.Get(lower)
 	if val != nil {
 		return val.([]int), true
 	}
-- 
2.43.0


From e783168057c3c0becb8998049e100017d239eddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:20 +0000
Subject: [PATCH 07/24] fix: read the last exception of the British patterns

---
 wordbreak/hyphenator/dictionary.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wordbreak/hyphenator/dictionary.go b/wordbreak/hyphenator/dictionary.go
index 4312adb..dbbd771 100644
--- a/wordbreak/hyphenator/dictionary.go
+++ b/wordbreak/hyphenator/dictionary.go
@@ -200,6 +200,7 @@ func (dict *Dictionary) readException(line string) ([]rune, []int) {
 	if isTeXComment(line) {
 		return nil, nil
 	}
+	line = strings.TrimSuffix(line, "}") // the section may end on the last exception
 
 	positions := make([]int, 0, 5)
 
-- 
2.43.0


From 31c41124dc49167734750be1722bd557257beee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 08/24] fix: keep the last break point of long words

---
 wordbreak/hyphenator/hyphenator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index d6cb511..603fda3 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -69,6 +69,9 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 		}
 	}
 
+	if missing := wordLength + 2 - len(positions); missing > 0 {
+		positions = append(positions, make([]int, missing)...) // only drop what comes after the last letter
+	}
 	positions = positions[1 : len(positions)-1]
 
 	// ensure provided positions are consistent
-- 
2.43.0


From c2e649cc27182b0c5d55fc5fb1610c3ebd9533ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 09/24] fix: try the patterns that start at the last letter of
 a word

---
 wordbreak/hyphenator/hyphenator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index 603fda3..c100953 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -62,7 +62,7 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 	positions := make([]int, 30) // the resulting hyphenation positions. A reasonable size is preallocated.
 	fragmentBuffer := make([]rune, 0, wordLength+2)
 
-	for i := 0; i < wordLength; i++ { // ".word.", "ord.", "rd.", "d."
+	for i := 0; i <= wordLength; i++ { // ".word.", "word.", "ord.", "rd.", "d."
 		allBreakPoints, hasPatterns = h.isPattern(i, word, fragmentBuffer, allBreakPoints)
 		if hasPatterns {
 			positions = mergeBreakPoints(positions, allBreakPoints, i)
-- 
2.43.0


From e3e78ace9291b86b6aa866429087b532d1787363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 10/24] fix: never break after the last letter of a word

---
 wordbreak/hyphenator/hyphenator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wordbreak/hyphenator/hyphenator.go b/wordbreak/hyphenator/hyphenator.go
index c100953..a3415e3 100644
--- a/wordbreak/hyphenator/hyphenator.go
+++ b/wordbreak/hyphenator/hyphenator.go
@@ -82,6 +82,9 @@ func (h *Hyphenator) BreakWord(word []rune) [][]rune {
 	case len(positions) > wordLength && positions[wordLength] > 0:
 		positions[wordLength] = 0 // sometimes hyphen after last letter is "allowed"
 	}
+	if len(positions) > wordLength {
+		positions[wordLength] = 0 // the switch above does only one of them
+	}
 
 	return h.splitAtPositions(word, wordLength, positions)
 }
-- 
2.43.0


From 19ad7c2ef74f73f86e8d31722c471b554bc5bad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 11/24] fix: use the patterns of the language for its regional
 variants

---
 wordbreak/hyphenator/languages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wordbreak/hyphenator/languages.go b/wordbreak/hyphenator/languages.go
index 59e8c74..0207c02 100644
--- a/wordbreak/hyphenator/languages.go
+++ b/wordbreak/hyphenator/languages.go
@@ -21,9 +21,9 @@ var (
 )
 
 func langToPattern(tag language.Tag) string {
-	matched, _, _ := langMatcher.Match(tag)
+	_, index, _ := langMatcher.Match(tag)
 
-	switch matched {
+	switch supportedLanguages[index] { // not the matched tag, which retains the requested region
 	case language.BritishEnglish, language.English:
 		return "hyph-en-gb.tex"
 	case language.Spanish, language.EuropeanSpanish, language.LatinAmericanSpanish:
-- 
2.43.0


From 460e9c21e0d98e303d75210ddc562a90f16c1211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 12/24] fix: count invalid runes as the bytes they are written
 with

---
 terminal/runes/runesio/slice_reader.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/terminal/runes/runesio/slice_reader.go b/terminal/runes/runesio/slice_reader.go
index f66bb03..b9a762a 100644
--- a/terminal/runes/runesio/slice_reader.go
+++ b/terminal/runes/runesio/slice_reader.go
@@ -36,7 +36,7 @@ func (r *SliceReader) ReadRune() (rune, int, error) {
 	rn := r.runes[r.offset]
 	r.offset++
 
-	return rn, utf8.RuneLen(rn), nil
+	return rn, runeLen(rn), nil
 }
 
 // Runes returns unread runes.
@@ -121,7 +121,7 @@ func (r *SliceReader) SliceFromByteOffsets(slice []int) [][]rune {
 			if offset < startByte {
 				startRune++
 			}
-			offset += utf8.RuneLen(rn)
+			offset += runeLen(rn)
 
 			if offset > endByte {
 				break
@@ -134,3 +134,12 @@ func (r *SliceReader) SliceFromByteOffsets(slice []int) [][]rune {
 
 	return groups
 }
+
+// runeLen is the number of bytes to encode a rune. An invalid rune is encoded as utf8.RuneError.
+func runeLen(rn rune) int {
+	if size := utf8.RuneLen(rn); size > 0 {
+		return size
+	}
+
+	return utf8.RuneLen(utf8.RuneError)
+}
-- 
2.43.0


From c19ea873a464528469806b812032fabee559bb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 13/24] fix: a stop with nothing open does not lower the level
 of what follows

---
 attributes/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attributes/state.go b/attributes/state.go
index 95c3965..86aaee6 100644
--- a/attributes/state.go
+++ b/attributes/state.go
@@ -42,7 +42,7 @@ func (s *State) Push(attr Renderer) {
 		attribute := current.Value.(Renderer)
 		currentLevel = attribute.Level()
 		hadStop := attribute.HasStop()
-		if hadStop {
+		if hadStop && currentLevel > 0 { // a stop with nothing open closes nothing
 			currentLevel--
 		}
 	}
-- 
2.43.0


From d7a26cdbe39a2bcb31aab7a6d4b1ff8ddf09dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 14/24] fix: close and reopen exactly the open attributes
 around a line break

---
 attributes/state.go | 55 +++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 37 deletions(-)

diff --git a/attributes/state.go b/attributes/state.go
index 86aaee6..2024390 100644
--- a/attributes/state.go
+++ b/attributes/state.go
@@ -108,19 +108,14 @@ func (i *StateIterator) backtrack(level int) *list.Element {
 		currentLevel := attribute.Level()
 	*/
 
-	// backtrack to the first renderer for this level
+	// backtrack to the renderer that opened this level
 	for current != nil {
-		lookback := current.Prev()
-		if lookback == nil {
-			return current
-		}
-
-		attribute := lookback.Value.(Renderer)
-		if attribute.Level() < level {
+		attribute := current.Value.(Renderer)
+		if attribute.HasStart() && attribute.Level() == level {
 			return current
 		}
 
-		current = lookback
+		current = current.Prev()
 	}
 
 	return nil
@@ -128,7 +123,7 @@ func (i *StateIterator) backtrack(level int) *list.Element {
 
 // StartOfLine restores the state of attributes to start a new line.
 func (i *StateIterator) StartOfLine(w runesio.Writer) {
-	if i.current == nil {
+	if i.start || i.current == nil {
 		return
 	}
 
@@ -138,29 +133,21 @@ func (i *StateIterator) StartOfLine(w runesio.Writer) {
 	if attribute.HasStop() {
 		currentLevel--
 	}
-	// backtrack to the first renderer for this level
-	current := i.backtrack(currentLevel)
-	if current == nil || currentLevel == 0 {
-		return
-	}
-
-	// starts all rendering sequences for this level
-	for current != nil {
+	// starts the rendering sequences of all levels still open, outermost first
+	for level := 1; level <= currentLevel; level++ {
+		current := i.backtrack(level)
+		if current == nil {
+			continue
+		}
 		attribute := current.Value.(Renderer)
 
 		attribute.Start(w)
-
-		if current == i.current {
-			break
-		}
-
-		current = current.Next()
 	}
 }
 
 // EndOfLine closes the state of attributes to end the line with an empty state.
 func (i *StateIterator) EndOfLine(w runesio.Writer) {
-	if i.current == nil {
+	if i.start || i.current == nil {
 		return
 	}
 
@@ -171,23 +158,17 @@ func (i *StateIterator) EndOfLine(w runesio.Writer) {
 		currentLevel--
 	}
 
-	// backtrack to the first renderer for this level
-	current := i.backtrack(currentLevel)
-	if current == nil || currentLevel == 0 {
-		return
-	}
-
-	// stop all sequences up to the last renderer at this level
-	for current != nil {
+	// stop all levels still open, innermost first: the sequences are those of the next renderers
+	current := i.current.Next()
+	for current != nil && currentLevel > 0 {
 		attribute := current.Value.(Renderer)
 		level := attribute.Level()
 
-		if level < currentLevel {
-			break
+		if attribute.HasStop() && level == currentLevel {
+			attribute.Stop(w)
+			currentLevel--
 		}
 
-		attribute.Stop(w)
-
 		current = current.Next()
 	}
 }
-- 
2.43.0


From 10611d7153ea26a3a6601378dccd3afbbd09fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 15/24] fix: use the same patterns for languages that fall back
 to English, by tag or by string

---
 wordbreak/hyphenator/languages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wordbreak/hyphenator/languages.go b/wordbreak/hyphenator/languages.go
index 0207c02..e7b21e0 100644
--- a/wordbreak/hyphenator/languages.go
+++ b/wordbreak/hyphenator/languages.go
@@ -24,7 +24,7 @@ func langToPattern(tag language.Tag) string {
 	_, index, _ := langMatcher.Match(tag)
 
 	switch supportedLanguages[index] { // not the matched tag, which retains the requested region
-	case language.BritishEnglish, language.English:
+	case language.BritishEnglish:
 		return "hyph-en-gb.tex"
 	case language.Spanish, language.EuropeanSpanish, language.LatinAmericanSpanish:
 		return "hyph-es.tex"
@@ -32,7 +32,7 @@ func langToPattern(tag language.Tag) string {
 		return "hyph-fr.tex"
 	case language.German:
 		return "hyph-de-1996.tex"
-	case language.AmericanEnglish:
+	case language.AmericanEnglish, language.English: // plain English is matched as American English
 		fallthrough
 	default:
 		return "ushyphmax.tex"
-- 
2.43.0


From 8893418788d5cf5cd4ae7571cb72b8f1dc459458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 16/24] fix: accumulate demerits so that the best line breaks
 are found, always the same

---
 linebreak/knuth_plass.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index 5180c8b..dcdabae 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -210,7 +210,7 @@ func (l *LineBreaker) mainLoop(index int) {
 				lowestDemerits = minf(lowestDemerits, demerits)
 
 				if demerits < candidates[currentClass].totalDemerits {
-					candidates[currentClass] = active
+					candidates[currentClass] = newBreakPoint(active.position, demerits, active.ratio, active.line, currentClass, active.totals, active)
 				}
 			}
 
@@ -233,7 +233,8 @@ func (l *LineBreaker) mainLoop(index int) {
 func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index int, lowestDemerits float64, candidates map[fitnessClass]*breakPoint) {
 	sum := l.sumFromNode(index)
 
-	for class, candidate := range candidates {
+	for class := fitnessClassZero; class <= fitnessClassThree; class++ { // in order, so that ties are always settled the same way
+		candidate := candidates[class]
 		if candidate.totalDemerits >= maxDemerit || candidate.totalDemerits > lowestDemerits+l.demerits.fitness {
 			// skip default candidate
 			continue
@@ -244,8 +245,8 @@ func (l *LineBreaker) insertNewActiveBreak(activeElement *list.Element, index in
 			candidate.totalDemerits, candidate.ratio, // ratings for this break point
 			candidate.line+1,
 			class,
-			sum,       // totals after this node
-			candidate, // link to the previous candidate breakpoint
+			sum,                // totals after this node
+			candidate.previous, // link to the previous breakpoint
 		)
 
 		if activeElement != nil {
-- 
2.43.0


From d91d7c69b8af8af50249325f2262ab58d9674b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 17/24] fix: lines may start with a punctuation mark or a
 hyphen

---
 linebreak/linebreaker.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 6a34641..c13ea56 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -228,9 +228,11 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				// the punctuation mark. E.g. ";", "&", "." should probably deserve a special processing.
 				// For the moment, this package essentially supports rendering with fixed-width fonts on a terminal, so this is not really needed.
 				nodes = append(nodes,
-					newPenalty(noWidth, infinity, unflaggedPenalty),
-					newGlue(noWidth, l.glueStretch, noShrink), // no space before the punctuation mark. Some typographic rules disagree with this, e.g. for ";"
+					// no space before the punctuation mark. Some typographic rules disagree with this, e.g. for ";"
+					// the box comes first: a glue at the start of a line is discarded
 					newBox(l.scale(l.measurer(strippedFromPunct)), strippedFromPunct, tokenState.Current()),
+					newPenalty(noWidth, infinity, unflaggedPenalty),
+					newGlue(noWidth, l.glueStretch, noShrink),
 					newPenalty(noWidth, l.punctuationPenalty, flaggedPenalty), // this penalty won't be mixed with hyphens
 					newGlue(noWidth, -l.glueStretch, noShrink),
 				)
@@ -251,9 +253,10 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				if hyphenator.IsHyphen(word) {
 					tokenState.Start(word)
 					nodes = append(nodes,
+						// the box comes first: a glue at the start of a line is discarded
+						newBox(l.scale(l.measurer(word)), word, tokenState.Current()),
 						newPenalty(noWidth, infinity, unflaggedPenalty),
 						newGlue(noWidth, l.glueStretch, noShrink),
-						newBox(l.scale(l.measurer(word)), word, tokenState.Current()),
 						newPenalty(noWidth, l.hardHyphenPenalty, flaggedPenalty), // this penalty won't be mixed with soft hyphens
 						newGlue(noWidth, -l.glueStretch, noShrink),
 					)
-- 
2.43.0


From 4cbc124cb206a9a8f0c609e16f809ec21c924609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 18/24] fix: words broken without rendering hyphens may leave a
 line short

---
 linebreak/linebreaker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index c13ea56..3994600 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -306,7 +306,10 @@ func (l *LineBreaker) pushHyphen() []nodeT {
 
 	return []nodeT{
 		// when hyphens are not rendered (words are just broken), there is no width associated to the penalty
+		newPenalty(noWidth, infinity, unflaggedPenalty),
+		newGlue(noWidth, l.glueStretch, noShrink),
 		newPenalty(noWidth, l.hyphenPenalty, flaggedPenalty),
+		newGlue(noWidth, -l.glueStretch, noShrink),
 	}
 }
 
-- 
2.43.0


From e974f3ec0949dc3056aa16ab8f75f1aea51503da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 19/24] fix: add a hyphen only where a word is broken, whatever
 the hyphen penalty

---
 linebreak/knuth_plass_types.go | 7 +++++++
 linebreak/linebreaker.go       | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/linebreak/knuth_plass_types.go b/linebreak/knuth_plass_types.go
index ee38301..b194db5 100644
--- a/linebreak/knuth_plass_types.go
+++ b/linebreak/knuth_plass_types.go
@@ -11,6 +11,7 @@ type (
 		nodeType  nodeType
 		penalty   float64
 		flagged   bool
+		isSoft    bool // a penalty rendered as a hyphen when the line breaks there
 		value     []rune
 		attribute attributes.Renderer // attributes such as color, italic, bold ...
 
@@ -191,6 +192,12 @@ func (n nodeT) isForcedBreak() bool {
 	return n.nodeType == nodeTypePenalty && n.penalty == -infinity
 }
 
+func (n nodeT) asSoftHyphen() nodeT {
+	n.isSoft = true
+
+	return n
+}
+
 func (n nodeT) Render(w runesio.Writer) {
 	if !n.isBox() {
 		return
diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 3994600..1b30665 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -177,7 +177,7 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 				_, _ = runesWriter.WriteRunes(spaces)
 
 			case node.isPenalty():
-				if l.renderHyphens && node.penalty == l.hyphenPenalty && index == len(line.nodes)-1 {
+				if l.renderHyphens && node.isSoft && index == len(line.nodes)-1 {
 					// render a soft hyphen node
 					_, _ = runesWriter.WriteRunes(hyphen)
 				}
@@ -299,7 +299,7 @@ func (l *LineBreaker) pushHyphen() []nodeT {
 			// ragged right:
 			newPenalty(noWidth, infinity, unflaggedPenalty),
 			newGlue(noWidth, l.glueStretch, noShrink),
-			newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty),
+			newPenalty(l.hyphenWidth, l.hyphenPenalty, flaggedPenalty).asSoftHyphen(),
 			newGlue(noWidth, -l.glueStretch, noShrink),
 		}
 	}
-- 
2.43.0


From 8be9c6193e57e9352ebc1061b4ebd38c7554d632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 20/24] fix: no tolerance accepts a line that cannot be
 stretched or shrunk to the width

---
 linebreak/knuth_plass.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linebreak/knuth_plass.go b/linebreak/knuth_plass.go
index dcdabae..5624e6f 100644
--- a/linebreak/knuth_plass.go
+++ b/linebreak/knuth_plass.go
@@ -27,7 +27,7 @@ func (l *LineBreaker) adjustmentRatio(fromBreakPoint *breakPoint, toNode nodeT,
 			return (idealWidth - actualWidth) / stretch
 		}
 
-		return infinity
+		return math.Inf(1)
 
 	case actualWidth > idealWidth:
 		// need to shrink
@@ -37,7 +37,7 @@ func (l *LineBreaker) adjustmentRatio(fromBreakPoint *breakPoint, toNode nodeT,
 			return (idealWidth - actualWidth) / shrink
 		}
 
-		return infinity
+		return math.Inf(1)
 
 	default:
 		// perfect match
@@ -204,7 +204,7 @@ func (l *LineBreaker) mainLoop(index int) {
 				l.activeNodes.Remove(activeElement)
 			}
 
-			if ratio >= -1 && ratio <= l.tolerance {
+			if ratio >= -1 && ratio <= l.tolerance && !math.IsInf(ratio, 1) {
 				// update candidate
 				demerits, currentClass := l.demeritsAndClass(active, node, ratio)
 				lowestDemerits = minf(lowestDemerits, demerits)
-- 
2.43.0


From 31efa4ea378a149540677f697019b873c944e5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 21/24] fix: a line breaker does not carry attributes over to
 the next paragraph

---
 linebreak/linebreaker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 1b30665..0ce3b87 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -79,6 +79,7 @@ func New(opts ...Option) *LineBreaker {
 // TODO: move to [][]rune -> []rune
 func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]string, error) {
 	// 1. build a model that represent the tokens in terms of glue/box/penalty nodes
+	l.attrList = attributes.NewState() // forget about the previous paragraph
 	l.nodes = l.leftAlignedNodes(tokens)
 
 	// 2. build a model for desired widths for lines
-- 
2.43.0


From 918b10b64c316d2c8377cc54252a6b944c9b5dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 22/24] fix: keep escape sequences that are not next to any
 text

---
 linebreak/linebreaker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 0ce3b87..1338d8a 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -284,6 +284,12 @@ func (l *LineBreaker) boxNodes(token []rune) []nodeT {
 				)
 			}
 		}
+		if tokenState.Current() == nil && len(stripped.StartSequence)+len(stripped.StopSequence) > 0 {
+			// escape sequences without any text
+			tokenState.Start(nil)
+			nodes = append(nodes, newBox(noWidth, nil, tokenState.Current()))
+		}
+
 		// add stop to the last renderer
 		tokenState.Stop()
 	}
-- 
2.43.0


From 0dc092cde53b0f33998205fcb6067ffdb0a204cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:19 +0000
Subject: [PATCH 23/24] fix: separate words by one space, whatever its measure

---
 linebreak/linebreaker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 1338d8a..76fc79f 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -174,7 +174,12 @@ func (l *LineBreaker) render(breakList *breakPoint) []string {
 					pad += line.ratio * node.stretch
 				}
 
-				spaces := repeatRunes(space, int(l.downScale(pad)))
+				count := l.downScale(pad)
+				if width := l.measurer(space); width > 0 {
+					count = math.Round(count / width)
+				}
+
+				spaces := repeatRunes(space, int(count))
 				_, _ = runesWriter.WriteRunes(spaces)
 
 			case node.isPenalty():
-- 
2.43.0


From 02db880ad7bc440aec470982325b34f659ebc4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 24/24] fix: lines never exceed a width with a fraction of a
 unit

---
 linebreak/linebreaker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/linebreak/linebreaker.go b/linebreak/linebreaker.go
index 76fc79f..ccf50cd 100644
--- a/linebreak/linebreaker.go
+++ b/linebreak/linebreaker.go
@@ -36,6 +36,8 @@ const (
 	unflaggedPenalty = false
 	noWidth          = 0.0
 	noShrink         = 0.0
+
+	fractionOfUnit = 1e-6 // tolerated when scaling the width of lines, which may not be exact
 )
 
 var (
@@ -100,7 +102,8 @@ func (l *LineBreaker) LeftAlignUniform(tokens []string, maxWidth float64) ([]str
 func (l *LineBreaker) buildUniformLengths(width float64) []float64 {
 	lengths := make([]float64, 1)
 	for i := range lengths {
-		lengths[i] = l.scale(width)
+		// a fraction of a unit does not give room for one: rounding up would let lines overflow
+		lengths[i] = math.Floor(width*l.scaleFactor + fractionOfUnit)
 	}
 
 	return lengths
-- 
2.43.0

