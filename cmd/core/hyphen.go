package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ref"
)

type hyph struct {
	lang *ref.Language
	m    ref.Minima
	h    *hyphenator.Hyphenator
}

func newHyph(l *ref.Language, m ref.Minima) hyph {
	opts := []hyphenator.Option{hyphenator.WithLanguage(l.Name)}
	if m != ref.DefaultMinima {
		opts = append(opts, hyphenator.WithMinLength(m.Length), hyphenator.WithMinLeft(m.Left), hyphenator.WithMinRight(m.Right))
	}

	return hyph{l, m, hyphenator.New(opts...)}
}

func (h hyph) String() string {
	return fmt.Sprintf("language %s, minLength %d, minLeft %d, minRight %d", h.lang.Name, h.m.Length, h.m.Left, h.m.Right)
}

// defaults for all languages; shared by all the cases of a worker, as users do
func defaultHyphs() []hyph {
	var out []hyph
	for _, l := range ref.Languages {
		out = append(out, newHyph(l, ref.DefaultMinima))
	}

	return out
}

func minimaGrid(full bool) []ref.Minima {
	var out []ref.Minima
	for _, length := range []int{0, 1, 2, 3, 4, 5, 6, 9} {
		for left := 0; left <= 4; left++ {
			for right := 0; right <= 4; right++ {
				if !full && (length == 2 || length == 5 || left == 4 && right != 2 || right == 4 && left != 2) {
					continue
				}
				out = append(out, ref.Minima{Length: length, Left: left, Right: right})
			}
		}
	}

	return append(out, ref.Minima{Length: 100, Left: 2, Right: 2}, ref.Minima{Length: 1, Left: 10, Right: 1}, ref.Minima{Length: 1, Left: 1, Right: 10})
}

// structure checks what C07 states.
func structure(w *mc.W, word []rune, parts [][]rune, m ref.Minima) {
	total := 0
	for i, p := range parts {
		if len(p) == 0 && len(word) > 0 {
			w.Failf("part %d is empty: %s", i, qq(parts))
		}
		if total+len(p) > len(word) || !eq(p, word[total:total+len(p)]) {
			w.Failf("parts do not concatenate to the word: %s", qq(parts))
		}
		total += len(p)
		if i < len(parts)-1 {
			if len(p) < m.Left {
				w.Failf("part %d is shorter than the left minimum: %s", i, qq(parts))
			}
			if len(word)-total < m.Right {
				w.Failf("break after part %d leaves less than the right minimum: %s", i, qq(parts))
			}
		}
	}
	if total != len(word) {
		w.Failf("parts do not concatenate to the word: %s", qq(parts))
	}
	if len(parts) == 0 && len(word) > 0 || len(parts) > 1 && (len(word) < m.Length || ref.HasHyphen(word)) {
		w.Failf("the word should come back as a single part: %s", qq(parts))
	}
}

// hyphCheck compares one word with the reference.
type hyphCheck func(w *mc.W, h hyph, word []rune)

func checkC08(w *mc.W, h hyph, word []rune) {
	w.Tick()
	w.State()
	want := h.lang.Hyphenate(word, h.m)
	got := h.h.BreakWord(word)
	if !eqParts(got, want) {
		w.Failf("BreakWord = %s, want %s", qq(got), qq(want))
	}
	w.Step(1)
	if len(want) > 1 {
		w.NonTrivial()
	}
	w.Outcome(hashParts(want))
}

func checkC07(w *mc.W, h hyph, word []rune) {
	w.Tick()
	w.State()
	orig := clone(word)
	got := h.h.BreakWord(word)
	if !eq(word, orig) {
		w.Failf("BreakWord changed its input to %s", q(word))
	}
	structure(w, orig, got, h.m)
	w.Step(1)
	if isValid(word) {
		gotS := h.h.BreakWordString(string(word))
		if !eqParts(got, gotS) {
			w.Failf("BreakWordString = %s but BreakWord = %s", qq(gotS), qq(got))
		}
		w.Step(1)
	}
	if len(got) > 1 {
		w.NonTrivial()
	}
	w.Outcome(hashParts(got))
}

// letterWords: all words of up to n letters of each language's alphabet.
func letterWords(n int, check hyphCheck) mc.Space {
	return mc.Space{
		Name:  fmt.Sprintf("words-%d", n),
		Bound: fmt.Sprintf("all words of up to %d letters of each language's pattern alphabet, default options, one shared hyphenator per language", n),
		Run: func(w *mc.W) {
			hs := defaultHyphs()
			var buf []rune
			for _, h := range hs {
				h := h
				w.Words(len(h.lang.Letters), 0, n, 2, func(seq []int) {
					buf = pick(h.lang.Letters, seq, buf)
					w.Describe(func() string { return fmt.Sprintf("%q, %s", string(buf), h) })
					check(w, h, buf)
				})
			}
		},
	}
}

// bare strips the dots of a pattern key.
func bare(key string) []rune { return []rune(strings.Trim(key, ".")) }

// patternContexts: every pattern and exception with up to left letters before and right after.
func patternContexts(left, right int, check hyphCheck) mc.Space {
	return mc.Space{
		Name:  fmt.Sprintf("patterns-%d-%d", left, right),
		Bound: fmt.Sprintf("every pattern and exception of each language, with every choice of up to %d letters before and %d after, default options", left, right),
		Run: func(w *mc.W) {
			hs := defaultHyphs()
			var buf []rune
			for _, h := range hs {
				h := h
				words := h.lang.Keys
				words = append(append([]string{}, words...), h.lang.Words...)
				w.Range(0, len(words), 16, func(i int) {
					core := bare(words[i])
					w.Describe(func() string { return fmt.Sprintf("%q, %s", string(buf), h) })
					forContexts(h.lang.Letters, left, func(l []rune) {
						forContexts(h.lang.Letters, right, func(r []rune) {
							buf = append(append(append(buf[:0], l...), core...), r...)
							check(w, h, buf)
						})
					})
				})
			}
		},
	}
}

func forContexts(letters []rune, n int, body func([]rune)) {
	body(nil)
	if n >= 1 {
		for _, a := range letters {
			body([]rune{a})
			if n >= 2 {
				for _, b := range letters {
					body([]rune{a, b})
				}
			}
		}
	}
}

// patternPairs: concatenations of two patterns, with overlap of up to one letter.
func patternPairs(stride int, check hyphCheck) mc.Space {
	return mc.Space{
		Name:  "pattern-pairs",
		Bound: fmt.Sprintf("concatenations of pattern i and pattern j of each language for all i and every j congruent to i modulo %d", stride),
		Run: func(w *mc.W) {
			hs := defaultHyphs()
			var buf []rune
			for _, h := range hs {
				h := h
				n := len(h.lang.Keys)
				w.Range(0, n, 8, func(i int) {
					a := bare(h.lang.Keys[i])
					w.Describe(func() string { return fmt.Sprintf("%q, %s", string(buf), h) })
					for j := i % stride; j < n; j += stride {
						buf = append(append(buf[:0], a...), bare(h.lang.Keys[j])...)
						check(w, h, buf)
					}
				})
			}
		},
	}
}

// longWords: every pattern at the end, at the start, and in the middle of words of growing length.
func longWords(ns []int, every int, check hyphCheck) mc.Space {
	return mc.Space{
		Name:  "long-words",
		Bound: fmt.Sprintf("every pattern and exception of each language at the start, in the middle and at the end of words of %d lengths from %d to %d runes made of neutral, of vowel and of pattern-rich filler (beyond 70 runes: one pattern in %d, beyond 300, one in %d, beyond 2000, one in %d)", len(ns), ns[0], ns[len(ns)-1], every, 48*every, 384*every),
		Run: func(w *mc.W) {
			hs := defaultHyphs()
			var buf []rune
			for _, h := range hs {
				h := h
				words := append(append([]string{}, h.lang.Keys...), h.lang.Words...)
				w.Range(0, len(words), 32, func(i int) {
					core := bare(words[i])
					w.Describe(func() string { return fmt.Sprintf("%q (%d runes), %s", string(buf), len(buf), h) })
					for _, n := range ns {
						if n < len(core) || (n > 70 && (i+n)%every != 0) || (n > 300 && (i+n)%(48*every) != 0) || (n > 2000 && (i+n)%(384*every) != 0) {
							continue
						}
						fill := n - len(core)
						f := []string{"x", "a", "hyphenationalgorithm"}[(i+n)%3]
						filler := []rune(strings.Repeat(f, fill/len(f)+1))[:fill]
						buf = append(append(buf[:0], filler...), core...)
						check(w, h, buf)
						if i%4 == n%4 {
							buf = append(append(buf[:0], core...), filler...)
							check(w, h, buf)
							buf = append(append(append(buf[:0], filler[:fill/2]...), core...), filler[fill/2:]...)
							check(w, h, buf)
						}
					}
				})
			}
		},
	}
}

// cases returns letter-case variants of a word.
func caseVariants(word []rune) [][]rune {
	up, title, alt, last := clone(word), clone(word), clone(word), clone(word)
	for i := range word {
		up[i] = unicode.ToUpper(word[i])
		if i == 0 {
			title[i] = up[i]
		}
		if i%2 == 1 {
			alt[i] = up[i]
		}
		if i == len(word)-1 {
			last[i] = up[i]
		}
	}

	out := [][]rune{word, up, title, alt, last}
	for i, r := range word { // other runes with the same lower case, such as the Kelvin sign
		for _, o := range sameLower[r] {
			other := clone(word)
			other[i] = o
			out = append(out, other)
		}
	}

	return out
}

// sameLower lists the runes whose lower case is a rune but that are not its upper case.
var sameLower = func() map[rune][]rune {
	out := map[rune][]rune{}
	for r := rune(0x80); r <= unicode.MaxRune; r++ {
		if l := unicode.ToLower(r); l != r && unicode.ToUpper(l) != r {
			out[l] = append(out[l], r)
		}
	}

	return out
}()

func caseSpace(check func(w *mc.W, h hyph, lowerWord, word []rune)) mc.Space {
	return mc.Space{
		Name:  "letter-case",
		Bound: "every pattern and exception of each language, alone and doubled, in lower, upper, title, alternating and last-letter upper case, and with each letter replaced by the other runes of the same lower case (Kelvin sign, capital sharp s...)",
		Run: func(w *mc.W) {
			hs := defaultHyphs()
			var word []rune
			for _, h := range hs {
				h := h
				words := append(append([]string{}, h.lang.Words...), h.lang.Keys...)
				w.Range(0, len(words), 64, func(i int) {
					core := bare(words[i])
					w.Describe(func() string { return fmt.Sprintf("%q, %s", string(word), h) })
					for _, base := range [][]rune{core, append(clone(core), core...)} {
						for _, word = range caseVariants(base) {
							if string(lowerRunes(word)) != string(lowerRunes(base)) {
								continue // letters without a round trip, such as ß
							}
							check(w, h, lowerRunes(base), word)
						}
					}
				})
			}
		},
	}
}

func lowerRunes(in []rune) []rune {
	out := clone(in)
	for i := range out {
		out[i] = unicode.ToLower(out[i])
	}

	return out
}

func minimaSpace(full bool, check hyphCheck) mc.Space {
	return mc.Space{
		Name:  "minima-grid",
		Bound: "a grid of minimum length x left x right options (0 to 4, and large values) times every exception, every pattern (every 7th when not thorough) with two contexts, and all words of up to 2 letters",
		Run: func(w *mc.W) {
			grid := minimaGrid(full)
			var buf []rune
			for _, l := range ref.Languages {
				words := append([]string{}, l.Words...)
				for i, k := range l.Keys {
					if full || i%7 == 0 {
						words = append(words, k, k+"e", "re"+k, k+k)
					}
				}
				for _, a := range l.Letters {
					words = append(words, string(a))
					for _, b := range l.Letters {
						words = append(words, string([]rune{a, b}))
					}
				}
				words = append(words, "")
				for _, m := range grid {
					var h hyph
					l, m := l, m
					w.Range(0, len(words), 4096, func(i int) {
						if h.h == nil {
							h = newHyph(l, m)
						}
						buf = bare(words[i])
						w.Describe(func() string { return fmt.Sprintf("%q, %s", string(buf), h) })
						check(w, h, buf)
					})
				}
			}
		},
	}
}

func anyRunes(check hyphCheck) mc.Space {
	return mc.Space{
		Name:  "all-runes",
		Bound: "every rune value, invalid ones included, in 5 contexts (US English; the four other languages on every 16th rune)",
		Run: func(w *mc.W) {
			hs := defaultHyphs()
			for i := range hs {
				hs[i] = newHyph(hs[i].lang, ref.Minima{Length: 2, Left: 1, Right: 1})
			}
			var (
				buf []rune
				h   hyph
			)
			desc := func() string { return fmt.Sprintf("%s, %s", q(buf), h) }
			allRunes(w, func(r rune) {
				w.Describe(desc)
				for i := range hs {
					if i > 0 && r&15 != 3 {
						break
					}
					h = hs[i]
					for _, ctx := range [][]rune{{0}, {0, 'a', 'b', 'l', 'e'}, {'t', 'a', 'b', 'l', 'e', 0}, {'h', 'y', 'p', 0, 'h', 'e', 'n'}, {0, 0, 0, 0}} {
						buf = append(buf[:0], ctx...)
						for k, c := range buf {
							if c == 0 {
								buf[k] = r
							}
						}
						check(w, h, buf)
					}
				}
			})
		},
	}
}

// specialHyphenation: words with special runes, of lengths around the minimum.
func specialHyphenation(check hyphCheck) mc.Space {
	var (
		hs []hyph
		h  hyph
	)
	sp := specialWords(2, [][2]string{{"", ""}, {"re", "tion"}, {"ta", "ble"}, {"pro", "ject"}, {"", "hyphenation"}, {"hyphenation", ""}}, func(w *mc.W, word []rune) {
		if hs == nil {
			for _, l := range ref.Languages {
				hs = append(hs, newHyph(l, ref.DefaultMinima))
				for _, n := range []int{1, 7, 8, 9} {
					hs = append(hs, newHyph(l, ref.Minima{Length: n, Left: 1 + n%3, Right: 1 + n%2}))
				}
			}
		}
		w.Describe(func() string { return fmt.Sprintf("%s, %s", q(word), h) })
		for _, h = range hs {
			check(w, h, word)
		}
	})
	sp.Bound += "; all languages, the default minima and minimum lengths 1, 7, 8 and 9"

	return sp
}

// oddHyphenation: long words of one letter or syllable with one or two odd runes.
func oddHyphenation(check hyphCheck) mc.Space {
	var (
		hs []hyph
		h  hyph
	)
	sp := oddTexts([]string{"a", "b", "tion"}, []string{"e", "S", "é", "ß", "\u0130", "-", "1", "\u0301", "\xff"}, 8, func(w *mc.W, word []rune) {
		if len(word) > 260 { // takes long
			return
		}
		if hs == nil {
			for i, l := range ref.Languages {
				m := ref.DefaultMinima
				if i > 1 {
					m = ref.Minima{Length: 1, Left: 1, Right: 1}
				}
				hs = append(hs, newHyph(l, m))
			}
		}
		w.Describe(func() string { return fmt.Sprintf("%s, %s", q(word), h) })
		for k := range hs {
			if len(word) < 60 || k == len(word)%len(hs) {
				h = hs[k]
				check(w, h, word)
			}
		}
	})
	sp.Bound += "; words of up to 260 runes, up to 60 in all languages, beyond in the one whose number is the length modulo 5"

	return sp
}

// hyphenNeighbours: a hyphen or an apostrophe between any two letters.
func hyphenNeighbours(check hyphCheck) mc.Space {
	var (
		hs []hyph
		h  hyph
		n  int
	)
	sp := neighbours("hyphen, dash or apostrophe", func(r rune) bool {
		return ref.IsHyphen(r) || unicode.Is(unicode.Pd, r) || r == '\'' || r == 0x2019
	}, func(w *mc.W, word []rune) {
		if hs == nil {
			for _, l := range ref.Languages {
				hs = append(hs, newHyph(l, ref.Minima{Length: 1, Left: 1, Right: 1}))
			}
			w.Describe(func() string { return fmt.Sprintf("%s, %s", q(word), h) })
		}
		n++
		h = hs[(int(word[0])+int(word[1])+int(word[2]))%len(hs)]
		w.Describe(func() string { return fmt.Sprintf("%s, %s", q(word), h) })
		check(w, h, word)
	})
	sp.Bound += "; minima 1, each word in one of the languages"

	return sp
}

func symbolWords(depth int, check hyphCheck) mc.Space {
	alpha := []rune{'.', '-', 0xAD, '\'', '1', ' ', 0x301, -1, 'H', 'é', 'b', 'a'}

	return mc.Space{
		Name:  "symbol-words",
		Bound: fmt.Sprintf("all sequences of up to %d runes over %s, all languages, minima (1,1,1) and (0,0,0)", depth, q(alpha)),
		Run: func(w *mc.W) {
			var buf []rune
			for _, m := range []ref.Minima{{Length: 1, Left: 1, Right: 1}, {}} {
				for _, l := range ref.Languages {
					h := newHyph(l, m)
					w.Words(len(alpha), 0, depth, 2, func(seq []int) {
						buf = pick(alpha, seq, buf)
						w.Describe(func() string { return fmt.Sprintf("%s, %s", q(buf), h) })
						check(w, h, buf)
					})
				}
			}
		},
	}
}

func span(lo, hi int) []int {
	var out []int
	for i := lo; i <= hi; i++ {
		out = append(out, i)
	}

	return out
}

func longLengths(t mc.Tier) []int {
	if t == mc.Thorough {
		return append(append(span(10, 140), span(250, 262)...), 300, 500, 501, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 4096)
	}

	return append(append(append(span(26, 35), 44, 60), span(62, 67)...), 100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 500, 501, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 4096)
}

// strings7: strings that are not all valid UTF-8, broken as strings and as runes.
func strings7(depth int) mc.Space {
	var hs []hyph

	return byteStrings(depth, []byte("ab-\xA9\xC3\xC2\xAD\xE2\x80\x90\xF0"), func(w *mc.W, s string) {
		if hs == nil {
			for _, l := range ref.Languages[:2] {
				hs = append(hs, newHyph(l, ref.Minima{Length: 1, Left: 1, Right: 1}))
			}
		}
		for _, h := range hs {
			got := h.h.BreakWordString(s)
			structure(w, []rune(s), got, h.m)
			if want := h.h.BreakWord([]rune(s)); !eqParts(got, want) {
				w.Failf("BreakWordString = %s but BreakWord = %s", qq(got), qq(want))
			}
			w.Step(2)
			w.Outcome(hashParts(got))
			if len(got) > 1 {
				w.NonTrivial()
			}
		}
	})
}

func propC07() mc.Property {
	return mc.Property{
		ID: "C07", Level: modelChecking,
		Rule: "one case per word and setting; non-trivial: the word is broken",
		Spaces: func(t mc.Tier) []mc.Space {
			return []mc.Space{
				symbolWords(t.Pick(4, 5), checkC07),
				letterWords(t.Pick(3, 4), checkC07),
				minimaSpace(t == mc.Thorough, checkC07),
				patternContexts(0, 1, checkC07),
				anyRunes(checkC07),
				specialHyphenation(checkC07),
				oddHyphenation(checkC07),
				hyphenNeighbours(checkC07),
				strings7(t.Pick(5, 6)),
				longWords(longLengths(t), t.Pick(16, 1), checkC07),
			}
		},
	}
}

func propC08() mc.Property {
	return mc.Property{
		ID: "C08", Level: modelChecking,
		Rule:        "one case per word and setting, compared with Liang's algorithm on the published pattern files; non-trivial: the word is broken",
		Assumptions: []string{"ref/tex holds the published patterns (the files shipped, with their comments, in languages/tex at the pinned commit)"},
		Spaces: func(t mc.Tier) []mc.Space {
			spaces := []mc.Space{
				letterWords(t.Pick(4, 5), checkC08),
				caseSpace(func(w *mc.W, h hyph, low, word []rune) {
					checkC08(w, h, word)
					a, b := h.h.BreakWord(low), h.h.BreakWord(word)
					if hashParts(a) != hashParts(b) {
						w.Failf("lower case breaks as %s, this as %s", qq(a), qq(b))
					}
					w.Step(2)
				}),
				patternContexts(1, 0, checkC08),
				patternContexts(0, 1, checkC08),
				minimaSpace(t == mc.Thorough, checkC08),
				symbolWords(t.Pick(4, 5), checkC08),
				longWords(longLengths(t), t.Pick(16, 1), checkC08),
				patternPairs(t.Pick(101, 3), checkC08),
				anyRunes(checkC08),
				specialHyphenation(checkC08),
				oddHyphenation(checkC08),
				hyphenNeighbours(checkC08),
			}
			if t == mc.Thorough {
				spaces = append(spaces, patternContexts(1, 1, checkC08), patternContexts(2, 1, checkC08), patternContexts(1, 2, checkC08))
			}

			return spaces
		},
	}
}
