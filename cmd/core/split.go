package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ref"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
)

func isValid(rs []rune) bool {
	for _, r := range rs {
		if !utf8.ValidRune(r) {
			return false
		}
	}

	return true
}

// splitSpaces are the word spaces shared by the splitters: words over an alphabet, every rune in contexts,
// and long words.
func splitSpaces(alphabet []rune, depth int, check func(w *mc.W, word []rune)) []mc.Space {
	sep, letter := alphabet[0], alphabet[len(alphabet)-1]

	return []mc.Space{
		{
			Name:  "words",
			Bound: fmt.Sprintf("all sequences of up to %d runes over %d runes %s", depth, len(alphabet), q(alphabet)),
			Run: func(w *mc.W) {
				var buf []rune
				w.Words(len(alphabet), 0, depth, 3, func(seq []int) {
					buf = pick(alphabet, seq, buf)
					w.Describe(func() string { return q(buf) })
					check(w, buf)
				})
			},
		},
		specialWords(3, [][2]string{{"", ""}, {"a", "b"}}, check),
		oddTexts([]string{"a", "字", string(sep), "ab" + string(sep)}, []string{string(sep), string(alphabet[1]), string(alphabet[2]), "a", "é", "\U0001F600", "\xff"}, 20, check),
		{
			Name:  "all-runes",
			Bound: "every rune value, invalid ones included, alone and in 7 contexts of letters and separators",
			Run: func(w *mc.W) {
				var buf []rune
				allRunes(w, func(r rune) {
					w.Describe(func() string { return q(buf) })
					for _, ctx := range [][]rune{{0}, {letter, 0}, {0, letter}, {letter, 0, letter}, {0, 0}, {sep, 0}, {0, sep}, {letter, 0, sep, letter}} {
						buf = append(buf[:0], ctx...)
						for i, c := range buf {
							if c == 0 {
								buf[i] = r
							}
						}
						check(w, buf)
					}
				})
			},
		},
		{
			Name:  "lengths",
			Bound: "every length from 0 to 300 and around powers of two and round numbers up to 65536, with a separator every k runes for k up to 8 and every phase, and with a single separator at every position (lengths to 80)",
			Run: func(w *mc.W) {
				for _, n := range lengths(300, 65536) {
					n := n
					w.Unit(func() {
						rs := make([]rune, n)
						for k := 1; k <= 8; k++ {
							for ph := 0; ph < k; ph++ {
								for i := range rs {
									rs[i] = letter
									if i%k == ph {
										rs[i] = sep
									}
								}
								w.Describe(func() string { return fmt.Sprintf("length %d, separator when i%%%d == %d", n, k, ph) })
								check(w, rs)
							}
						}
						for i := range rs {
							rs[i] = letter
						}
						w.Describe(func() string { return fmt.Sprintf("length %d without separator", n) })
						check(w, rs)
						for at := 0; at < n && n <= 80; at++ {
							rs[at] = sep
							w.Describe(func() string { return fmt.Sprintf("length %d, separator at %d", n, at) })
							check(w, rs)
							rs[at] = letter
						}
					})
				}
			},
		},
	}
}

// byteStrings: strings that are not all valid UTF-8.
func byteStrings(depth int, alpha []byte, check func(w *mc.W, s string)) mc.Space {
	return mc.Space{
		Name:  "byte-strings",
		Bound: fmt.Sprintf("all byte strings of up to %d bytes over %q: valid, truncated and invalid UTF-8", depth, alpha),
		Run: func(w *mc.W) {
			var buf []byte
			w.Words(len(alpha), 0, depth, 2, func(seq []int) {
				buf = buf[:0]
				for _, k := range seq {
					buf = append(buf, alpha[k])
				}
				w.Describe(func() string { return fmt.Sprintf("%q", buf) })
				w.Tick()
				w.State()
				check(w, string(buf))
			})
		},
	}
}

func propC04() mc.Property {
	return mc.Property{
		ID: "C04", Level: modelChecking,
		Rule: "one case per rune sequence and predicate; non-trivial: at least two fields, or a field next to a separator",
		Spaces: func(t mc.Tier) []mc.Space {
			tok := tokenizer.New()
			h := func(w *mc.W, word []rune, parts [][]rune) {
				if len(parts) > 1 || len(parts) == 1 && len(parts[0]) < len(word) {
					w.NonTrivial()
				}
				w.Outcome(hashParts(parts))
			}
			checkTok := func(w *mc.W, word []rune) {
				w.Tick()
				w.State()
				want := ref.Fields(word, unicode.IsSpace)
				got := tok.BreakWord(clone(word))
				if !eqParts(got, want) {
					w.Failf("BreakWord = %s, want %s", qq(got), qq(want))
				}
				s := string(word)
				var wantS []string
				for _, f := range strings.FieldsFunc(s, unicode.IsSpace) {
					wantS = append(wantS, f)
				}
				gotS := tok.BreakWordString(s)
				ok := len(gotS) == len(wantS)
				for i := 0; ok && i < len(gotS); i++ {
					ok = string(gotS[i]) == wantS[i]
				}
				if !ok {
					w.Failf("BreakWordString(%q) = %s, want %q", s, qq(gotS), wantS)
				}
				spoil(got, false)
				spoil(gotS, true)
				got = runes.FieldsFunc(clone(word), unicode.IsSpace)
				if !eqParts(got, want) {
					w.Failf("FieldsFunc(IsSpace) = %s, want %s", qq(got), qq(want))
				}
				spoil(got, false)
				w.Step(3)
				h(w, word, want)
			}
			spaces := splitSpaces([]rune{' ', '\t', '\n', 0xA0, 0x85, 0x2003, 0x3000, 0x200B, 0x1C, 0, 'b', 'a'}, t.Pick(6, 7), checkTok)

			letters := []rune{'x', 'y', 'z', 0x4E2D}
			depth := t.Pick(8, 9)

			others := []rune{' ', 0xA0, 0x3000, 'x', ','}
			bases := []string{"one two three four", "a b", "hyphenation of words", "   lead and trail  ", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnop qrstuvwxyz"}
			spaces = append(spaces, lookalikes(bases, others, checkTok), lookalikes(bases, others, func(w *mc.W, word []rune) {
				w.Tick()
				w.State()
				w.Step(1)
				want := ref.Fields(word, unicode.IsSpace)
				got := tok.BreakWord(clone(word))
				if !eqParts(got, want) {
					w.Failf("BreakWord = %s, want %s", qq(got), qq(want))
				}
				spoil(got, false)
				h(w, word, want)
			}))
			spaces[len(spaces)-1].Name = "lookalikes-tokenizer"
			spaces = append(spaces, neighbours("blank", unicode.IsSpace, checkTok), within(t))

			spaces = append(spaces, byteStrings(t.Pick(6, 7), []byte("a \t\x85\xA0\xC2\xE2\x80\x83\xF0\x9F"), func(w *mc.W, s string) {
				want := strings.FieldsFunc(s, unicode.IsSpace)
				got := tok.BreakWordString(s)
				ok := len(got) == len(want)
				for i := 0; ok && i < len(want); i++ {
					ok = eq(got[i], []rune(want[i]))
				}
				if !ok {
					w.Failf("BreakWordString = %s, want %q", qq(got), want)
				}
				w.Step(1)
				h(w, []rune(s), got)
			}))

			return append(spaces, mc.Space{
				Name:  "predicates",
				Bound: fmt.Sprintf("FieldsFunc: all sequences of up to %d runes over 4 runes, times all 16 predicates on them and a predicate that rejects everything else", depth),
				Run: func(w *mc.W) {
					var buf []rune
					mask := 0
					w.Words(4, 0, depth, 3, func(seq []int) {
						buf = pick(letters, seq, buf)
						w.Describe(func() string {
							return fmt.Sprintf("%s, separators are the subset %04b of %s", q(buf), mask, q(letters))
						})
						for mask = 0; mask < 16; mask++ {
							w.Tick()
							w.State()
							pred := func(r rune) bool {
								for i, l := range letters {
									if l == r {
										return mask>>i&1 == 1
									}
								}

								return true
							}
							want := ref.Fields(buf, pred)
							if got := runes.FieldsFunc(clone(buf), pred); !eqParts(got, want) {
								w.Failf("FieldsFunc = %s, want %s", qq(got), qq(want))
							}
							w.Step(1)
							h(w, buf, want)
						}
					})
					w.Unit(func() {
						w.Tick()
						if got := runes.FieldsFunc(nil, unicode.IsSpace); len(got) != 0 {
							w.Failf("FieldsFunc(nil) = %s", qq(got))
						}
					})
				},
			})
		},
	}
}

func partition(w *mc.W, name string, word []rune, got, want [][]rune) {
	if !eqParts(got, want) {
		w.Failf("%s = %s, want %s", name, qq(got), qq(want))
	}
	spoil(got, name == "BreakWordString")
}

func propC05() mc.Property {
	return mc.Property{
		ID: "C05", Level: modelChecking,
		Rule: "one case per word; non-trivial: the word has a separator",
		Spaces: func(t mc.Tier) []mc.Space {
			p := punctuator.New()

			check := func(w *mc.W, word []rune) {
				w.Tick()
				w.State()
				want := ref.Isolate(word, ref.IsSeparator)
				partition(w, "BreakWord", word, p.BreakWord(clone(word)), want)
				wantP := len(word) == 1 && ref.IsSeparator(word[0])
				if got := punctuator.IsPunctuation(clone(word)); got != wantP {
					w.Failf("IsPunctuation = %t, want %t", got, wantP)
				}
				w.Step(2)
				if isValid(word) {
					partition(w, "BreakWordString", word, p.BreakWordString(string(word)), want)
					w.Step(1)
				}
				for _, r := range word {
					if ref.IsSeparator(r) {
						w.NonTrivial()

						break
					}
				}
				w.Outcome(hashParts(want))
			}
			spaces := splitSpaces([]rune{'.', ',', '_', '|', '!', 0x2026, 0x3002, 0x2014, '-', 0x2010, 0xAD, '+', ' ', 0xE9, 'a'}, t.Pick(6, 7), check)

			spaces = append(spaces, byteStrings(t.Pick(6, 7), []byte("a,-|\xA1\xC2\xE2\x80\x90\xA6\xF0\x9F"), func(w *mc.W, s string) {
				want := ref.Isolate([]rune(s), ref.IsSeparator)
				partition(w, "BreakWordString", []rune(s), p.BreakWordString(s), want)
				w.Step(1)
				if len(want) > 1 {
					w.NonTrivial()
				}
				w.Outcome(hashParts(want))
			}))

			spaces = append(spaces, neighbours("separator or hyphen", func(r rune) bool { return ref.IsSeparator(r) || ref.IsHyphen(r) }, check))

			return append(spaces, lookalikes([]string{"one,two;three", "a.b", "well-known|word", "hyphenation", "(parenthesis)", "abcdefghijklmnopqrstuvwxyz,abcdefghijklmnop"},
				[]rune{'.', '|', '-', 'x', 0x2026}, check))
		},
	}
}

func propC06() mc.Property {
	return mc.Property{
		ID: "C06", Level: modelChecking,
		Rule: "one case per word; non-trivial: the word has an explicit hyphen",
		Spaces: func(t mc.Tier) []mc.Space {
			check := func(w *mc.W, word []rune) {
				w.Tick()
				w.State()
				want := ref.Isolate(word, ref.IsHyphen)
				partition(w, "SplitWord", word, hyphenator.SplitWord(clone(word)), want)
				wantP := len(word) == 1 && ref.IsHyphen(word[0])
				if got := hyphenator.IsHyphen(clone(word)); got != wantP {
					w.Failf("IsHyphen = %t, want %t", got, wantP)
				}
				w.Step(2)
				if ref.HasHyphen(word) {
					w.NonTrivial()
				}
				w.Outcome(hashParts(want))
			}
			spaces := splitSpaces([]rune{'-', 0xAD, 0x58A, 0x1806, 0x2010, 0x2011, 0x30FB, 0xFF65, 0x2013, 0x2212, '_', 0x2012, '.', 0xE9, 'a'}, t.Pick(6, 7), check)

			spaces = append(spaces, neighbours("hyphen or dash", func(r rune) bool { return ref.IsHyphen(r) || unicode.Is(unicode.Pd, r) }, check))

			return append(spaces, lookalikes([]string{"well-known", "a-b", "often-times-used", "hyphenation", "-lead-and-trail-", "abcdefghijklmnopqrstuvwxyz-abcdefghijklmnop"},
				[]rune{'-', 0x2010, 0xAD, 'x', '.'}, check))
		},
	}
}
