package main

import (
	"fmt"
	"math"
	"sort"
	"unicode/utf8"

	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ref"
)

type widthSetting struct {
	name string
	opts []runes.Option
	ref  ref.WidthOptions
}

// widthSettings are all combinations of the options, in different orders and with repeated options.
func widthSettings() []widthSetting {
	out := []widthSetting{{"no options", nil, ref.DefaultWidth()}}
	out = append(out, widthSetting{"empty options", []runes.Option{}, ref.DefaultWidth()})
	for _, ea := range []bool{false, true} {
		out = append(out, widthSetting{fmt.Sprintf("EastAsian(%t)", ea), []runes.Option{runes.WithEastAsian(ea)}, ref.WidthOptions{EastAsian: ea, AmbigWidth: 2}})
		for _, em := range []bool{false, true} {
			out = append(out, widthSetting{
				fmt.Sprintf("EastAsian(%t) Emoji(%t)", ea, em),
				[]runes.Option{runes.WithEastAsian(ea), runes.WithSkipStrictEmojiNeutral(em)},
				ref.WidthOptions{EastAsian: ea, EmojiSkip: em, AmbigWidth: 2},
			})
			for _, aw := range []int{0, 1, 2, 3, 5, -1} {
				out = append(out, widthSetting{
					fmt.Sprintf("Ambiguous(%d) Emoji(%t) EastAsian(%t)", aw, em, ea),
					[]runes.Option{runes.WithEastAsianAmbiguousWidth(aw), runes.WithSkipStrictEmojiNeutral(em), runes.WithEastAsian(ea)},
					ref.WidthOptions{EastAsian: ea, EmojiSkip: em, AmbigWidth: aw},
				})
			}
		}
	}
	out = append(out,
		widthSetting{"EastAsian(true) EastAsian(false)", []runes.Option{runes.WithEastAsian(true), runes.WithEastAsian(false)}, ref.DefaultWidth()},
		widthSetting{"EastAsian(false) EastAsian(true)", []runes.Option{runes.WithEastAsian(false), runes.WithEastAsian(true)}, ref.WidthOptions{EastAsian: true, AmbigWidth: 2}},
		widthSetting{"EastAsian(true) Ambiguous(3) Ambiguous(1)", []runes.Option{runes.WithEastAsian(true), runes.WithEastAsianAmbiguousWidth(3), runes.WithEastAsianAmbiguousWidth(1)}, ref.WidthOptions{EastAsian: true, AmbigWidth: 1}},
		widthSetting{"Emoji(true) Emoji(false) EastAsian(true)", []runes.Option{runes.WithSkipStrictEmojiNeutral(true), runes.WithSkipStrictEmojiNeutral(false), runes.WithEastAsian(true)}, ref.WidthOptions{EastAsian: true, AmbigWidth: 2}},
		widthSetting{"Emoji(true)", []runes.Option{runes.WithSkipStrictEmojiNeutral(true)}, ref.WidthOptions{EmojiSkip: true, AmbigWidth: 2}},
		widthSetting{"Ambiguous(7)", []runes.Option{runes.WithEastAsianAmbiguousWidth(7)}, ref.WidthOptions{AmbigWidth: 7}},
	)

	return out
}

// allRunes calls body, in units, with every valid rune value, surrogates, and bands of invalid values.
func allRunes(w *mc.W, body func(r rune)) {
	w.Range(-70000, 0x110000+70000, 8192, func(i int) { body(rune(i)) })
	w.Range(0, 4096, 4096, func(i int) { body(math.MaxInt32 - rune(i)) })
	w.Range(0, 4096, 4096, func(i int) { body(math.MinInt32 + rune(i)) })
	w.Range(0, 63, 63, func(i int) {
		if i < 31 {
			body(rune(1) << i)
			body(rune(1)<<i - 1)
			body(-(rune(1) << i))
		}
	})
}

func propC01() mc.Property {
	return mc.Property{
		ID: "C01", Level: modelChecking,
		Rule:        "one case per rune value: its width under every option setting, plus IsAmbiguous; non-trivial: the rune is in at least one class of the Unicode reference data, or invalid",
		Assumptions: []string{"ref/unicode15.txt (from Python's unicodedata 15.0.0 and perl's Extended_Pictographic) is Unicode 15.0"},
		Spaces: func(t mc.Tier) []mc.Space {
			each := func(w *mc.W, rs []rune, opts []runes.Option, o ref.WidthOptions) {
				for _, r := range rs {
					if got, want := runes.Width(r, opts...), ref.Width(r, o); got != want {
						w.Failf("Width(0x%X) = %d, want %d", uint32(r), got, want)
					}
				}
			}

			return []mc.Space{{
				Name:  "all-runes",
				Bound: "every rune value from -70000 to 0x110000+70000, the extremes and powers of two of int32, times every option setting",
				Run: func(w *mc.W) {
					settings := widthSettings()
					var (
						r rune
						s int
					)
					allRunes(w, func(x rune) {
						r, s = x, 0
						w.Describe(func() string { return fmt.Sprintf("rune 0x%X (%d), options: %s", uint32(r), r, settings[s].name) })
						w.Tick()
						w.State()
						h := mc.NewHash()
						for s = range settings {
							got, want := runes.Width(r, settings[s].opts...), ref.Width(r, settings[s].ref)
							if got != want {
								w.Failf("Width = %d, want %d", got, want)
							}
							h = h.Add(uint64(got))
						}
						if got, want := runes.IsAmbiguous(r), ref.IsAmbiguous(r); got != want {
							w.Failf("IsAmbiguous = %t, want %t", got, want)
						}
						w.Step(len(settings) + 1)
						s = 0
						if ref.Class(r) != 0 {
							w.NonTrivial()
						}
						w.Outcome(uint64(h))
					})
				},
			}, ambiguousWidths(each), widthOptionLists(t.Pick(5, 6), each)}
		},
	}
}

// ambiguousWidths: many values of the ambiguous width.
func ambiguousWidths(check func(w *mc.W, rs []rune, opts []runes.Option, o ref.WidthOptions)) mc.Space {
	var values []int
	for v := -300; v <= 300; v++ {
		values = append(values, v)
	}
	for bit := uint(9); bit <= 40; bit++ {
		for d := -1; d <= 1; d++ {
			values = append(values, 1<<bit+d, -(1<<bit + d))
		}
	}

	return mc.Space{
		Name:  "ambiguous-widths",
		Bound: "ambiguous widths from -300 to 300 and around the powers of two up to 2^40 and their opposites, each combination of the other options, given before and after it, on one rune per class",
		Run: func(w *mc.W) {
			rs := append(append([]rune{}, widthAlphabet...), 0x2764, 0x2194, 0x203C, 0xA9, 0xA4, 0xE0100, 0xFFFF)
			w.Range(0, len(values), 8, func(i int) {
				v := values[i]
				for k := 0; k < 8; k++ {
					ea, em := k&1 != 0, k&2 != 0
					opts := []runes.Option{runes.WithEastAsian(ea), runes.WithSkipStrictEmojiNeutral(em), runes.WithEastAsianAmbiguousWidth(v)}
					if k&4 != 0 {
						opts[0], opts[2] = opts[2], opts[0]
					}
					w.Describe(func() string {
						return fmt.Sprintf("Ambiguous(%d) EastAsian(%t) Emoji(%t), the first one given last: %t", v, ea, em, k&4 == 0)
					})
					w.Tick()
					w.State()
					w.Step(len(rs))
					if ea {
						w.NonTrivial()
					}
					o := ref.WidthOptions{EastAsian: ea, EmojiSkip: em, AmbigWidth: v}
					check(w, rs, opts, o)
					w.Outcome(uint64(ref.Widths(rs, o)))
				}
			})
		},
	}
}

// one rune per class the code distinguishes
var widthAlphabet = []rune{
	'a', ' ', 0, 0x1B, 0x7F, 0xAD, 0xA1, 0xF8, 0x301, 0x200B, 0x3B1, 0x4E2D, 0xFF21, 0x1F600, 0x2139, 0x2122, 0x2E3A, 0x2E3B,
	0xFFFD, 0xD800, -1, 0x110000, 0x10FFFF, 0xE000, 0x2764,
}

func propC02() mc.Property {
	return mc.Property{
		ID: "C02", Level: modelChecking,
		Rule: "one case per sequence of runes, measured under every option setting and compared with the sum of the reference widths; non-trivial: the sequence has at least two runes of different widths, or an invalid rune",
		Spaces: func(t mc.Tier) []mc.Space {
			settings := widthSettings()
			depth := t.Pick(5, 6)
			check := func(w *mc.W, rs []rune, s *int, str bool) {
				w.Tick()
				w.State()
				for *s = range settings {
					want := ref.Widths(rs, settings[*s].ref)
					got := runes.Widths(rs, settings[*s].opts...)
					if got != want {
						w.Failf("Widths = %d, want %d", got, want)
					}
					if *s < 6 || *s == len(settings)-1 {
						sum := 0
						for _, r := range rs {
							sum += runes.Width(r, settings[*s].opts...)
						}
						if got != sum {
							w.Failf("Widths = %d, but the runes' Width add up to %d", got, sum)
						}
					}
					if str {
						st := string(rs)
						want := ref.Widths([]rune(st), settings[*s].ref)
						if got := runes.StringWidth(st, settings[*s].opts...); got != want {
							w.Failf("StringWidth = %d, want %d", got, want)
						}
					}
				}
				w.Step(2 * len(settings))
				w.Outcome(uint64(ref.Widths(rs, ref.DefaultWidth())))
			}
			nt := func(w *mc.W, rs []rune) {
				for i, r := range rs {
					if r < 0 || r > 0x10FFFF || i > 0 && ref.Width(r, ref.DefaultWidth()) != ref.Width(rs[0], ref.DefaultWidth()) {
						w.NonTrivial()

						return
					}
				}
			}

			return []mc.Space{
				{
					Name:  "class-words",
					Bound: fmt.Sprintf("all sequences of up to %d runes over %d runes, one per class (valid and invalid), every option setting", depth, len(widthAlphabet)),
					Run: func(w *mc.W) {
						var buf []rune
						s := 0
						w.Words(len(widthAlphabet), 0, depth, 2, func(seq []int) {
							buf = pick(widthAlphabet, seq, buf)
							w.Describe(func() string { return q(buf) + ", options: " + settings[s].name })
							check(w, clone(buf), &s, true)
							nt(w, buf)
						})
					},
				},
				{
					Name:  "all-runes",
					Bound: "every rune value alone and between two letters, every option setting",
					Run: func(w *mc.W) {
						var buf []rune
						s := 0
						allRunes(w, func(r rune) {
							w.Describe(func() string { return q(buf) + ", options: " + settings[s].name })
							buf = append(buf[:0], r)
							check(w, buf, &s, true)
							buf = append(buf[:0], 'a', r, 0x4E2D)
							check(w, buf, &s, false)
							nt(w, buf)
						})
					},
				},
				specialWords(3, [][2]string{{"", ""}}, func() func(w *mc.W, word []rune) {
					s := 0

					return func(w *mc.W, word []rune) {
						s = 0
						w.Describe(func() string { return q(word) + ", options: " + settings[s].name })
						check(w, word, &s, false)
						nt(w, word)
					}
				}()),
				oddTexts([]string{"a", "中", "é", "\u0301"}, []string{"a", "\x7f", "\u00f8", "\u0301", "中", "\u2764", "\u2e3a", "\U0001F600", "\ufffd", "\xff"}, 12, func() func(w *mc.W, text []rune) {
					s := 0

					return func(w *mc.W, text []rune) {
						s = 0
						check(w, text, &s, len(text) < 40)
						nt(w, text)
					}
				}()),
				{
					Name:  "lengths",
					Bound: "every length from 0 to 600 and around powers of two and 500, 1000 and other round numbers up to 65536, with every rotation of the class alphabet and every constant sequence",
					Run: func(w *mc.W) {
						s := 0
						for _, n := range lengths(600, 65536) {
							n := n
							w.Unit(func() {
								for rot := range widthAlphabet {
									if n > 600 && rot > 3 {
										break
									}
									rs := make([]rune, n)
									for i := range rs {
										rs[i] = widthAlphabet[(i+rot)%len(widthAlphabet)]
									}
									w.Describe(func() string { return fmt.Sprintf("length %d, rotation %d, options: %s", n, rot, settings[s].name) })
									check(w, rs, &s, true)
									nt(w, rs)
									for i := range rs {
										rs[i] = widthAlphabet[rot]
									}
									w.Describe(func() string {
										return fmt.Sprintf("length %d of 0x%X, options: %s", n, uint32(widthAlphabet[rot]), settings[s].name)
									})
									check(w, rs, &s, true)
									nt(w, rs)
								}
							})
						}
					},
				},
				widthNeighbours(),
				widthOptionLists(t.Pick(4, 5), func(w *mc.W, rs []rune, opts []runes.Option, o ref.WidthOptions) {
					want := ref.Widths(rs, o)
					if got := runes.Widths(rs, opts...); got != want {
						w.Failf("Widths = %d, want %d", got, want)
					}
					for _, r := range rs {
						if got, want := runes.Widths([]rune{r}, opts...), ref.Width(r, o); got != want {
							w.Failf("Widths of 0x%X alone = %d, want %d", uint32(r), got, want)
						}
						if s := string(r); utf8.ValidRune(r) {
							if got, want := runes.StringWidth(s, opts...), ref.Width(r, o); got != want {
								w.Failf("StringWidth(%q) = %d, want %d", s, got, want)
							}
						}
					}
				}),
				ambiguousWidths(func(w *mc.W, rs []rune, opts []runes.Option, o ref.WidthOptions) {
					for k := range rs {
						if got, want := runes.Widths(rs[k:], opts...), ref.Widths(rs[k:], o); got != want {
							w.Failf("Widths(%s) = %d, want %d", q(rs[k:]), got, want)
						}
						s := string(rs[k:])
						if got, want := runes.StringWidth(s, opts...), ref.Widths([]rune(s), o); got != want {
							w.Failf("StringWidth(%q) = %d, want %d", s, got, want)
						}
					}
				}),
				{
					Name:  "byte-strings",
					Bound: "StringWidth of all byte strings of up to 5 bytes over 12 bytes that form valid, truncated and invalid UTF-8",
					Run: func(w *mc.W) {
						alpha := []byte{'a', 0x1B, 0x7F, 0x80, 0xA9, 0xC3, 0xE4, 0xB8, 0xAD, 0xED, 0xF0, 0x9F}
						var st []byte
						s := 0
						w.Words(len(alpha), 0, t.Pick(5, 6), 2, func(seq []int) {
							st = st[:0]
							for _, k := range seq {
								st = append(st, alpha[k])
							}
							w.Describe(func() string { return fmt.Sprintf("%q, options: %s", st, settings[s].name) })
							w.Tick()
							w.State()
							str := string(st)
							rs := []rune(str)
							for s = range settings {
								if got, want := runes.StringWidth(str, settings[s].opts...), ref.Widths(rs, settings[s].ref); got != want {
									w.Failf("StringWidth = %d, want %d", got, want)
								}
							}
							w.Step(len(settings))
							nt(w, rs)
						})
					},
				},
			}
		},
	}
}

// lengths from 0 to dense, then around powers of two and round numbers up to max.
func lengths(dense, max int) []int {
	var out []int
	for i := 0; i <= dense; i++ {
		out = append(out, i)
	}
	for p := 64; p <= max; p *= 2 {
		for d := -1; d <= 1; d++ {
			if p+d > dense {
				out = append(out, p+d)
			}
		}
	}
	for _, p := range []int{100, 200, 250, 300, 400, 500, 600, 750, 1000, 1500, 2000, 2500, 3000, 5000, 10000, 20000, 50000} {
		for d := -1; d <= 1; d++ {
			if p+d > dense && p < max {
				out = append(out, p+d)
			}
		}
	}
	sort.Ints(out)

	return out
}
