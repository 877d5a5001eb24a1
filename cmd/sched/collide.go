package main

import (
	"fmt"
	"strings"

	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ref"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/scen"
)

// A result must not be the one of another input that only looks the same: the same array with other
// contents, the same length, the same ends, the same sum or the same set of runes.

// sameBuffer: widths of texts that look the same.
func sameBuffer(t mc.Tier) mc.Space {
	names := []string{"", "ea", "ea3", "eaemoji", "amb3", "emoji"}
	refs := map[string]ref.WidthOptions{
		"": ref.DefaultWidth(), "ea": {EastAsian: true, AmbigWidth: 2}, "ea3": {EastAsian: true, AmbigWidth: 3},
		"eaemoji": {EastAsian: true, EmojiSkip: true, AmbigWidth: 1}, "amb3": {AmbigWidth: 3}, "emoji": {EmojiSkip: true, AmbigWidth: 2},
	}
	others := []rune{'b', 0xF8, 0x301, 0x4E2D, 0x2764, 0x2E3B, -1, 0x1F600, 0x7F}
	lengths := t.Pick(48, 130)

	return mc.Space{
		Name:  "same-buffer",
		Bound: fmt.Sprintf("one history for each length of text up to %d and 6 base texts, as runes and as a string, under one setting and by turns: the base and all texts of the same length that differ from it by one rune of %q, by a swap of two runes, or by two runes with the same sum, in one buffer measured under the settings %q", lengths, string(others), names),
		Run: func(w *mc.W) {
			var settings [][]runes.Option
			var rs []ref.WidthOptions
			for _, n := range names {
				settings = append(settings, scen.WidthSettings[n]())
				rs = append(rs, refs[n])
			}
			w.Range(1, lengths+1, 1, func(n int) {
				for _, base := range []string{"a", "ab", "hyphenationz", "中", "aø中❤⸺", "👩e\u0301x"} {
					text := []rune(strings.Repeat(base, n))[:n]
					for kind := 0; kind < 4; kind++ { // as runes, as a string, under one setting, under two by turns
						call := 0
						w.Describe(func() string { return fmt.Sprintf("length %d of %q repeated, kind %d, call %d", n, base, kind, call) })
						mc.Variants(text, others, func(buf []rune, what string) {
							call++
							w.Tick()
							w.State()
							w.Step(1)
							s := n % len(settings)
							if kind > 1 {
								s = call % len(settings)
							}
							in, measured, got := buf, "runes", 0
							if kind%2 == 1 {
								measured = "a string"
								got = runes.StringWidth(string(buf), settings[s]...)
								in = []rune(string(buf))
							} else {
								got = runes.Widths(buf, settings[s]...)
							}
							want := 0
							for _, r := range in {
								want += ref.Width(r, rs[s])
							}
							if got != want {
								w.Failf("the width of %q (%s), as %s, setting %q, is %d, want %d", string(buf), what, measured, names[s], got, want)
							}
							if what != "base" {
								w.NonTrivial()
							}
						})
					}
					w.Outcome(uint64(n))
				}
			})
		},
	}
}

// lookalikes: hyphenation of words that look the same.
func lookalikes(t mc.Tier) mc.Space {
	bases := map[string][]string{
		"en-US": {"representations", "concentration", "project", "internationalization", "honorificabilitudinitatibusque"},
		"en-GB": {"representations", "concentration", "internationalisation"},
		"fr":    {"anticonstitutionnellement", "concentration", "incompréhensible"},
		"de":    {"straßenbahnhaltestelle", "konzentration", "verantwortung"},
		"es":    {"responsabilidades", "concentración", "incomprensible"},
	}
	others := []rune("aeinrstlcß-x")
	if t == mc.Thorough {
		others = []rune("abcdefghijklmnopqrstuvwxyzßéñüE-.'1")
	}

	return mc.Space{
		Name:  "lookalikes",
		Bound: fmt.Sprintf("for each language, each of 2 settings of the minima and each word of %v, one history with one hyphenator: the word and all words of the same length that differ from it by one rune of %q, by a swap of two runes, or by two runes with the same sum, as strings, and as runes in one buffer, against the reference; each word is asked again after the base, each result is overwritten by the caller after the call", bases, string(others)),
		Run: func(w *mc.W) {
			for _, l := range ref.Languages {
				for _, m := range []ref.Minima{ref.DefaultMinima, {Length: 1, Left: 1, Right: 1}} {
					for k, base := range append(bases[l.Name], bases[l.Name]...) {
						l, m, base, asString := l, m, base, k < len(bases[l.Name])
						w.Unit(func() {
							h := hyphenator.New(hyphenator.WithLanguage(l.Name), hyphenator.WithMinLength(m.Length), hyphenator.WithMinLeft(m.Left), hyphenator.WithMinRight(m.Right))
							call := 0
							w.Describe(func() string {
								return fmt.Sprintf("%s, minima %v, lookalikes of %q, as strings %v, call %d", l.Name, m, base, asString, call)
							})
							mc.Variants([]rune(base), others, func(buf []rune, what string) {
								call++
								w.Tick()
								w.State()
								want := l.Hyphenate(buf, m)
								w.Step(1)
								var got [][]rune
								if asString {
									got = h.BreakWordString(string(buf))
								} else {
									got = h.BreakWord(buf)
								}
								if !same(got, want) {
									w.Failf("breaking %q (%s, as a string %v) gave %q, want %q", string(buf), what, asString, text(got), text(want))
								}
								for i, p := range got { // the result is the caller's
									for k := range p {
										if asString {
											p[k] = 0x2603
										}
									}
									got[i] = nil
								}
								if what != "base" && len(want) > 1 {
									w.NonTrivial()
								}
								if call < 200 {
									w.Outcome(uint64(mc.NewHash().Str(fmt.Sprint(text(want)))))
								}
							})
						})
					}
				}
			}
		},
	}
}
