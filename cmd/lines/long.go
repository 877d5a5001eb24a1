package main

import (
	"fmt"
	"strings"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/lb"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/para"
)

// longParagraphs: short patterns of tokens repeated up to many tokens.
func longParagraphs(t mc.Tier, check verdict) mc.Space {
	words := []string{"a", "bb,", "cdefghij", "(kl)", "mn-opqrst"}
	counts := []int{40, 127, 128, 129, 255, 256, 257, 300, 515, 1001, 1030}
	if t == mc.Thorough {
		counts = append(counts, 33, 64, 65, 100, 200, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1300)
	}
	widths := []float64{4, 9, 30, 79}
	all := lb.Settings()
	settings := []*lb.Setting{all[0], all[2], lb.Plain()}

	return mc.Space{
		Name:  "long",
		Bound: fmt.Sprintf("every pattern of 1 to 3 (in the quick tier, 1 beyond 600 tokens) tokens over %q repeated up to each of %v tokens, widths %v, settings pairs, no-hyphens-rendered and default", words, counts, widths),
		Run: func(w *mc.W) {
			r := &run{}
			desc := func() string {
				if n := len(r.tokens); n > 12 {
					return fmt.Sprintf("%d tokens, %q repeated, width %v, %s", n, r.tokens[:4], r.width, r.s.Name)
				}

				return r.String()
			}
			for _, s := range settings {
				s := s
				for _, n := range counts {
					n := n
					depth := 3
					if n > 600 && t == mc.Quick {
						depth = 1
					}
					w.Words(len(words), 1, depth, 3, func(seq []int) {
						r.s = s
						r.tokens = make([]string, n)
						for i := range r.tokens {
							r.tokens[i] = words[seq[i%len(seq)]]
						}
						w.Describe(desc)
						w.State()
						w.Slow()
						p := para.New(&s.Config, r.tokens)
						for _, width := range widths {
							r.width = width
							r.set(w, p, check)
						}
					})
				}
			}
		},
	}
}

// longWords: one long token among short ones.
func longWords(t mc.Tier, check verdict) mc.Space {
	all := lb.Settings()
	settings := []*lb.Setting{all[0], all[2], all[3], lb.Plain()}
	kinds := []string{"abcdefgh", "abcdefg-", "abc,", ",", "-", "incomprehensibilities", "字ab", "ab-cdefghijk.l"}
	var sizes []int
	for n := 1; n <= 72; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 99, 100, 101, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 500, 501, 511, 512, 513, 1000, 1001, 1024, 1025)
	if t == mc.Thorough {
		sizes = append(sizes, 600, 2048)
	}

	return mc.Space{
		Name:  "long-words",
		Bound: fmt.Sprintf("a token of each of %d lengths up to %d made by repeating each of %q, alone, after and before short ones, widths 2, 5, 9, 20, 63 to 65, 79 and within 2 of its length, settings pairs, no-hyphens-rendered, no-word-break and default", len(sizes), sizes[len(sizes)-1], kinds),
		Run: func(w *mc.W) {
			r := &run{}
			for _, s := range settings {
				for _, kind := range kinds {
					for _, n := range sizes {
						s, kind, n := s, kind, n
						w.Unit(func() {
							rs := []rune(strings.Repeat(kind, n))[:n]
							r.s = s
							for _, toks := range [][]string{{string(rs)}, {"a", string(rs)}, {string(rs), "bb,", "c"}} {
								r.tokens = toks
								w.Describe(r.String)
								w.State()
								w.Slow()
								p := para.New(&s.Config, toks)
								seen := map[float64]bool{}
								for _, width := range []float64{2, 5, 9, 20, 63, 64, 65, 79, float64(n - 2), float64(n - 1), float64(n), float64(n + 1), float64(n + 2), float64(n + 3)} {
									if !seen[width] && width > 0 {
										seen[width] = true
										r.width = width
										r.set(w, p, check)
									}
								}
							}
						})
					}
				}
			}
		},
	}
}

// wide: large widths.
func wide(t mc.Tier, check verdict) mc.Space {
	alphabet := []string{"a", "bb,", "cdefghijklmnop", "kl-mnopqr"}
	var widths []float64
	for _, base := range []float64{100, 128, 256, 1000, 10000, 32768, 65536, 86000, 1 << 31, 1 << 32, 1e12} {
		for d := -2.0; d <= 12; d++ {
			if d <= 2 || base == 86000 {
				widths = append(widths, base+d)
			}
		}
	}

	return mc.Space{
		Name:  "wide",
		Bound: fmt.Sprintf("all paragraphs of 1 to %d tokens over %q, and each pattern of one or two of them repeated 60 times, %d widths from 98 to 10^12, settings pairs and any tolerance", t.Pick(3, 4), alphabet, len(widths)),
		Run: func(w *mc.W) {
			r := &run{}
			for _, s := range append(lb.Loose(), lb.Settings()[0]) {
				s := s
				w.Words(len(alphabet), 1, t.Pick(3, 4), 2, func(seq []int) {
					for rep := 1; rep <= 60; rep += 59 {
						if rep > 1 && len(seq) > 2 {
							continue
						}
						r.s, r.tokens = s, nil
						for k := 0; k < rep; k++ {
							for _, i := range seq {
								r.tokens = append(r.tokens, alphabet[i])
							}
						}
						w.Describe(r.String)
						w.State()
						p := para.New(&s.Config, r.tokens)
						for _, width := range widths {
							r.width = width
							r.set(w, p, check)
						}
					}
				})
			}
		},
	}
}

// oddTokens: paragraphs of one token repeated, with another one somewhere.
func oddTokens(t mc.Tier, check verdict) mc.Space {
	all := lb.Settings()
	settings := []*lb.Setting{all[0], all[2], lb.Plain()}
	bases := []string{"ab", "c", "defghij"}
	odds := []string{"k", "lmnopqrs", "tu,v", "wx-yzwx", "(a)", "字", "\u0301", "\x1b[1mbc\x1b[0m", "incomprehensibilities"}
	widths := []float64{8, 21}
	most := t.Pick(40, 70)

	return mc.Space{
		Name:  "odd-tokens",
		Bound: fmt.Sprintf("paragraphs of each length to %d of each of the tokens %q repeated, with each of %q at every place, widths %v, settings pairs, no-hyphens-rendered and default", most, bases, odds, widths),
		Run: func(w *mc.W) {
			r := &run{}
			for _, s := range settings {
				for _, base := range bases {
					for n := 1; n <= most; n++ {
						s, base, n := s, base, n
						w.Unit(func() {
							w.Describe(r.String)
							for at := 0; at < n; at++ {
								for _, odd := range odds {
									r.s, r.tokens = s, make([]string, n)
									for i := range r.tokens {
										r.tokens[i] = base
									}
									r.tokens[at] = odd
									w.State()
									p := para.New(&s.Config, r.tokens)
									for _, width := range widths {
										r.width = width
										r.set(w, p, check)
									}
								}
							}
						})
					}
				}
			}
		},
	}
}

// spans: one context that opens and closes anywhere in a long paragraph.
func spans(t mc.Tier) mc.Space {
	settings := []*lb.Setting{lb.Loose()[0], lb.Plain()}
	widths := []float64{7, 19}
	most := t.Pick(30, 50)
	sizes := []int{64, 65, 128, 129, 256, 257, 300}

	return mc.Space{
		Name:  "spans",
		Bound: fmt.Sprintf("paragraphs of each length to %d of the tokens ab and cde,f in turn, in which a context opens before or in any token and closes after or in any later one, alone or within another one; and of %v, opening and closing at some 15 tokens; widths %v, settings %s and default", most, sizes, widths, settings[0].Name),
		Run: func(w *mc.W) {
			r := &run{}
			try := func(s *lb.Setting, n, i, j, form int) {
				r.s, r.tokens = s, make([]string, n)
				for k := range r.tokens {
					parts := []string{"a", "b"}
					if k%2 == 1 {
						parts = []string{"cd", "e,f"}
					}
					var open, closed string
					if k == i {
						open = "\x1b[1m"
					}
					if k == j {
						closed = "\x1b[0m"
					}
					if form&1 == 0 {
						r.tokens[k] = open + parts[0] + parts[1] + closed
					} else {
						r.tokens[k] = parts[0] + open + closed + parts[1]
					}
					if form&2 != 0 && k == 0 {
						r.tokens[k] = "\x1b[31m" + r.tokens[k]
					}
					if form&2 != 0 && k == n-1 {
						r.tokens[k] += "\x1b[m"
					}
				}
				w.State()
				p := para.New(&s.Config, r.tokens)
				for _, width := range widths {
					r.width = width
					r.set(w, p, checkStyled)
				}
			}
			for _, s := range settings {
				for n := 1; n <= most; n++ {
					s, n := s, n
					w.Unit(func() {
						w.Describe(r.String)
						for i := 0; i < n; i++ {
							for j := i; j < n; j++ {
								for form := 0; form < 4; form++ {
									if n < 24 || form == (i+j)%4 {
										try(s, n, i, j, form)
									}
								}
							}
						}
					})
				}
				for _, n := range sizes {
					s, n := s, n
					at := []int{0, 1, n / 3, n / 2, n - 2, n - 1}
					for p := 32; p < n && p <= 256; p *= 2 {
						at = append(at, p-1, p)
					}
					for _, i := range at {
						i := i
						w.Unit(func() {
							w.Describe(func() string {
								return fmt.Sprintf("%d tokens, the context opens at token %d, width %v, %s: %q...", n, i, r.width, r.s.Name, r.tokens[:8])
							})
							w.Slow()
							for _, j := range at {
								if i <= j {
									try(s, n, i, j, (i+j)%4)
								}
							}
						})
					}
				}
			}
		},
	}
}

// fineMeasures: large measures that differ by little, and widths that differ by little.
func fineMeasures(t mc.Tier, check verdict) mc.Space {
	alphabet := []string{"a", "bb,", "cdefgh", "ijk-lm", "n"}
	var widths []float64
	for k := 2.0; k <= 12; k++ {
		for _, d := range []float64{-1, 0, 1, 2, 3, 4, 6, 9, 14} {
			widths = append(widths, k*1e6+d)
		}
	}

	return mc.Space{
		Name:  "fine-measures",
		Bound: fmt.Sprintf("all paragraphs of 1 to %d tokens over %q, measures of 1000000, 1000001 and 1000002 per rune, %d widths from 2 to 12 millions, less 1 up to plus 14, scale factors 1 and 3, any tolerance", t.Pick(4, 5), alphabet, len(widths)),
		Run: func(w *mc.W) {
			r := &run{}
			for _, s := range lb.Fine() {
				s := s
				w.Words(len(alphabet), 1, t.Pick(4, 5), 2, func(seq []int) {
					r.s, r.tokens = s, r.tokens[:0]
					for _, i := range seq {
						r.tokens = append(r.tokens, alphabet[i])
					}
					w.Describe(r.String)
					w.State()
					p := para.New(&s.Config, r.tokens)
					for _, width := range widths {
						r.width = width
						r.set(w, p, check)
					}
				})
			}
		},
	}
}

// specialRunes inside tokens: what text software may handle together with its neighbours.
var specialRunes = []rune{
	'a', 'Z', 'é', 'ß', 0x0130, 0xFB01, '1', '9', 0x0660, 0x2460, '#', '$', '%', '+', '^',
	'.', ',', ':', '!', '\'', '"', 0x2019, 0x00AB, '(', ')', '[', '/', '|', '&', '@', 0x2026, 0x3002,
	'-', 0x00AD, 0x2010, 0x2011, 0x2013, 0x2014, 0x2212, 0x30FB, 0x00A0, 0x2007, 0x202F, 0x200B, 0x2060, 0xFEFF,
	0x0301, 0x0323, 0x20E3, 0x093F, 0x3099, 0x200C, 0x200D, 0xFE0E, 0xFE0F, 0xE0100,
	0x1F468, 0x1F3FB, 0x2764, 0x1F600, 0x1F1EB, 0x1F1F7, 0xE007F, 0x1100, 0x1160, 0x11A8, 0xAC00, 0x4E2D, 0xFF21, 0xFF9E,
	0x0E33, 0x05D0, 0x0628, 0x200F, 0x202E, 0, 0x07, 0x7F, 0x9B, 0xFFFD, 0xFFFE, 0xE000, 0x10FFFF,
}

// special: pairs of special runes at every place of a word.
func special(t mc.Tier, check verdict) mc.Space {
	all := lb.Settings()
	settings := []*lb.Setting{all[0], all[2], lb.Loose()[0]}
	forms := []string{"ab@cd", "@", "@abcdef", "abcde@", "abc-@.de"}
	widths := []float64{1, 2, 3, 4, 5, 6, 7, 9}

	return mc.Space{
		Name:  "special",
		Bound: fmt.Sprintf("all words of up to %d runes over %d runes that text software may handle together with their neighbours (marks, joiners, selectors, modifiers, jamos, digits, quotes, hyphens, blanks that are not, controls), in place of @ in %q, followed by %q, widths %v, settings pairs, no-hyphens-rendered and loose", t.Pick(2, 3), len(specialRunes), forms, "gh", widths),
		Run: func(w *mc.W) {
			r := &run{}
			for k, s := range settings {
				if t == mc.Thorough && k > 0 {
					break
				}
				s := s
				w.Words(len(specialRunes), 1, t.Pick(2, 3), 1, func(seq []int) {
					word := make([]rune, len(seq))
					for i, k := range seq {
						word[i] = specialRunes[k]
					}
					w.State()
					w.Describe(r.String)
					for _, form := range forms {
						r.s, r.tokens = s, []string{strings.Replace(form, "@", string(word), 1), "gh"}
						p := para.New(&s.Config, r.tokens)
						for _, width := range widths {
							r.width = width
							r.set(w, p, check)
						}
					}
				})
			}
		},
	}
}

// dyck: all well-bracketed words of n pairs: +k opens context k, -k closes it.
func dyck(n int) [][]int {
	var (
		out  [][]int
		walk func(word, open []int, next int)
	)
	walk = func(word, open []int, next int) {
		if len(word) == 2*n {
			out = append(out, append([]int(nil), word...))

			return
		}
		if next <= n {
			walk(append(word, next), append(open[:len(open):len(open)], next), next+1)
		}
		if k := len(open); k > 0 {
			walk(append(word, -open[k-1]), open[:k-1], next)
		}
	}
	walk(nil, nil, 1)

	return out
}

func sequenceOf(k int) string {
	if k > 0 {
		return fmt.Sprintf("\x1b[1;%dm", k)
	}

	return fmt.Sprintf("\x1b[0;%dm", -k)
}

// nestings: every nesting of some contexts, at every choice of places in a text.
func nestings(t mc.Tier) mc.Space {
	words := []string{"aa", "bcdefgh", "i,", "jkl-mnop"}
	widths := []float64{3, 5, 9, 14}
	pairs := t.Pick(4, 5)
	all := lb.Settings()
	loose := lb.Loose()[:1]
	settings := append(loose, all[2])

	return mc.Space{
		Name:  "nestings",
		Bound: fmt.Sprintf("the tokens %q with every nesting of 1 to %d contexts, all of different sequences, each sequence before, inside or after any token (those of a place in a row), widths %v, settings %s and (up to %d contexts) %s", words, pairs, widths, settings[0].Name, pairs-1, settings[1].Name),
		Run: func(w *mc.W) {
			r := &run{}
			// places: before, inside and after each token
			places := 3 * len(words)
			for k, s := range settings {
				s := s
				for n := 1; n <= pairs-k; n++ {
					for _, word := range dyck(n) {
						word := word
						at := make([]int, len(word))
						var walk func(k, from int)
						walk = func(k, from int) {
							if k < len(word) {
								for p := from; p < places; p++ {
									at[k] = p
									if k == 1 {
										w.Unit(func() { walk(k+1, p) })
									} else {
										walk(k+1, p)
									}
								}

								return
							}
							toks := make([]string, len(words))
							for i, x := range words {
								var parts [3]string
								for k, c := range word {
									if at[k]/3 == i {
										parts[at[k]%3] += sequenceOf(c)
									}
								}
								toks[i] = parts[0] + x[:len(x)/2] + parts[1] + x[len(x)/2:] + parts[2]
							}
							r.s, r.tokens = s, toks
							w.Describe(r.String)
							w.State()
							p := para.New(&s.Config, toks)
							for _, width := range widths {
								r.width = width
								r.set(w, p, checkStyled)
							}
						}
						walk(0, 0)
					}
				}
			}
		},
	}
}

// deepStyles: many contexts open at once, over many lines.
func deepStyles(t mc.Tier) mc.Space {
	depths := []int{}
	for n := 1; n <= 40; n++ {
		depths = append(depths, n)
	}
	depths = append(depths, 64, 127, 128, 129, 255, 256, 257)
	settings := append(lb.Loose()[:1], lb.Settings()[3])

	return mc.Space{
		Name:  "deep",
		Bound: fmt.Sprintf("%d depths up to %d of contexts of different sequences: opened and closed in one token each, one token after the other, by pairs of tokens, with text within all of them, widths 4, 10 and 25", len(depths), depths[len(depths)-1]),
		Run: func(w *mc.W) {
			r := &run{}
			for _, s := range settings {
				for _, n := range depths {
					for form := 0; form < 7; form++ {
						s, n, form := s, n, form
						w.Unit(func() {
							toks := deepTokens(n, form)
							r.s, r.tokens = s, toks
							w.Describe(func() string { return fmt.Sprintf("depth %d, form %d, width %v, %s", n, form, r.width, s.Name) })
							w.State()
							w.Slow()
							p := para.New(&s.Config, toks)
							for _, width := range []float64{4, 10, 25} {
								r.width = width
								r.set(w, p, checkStyled)
							}
						})
					}
				}
			}
		},
	}
}

func deepTokens(n, form int) []string {
	var toks []string
	add := func(f string, args ...interface{}) { toks = append(toks, fmt.Sprintf(f, args...)) }
	open, closed := "", ""
	for k := 1; k <= n; k++ {
		open += sequenceOf(k)
		closed += sequenceOf(k - n - 1)
	}
	switch form {
	case 0: // all at once
		add("%saa", open)
		for i := 0; i < 9; i++ {
			add("b%dd", i)
		}
		add("ef%s", closed)
		add("g")
	case 1: // one token at a time
		for k := 1; k <= n; k++ {
			add("%sx%d", sequenceOf(k), k%10)
		}
		add("yy,z")
		for k := n; k > 0; k-- {
			add("w%d%s", k%10, sequenceOf(-k))
		}
		add("g")
	case 2: // siblings inside one context
		add("%saa", sequenceOf(1))
		for k := 2; k <= n+1; k++ {
			add("%sx%s", sequenceOf(k), sequenceOf(-k))
		}
		add("bb%s", sequenceOf(-1))
		add("g")
	case 3: // siblings over two tokens inside one context
		add("%s", sequenceOf(1))
		for k := 2; k <= n+1; k++ {
			add("%sx", sequenceOf(k))
			add("y%sz", sequenceOf(-k))
		}
		add("%s", sequenceOf(-1))
		add("g")
	case 4: // sequences alone
		for k := 1; k <= n; k++ {
			add("%s", sequenceOf(k))
		}
		add("aa")
		add("bbb")
		for k := n; k > 0; k-- {
			add("%s", sequenceOf(-k))
		}
		add("g")
	case 5: // a long way between a start and its stop
		add("%sa", sequenceOf(1))
		for k := 0; k < n; k++ {
			add("b%d", k%10)
		}
		add("c%s", sequenceOf(-1))
		add("%sd%s", sequenceOf(2), sequenceOf(-2))
		add("g")
	case 6: // inside one word
		w := ""
		for k := 1; k <= n; k++ {
			w += sequenceOf(k) + string(rune('a'+k%26)) + ","
		}
		for k := n; k > 0; k-- {
			w += string(rune('A'+k%26)) + sequenceOf(-k) + "."
		}
		add("%s", w)
		add("g")
	}

	return toks
}
