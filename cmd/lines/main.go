// Command lines decides the properties of line breaking.
package main

import (
	"fmt"
	"strings"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/lb"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/para"
)

func main() {
	mc.Main([]mc.Property{propC20(), propC21(), propC22(), propC24()})
}

// verdict on one answer; para holds the reference.
type verdict func(w *mc.W, p *para.Para, width float64, lines []string, err error)

type run struct {
	s      *lb.Setting
	tokens []string
	width  float64
}

func (r *run) String() string {
	return fmt.Sprintf("tokens %q, width %v, %s", r.tokens, r.width, r.s.Name)
}

// set runs one paragraph on the real line breaker and hands the answer to the verdict.
func (r *run) set(w *mc.W, p *para.Para, check verdict) {
	w.Tick()
	w.Step(1)
	breaker := r.s.New()
	lines, err := breaker.LeftAlignUniform(r.tokens, r.width)
	if err == nil && len(lines) > 1 {
		w.NonTrivial()
	}
	h := mc.NewHash()
	if err != nil {
		h = h.Str(err.Error())
		if err != linebreak.ErrCannotBeSet {
			w.Failf("unexpected error %v", err)
		}
	}
	for _, l := range lines {
		h = h.Add(uint64(len(l)))
	}
	w.Outcome(uint64(h))
	check(w, p, r.width, lines, err)
}

var alphabetPlain = []string{"a", "bbb", "cc,", "(d", "efghij", "kl-mnop", "q.r", "字字"}

// tokenWords: all paragraphs of up to n tokens of an alphabet, all settings, all widths.
func tokenWords(name string, alphabet []string, settings []*lb.Setting, n, minW, maxW int, check verdict) mc.Space {
	names := []string{}
	for _, s := range settings {
		names = append(names, s.Name)
	}
	if len(names) > 30 {
		names = []string{fmt.Sprintf("(%d: the product of the values of seven options)", len(names))}
	}

	return mc.Space{
		Name: name,
		Bound: fmt.Sprintf("all paragraphs of 1 to %d tokens over %q, widths %d to %d, settings %s", n, alphabet, minW, maxW,
			strings.Join(names, " ")),
		Run: func(w *mc.W) {
			r := &run{}
			desc := r.String
			for _, s := range settings {
				s := s
				w.Words(len(alphabet), 1, n, 2, func(seq []int) {
					r.s = s
					r.tokens = r.tokens[:0]
					for _, i := range seq {
						r.tokens = append(r.tokens, alphabet[i])
					}
					w.Describe(desc)
					w.State()
					p := para.New(&s.Config, r.tokens)
					for width := minW; width <= maxW; width++ {
						r.width = float64(width)
						r.set(w, p, check)
					}
				})
			}
		},
	}
}

// optionLists: options in any order, with repeated ones.
func optionLists(t mc.Tier, check verdict) mc.Space {
	names, tunes, opts := lb.Choices()
	paragraphs := [][]string{
		{"a", "bcdefgh,", "ij", "kl-mnopqr", "st"},
		{"incomprehensible", "to", "us"},
		{"(a", "bb,", "ccc", "dddd", "eeeee", "fffffff"},
	}
	depth := t.Pick(3, 4)

	return mc.Space{
		Name: "option-lists",
		Bound: fmt.Sprintf("every list of up to %d options out of %d (%s), the last one of a kind counts and a hyphenator enables word breaking, on the paragraphs %q at widths 4 to 13 by 3", depth, len(names),
			strings.Join(names, " "), paragraphs),
		Run: func(w *mc.W) {
			r := &run{}
			w.Words(len(names), 0, depth, 2, func(seq []int) {
				c := para.Default()
				s := &lb.Setting{Config: c}
				s.Name = "options"
				var list []linebreak.Option
				for _, k := range seq {
					s.Name += " " + names[k]
					tunes[k](&s.Config)
					list = append(list, opts[k]())
				}
				s.Opts = func() []linebreak.Option { return list }
				r.s = s
				w.Describe(r.String)
				w.State()
				for _, tokens := range paragraphs {
					r.tokens = tokens
					p := para.New(&s.Config, tokens)
					for width := 4; width <= 13; width += 3 {
						r.width = float64(width)
						r.set(w, p, check)
					}
				}
			})
		},
	}
}

// fractions: widths that are not whole.
func fractions(t mc.Tier, check verdict) mc.Space {
	alphabet := []string{"a", "bb,", "cdefgh", "kl-mnopq"}
	parts := []float64{0.01, 0.25, 0.5, 0.75, 0.99}

	return mc.Space{
		Name:  "fractions",
		Bound: fmt.Sprintf("all paragraphs of 1 to %d tokens over %q, widths 1 to 12 plus each of %v, scale factors 1 and 3, any tolerance", t.Pick(4, 5), alphabet, parts),
		Run: func(w *mc.W) {
			r := &run{}
			desc := r.String
			for _, s := range lb.Loose() {
				s := s
				w.Words(len(alphabet), 1, t.Pick(4, 5), 2, func(seq []int) {
					r.s = s
					r.tokens = r.tokens[:0]
					for _, i := range seq {
						r.tokens = append(r.tokens, alphabet[i])
					}
					w.Describe(desc)
					w.State()
					p := para.New(&s.Config, r.tokens)
					for width := 1.0; width <= 12; width++ {
						for _, part := range parts {
							r.width = width + part
							r.set(w, p, check)
						}
					}
				})
			}
		},
	}
}

const grimm = `In olden times when wishing still helped one, there lived a king ` +
	`whose daughters were all beautiful, but the youngest was so beautiful ` +
	`that the sun itself, which has seen so much, was astonished whenever it ` +
	`shone in her face. Close by the king's castle lay a great dark forest, ` +
	`and under an old lime-tree in the forest was a well, and when the day ` +
	`was very warm, the king's child went out into the forest and sat down by ` +
	`the side of the cool fountain, and when she was bored she took a golden ball, ` +
	`and threw it up on high and caught it, and this ball was her favorite plaything. ` +
	`Honorificabilitudinitatibus is super long, https://www.unicode.org/Public/15.0.0/ucd/emoji/emoji-data.txt too. ` +
	`《漢字》 and "quotes" (as well as brackets) [or|pipes] mother-in-law état-major incomprehensibilities.`

// text: sub-paragraphs of a real text with the default hyphenator.
func text(step int, lengths []int, minW, maxW, stepW int, settings []*lb.Setting, check verdict) mc.Space {
	return mc.Space{
		Name:  "text",
		Bound: fmt.Sprintf("sub-paragraphs of a text of %d tokens (with punctuation, URLs, hyphens, wide characters), from every token that is a multiple of %d, of %d lengths up to %d, widths %d to %d by %d", len(strings.Fields(grimm)), step, len(lengths), lengths[len(lengths)-1], minW, maxW, stepW),
		Run: func(w *mc.W) {
			toks := strings.Fields(grimm)
			r := &run{}
			desc := r.String
			for _, s := range settings {
				for i := 0; i < len(toks); i += step {
					for _, n := range lengths {
						if i+n > len(toks) {
							continue
						}
						s, i, n := s, i, n
						w.Unit(func() {
							r.s, r.tokens = s, toks[i:i+n]
							w.Describe(desc)
							w.State()
							p := para.New(&s.Config, r.tokens)
							for width := minW; width <= maxW; width += stepW {
								r.width = float64(width)
								r.set(w, p, check)
							}
						})
					}
				}
			}
		},
	}
}

var assume = []string{
	"measures are additive over runes and integer once scaled; the space has a positive width",
	"tokens are not empty, hold no blank, and no escape sequence other than starts and stops; an empty paragraph is not specified",
	"penalties stay strictly within the infinite penalties +-10000; the looseness option is set by some settings and has no effect, as documented",
	"the tolerance bounds the Knuth-Plass adjustment ratio: (width - line width)/6 in scaled units, /10000 on the last line",
}

func plainSpaces(t mc.Tier, check verdict) []mc.Space {
	all := lb.Settings()
	lengths := []int{1, 2, 3, 5, 8, 13, 21, 34, 60, 100}
	spaces := []mc.Space{
		tokenWords("tokens", alphabetPlain, all, t.Pick(3, 4), 1, 16, check),
		tokenWords("settings", []string{"a", "b,", "(cd", "efghijw", "kl-mno"}, lb.Product(), t.Pick(2, 3), -1, 13, check),
		tokenWords("tokens-default", alphabetPlain, all[:2], t.Pick(5, 6), 1, 14, check),
		tokenWords("punctuation", []string{"a", "(", "b,", ",", "--", "cd-e.f", "(gh)"}, []*lb.Setting{all[0], all[2], all[7]}, t.Pick(4, 5), 1, 12, check),
		tokenWords("loose", []string{"a", "bcdefgh", "ij,", "klmnopqrstuv"}, all[:1], t.Pick(6, 8), 12, 40, check),
		text(t.Pick(5, 1), lengths, 2, 70, t.Pick(3, 1), []*lb.Setting{lb.Plain()}, check),
		tokenWords("styled", append([]string{"\x1b[31mab,c", "x\x1b[7hyz-uvwx"}, styleToks...), []*lb.Setting{all[0], all[2], all[3]}, t.Pick(4, 5), 1, 8, check),
		tokenWords("zero-width", []string{"\u0301", "a", "e\u0301bcde\u0301f", "\u200bcc", "b\u00adcdefgh", "字\u0301,"}, []*lb.Setting{all[0], all[2], lb.Plain()}, t.Pick(4, 5), 1, 9, check),
		longParagraphs(t, check),
		longWords(t, check),
		wide(t, check),
		fineMeasures(t, check),
		special(t, check),
		oddTokens(t, check),
		optionLists(t, check),
		huge(t, check),
	}

	return spaces
}

func propC20() mc.Property {
	return mc.Property{
		ID: "C20", Level: "model_checking", Assumptions: assume,
		Rule: "one case per paragraph, width and setting; non-trivial: several lines",
		Spaces: func(t mc.Tier) []mc.Space {
			fit := func(w *mc.W, p *para.Para, width float64, lines []string, err error) {
				if e := p.CheckFit(width, lines, err); e != nil {
					w.Failf("%v", e)
				}
			}

			return append(plainSpaces(t, fit), fractions(t, fit))
		},
	}
}

func propC21() mc.Property {
	return mc.Property{
		ID: "C21", Level: "model_checking", Assumptions: assume,
		Rule: "one case per paragraph, width and setting; non-trivial: several lines",
		Spaces: func(t mc.Tier) []mc.Space {
			return plainSpaces(t, func(w *mc.W, p *para.Para, width float64, lines []string, err error) {
				if err != nil {
					return
				}
				if e := p.CheckText(lines); e != nil {
					w.Failf("%v", e)
				}
			})
		},
	}
}

func propC22() mc.Property {
	return mc.Property{
		ID: "C22", Level: "model_checking", Assumptions: assume,
		Rule: "one case per paragraph, width and setting; non-trivial: several lines",
		Spaces: func(t mc.Tier) []mc.Space {
			return plainSpaces(t, func(w *mc.W, p *para.Para, width float64, lines []string, err error) {
				if err != nil {
					return
				}
				if e := p.CheckOptimal(width, lines); e != nil {
					w.Failf("%v", e)
				}
			})
		},
	}
}

// styled token alphabets: the same opening and closing sequences in several nestings.
var (
	styleShort = []string{"\x1b[1m", "\x1b[4m", "\x1b[m", "x", "yz,", "|"}
	styleToks  = []string{"a", "\x1b[1mb", "c\x1b[0m", "\x1b[4mdefgh\x1b[m", "i\x1b[0m\x1b[31mj", "\x1b[0m", "\x1b[32m\x1b[1m", "kl\x1b[sm,", "\x1b[unopqr"}
)

func checkStyled(w *mc.W, p *para.Para, width float64, lines []string, err error) {
	if err != nil {
		return
	}
	if e := p.CheckStyle(lines); e != nil {
		w.Failf("%v", e)
	}
}

// styledWords: paragraphs of up to n tokens over an alphabet, those that are well formed.
func styledWords(name string, alphabet []string, settings []*lb.Setting, n, minW, maxW int) mc.Space {
	return mc.Space{
		Name:  name,
		Bound: fmt.Sprintf("all properly nested paragraphs of 1 to %d tokens over %q, widths %d to %d, %d settings", n, alphabet, minW, maxW, len(settings)),
		Run: func(w *mc.W) {
			r := &run{}
			desc := r.String
			for _, s := range settings {
				s := s
				w.Words(len(alphabet), 1, n, 2, func(seq []int) {
					r.s = s
					r.tokens = r.tokens[:0]
					for _, i := range seq {
						r.tokens = append(r.tokens, alphabet[i])
					}
					if !para.Wellformed(r.tokens) {
						return
					}
					w.Describe(desc)
					w.State()
					p := para.New(&s.Config, r.tokens)
					for width := minW; width <= maxW; width++ {
						r.width = float64(width)
						r.set(w, p, checkStyled)
					}
				})
			}
		},
	}
}

// styledPieces: sequences of pieces glued in tokens: a blank piece starts a new token.
func styledPieces(pieces []string, settings []*lb.Setting, n, minW, maxW int) mc.Space {
	return mc.Space{
		Name:  "styled-pieces",
		Bound: fmt.Sprintf("all properly nested sequences of 1 to %d pieces over %q, a blank separating tokens, widths %d to %d", n, pieces, minW, maxW),
		Run: func(w *mc.W) {
			r := &run{}
			desc := r.String
			for _, s := range settings {
				s := s
				w.Words(len(pieces), 1, n, 3, func(seq []int) {
					r.s = s
					r.tokens = r.tokens[:0]
					cur := ""
					for k, i := range seq {
						if pieces[i] == " " {
							if cur == "" {
								return
							}
							r.tokens = append(r.tokens, cur)
							cur = ""
							if k == len(seq)-1 {
								return
							}

							continue
						}
						cur += pieces[i]
					}
					r.tokens = append(r.tokens, cur)
					if !para.Wellformed(r.tokens) {
						return
					}
					w.Describe(desc)
					w.State()
					p := para.New(&s.Config, r.tokens)
					for width := minW; width <= maxW; width++ {
						r.width = float64(width)
						r.set(w, p, checkStyled)
					}
				})
			}
		},
	}
}

// styledText: a text where contexts open and close at every pair of tokens.
func styledText(name string, n, stepW int, settings []*lb.Setting) mc.Space {
	return mc.Space{
		Name:  name,
		Bound: fmt.Sprintf("a text of %d tokens with two nested contexts opened and closed at every choice of four positions, before or inside tokens, widths 10 to 46 by %d", n, stepW),
		Run: func(w *mc.W) {
			base := strings.Fields(grimm)[:n]
			r := &run{}
			desc := r.String
			for _, s := range settings {
				for a := 0; a < n; a++ {
					for b := a; b < n; b++ {
						s, a, b := s, a, b
						w.Unit(func() {
							for c := b; c < n; c++ {
								for d := c; d < n; d++ {
									for inside := 0; inside < 2; inside++ {
										toks := append([]string{}, base...)
										ins := func(i int, seq string) {
											rs := []rune(base[i])
											if inside == 1 {
												k := len(rs) / 2
												// what was inserted before at the same place stays before
												tail := string(rs[k:])
												toks[i] = strings.TrimSuffix(toks[i], tail) + seq + tail

												return
											}
											toks[i] = strings.TrimSuffix(toks[i], base[i]) + seq + base[i]
										}
										ins(a, "\x1b[31;1m")
										ins(b, "\x1b[4m")
										ins(c, "\x1b[0m")
										ins(d, "\x1b[m")
										r.s, r.tokens = s, toks
										w.Describe(desc)
										w.State()
										p := para.New(&s.Config, toks)
										for width := 10; width <= 46; width += stepW {
											r.width = float64(width)
											r.set(w, p, checkStyled)
										}
									}
								}
							}
						})
					}
				}
			}
		},
	}
}

func propC24() mc.Property {
	return mc.Property{
		ID: "C24", Level: "model_checking", Assumptions: append(append([]string{}, assume...),
			"every context is closed by its own stop sequence"),
		Rule: "one case per paragraph, width and setting; non-trivial: several lines",
		Spaces: func(t mc.Tier) []mc.Space {
			all := lb.Settings()

			return []mc.Space{
				styledWords("styled-tokens", styleToks, all[:1], t.Pick(5, 6), 2, 8),
				styledPieces([]string{" ", "\x1b[1m", "\x1b[31m", "\x1b[0m", "x", "abcdef", "y,"}, []*lb.Setting{all[0]}, t.Pick(7, 8), 3, 6),
				styledText("styled-text", t.Pick(12, 24), t.Pick(6, 2), []*lb.Setting{lb.Plain()}),
				styledWords("styled-settings", styleToks, all, t.Pick(4, 5), 2, 8),
				nestings(t),
				deepStyles(t),
				spans(t),
				styledText("styled-text-words", t.Pick(9, 16), t.Pick(6, 2), []*lb.Setting{all[3], all[2]}),
			}
		},
	}
}
