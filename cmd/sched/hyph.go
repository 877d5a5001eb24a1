package main

import (
	"fmt"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ref"
)

func propC10() mc.Property {
	return mc.Property{
		ID: "C10", Level: modelChecking, Assumptions: concurrencyAssumptions,
		Rule: "one case per execution (a schedule, a history, or one call in a long history); non-trivial: the schedule is not the default one, the history has several operations, the call follows a different one",
		Spaces: func(t mc.Tier) []mc.Space {
			deep := t == mc.Thorough
			all := opsWith("new/", "minima/")
			spaces := []mc.Space{
				cold("cold", all, t.Pick(2, 3), []string{"new/es", "new/en-US"}),
				warm("warm", all, t.Pick(3, 4)),
				languageOrders(),
				sharedHistory(t.Pick(3, 4)),
				manyHyphenators(),
				manyWords(t.Pick(160, 400)),
				lookalikes(t),
			}
			modes := []mode{statements}
			if deep {
				modes = append(modes, mode{name: "twice", cap: 2, bound: 1})
			}
			spaces = append(spaces, schedules("schedules", "C10", deep, modes, 16, nil))
			modes = []mode{race1}
			if deep {
				modes = append(modes, mode{name: "race2", race: true, heavy: true, cap: 1, bound: 2})
			}

			return append(spaces, schedules("schedules-race", "C10", deep, modes, 16, nil), schedules("schedules-shared", "C10", deep, []mode{shared2}, 32, nil))
		},
	}
}

// languageOrders: the languages are first used in any order.
func languageOrders() mc.Space {
	langs := []string{"en-US", "en-GB", "fr", "de", "es"}

	return mc.Space{
		Name:  "language-orders",
		Bound: fmt.Sprintf("every order in which %v are used first, each in a process of its own, each language used again after each one", langs),
		Run: func(w *mc.W) {
			base := baseline{}
			permute(len(langs), func(p []int) {
				p = append([]int{}, p...)
				w.Unit(func() {
					var ops []string
					for i := range p {
						for j := 0; j <= i; j++ {
							ops = append(ops, "new/"+langs[p[i-j]])
						}
						ops = append(ops, "minima/"+langs[p[i/2]])
					}
					w.Describe(func() string { return fmt.Sprintf("%v in a new process", ops) })
					w.Tick()
					w.NonTrivial()
					h := mc.NewHash()
					for k, got := range inProcess(w, ops...) {
						if want := base.of(w, ops[k]); got != want {
							w.Failf("operation %d, %s, gave %s; alone it gives %s", k, ops[k], got, want)
						}
						h = h.Str(got)
						w.State()
						w.Step(1)
					}
					w.Outcome(uint64(h))
				})
			})
		},
	}
}

func permute(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)

			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// sharedHistory: a few hyphenators kept throughout, asked in any order.
func sharedHistory(n int) mc.Space {
	configs := []struct {
		name string
		opts []hyphenator.Option
	}{
		{"en-US", nil},
		{"es", []hyphenator.Option{hyphenator.WithLanguage("es")}},
		{"es 1 1 1", []hyphenator.Option{hyphenator.WithLanguage("es"), hyphenator.WithMinLength(1), hyphenator.WithMinLeft(1), hyphenator.WithMinRight(1)}},
		{"de 10 4 4", []hyphenator.Option{hyphenator.WithLanguage("de"), hyphenator.WithMinLength(10), hyphenator.WithMinLeft(4), hyphenator.WithMinRight(4)}},
		{"fr", []hyphenator.Option{hyphenator.WithLanguage("fr")}},
	}
	names := ""
	for i, c := range configs {
		if i > 0 {
			names += ", "
		}
		names += c.name
	}
	words := []string{"", "a", "project", "Table", "well-known", "incomprehensibilities", "Straßenbahnhaltestelle", "honorificabilitudinitatibusque-et-omnibus", "honorificabilitudinitatibushonorificabilitudinitatibus", "présent", "ab", "anticonstitutionnellement"}

	return mc.Space{
		Name:  "shared",
		Bound: fmt.Sprintf("one history in which all sequences of %d calls follow each other, a call being one of %d hyphenators kept throughout (%v) and one of the words %q; the results of the last 64 calls are kept and looked at again", n, len(configs), names, words),
		Run: func(w *mc.W) {
			for c := range configs {
				c := c
				w.Unit(func() { // calls to one hyphenator
					calls(w, n, len(words), func(i int) (int, int) { return c, i }, configs[c].name, func(k int) *hyphenator.Hyphenator {
						return hyphenator.New(configs[k].opts...)
					}, len(configs), words)
				})
			}
			w.Unit(func() { // calls to all of them
				few := []string{"project", "incomprehensibilities", "a", "Straßenbahnhaltestelle"}
				calls(w, n, len(configs)*len(few), func(i int) (int, int) { return i / len(few), i % len(few) }, "all", func(k int) *hyphenator.Hyphenator {
					return hyphenator.New(configs[k].opts...)
				}, len(configs), few)
			})
		},
	}
}

func calls(w *mc.W, n, k int, split func(int) (int, int), name string, mk func(int) *hyphenator.Hyphenator, configs int, words []string) {
	type kept struct {
		parts [][]rune
		op    int
	}
	want := make([][][]rune, k)
	for i := range want {
		c, x := split(i)
		for _, p := range mk(c).BreakWordString(words[x]) {
			want[i] = append(want[i], append([]rune{}, p...))
		}
	}
	hs := make([]*hyphenator.Hyphenator, configs)
	for c := range hs {
		hs[c] = mk(c)
	}
	seq := sequence(k, n)
	at := 0
	w.Describe(func() string {
		var last []string
		for k := at - 5; k <= at; k++ {
			if k >= 0 {
				c, x := split(seq[k])
				last = append(last, fmt.Sprintf("hyphenator %d %q", c, words[x]))
			}
		}

		return fmt.Sprintf("%s: call %d of the history, the last ones being %v", name, at, last)
	})
	var ring [64]kept
	for at = range seq {
		w.Tick()
		w.Step(1)
		i := seq[at]
		c, x := split(i)
		slot := &ring[at%len(ring)]
		if slot.parts != nil && !same(slot.parts, want[slot.op]) {
			w.Failf("the result of the call %d calls before has become %q", len(ring), text(slot.parts))
		}
		got := hs[c].BreakWordString(words[x])
		if !same(got, want[i]) {
			w.Failf("BreakWord gave %q; a new hyphenator gives %q", text(got), text(want[i]))
		}
		*slot = kept{got, i}
		if at >= n-1 {
			w.State()
		}
		if at > 0 && seq[at-1] != i {
			w.NonTrivial()
		}
		if at < 2*k {
			w.Outcome(uint64(mc.NewHash().Str(fmt.Sprint(text(got)))))
		}
	}
	for _, s := range ring {
		if s.parts != nil && !same(s.parts, want[s.op]) {
			w.Failf("an earlier result has become %q", text(s.parts))
		}
	}
}

func same(a, b [][]rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if string(a[i]) != string(b[i]) || len(a[i]) != len(b[i]) {
			return false
		}
	}

	return true
}

func text(parts [][]rune) []string {
	var out []string
	for _, p := range parts {
		out = append(out, string(p))
	}

	return out
}

// manyHyphenators: many of them alive at once.
func manyHyphenators() mc.Space {
	words := []string{"project", "Table", "incomprehensibilities", "anticonstitutionnellement", "a", "honorificabilitudinitatibushonorificabilitudinitatibus"}

	return mc.Space{
		Name:  "many",
		Bound: fmt.Sprintf("625 hyphenators alive at once (every language, minima 0 to 4), created in 3 orders, each asked the words %q by turns, forwards and backwards, against the reference; every result kept and looked at again", words),
		Run: func(w *mc.W) {
			w.Range(0, 3, 1, func(order int) {
				type hyph struct {
					h *hyphenator.Hyphenator
					l *ref.Language
					m ref.Minima
				}
				type kept struct {
					got, want [][]rune
					h         int
				}
				var (
					hs   []hyph
					all  []kept
					at   int
					word string
				)
				name := func(i int) string { return fmt.Sprintf("hyphenator %d (%s, minima %v)", i, hs[i].l.Name, hs[i].m) }
				w.Describe(func() string { return fmt.Sprintf("order %d, %s, word %q", order, name(at), word) })
				const n = 5 * 125
				for k := 0; k < n; k++ {
					i := k
					switch order {
					case 1:
						i = k%5*125 + k/5
					case 2:
						i = n - 1 - k
					}
					l, m := ref.Languages[i/125], ref.Minima{Length: i % 125 / 25, Left: i % 25 / 5, Right: i % 5}
					opts := []hyphenator.Option{hyphenator.WithLanguage(l.Name), hyphenator.WithMinLength(m.Length), hyphenator.WithMinLeft(m.Left), hyphenator.WithMinRight(m.Right)}
					if k%2 == 1 {
						opts = []hyphenator.Option{opts[3], opts[2], opts[1], opts[0]}
					}
					hs = append(hs, hyph{hyphenator.New(opts...), l, m})
				}
				first := map[string]*hyphenator.Dictionary{}
				for i, h := range hs {
					at = i
					if d, ok := first[h.l.Name]; !ok {
						first[h.l.Name] = h.h.Dictionary
					} else if d != h.h.Dictionary {
						w.Failf("does not share the dictionary of its language")
					}
				}
				for pass := 0; pass < 4; pass++ {
					for k := range hs {
						at = k
						if pass%2 == 1 {
							at = len(hs) - 1 - k
						}
						for x := range words {
							word = words[(x+k*(pass/2))%len(words)]
							w.Tick()
							w.Step(1)
							w.State()
							h := hs[at]
							want := h.l.Hyphenate([]rune(word), h.m)
							got := h.h.BreakWordString(word)
							if !same(got, want) {
								w.Failf("BreakWord gave %q, want %q", text(got), text(want))
							}
							if len(got) > 1 {
								w.NonTrivial()
							}
							all = append(all, kept{got, want, at})
						}
					}
				}
				for _, r := range all {
					if !same(r.got, r.want) {
						at = r.h
						w.Failf("an earlier result has become %q, it was %q", text(r.got), text(r.want))
					}
				}
				w.Outcome(uint64(len(all)))
			})
		},
	}
}

// manyWords: one hyphenator asked many words.
func manyWords(n int) mc.Space {
	syllables := []string{"a", "re", "pro", "ject", "tion", "ment", "in", "com", "pre", "hen", "si", "bi", "li", "ties", "Ab", "und", "con", "sti", "tu", "nel", "lo", "ra", "mi", "schen", "bahn", "ñu", "éta", "übe", "per", "fec", "ta", "men", "te", "x", "Q", "ough", "ness", "-", "ing", "er", "est", "um", "os", "que", "gli", "ß", "œu", "vre", "ai", "ou", "th", "ph", "str", "eng", "land", "0", "z", "y", "gen", "haus"}
	if n > len(syllables) {
		m := len(syllables)
		for i := 0; len(syllables) < n; i++ {
			syllables = append(syllables, syllables[i%m]+syllables[(i*7+3)%m])
		}
	}

	return mc.Space{
		Name:  "many-words",
		Bound: fmt.Sprintf("one history for each language and each of 2 settings of the minima: all %d words of one or two of %d syllables in each of 2 orders, then twice the same word, against the reference; every result is kept and looked at again", n*(n+1), n),
		Run: func(w *mc.W) {
			for _, l := range ref.Languages {
				for _, m := range []ref.Minima{ref.DefaultMinima, {Length: 1, Left: 1, Right: 1}} {
					for order := 0; order < 2; order++ {
						l, m, order := l, m, order
						w.Unit(func() {
							type kept struct{ got, want [][]rune }
							var (
								word string
								all  []kept
							)
							w.Describe(func() string {
								return fmt.Sprintf("%s, minima %v, order %d, after %d words, word %q", l.Name, m, order, len(all), word)
							})
							h := hyphenator.New(hyphenator.WithLanguage(l.Name), hyphenator.WithMinLength(m.Length), hyphenator.WithMinLeft(m.Left), hyphenator.WithMinRight(m.Right))
							total := n * (n + 1)
							for k := 0; k < total; k++ {
								i := k
								if order == 1 {
									i = (total - 1 - k) / 2 * 2
									if k%2 == 0 {
										i++
									}
								}
								word = syllables[i%n]
								if i >= n {
									word = syllables[i/n-1] + word
								}
								w.Tick()
								w.State()
								for times := 0; times < 2; times++ {
									w.Step(1)
									want := l.Hyphenate([]rune(word), m)
									got := h.BreakWord([]rune(word))
									if !same(got, want) {
										w.Failf("BreakWord gave %q, want %q", text(got), text(want))
									}
									if len(got) > 1 {
										w.NonTrivial()
									}
									all = append(all, kept{got, want})
								}
							}
							for k := range all {
								if !same(all[k].got, all[k].want) {
									w.Failf("result %d has become %q, it was %q", k, text(all[k].got), text(all[k].want))
								}
							}
							w.Outcome(uint64(len(all)))
						})
					}
				}
			}
		},
	}
}
