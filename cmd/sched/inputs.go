package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
)

// a user of runes: what it keeps is kept as it is, to be looked at again later.
type user struct {
	name string
	call func(in []rune, keep keep)
}

// keep a result: the view gives its runes, now and whenever it is called again.
type keep func(view func() [][]rune)

// book of the results kept, with copies of what they were at first.
type book struct {
	views  []func() [][]rune
	copies [][][]rune
}

func (b *book) keep(view func() [][]rune) {
	b.views = append(b.views, view)
	b.copies = append(b.copies, deep(view()))
}

// changed gives a result that is not what it was, and what it was.
func (b *book) changed() (now, was [][]rune, found bool) {
	for i, view := range b.views {
		if now := view(); !same(now, b.copies[i]) {
			return now, b.copies[i], true
		}
	}

	return nil, nil, false
}

func (b *book) forget() { b.views, b.copies = b.views[:0], b.copies[:0] }

// parts is a user that gives one list of parts.
func parts(call func(in []rune) [][]rune) func([]rune, keep) {
	return func(in []rune, keep keep) {
		out := call(in)
		keep(func() [][]rune { return out })
	}
}

func flat(s ansi.StrippedToken) [][]rune {
	return [][]rune{s.StartSequence, s.Text, s.StopSequence, s.Remainder}
}

func users() []user {
	var (
		hs = map[string]*hyphenator.Hyphenator{}
		p  = punctuator.New()
		t  = tokenizer.New()
	)
	for _, lang := range []string{"en-US", "es", "fr"} {
		hs[lang] = hyphenator.New(hyphenator.WithLanguage(lang), hyphenator.WithMinLength(1), hyphenator.WithMinLeft(1), hyphenator.WithMinRight(1))
	}
	lineBreaker := linebreak.New(linebreak.WithTolerance(20))

	return []user{
		{"StripToken", func(in []rune, keep keep) {
			list := ansi.StripToken(in)
			keep(func() [][]rune {
				out := make([][]rune, 0, 4*len(list))
				for i, s := range list {
					if i > 32 { // remainders add up
						s.Remainder = nil
					}
					out = append(out, s.StartSequence, s.Text, s.StopSequence, s.Remainder)
				}

				return out
			})
		}},
		{"StripANSIFromRunes", parts(func(in []rune) [][]rune { return flat(ansi.StripANSIFromRunes(in)) })},
		{"StripANSIFromRunes of the remainder", func(in []rune, keep keep) {
			first := ansi.StripANSIFromRunes(in)
			keep(func() [][]rune { return flat(first) })
			if len(first.Remainder) > 0 {
				second := ansi.StripANSIFromRunes(first.Remainder)
				keep(func() [][]rune { return flat(second) })
			}
		}},
		{"punctuator.BreakWord", parts(p.BreakWord)},
		{"tokenizer.BreakWord", parts(t.BreakWord)},
		{"FieldsFunc", parts(func(in []rune) [][]rune { return runes.FieldsFunc(in, unicode.IsPunct) })},
		{"hyphenator.BreakWord en-US", parts(hs["en-US"].BreakWord)},
		{"hyphenator.BreakWord es", parts(hs["es"].BreakWord)},
		{"hyphenator.BreakWord fr", parts(hs["fr"].BreakWord)},
		{"SplitWord", parts(hyphenator.SplitWord)},
		{"IsHyphen, IsPunctuation, Widths", parts(func(in []rune) [][]rune {
			_ = hyphenator.IsHyphen(in)
			_ = punctuator.IsPunctuation(in)

			return [][]rune{{rune(runes.Widths(in)), rune(runes.Widths(in, runes.WithEastAsian(true)))}}
		})},
		{"SliceReader", func(in []rune, keep keep) {
			list := func(out [][]rune) { keep(func() [][]rune { return out }) }
			r := runesio.NewSliceReader(in)
			_, _, _ = r.ReadRune()
			list([][]rune{r.Runes()})
			if n := len(in); n > 0 {
				list([][]rune{r.Slice(0, n/2), r.Slice(n/2, n)})
				for k := 0; k < 2; k++ {
					list(r.Slices([]int{n / 2, n, 0, n}))
					list(r.SliceFromByteOffsets([]int{0, len(string(in)), 0, 0}))
					list(r.Slices([]int{0, n / 3}))
					list(r.SliceFromByteOffsets([]int{0, 0}))
				}
			}
			_, _ = r.Seek(0, 2)
			_, _, _ = r.ReadRune()
			list([][]rune{r.Runes()})
		}},
		{"Writer", parts(func(in []rune) [][]rune {
			var b strings.Builder
			w := runesio.AsRunesWriter(&b)
			_, _ = w.WriteRunes(in)
			_, _ = w.WriteRunes(in[:len(in)/2])

			return [][]rune{[]rune(b.String())}
		})},
		{"attributes", parts(func(in []rune) [][]rune {
			n := len(in)
			a := attributes.New(in[:n/2], in[n/2:], in[:n/3])
			b := attributes.New(in[n/3:], in[:n/2], nil)
			b.SetStop(in[n/2:])
			s := attributes.NewState()
			s.Push(a)
			s.Push(b)
			s.Push(attributes.New(in, nil, in[:n/3]))
			var out strings.Builder
			w := runesio.AsRunesWriter(&out)
			for i := s.Iterator(); i.Next(); {
				i.StartOfLine(w)
				i.Item().Render(w)
				i.EndOfLine(w)
			}
			attributes.Renderers{a, b}.Render(w)

			return [][]rune{a.Text, a.StartSequence, a.StopSequence, b.Runes(), b.StartSequence, b.StopSequence, []rune(out.String())}
		})},
		{"line breaking with a punctuator and a hyphenator that give slices of the runes", parts(func(in []rune) [][]rune {
			n := len(in)
			if n == 0 {
				return nil
			}
			parts := func([]rune) [][]rune {
				if n == 1 {
					return [][]rune{in}
				}

				return [][]rune{in[:n/2], in[n/2:]}
			}
			var out [][]rune
			for _, width := range []float64{3, 8} {
				l := linebreak.New(linebreak.WithHyphenator(parts), linebreak.WithPunctuator(parts), linebreak.WithTolerance(20))
				lines, _ := l.LeftAlignUniform([]string{"abc", "def"}, width)
				for _, line := range lines {
					out = append(out, []rune(line))
				}
			}
			lines, _ := lineBreaker.LeftAlignUniform([]string{"x" + string(in), "y"}, 12)
			for _, line := range lines {
				out = append(out, []rune(line))
			}

			return out
		})},
	}
}

const sentinel = 0x2022

// array holding the input between sentinels, in memory made read-only.
func array(v *vault, in []rune, spare int) []rune {
	buf := v.open(3 + len(in) + spare)
	defer v.shut()
	for i := range buf {
		buf[i] = sentinel
	}
	copy(buf[3:], in)

	return buf
}

func deep(parts [][]rune) [][]rune {
	out := make([][]rune, len(parts))
	for i, p := range parts {
		out[i] = append([]rune{}, p...)
	}

	return out
}

// untouched checks every user with one input, and then all the users again with another one.
func untouched(w *mc.W, v *vault, us []user, in, other []rune) {
	w.Tick()
	w.State()
	var (
		buf      = array(v, in, 40)
		kept     [32]book
		next     book
		doing    = ""
		describe = func() string { return fmt.Sprintf("input %q, %s", string(in), doing) }
		check    = func() {
			for i, r := range buf {
				want := rune(sentinel)
				if i >= 3 && i < 3+len(in) {
					want = in[i-3]
				}
				if r != want {
					w.Failf("the rune at %d of the input array (the input is at 3 to %d of %d) has become %q", i, 3+len(in), len(buf), string(r))
				}
			}
		}
		use = func(u user, in []rune, b *book) {
			b.forget()
			if at := v.guard(func() { u.call(in, b.keep) }); at >= 0 {
				w.Failf("wrote to the rune at %d of the input array (the input is at 3 to %d of %d)", at, 3+len(in), len(buf))
			}
		}
		recheck = func() {
			for k := range us {
				if now, was, found := kept[k].changed(); found {
					w.Failf("an earlier result of %s has become %q, it was %q", us[k].name, text(now), text(was))
				}
			}
		}
	)
	w.Describe(describe)
	h := mc.NewHash()
	for k, u := range us {
		doing = u.name
		use(u, buf[3:3+len(in)], &kept[k])
		check()
		w.Step(1)
		for _, list := range kept[k].copies {
			for _, p := range list {
				h = h.Add(uint64(len(p)))
			}
		}
		if k == 0 && len(kept[k].copies[0]) > 4 {
			w.NonTrivial()
		}
	}
	recheck()
	for k, u := range us {
		doing = u.name + ", on the same input a second time"
		use(u, buf[3:3+len(in)], &next)
		check()
		for i := range next.copies {
			if i >= len(kept[k].copies) || !same(next.copies[i], kept[k].copies[i]) {
				w.Failf("result %d is %q, the first time it gave %q", i, text(next.copies[i]), texts(kept[k].copies))
			}
		}
	}
	recheck()
	for k, u := range us {
		doing = u.name + ", on a slice without spare capacity"
		use(u, buf[3:3+len(in):3+len(in)], &next)
		check()
		for i := range next.copies {
			if i >= len(kept[k].copies) || !same(next.copies[i], kept[k].copies[i]) {
				w.Failf("result %d is %q, the first time it gave %q", i, text(next.copies[i]), texts(kept[k].copies))
			}
		}
		doing = u.name + fmt.Sprintf(", then on %q", string(other))
		next.forget()
		u.call(other, next.keep)
		check()
	}
	recheck()
	w.Outcome(uint64(h))
}

func inputs(t mc.Tier) []mc.Space {
	alphabet := []rune{'a', 'B', ',', '-', 0x1B, '[', '1', 'm', 'é', ' ', -1}
	pieces := []string{"\x1b[1m", "\x1b[31m", "\x1b[0m", "\x1b[m", "\x1b[4:3h", "\x1b[2J", "\x1b", "\x1b[", "ab", "Tion", "-", ",", "prÉsent", " ", "字", "("}
	other := []rune("ot\x1b[7mher,x-y\x1b[0m incomprehensibilities")

	return []mc.Space{
		{
			Name:  "sequences",
			Bound: fmt.Sprintf("every input of up to %d runes over %q, inside a larger array, given to every function that takes runes", t.Pick(4, 5), string(alphabet)),
			Run: func(w *mc.W) {
				us, v := users(), newVault(w)
				in := make([]rune, 0, 8)
				w.Words(len(alphabet), 0, t.Pick(4, 5), 2, func(seq []int) {
					in = in[:0]
					for _, i := range seq {
						in = append(in, alphabet[i])
					}
					untouched(w, v, us, in, append([]rune{}, other...))
				})
			},
		},
		{
			Name:  "pieces",
			Bound: fmt.Sprintf("every input made of up to %d pieces of %q", t.Pick(3, 4), pieces),
			Run: func(w *mc.W) {
				us, v := users(), newVault(w)
				w.Words(len(pieces), 1, t.Pick(3, 4), 2, func(seq []int) {
					var in []rune
					for _, i := range seq {
						in = append(in, []rune(pieces[i])...)
					}
					untouched(w, v, us, in, append([]rune{}, other...))
				})
			},
		},
		{
			Name:  "lengths",
			Bound: "inputs of every length up to 300, made by repeating each of the pieces",
			Run: func(w *mc.W) {
				us, v := users(), newVault(w)
				w.Range(0, 301, 1, func(n int) {
					for _, p := range pieces {
						in := []rune(strings.Repeat(p, n/len([]rune(p))+1))[:n]
						untouched(w, v, us, in, append([]rune{}, other...))
					}
				})
			},
		},
		{
			Name:  "long",
			Bound: "inputs of every length around powers of two from 256 to 4096, made by repeating each of the pieces, to every function but line breaking",
			Run: func(w *mc.W) {
				us, v := users(), newVault(w)
				for bit := 8; bit <= 12; bit++ {
					for d := -1; d <= 1; d++ {
						for _, p := range pieces {
							n, p := 1<<uint(bit)+d, p
							w.Unit(func() {
								in := []rune(strings.Repeat(p, n/len([]rune(p))+1))[:n]
								use := us
								if n > 300 { // setting a long word takes long
									use = us[:len(us)-1]
								}
								untouched(w, v, use, in, append([]rune{}, other...))
							})
						}
					}
				}
			},
		},
		later(),
		options(),
		{
			Name:  "tokens",
			Bound: "the list of tokens given to the line breaker, within a larger array, for every list of up to 4 tokens over a small alphabet",
			Run: func(w *mc.W) {
				words := []string{"a", "bbb,", "\x1b[1mcc", "dd\x1b[0m", "efghijkl"}
				w.Words(len(words), 1, 4, 1, func(seq []int) {
					buf := []string{"before", "", "", "", "", "after", "after", "after"}
					for i, k := range seq {
						buf[1+i] = words[k]
					}
					was := append([]string{}, buf...)
					w.Describe(func() string { return fmt.Sprintf("tokens %q", was[1:1+len(seq)]) })
					w.Tick()
					w.State()
					l := linebreak.New()
					first, err := l.LeftAlignUniform(buf[1:1+len(seq)], 5)
					kept := append([]string{}, first...)
					_, _ = l.LeftAlignUniform([]string{"other", "words"}, 5)
					w.Step(2)
					for i := range was {
						if buf[i] != was[i] {
							w.Failf("the token at %d has become %q", i-1, buf[i])
						}
					}
					for i := range first {
						if kept[i] != first[i] {
							w.Failf("line %d has become %q, it was %q", i, first[i], kept[i])
						}
					}
					if err == nil && len(first) > 1 {
						w.NonTrivial()
					}
					w.Outcome(uint64(len(first)))
				})
			},
		},
	}
}

// later: the results of many calls are kept.
func later() mc.Space {
	pieces := []string{"ab", "\x1b[1m", "Tion", "-", ",", " ", "\x1b[0m", "prÉsent", "字", "x", "incomprehensibilities", "\x1b[2J", "\u2010", "."}

	return mc.Space{
		Name:  "later",
		Bound: fmt.Sprintf("for every function that takes runes, one history of 2,955 calls on all inputs of up to 3 of %q, in 2 orders, from a new array each; every result is kept and looked at again every 97 calls and at the end", pieces),
		Run: func(w *mc.W) {
			var all [][]rune
			var add func(in []rune, k int)
			add = func(in []rune, k int) {
				all = append(all, in)
				for _, p := range pieces {
					if k > 0 {
						add(append(in[:len(in):len(in)], []rune(p)...), k-1)
					}
				}
			}
			add(nil, 3)
			for k := range users() {
				for order := 0; order < 2; order++ {
					k, order := k, order
					w.Unit(func() {
						u := users()[k]
						kept := make([]book, 0, len(all))
						input := func(i int) []rune {
							if order == 1 {
								return all[len(all)-1-i]
							}

							return all[i]
						}
						w.Describe(func() string {
							return fmt.Sprintf("%s, order %d, after %d calls, the last one on %q", u.name, order, len(kept), string(input(max(0, len(kept)-1))))
						})
						look := func() {
							for i := range kept {
								if now, was, found := kept[i].changed(); found {
									w.Failf("a result of call %d on %q has become %q, it was %q", i, string(input(i)), text(now), text(was))
								}
							}
						}
						for i := range all {
							w.Tick()
							w.State()
							w.Step(1)
							w.NonTrivial()
							in := append([]rune{}, input(i)...)
							kept = append(kept, book{})
							u.call(in, kept[i].keep)
							if string(in) != string(input(i)) {
								w.Failf("the input %q has become %q", string(input(i)), string(in))
							}
							if i%97 == 0 {
								look()
							}
						}
						look()
						w.Outcome(uint64(k))
					})
				}
			}
		},
	}
}

func propC19() mc.Property {
	return mc.Property{
		ID: "C19", Level: modelChecking, Assumptions: concurrencyAssumptions,
		Rule: "one case per input (given to every function) or per schedule; non-trivial: the input gives several parts, the schedule is not the default one",
		Spaces: func(t mc.Tier) []mc.Space {
			deep := t == mc.Thorough
			spaces := append(inputs(t), schedules("schedules", "C19", deep, []mode{statements}, 16, nil))
			modes := []mode{raceShared}
			if deep {
				modes = append(modes, race1, mode{name: "race-twice", race: true, cap: 2, bound: 1})
			}

			return append(spaces, schedules("schedules-race", "C19", deep, modes, 16, nil), schedules("schedules-shared", "C19", deep, []mode{shared2}, 16, nil))
		},
	}
}

func texts(lists [][][]rune) [][]string {
	var out [][]string
	for _, parts := range lists {
		out = append(out, text(parts))
	}

	return out
}
