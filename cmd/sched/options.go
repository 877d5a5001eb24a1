package main

import (
	"bytes"
	"fmt"
	"unsafe"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/lb"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ref"
)

// image of a value in memory: tells options apart, whatever they are.
func image[T any](x *T) []byte {
	return unsafe.Slice((*byte)(unsafe.Pointer(x)), unsafe.Sizeof(*x))
}

// partOfOptions: options given as a part of a longer list, which is then used whole.
func partOfOptions[T any](w *mc.W, what string, names []string, mk []func() T, use func(opts []T) string) {
	var buf, was []T
	var at string
	w.Words(len(mk), 1, 3, 1, func(seq []int) {
		buf = make([]T, len(seq)+4)
		list := ""
		for i := range buf {
			buf[i] = mk[(i+len(seq))%len(mk)]()
			if i < len(seq) {
				buf[i] = mk[seq[i]]()
				list += names[seq[i]] + " "
			}
		}
		was = append([]T(nil), buf...)
		w.Describe(func() string { return fmt.Sprintf("%s with the options %s: %s", what, list, at) })
		w.Tick()
		w.State()
		w.NonTrivial()
		for n := len(seq); n >= 0; n-- {
			for _, m := range []int{n, len(seq), n} {
				at = fmt.Sprintf("the first %d of them after the first %d of them, from a list of %d", m, n, len(buf))
				got, alone := use(buf[:m]), use(append(make([]T, 0, m), was[:m]...)[:m:m])
				if got != alone {
					w.Failf("gave %s, alone in their list the options give %s", got, alone)
				}
				w.Step(1)
				for i := range buf {
					if !bytes.Equal(image(&buf[i]), image(&was[i])) {
						w.Failf("the option at %d of the list has been replaced", i)
					}
				}
				w.Outcome(uint64(mc.NewHash().Str(alone)))
			}
		}
		for k := range seq { // the list changed in place
			for o := range mk {
				_ = use(buf[:len(seq)])
				kept := buf[k]
				buf[k] = mk[o]()
				at = fmt.Sprintf("then the one at %d of the list replaced by %s", k, names[o])
				got, alone := use(buf[:len(seq)]), use(append([]T(nil), buf[:len(seq)]...))
				if got != alone {
					w.Failf("gave %s, in a new list the options give %s", got, alone)
				}
				buf[k] = kept
				w.Step(1)
			}
		}
	})
}

// options: lists of options are the caller's.
func options() mc.Space {
	return mc.Space{
		Name:  "options",
		Bound: "every list of up to 3 options of the width functions, of hyphenators and of line breakers, and each of its prefixes, as the start of a longer list that is then used whole; and every one of them replaced in place by every other",
		Run: func(w *mc.W) {
			mixed := []rune{'a', 0xF8, 0x4E2D, 0x2764, 0x2E3B, -1}
			partOfOptions(w, "widths", []string{"EastAsian(true)", "EastAsian(false)", "Ambiguous(3)", "Emoji(true)", "Emoji(false)"},
				[]func() runes.Option{
					func() runes.Option { return runes.WithEastAsian(true) },
					func() runes.Option { return runes.WithEastAsian(false) },
					func() runes.Option { return runes.WithEastAsianAmbiguousWidth(3) },
					func() runes.Option { return runes.WithSkipStrictEmojiNeutral(true) },
					func() runes.Option { return runes.WithSkipStrictEmojiNeutral(false) },
				},
				func(opts []runes.Option) string {
					out := ""
					for _, r := range mixed {
						out += fmt.Sprint(runes.Width(r, opts...), " ")
					}

					return out + fmt.Sprint(runes.Widths(mixed, opts...), runes.StringWidth(string(mixed), opts...))
				})
			partOfOptions(w, "hyphenators", []string{"Language(es)", "Language(fr)", "MinLength(1)", "MinLeft(1)", "MinRight(1)"},
				[]func() hyphenator.Option{
					func() hyphenator.Option { return hyphenator.WithLanguage("es") },
					func() hyphenator.Option { return hyphenator.WithLanguage("fr") },
					func() hyphenator.Option { return hyphenator.WithMinLength(1) },
					func() hyphenator.Option { return hyphenator.WithMinLeft(1) },
					func() hyphenator.Option { return hyphenator.WithMinRight(1) },
				},
				func(opts []hyphenator.Option) string {
					h := hyphenator.New(opts...)
					out := ""
					for _, x := range []string{"incomprehensibilities", "ala", "anticonstitutionnellement"} {
						out += fmt.Sprintf("%q ", text(h.BreakWordString(x)))
					}

					return out
				})
			partOfOptions(w, "line breakers", []string{"Tolerance(20)", "Hyphenator(pairs)", "Punctuator(runes)", "Measurer(twice)", "WordBreak(false)", "RenderHyphens(false)"},
				[]func() linebreak.Option{
					func() linebreak.Option { return linebreak.WithTolerance(20) },
					func() linebreak.Option { return linebreak.WithHyphenator(lb.Pairs) },
					func() linebreak.Option { return linebreak.WithPunctuator(lb.Each) },
					func() linebreak.Option {
						return linebreak.WithMeasurer(func(rs []rune) float64 { return 2 * float64(len(rs)) })
					},
					func() linebreak.Option { return linebreak.WithWordBreak(false) },
					func() linebreak.Option { return linebreak.WithRenderHyphens(false) },
				},
				func(opts []linebreak.Option) string {
					l := linebreak.New(opts...)
					out := ""
					for _, width := range []float64{3, 7, 16} {
						lines, err := l.LeftAlignUniform([]string{"one", "two,three", "incomprehensibilities"}, width)
						out += fmt.Sprintf("%q %v ", lines, err)
					}

					return out
				})
		},
	}
}

// optionLists: the start of a list of options, then the whole list.
func optionLists() mc.Space {
	mk := []func() runes.Option{
		func() runes.Option { return runes.WithEastAsian(true) },
		func() runes.Option { return runes.WithEastAsian(false) },
		func() runes.Option { return runes.WithEastAsianAmbiguousWidth(3) },
		func() runes.Option { return runes.WithEastAsianAmbiguousWidth(1) },
		func() runes.Option { return runes.WithSkipStrictEmojiNeutral(true) },
		func() runes.Option { return runes.WithSkipStrictEmojiNeutral(false) },
	}
	refs := []func(o *ref.WidthOptions){
		func(o *ref.WidthOptions) { o.EastAsian = true },
		func(o *ref.WidthOptions) { o.EastAsian = false },
		func(o *ref.WidthOptions) { o.AmbigWidth = 3 },
		func(o *ref.WidthOptions) { o.AmbigWidth = 1 },
		func(o *ref.WidthOptions) { o.EmojiSkip = true },
		func(o *ref.WidthOptions) { o.EmojiSkip = false },
	}
	mixed := []rune{'a', 0xF8, 0x4E2D, 0x2764, 0x2E3B, 0x3B1}

	return mc.Space{
		Name:  "option-lists",
		Bound: "for every list of up to 4 of 6 options: the widths of 6 runes with a part of the list, then with another part, for all pairs of parts (each may be the start, the end or all of the list), the list being kept in one array with spare room; then every option of the list replaced in place by every other",
		Run: func(w *mc.W) {
			var list [8]runes.Option
			w.Words(len(mk), 1, 4, 1, func(seq []int) {
				n := len(seq)
				type part struct{ from, to int }
				parts := []part{{0, n}}
				for k := 0; k < n; k++ {
					parts = append(parts, part{0, k})
					if k > 0 {
						parts = append(parts, part{k, n})
					}
				}
				var p, p2 part
				w.Describe(func() string {
					return fmt.Sprintf("options %v (numbers in the list of 6), from %d to %d, then from %d to %d", seq, p.from, p.to, p2.from, p2.to)
				})
				w.Tick()
				for _, p = range parts {
					for _, p2 = range parts {
						for i := range list {
							list[i] = nil
						}
						for i, k := range seq {
							list[i] = mk[k]()
						}
						for _, x := range []part{p, p2} {
							o := ref.DefaultWidth()
							for _, k := range seq[x.from:x.to] {
								refs[k](&o)
							}
							for i, r := range mixed {
								want := ref.Width(r, o)
								var got int
								switch i % 3 {
								case 0:
									got = runes.Width(r, list[x.from:x.to]...)
								case 1:
									got = runes.Widths([]rune{r}, list[x.from:x.to]...)
								default:
									got = runes.StringWidth(string(r), list[x.from:x.to]...)
								}
								if got != want {
									w.Failf("the width of %q with the options from %d to %d = %d, want %d", string(r), x.from, x.to, got, want)
								}
							}
							w.Step(1)
							w.Outcome(uint64(ref.Widths(mixed, o)))
						}
						w.State()
						if p != p2 {
							w.NonTrivial()
						}
					}
				}
				p, p2 = part{0, n}, part{0, n}
				changed := append([]int(nil), seq...)
				for at := range seq {
					for k := range mk {
						list[at] = mk[k]()
						changed[at] = k
						o := ref.DefaultWidth()
						for _, k := range changed {
							refs[k](&o)
						}
						for _, r := range mixed {
							want := ref.Width(r, o)
							got, got2, got3 := runes.Width(r, list[:n]...), runes.Widths([]rune{r}, list[:n]...), runes.StringWidth(string(r), list[:n]...)
							if got != want || got2 != want || got3 != want {
								w.Failf("the list changed in place to %v: the width of %q = %d, %d and %d, want %d", changed, string(r), got, got2, got3, want)
							}
						}
						w.Step(1)
					}
					list[at] = mk[seq[at]]()
					changed[at] = seq[at]
				}
			})
		},
	}
}
