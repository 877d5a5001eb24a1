package main

import (
	"fmt"
	"sort"
	"unicode"

	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ref"
)

// scriptLetters are some letters of every script.
func scriptLetters(n int) [][]rune {
	var names []string
	for name := range unicode.Scripts {
		names = append(names, name)
	}
	sort.Strings(names)
	var out [][]rune
	for _, name := range names {
		var letters []rune
		t := unicode.Scripts[name]
		add := func(lo, hi, stride rune) {
			for r := lo; r <= hi; r += stride {
				if unicode.IsLetter(r) {
					letters = append(letters, r)
				}
			}
		}
		for _, r := range t.R16 {
			add(rune(r.Lo), rune(r.Hi), rune(r.Stride))
		}
		for _, r := range t.R32 {
			add(rune(r.Lo), rune(r.Hi), rune(r.Stride))
		}
		if len(letters) == 0 {
			continue
		}
		var some []rune
		for k := 0; k < n; k++ {
			r := letters[k*(len(letters)-1)/max(n-1, 1)]
			if len(some) == 0 || some[len(some)-1] != r {
				some = append(some, r)
			}
		}
		out = append(out, some)
	}

	return out
}

// neighbours puts each rune of some kind between two others: what treats a separator as a part of a word does
// so between some letters only.
func neighbours(what string, is func(r rune) bool, check func(w *mc.W, word []rune)) mc.Space {
	var plain []rune
	for r := rune(0x20); r < 0x180; r++ {
		if r < 0x7F || r >= 0xA0 {
			plain = append(plain, r)
		}
	}
	common := func(r rune) bool { return r < 0x100 || r >= 0x2000 && r < 0x2070 || r == 0x30FB || r == 0x3002 }
	scripts := scriptLetters(5)

	return mc.Space{
		Name:  "neighbours",
		Bound: fmt.Sprintf("every %s between any two letters out of 5 of each of %d scripts, and the common ones (below U+0100, and the general punctuation) between any two of the %d printable runes below U+0180; the word also followed by the same rune", what, len(scripts), len(plain)),
		Run: func(w *mc.W) {
			buf := make([]rune, 0, 8)
			try := func(l, m, r rune) {
				buf = append(buf[:0], l, m, r)
				check(w, buf)
			}
			w.Range(0, 0x110000, 32, func(i int) {
				m := rune(i)
				if !is(m) {
					return
				}
				w.Describe(func() string { return q(buf) })
				for _, s := range scripts {
					for _, l := range s {
						for _, r := range s {
							try(l, m, r)
						}
						buf = append(buf[:0], 'x', l, m, l, m)
						check(w, buf)
					}
				}
				if !common(m) {
					return
				}
				for _, l := range plain {
					for _, r := range plain {
						try(l, m, r)
					}
				}
			})
		},
	}
}

// widthNeighbours: every rune next to each of the special ones.
func widthNeighbours() mc.Space {
	near := append(append([]rune{}, widthAlphabet...), specials...)
	settings := []widthSetting{
		{"no options", nil, ref.DefaultWidth()},
		{"East Asian, emoji, ambiguous 3", []runes.Option{runes.WithEastAsian(true), runes.WithSkipStrictEmojiNeutral(true), runes.WithEastAsianAmbiguousWidth(3)}, ref.WidthOptions{EastAsian: true, EmojiSkip: true, AmbigWidth: 3}},
	}

	return mc.Space{
		Name:  "neighbours",
		Bound: fmt.Sprintf("every rune value before, after and between each of %d runes (one per class, and those that text software handles together with their neighbours), with no options and in East Asian mode", len(near)),
		Run: func(w *mc.W) {
			width := make([][]int, len(settings))
			for k := range settings {
				for _, x := range near {
					width[k] = append(width[k], ref.Width(x, settings[k].ref))
				}
			}
			var buf [3]rune
			at := 0
			allRunes(w, func(r rune) {
				w.Describe(func() string { return q(buf[:]) + ", or a part of it, options: " + settings[at].name })
				w.Tick()
				w.State()
				for k := range settings {
					at = k
					own := ref.Width(r, settings[k].ref)
					opts := settings[k].opts
					for i, x := range near {
						other := width[k][i]
						if other != own {
							w.NonTrivial()
						}
						buf = [3]rune{x, r, x}
						if got := runes.Widths(buf[:], opts...); got != own+2*other {
							w.Failf("Widths = %d, want %d", got, own+2*other)
						}
						if got := runes.Widths(buf[:2], opts...); got != own+other {
							w.Failf("Widths(%s) = %d, want %d", q(buf[:2]), got, own+other)
						}
						if got := runes.Widths(buf[1:], opts...); got != own+other {
							w.Failf("Widths(%s) = %d, want %d", q(buf[1:]), got, own+other)
						}
					}
					w.Step(3 * len(near))
				}
				at = 0
				w.Outcome(uint64(ref.Width(r, settings[0].ref)))
			})
		},
	}
}

// widthOptionLists: lists of options in any order, with repeated ones.
func widthOptionLists(depth int, check func(w *mc.W, rs []rune, opts []runes.Option, o ref.WidthOptions)) mc.Space {
	type choice struct {
		name string
		opt  func() runes.Option
		tune func(o *ref.WidthOptions)
	}
	var all []choice
	for _, b := range []bool{true, false} {
		b := b
		all = append(all,
			choice{fmt.Sprintf("EastAsian(%t)", b), func() runes.Option { return runes.WithEastAsian(b) }, func(o *ref.WidthOptions) { o.EastAsian = b }},
			choice{fmt.Sprintf("Emoji(%t)", b), func() runes.Option { return runes.WithSkipStrictEmojiNeutral(b) }, func(o *ref.WidthOptions) { o.EmojiSkip = b }})
	}
	for _, v := range []int{0, 1, 2, 3} {
		v := v
		all = append(all, choice{fmt.Sprintf("Ambiguous(%d)", v), func() runes.Option { return runes.WithEastAsianAmbiguousWidth(v) }, func(o *ref.WidthOptions) { o.AmbigWidth = v }})
	}

	return mc.Space{
		Name:  "option-lists",
		Bound: fmt.Sprintf("every list of up to %d options out of %d (each option with each of a few values, repeated ones included: the last one counts), on one rune per class", depth, len(all)),
		Run: func(w *mc.W) {
			rs := append(append([]rune{}, widthAlphabet...), 0x2764, 0x2194, 0x203C, 0xA9, 0xA4, 0xE0100, 0xFFFF, 0x1F321)
			w.Words(len(all), 0, depth, 2, func(seq []int) {
				o := ref.DefaultWidth()
				var opts []runes.Option
				list := ""
				for _, k := range seq {
					opts = append(opts, all[k].opt())
					all[k].tune(&o)
					list += all[k].name + " "
				}
				w.Describe(func() string { return "options " + list })
				w.Tick()
				w.State()
				if len(seq) > 1 {
					w.NonTrivial()
				}
				w.Step(len(rs))
				check(w, rs, opts, o)
				w.Outcome(uint64(ref.Widths(rs, o)))
			})
		},
	}
}
