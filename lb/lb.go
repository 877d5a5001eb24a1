// Package lb binds line breakers of /repo to the configurations of the reference model.
package lb

import (
	"fmt"
	"math"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/para"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ref"
)

// Setting is a configuration of the model with the options that ask for it.
type Setting struct {
	para.Config
	Opts func() []linebreak.Option
}

// New line breaker.
func (s *Setting) New() *linebreak.LineBreaker { return linebreak.New(s.Opts()...) }

// Pairs hyphenates after every second rune.
func Pairs(word []rune) [][]rune {
	var out [][]rune
	for len(word) > 3 {
		out = append(out, word[:2:2])
		word = word[2:]
	}

	return append(out, word)
}

// Each hyphenates after every rune.
func Each(word []rune) [][]rune {
	var out [][]rune
	for i := range word {
		out = append(out, word[i:i+1:i+1])
	}

	return out
}

func twice(in []rune) float64 { return 2 * float64(len(in)) }

func uneven(in []rune) float64 {
	w := 0.0
	for _, r := range in {
		switch r {
		case 'm', 'w', '-':
			w += 2
		case 'b', ',':
			w += 3
		default:
			w++
		}
	}

	return w
}

func whole(word []rune) [][]rune { return [][]rune{word} }

// Settings explored, the first with default options apart from the hyphenator.
func Settings() []*Setting {
	var out []*Setting
	add := func(name string, tune func(c *para.Config), opts ...linebreak.Option) {
		c := para.Default()
		c.Name = name
		c.Hyphenate = Pairs
		tune(&c)
		all := append([]linebreak.Option{linebreak.WithHyphenator(c.Hyphenate)}, opts...)
		out = append(out, &Setting{Config: c, Opts: func() []linebreak.Option { return all }})
	}

	add("pairs", func(c *para.Config) {})
	add("each", func(c *para.Config) { c.Hyphenate = Each })
	add("no-hyphens-rendered", func(c *para.Config) { c.RenderHyphens = false }, linebreak.WithRenderHyphens(false))
	add("no-word-break", func(c *para.Config) { c.WordBreak = false }, linebreak.WithWordBreak(false))
	for _, tol := range []float64{0, 1.0 / 3, 0.5, 1, 2, 20000, math.MaxFloat64} {
		tol := tol
		add(fmt.Sprintf("tolerance-%.3g", tol), func(c *para.Config) { c.Tolerance = tol }, linebreak.WithTolerance(tol))
	}
	for _, pen := range []float64{-9999, -1000, -150, -50, 0, 10, 200, 400, 2000, 9999} {
		pen := pen
		add(fmt.Sprintf("hyphen-penalty-%v", pen), func(c *para.Config) { c.HyphenPenalty, c.Flagged = pen, pen }, linebreak.WithHyphenPenalty(pen))
	}
	add("scale-3", func(c *para.Config) { c.Scale = 3 }, linebreak.WithScaleFactor(3))
	add("scale-6-tolerance-1.5", func(c *para.Config) { c.Scale, c.Tolerance = 6, 1.5 }, linebreak.WithScaleFactor(6), linebreak.WithTolerance(1.5))
	add("measure-twice", func(c *para.Config) { c.Measure = twice }, linebreak.WithMeasurer(twice))
	add("measure-uneven", func(c *para.Config) { c.Measure = uneven }, linebreak.WithMeasurer(uneven))
	add("no-punctuator", func(c *para.Config) { c.Punctuate = whole }, linebreak.WithPunctuator(whole))
	add("penalty-100-no-hyphens-tolerance-1", func(c *para.Config) {
		c.HyphenPenalty, c.Flagged, c.RenderHyphens, c.Tolerance = 100, 100, false, 1
	}, linebreak.WithHyphenPenalty(100), linebreak.WithRenderHyphens(false), linebreak.WithTolerance(1))

	// the last of several options counts, and a hyphenator enables word breaking
	add("hyphenator-after-no-word-break", func(c *para.Config) { c.Hyphenate = Each }, linebreak.WithWordBreak(false), linebreak.WithHyphenator(Each))
	add("last-options", func(c *para.Config) {
		c.Tolerance, c.Scale, c.HyphenPenalty, c.Flagged, c.Hyphenate = 3, 2, 150, 150, Pairs
	}, linebreak.WithTolerance(0.1), linebreak.WithScaleFactor(5), linebreak.WithRenderHyphens(false), linebreak.WithHyphenPenalty(5),
		linebreak.WithMeasurer(twice), linebreak.WithPunctuator(whole), linebreak.WithHyphenator(Each),
		linebreak.WithHyphenator(Pairs), linebreak.WithPunctuator(separators), linebreak.WithMeasurer(para.Cells),
		linebreak.WithHyphenPenalty(150), linebreak.WithRenderHyphens(true), linebreak.WithScaleFactor(2), linebreak.WithTolerance(3))
	add("punctuator-commas", func(c *para.Config) { c.Punctuate = commas }, linebreak.WithPunctuator(commas))
	add("punctuator-halves", func(c *para.Config) { c.Punctuate = halves }, linebreak.WithPunctuator(halves))
	add("looseness-2", func(c *para.Config) {}, linebreak.WithLooseness(2))
	add("looseness--1", func(c *para.Config) {}, linebreak.WithLooseness(-1))
	add("word-break-off-and-on", func(c *para.Config) {}, linebreak.WithWordBreak(false), linebreak.WithWordBreak(true))
	add("hyphenator-then-no-word-break", func(c *para.Config) { c.WordBreak = false }, linebreak.WithHyphenator(Each), linebreak.WithWordBreak(false))
	add("hyphen-without-width", func(c *para.Config) { c.Measure = flat }, linebreak.WithMeasurer(flat))

	return out
}

func half(in []rune) float64 { return float64(len(in)) / 2 }

// Half measures, which are whole once scaled: a fraction of a width counts.
func Half() *Setting {
	c := para.Default()
	c.Name, c.Measure, c.Scale, c.Hyphenate, c.Tolerance = "half measures, scale 2", half, 2, Pairs, 20
	all := []linebreak.Option{linebreak.WithMeasurer(half), linebreak.WithScaleFactor(2), linebreak.WithHyphenator(Pairs), linebreak.WithTolerance(20)}

	return &Setting{Config: c, Opts: func() []linebreak.Option { return all }}
}

// Choices are options with what they change, for lists of options.
func Choices() (names []string, tunes []func(c *para.Config), opts []func() linebreak.Option) {
	add := func(name string, tune func(c *para.Config), opt func() linebreak.Option) {
		names, tunes, opts = append(names, name), append(tunes, tune), append(opts, opt)
	}
	for _, v := range []float64{0.4, 3, 20000} {
		v := v
		add(fmt.Sprintf("Tolerance(%v)", v), func(c *para.Config) { c.Tolerance = v }, func() linebreak.Option { return linebreak.WithTolerance(v) })
	}
	for _, v := range []float64{-150, 0, 900} {
		v := v
		add(fmt.Sprintf("HyphenPenalty(%v)", v), func(c *para.Config) { c.HyphenPenalty, c.Flagged = v, v }, func() linebreak.Option { return linebreak.WithHyphenPenalty(v) })
	}
	for _, v := range []float64{1, 4} {
		v := v
		add(fmt.Sprintf("ScaleFactor(%v)", v), func(c *para.Config) { c.Scale = v }, func() linebreak.Option { return linebreak.WithScaleFactor(v) })
	}
	for _, v := range []bool{false, true} {
		v := v
		add(fmt.Sprintf("WordBreak(%t)", v), func(c *para.Config) { c.WordBreak = v }, func() linebreak.Option { return linebreak.WithWordBreak(v) })
		add(fmt.Sprintf("RenderHyphens(%t)", v), func(c *para.Config) { c.RenderHyphens = v }, func() linebreak.Option { return linebreak.WithRenderHyphens(v) })
	}
	add("Hyphenator(each)", func(c *para.Config) { c.Hyphenate, c.WordBreak = Each, true }, func() linebreak.Option { return linebreak.WithHyphenator(Each) })
	add("Hyphenator(pairs)", func(c *para.Config) { c.Hyphenate, c.WordBreak = Pairs, true }, func() linebreak.Option { return linebreak.WithHyphenator(Pairs) })
	add("Punctuator(whole)", func(c *para.Config) { c.Punctuate = whole }, func() linebreak.Option { return linebreak.WithPunctuator(whole) })
	add("Punctuator(commas)", func(c *para.Config) { c.Punctuate = commas }, func() linebreak.Option { return linebreak.WithPunctuator(commas) })
	add("Measurer(twice)", func(c *para.Config) { c.Measure = twice }, func() linebreak.Option { return linebreak.WithMeasurer(twice) })
	add("Measurer(uneven)", func(c *para.Config) { c.Measure = uneven }, func() linebreak.Option { return linebreak.WithMeasurer(uneven) })
	add("Looseness(1)", func(c *para.Config) {}, func() linebreak.Option { return linebreak.WithLooseness(1) })

	return names, tunes, opts
}

// separators is the default punctuator.
func separators(word []rune) [][]rune { return ref.Isolate(word, ref.IsSeparator) }

// commas isolates commas only.
func commas(word []rune) [][]rune {
	return ref.Isolate(word, func(r rune) bool { return r == ',' })
}

// halves cuts words in two.
func halves(word []rune) [][]rune {
	if len(word) < 2 {
		return [][]rune{word}
	}
	n := len(word) / 2

	return [][]rune{word[:n:n], word[n:]}
}

// flat does not count hyphens.
func flat(in []rune) float64 {
	w := 0.0
	for _, r := range in {
		if r != '-' {
			w++
		}
	}

	return w
}

// Plain is the line breaker without any option.
func Plain() *Setting {
	return &Setting{Config: para.Default(), Opts: func() []linebreak.Option { return nil }}
}

// Loose settings, in which any short line will do.
func Loose() []*Setting {
	var out []*Setting
	for _, scale := range []float64{1, 3} {
		c := para.Default()
		c.Name, c.Hyphenate, c.Scale, c.Tolerance = fmt.Sprintf("loose, scale %v", scale), Pairs, scale, math.MaxFloat64
		all := []linebreak.Option{linebreak.WithHyphenator(Pairs), linebreak.WithScaleFactor(scale), linebreak.WithTolerance(math.MaxFloat64)}
		out = append(out, &Setting{Config: c, Opts: func() []linebreak.Option { return all }})
	}

	return out
}

// fine measures are large, and differ by little.
func fine(in []rune) float64 {
	w := 0.0
	for _, r := range in {
		w += 1e6 + float64(r%3)
	}

	return w
}

// Fine settings, in which runes have almost the same large measure, and any short line will do.
func Fine() []*Setting {
	var out []*Setting
	for _, scale := range []float64{1, 3} {
		c := para.Default()
		c.Name, c.Hyphenate, c.Scale, c.Tolerance, c.Measure = fmt.Sprintf("fine measures, scale %v", scale), Pairs, scale, math.MaxFloat64, fine
		all := []linebreak.Option{linebreak.WithHyphenator(Pairs), linebreak.WithScaleFactor(scale), linebreak.WithTolerance(math.MaxFloat64), linebreak.WithMeasurer(fine)}
		out = append(out, &Setting{Config: c, Opts: func() []linebreak.Option { return all }})
	}

	return out
}

// Product of the options: every combination of a few values of each.
func Product() []*Setting {
	type choice struct {
		name string
		tune func(c *para.Config)
		opts []linebreak.Option
	}
	tolerance := func(v float64) choice {
		return choice{fmt.Sprintf("tolerance-%v", v), func(c *para.Config) { c.Tolerance = v }, []linebreak.Option{linebreak.WithTolerance(v)}}
	}
	penalty := func(v float64) choice {
		return choice{fmt.Sprintf("penalty-%v", v), func(c *para.Config) { c.HyphenPenalty, c.Flagged = v, v }, []linebreak.Option{linebreak.WithHyphenPenalty(v)}}
	}
	scale := func(v float64) choice {
		return choice{fmt.Sprintf("scale-%v", v), func(c *para.Config) { c.Scale = v }, []linebreak.Option{linebreak.WithScaleFactor(v)}}
	}
	none := choice{"", func(*para.Config) {}, nil}
	axes := [][]choice{
		{none, tolerance(0.5), tolerance(100)},
		{none, {"no-render", func(c *para.Config) { c.RenderHyphens = false }, []linebreak.Option{linebreak.WithRenderHyphens(false)}}},
		{none, penalty(-50), penalty(-400), penalty(0), penalty(9000)},
		{none, scale(3), scale(10)},
		{none, {"twice", func(c *para.Config) { c.Measure = twice }, []linebreak.Option{linebreak.WithMeasurer(twice)}},
			{"uneven", func(c *para.Config) { c.Measure = uneven }, []linebreak.Option{linebreak.WithMeasurer(uneven)}}},
		{none, {"each", func(c *para.Config) { c.Hyphenate = Each }, []linebreak.Option{linebreak.WithHyphenator(Each)}},
			{"no-word-break", func(c *para.Config) { c.WordBreak = false }, []linebreak.Option{linebreak.WithWordBreak(false)}}},
		{none, {"no-punctuator", func(c *para.Config) { c.Punctuate = whole }, []linebreak.Option{linebreak.WithPunctuator(whole)}}},
	}
	var (
		out  []*Setting
		walk func(axis int, picked []choice)
	)
	walk = func(axis int, picked []choice) {
		if axis < len(axes) {
			for _, c := range axes[axis] {
				walk(axis+1, append(picked[:len(picked):len(picked)], c))
			}

			return
		}
		c := para.Default()
		c.Name, c.Hyphenate = "", Pairs
		all := []linebreak.Option{linebreak.WithHyphenator(Pairs)}
		for _, p := range picked {
			if p.name != "" {
				c.Name += p.name + " "
			}
			p.tune(&c)
			all = append(all, p.opts...)
		}
		out = append(out, &Setting{Config: c, Opts: func() []linebreak.Option { return all }})
	}
	walk(0, nil)

	return out
}
