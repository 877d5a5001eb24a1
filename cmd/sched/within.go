package main

import (
	"fmt"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
)

// linesWithin: paragraphs set, with another line breaker, by the functions that a line breaker is given.
func linesWithin(t mc.Tier) mc.Space {
	all := jobs()
	var outer, inner []int
	for j, x := range all {
		if x.width == 8 || t == mc.Thorough {
			outer = append(outer, j)
			if len(inner) < t.Pick(6, 12) {
				inner = append(inner, j)
			}
		}
	}

	return mc.Space{
		Name:  "within",
		Bound: fmt.Sprintf("%d paragraphs set by a line breaker whose measurer, hyphenator and punctuator are those by default, but set each of %d paragraphs with another line breaker at each of their calls in turn (the first 400); compared with new line breakers in new processes", len(outer), len(inner)),
		Run: func(w *mc.W) {
			base := lineBase{}
			for _, o := range outer {
				o := o
				w.Unit(func() {
					want := base.of(w, 0)
					var (
						at, calls int
						busy      bool
						do        int
					)
					w.Describe(func() string { return fmt.Sprintf("%s; call %d sets %s", all[o], at, all[do]) })
					h := hyphenator.New(hyphenator.WithMinLength(4))
					p := punctuator.New()
					hook := func() {
						calls++
						if calls != at || busy {
							return
						}
						busy = true
						lines, err := linebreak.New().LeftAlignUniform(append([]string{}, all[do].tokens...), all[do].width)
						busy = false
						w.Step(1)
						if got := fmt.Sprintf("%q %v", lines, err); got != want[do] {
							w.Failf("the paragraph set meanwhile gave %s; a new line breaker in a new process gives %s", got, want[do])
						}
					}
					opts := []linebreak.Option{
						linebreak.WithMeasurer(func(in []rune) float64 { hook(); return float64(runes.Widths(in)) }),
						linebreak.WithHyphenator(func(in []rune) [][]rune { hook(); return h.BreakWord(in) }),
						linebreak.WithPunctuator(func(in []rune) [][]rune { hook(); return p.BreakWord(in) }),
					}
					for at = 0; at <= calls && at <= 400; at++ {
						for _, do = range inner {
							w.Tick()
							w.State()
							w.Step(1)
							calls = 0
							got := all[o].do(linebreak.New(opts...))
							if got != want[o] {
								w.Failf("gave %s; a new line breaker in a new process gives %s", got, want[o])
							}
							if at > 0 {
								w.NonTrivial()
							}
							w.Outcome(uint64(mc.NewHash().Str(got)))
						}
					}
				})
			}
		},
	}
}
