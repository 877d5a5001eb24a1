package main

import (
	"fmt"
	"unicode"

	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ref"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
)

// within: predicates that split another text themselves.
func within(t mc.Tier) mc.Space {
	letters := []rune{'a', ' ', ','}
	inner := [][]rune{[]rune("a"), []rune(" b c "), []rune("d,e, f,g,h i j k l m n o p q")}
	depth := t.Pick(6, 8)

	return mc.Space{
		Name:  "within",
		Bound: fmt.Sprintf("FieldsFunc on all sequences of 1 to %d runes over %s with a predicate that, when called for each of the runes in turn, splits one of %d other texts, with FieldsFunc or with a tokenizer, or calls FieldsFunc again on the same text", depth, q(letters), len(inner)),
		Run: func(w *mc.W) {
			var (
				buf   []rune
				at, k int
				tok   = tokenizer.New()
			)
			w.Words(len(letters), 1, depth, 2, func(seq []int) {
				buf = pick(letters, seq, buf)
				w.Describe(func() string { return fmt.Sprintf("%s, the call %d of the predicate splits text %d", q(buf), at, k) })
				want := ref.Fields(buf, unicode.IsSpace)
				for at = 0; at < len(buf); at++ {
					for k = 0; k <= 2*len(inner); k++ {
						w.Tick()
						w.State()
						calls := 0
						got := runes.FieldsFunc(buf, func(r rune) bool {
							if calls == at {
								var other, wantOther [][]rune
								switch {
								case k == 2*len(inner):
									other, wantOther = runes.FieldsFunc(buf, unicode.IsSpace), want
								case k >= len(inner):
									other, wantOther = tok.BreakWord(inner[k-len(inner)]), ref.Fields(inner[k-len(inner)], unicode.IsSpace)
								default:
									other, wantOther = runes.FieldsFunc(inner[k], unicode.IsPunct), ref.Fields(inner[k], unicode.IsPunct)
								}
								w.Step(1)
								if !eqParts(other, wantOther) {
									w.Failf("the predicate got %s, want %s", qq(other), qq(wantOther))
								}
							}
							calls++

							return unicode.IsSpace(r)
						})
						w.Step(1)
						if !eqParts(got, want) {
							w.Failf("FieldsFunc = %s, want %s", qq(got), qq(want))
						}
						if len(got) > 1 {
							w.NonTrivial()
						}
						w.Outcome(hashParts(got))
					}
				}
			})
		},
	}
}
