package main

import (
	"fmt"

	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ref"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/scen"
)

func propC03() mc.Property {
	return mc.Property{
		ID: "C03", Level: modelChecking, Assumptions: concurrencyAssumptions,
		Rule: "one case per execution (a schedule, a history, or one call in a long history); non-trivial: the schedule is not the default one, the history has several operations, the call follows a different one",
		Spaces: func(t mc.Tier) []mc.Space {
			deep := t == mc.Thorough
			few := []string{"width//4e2d", "width//2e3b", "widths/", "widths/ea", "width/ea3/f8", "width//f8", "string/eaemoji", "width/eaemoji/2764", "width/emoji/2764", "widths/amb3", "string/", "ambiguous"}
			all := append(opsWith("width/", "widths/", "string/"), "ambiguous")
			spaces := []mc.Space{
				cold("cold", few, t.Pick(2, 3), []string{"every-width"}),
				warm("pairs", all, 2),
				warm("triples", all, t.Pick(3, 3)),
				warm("long", few, t.Pick(5, 6)),
				neighbours(t.Pick(5, 1)),
				sameBuffer(t),
				optionLists(),
			}
			modes := []mode{statements}
			if deep {
				modes = append(modes, mode{name: "twice", cap: 2, bound: 1}, mode{name: "statements2", cap: 1, bound: 2})
			}
			spaces = append(spaces, schedules("schedules", "C03", deep, modes, 16, nil))
			modes = []mode{race1}
			if deep {
				modes = append(modes, mode{name: "race2", race: true, heavy: true, cap: 1, bound: 2})
			}
			spaces = append(spaces, schedules("schedules-race", "C03", deep, modes, 16, nil))
			modes = []mode{shared2}
			if deep {
				modes = append(modes, mode{name: "shared3", heavy: true, cap: 2, bound: 2})
			}

			return append(spaces, schedules("schedules-shared", "C03", deep, modes, 16, nil))
		},
	}
}

// neighbours: each rune is measured after runes that differ from it by one bit or one unit, and under
// settings that differ.
func neighbours(step int) mc.Space {
	names := []string{"", "ea3", "eaemoji", "amb3"}

	return mc.Space{
		Name:  "neighbours",
		Bound: fmt.Sprintf("every rune that is 0 modulo %d or below U+3000, measured just after each of the 21 runes that differ by one bit, under each pair of the settings %q", step, names),
		Run: func(w *mc.W) {
			var settings [][]runes.Option
			for _, n := range names {
				settings = append(settings, scen.WidthSettings[n]())
			}
			refs := []ref.WidthOptions{
				ref.DefaultWidth(), {EastAsian: true, AmbigWidth: 3}, {EastAsian: true, EmojiSkip: true, AmbigWidth: 1}, {AmbigWidth: 3},
			}
			var r, o rune
			var s, s2 int
			describe := func() string {
				return fmt.Sprintf("rune %#x, setting %q, measured just after %#x, setting %q", r, names[s], o, names[s2])
			}
			w.Range(0, 0x110000, 4096, func(i int) {
				if i%step != 0 && i >= 0x3000 {
					return
				}
				r = rune(i)
				w.Describe(describe)
				w.Tick()
				if s = 0; ref.Class(r) != 0 {
					w.NonTrivial()
				}
				for s = range settings {
					want := ref.Width(r, refs[s])
					for s2 = range settings {
						if s > 0 && s2 > 0 && s != s2 { // any two settings only for a few
							continue
						}
						for k := -1; k < 21; k++ {
							o = r
							if k >= 0 {
								o = r ^ 1<<k
							}
							runes.Width(o, settings[s2]...)
							if got := runes.Width(r, settings[s]...); got != want {
								w.Failf("Width = %d, want %d", got, want)
							}
							w.State()
							w.Step(1)
						}
					}
					w.Outcome(uint64(want))
				}
			})
		},
	}
}
