package main

import (
	"fmt"
	"strings"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/lb"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/scen"
)

type job struct {
	tokens []string
	width  float64
}

func (j job) String() string { return fmt.Sprintf("%q at %v", j.tokens, j.width) }

// given is where the tokens of all paragraphs are put: a caller may reuse a slice, which may be the start of a
// longer one, and do what it likes with the lines it gets.
var given [64]string

func (j job) do(l *linebreak.LineBreaker) string {
	for i := copy(given[:], j.tokens); i < len(given); i++ {
		given[i] = "~"
	}
	lines, err := l.LeftAlignUniform(given[:len(j.tokens)], j.width)
	for i, x := range given {
		if i < len(j.tokens) && x != j.tokens[i] || i >= len(j.tokens) && x != "~" {
			panic(fmt.Sprintf("the %d tokens given are the start of a longer slice: the one at %d has become %q", len(j.tokens), i, x))
		}
	}
	out := fmt.Sprintf("%q %v", lines, err)
	for i := range lines {
		lines[i] = "?"
	}

	return out
}

func jobs() []job {
	var out []job
	for _, p := range []string{
		"a", "incomprehensibilities", "one two", "one, two (three) four-five", "\x1b[1mbold", "\x1b[31mred \x1b[1mboth\x1b[0m\x1b[0m none",
		"end\x1b[0m of nothing", "\x1b[1m \x1b[0m a", "In olden times when wishing still helped one there lived a king",
		"one \x1b[4mtwo three four\x1b[0m five", "a b c d e f g a-b c,d e f g h i",
	} {
		for _, width := range []float64{3, 8, 14} {
			out = append(out, job{strings.Split(p, " "), width})
		}
	}
	out = append(out, job{nil, 5}, job{[]string{"a"}, 0})
	// paragraphs that look like another one: the same runes with other tokens, the same tokens in another
	// order, one other rune, another style, almost the same width
	for _, p := range []string{
		"on etwo", "onetwo", "two one", "ona two", "o\x1b[1mne two", "one, tw (othree) four-five", "one, two (three) four-fiwe",
		"one, two (three) fourfive-", "incomprehensibilitiez", "incomprehensibliities", "three four one \x1b[4mtwo\x1b[0m five",
	} {
		out = append(out, job{strings.Split(p, " "), 8})
	}

	for _, width := range []float64{7.5, 6.5, 3.5, 3, 2.5} { // a fraction counts with half measures
		out = append(out, job{[]string{"one", "two"}, width})
	}

	return append(out,
		job{[]string{"one", "two"}, 7}, job{[]string{"one", "two"}, 6.99}, job{[]string{"one", "", "two"}, 8}, job{[]string{"one two"}, 8})
}

// lineSettings are those of the histories.
func lineSettings() []*lb.Setting {
	return append(append([]*lb.Setting{lb.Plain()}, lb.Settings()...), lb.Half())
}

// lineOp is what an operation "lines:SETTING:PARAGRAPH" does, with a new line breaker.
func lineOp(name string) string {
	var s, j int
	if _, err := fmt.Sscanf(name, "lines:%d:%d", &s, &j); err != nil {
		panic(err)
	}

	return jobs()[j].do(lineSettings()[s].New())
}

// lineBase is what each paragraph gives under a setting: the same in two new processes, in which new line
// breakers do the paragraphs in opposite orders.
type lineBase map[int][]string

func (b lineBase) of(w *mc.W, s int) []string {
	if b[s] != nil {
		return b[s]
	}
	n := len(jobs())
	var ops, back []string
	for j := 0; j < n; j++ {
		ops = append(ops, fmt.Sprintf("lines:%d:%d", s, j))
		back = append(back, fmt.Sprintf("lines:%d:%d", s, n-1-j))
	}
	got, rev := inProcess(w, ops...), inProcess(w, back...)
	for j := range got {
		if got[j] != rev[n-1-j] {
			w.Failf("setting %s, %s, new line breakers in new processes: gave %s when the paragraphs are set in order, %s in the reverse order", lineSettings()[s].Name, jobs()[j], got[j], rev[n-1-j])
		}
		if strings.HasPrefix(got[j], "panic: ") {
			w.Failf("setting %s, %s: %s", lineSettings()[s].Name, jobs()[j], got[j])
		}
	}
	b[s] = got

	return got
}

// reuse: one line breaker for a long history of paragraphs.
func reuse(n int) mc.Space {
	all := jobs()
	settings := lineSettings()
	picked := []int{0, 1, 3, 4, 10, len(settings) - 1}

	return mc.Space{
		Name:  "reuse",
		Bound: fmt.Sprintf("for each of %d settings, one line breaker and one history in which all sequences of %d of %d paragraphs follow each other (some cannot be set, some leave contexts open), compared with new line breakers in new processes", len(picked), n, len(all)),
		Run: func(w *mc.W) {
			base := lineBase{}
			for _, k := range picked {
				k, s := k, settings[k]
				w.Unit(func() {
					want := base.of(w, k)
					seq := sequence(len(all), n)
					l := s.New()
					at := 0
					w.Describe(func() string {
						var last []string
						for k := at - 2; k <= at; k++ {
							if k >= 0 {
								last = append(last, all[seq[k]].String())
							}
						}

						return fmt.Sprintf("%s: paragraph %d of the history, the last ones being %s", s.Name, at, strings.Join(last, ", "))
					})
					for at = range seq {
						w.Tick()
						w.Step(1)
						i := seq[at]
						if got := all[i].do(l); got != want[i] {
							w.Failf("gave %s; a new line breaker gives %s", got, want[i])
						}
						if at >= n-1 {
							w.State()
						}
						if at > 0 && seq[at-1] != i {
							w.NonTrivial()
						}
						if at < 4*len(all) {
							w.Outcome(uint64(mc.NewHash().Str(want[i])))
						}
					}
				})
			}
		},
	}
}

// manyJobs are all paragraphs of 1 to n tokens, at some widths.
func manyJobs(n int) []job {
	words := []string{"a", "bb", "ccc,", "dd-e", "fghijklmn", "(op)", "\x1b[1mqr\x1b[0m", "\x1b[4mst"}
	var (
		out  []job
		toks []string
		walk func()
	)
	walk = func() {
		for _, width := range []float64{3, 5, 9} {
			if len(toks) > 0 {
				out = append(out, job{append([]string{}, toks...), width})
			}
		}
		if len(toks) == n {
			return
		}
		for _, x := range words {
			toks = append(toks, x)
			walk()
			toks = toks[:len(toks)-1]
		}
	}
	walk()

	return out
}

// manyBack sets all these paragraphs in the reverse order, each with a new line breaker: an operation
// "many:SETTING:TOKENS".
func manyBack(name string) string {
	var s, n int
	if _, err := fmt.Sscanf(name, "many:%d:%d", &s, &n); err != nil {
		panic(err)
	}
	all := manyJobs(n)
	out := make([]string, len(all))
	for i := len(all) - 1; i >= 0; i-- {
		out[i] = all[i].do(lineSettings()[s].New())
	}

	return strings.Join(out, "\x00")
}

// manyParagraphs: one line breaker asked many paragraphs.
func manyParagraphs(n int) mc.Space {
	settings := lineSettings()
	picked := []int{0, 1, 3, 4, 10, len(settings) - 1}
	all := manyJobs(n)

	return mc.Space{
		Name:  "many-paragraphs",
		Bound: fmt.Sprintf("for each of %d settings, one line breaker and one history of the %d paragraphs of up to %d tokens over 8 at widths 3, 5 and 9, each set twice in a row, then all again in steps of 1009 paragraphs, compared with new line breakers that set them in the reverse order in a new process", len(picked), len(all), n),
		Run: func(w *mc.W) {
			for _, k := range picked {
				k, s := k, settings[k]
				w.Unit(func() {
					w.Slow()
					want := strings.Split(inProcess(w, fmt.Sprintf("many:%d:%d", k, n))[0], "\x00")
					if len(want) != len(all) {
						w.Failf("%s: the paragraphs set in the reverse order in a new process gave %d results instead of %d: %s", s.Name, len(want), len(all), want[0])
					}
					l := s.New()
					at, last := 0, 0
					w.Describe(func() string {
						return fmt.Sprintf("%s: %s, after %d other paragraphs, the last one being %s", s.Name, all[at], last, all[(at+len(all)-1)%len(all)])
					})
					try := func() {
						w.Tick()
						w.Step(1)
						if got := all[at].do(l); got != want[at] {
							w.Failf("gave %s; a new line breaker in a new process gives %s", got, want[at])
						}
						last++
					}
					for at = range all {
						w.State()
						try()
						try()
						w.NonTrivial()
						w.Outcome(uint64(mc.NewHash().Str(want[at])))
					}
					for i := range all {
						at = i * 1009 % len(all)
						try()
					}
				})
			}
		},
	}
}

// interleaved: two line breakers built from the same options, used in turns.
func interleaved() mc.Space {
	all := jobs()
	settings := lineSettings()

	return mc.Space{
		Name:  "several",
		Bound: fmt.Sprintf("for every pair of %d settings, two line breakers created one after the other and used in turns on every paragraph of %d, compared with new line breakers in new processes", len(settings), len(all)),
		Run: func(w *mc.W) {
			base := lineBase{}
			for i1, s := range settings {
				for i2, s2 := range settings {
					i1, i2, s, s2 := i1, i2, s, s2
					w.Unit(func() {
						want := [][]string{base.of(w, i1), base.of(w, i2)}
						var where string
						w.Describe(func() string { return where })
						w.Tick()
						w.NonTrivial()
						l, l2 := s.New(), s2.New()
						h := mc.NewHash()
						for n, j := range all {
							for k, b := range []*linebreak.LineBreaker{l, l2} {
								where = fmt.Sprintf("line breakers %s and %s, %s with the one numbered %d", s.Name, s2.Name, j, k)
								got := j.do(b)
								w.State()
								w.Step(1)
								if got != want[k][n] {
									w.Failf("gave %s; a new line breaker in a new process gives %s", got, want[k][n])
								}
								h = h.Str(got)
							}
						}
						w.Outcome(uint64(h))
					})
				}
			}
		},
	}
}

// again: a paragraph with many equally good ways of being set gives the same lines every time.
func again(n, times int) mc.Space {
	words := []string{"a", "bb", "ccc,", "dd-e", "fghi"}
	settings := lb.Settings()
	settings = []*lb.Setting{settings[0], settings[9], settings[11]}

	return mc.Space{
		Name:  "again",
		Bound: fmt.Sprintf("every paragraph of up to %d tokens over %q at widths 3 to 10, settings %s %s %s, set %d times with new line breakers", n, words, settings[0].Name, settings[1].Name, settings[2].Name, times),
		Run: func(w *mc.W) {
			for _, s := range settings {
				s := s
				w.Words(len(words), 1, n, 2, func(seq []int) {
					j := job{}
					for _, i := range seq {
						j.tokens = append(j.tokens, words[i])
					}
					for width := 3; width <= 10; width++ {
						j.width = float64(width)
						w.Describe(func() string { return s.Name + ": " + j.String() })
						w.Tick()
						w.State()
						first := j.do(s.New())
						for k := 1; k < times; k++ {
							w.Step(1)
							if got := j.do(s.New()); got != first {
								w.Failf("gave %s, the first time it gave %s", got, first)
							}
						}
						if len(seq) > 1 {
							w.NonTrivial()
						}
						w.Outcome(uint64(mc.NewHash().Str(first)))
					}
				})
			}
		},
	}
}

func propC23() mc.Property {
	return mc.Property{
		ID: "C23", Level: modelChecking, Assumptions: concurrencyAssumptions,
		Rule: "one case per execution (a schedule, or one paragraph in a history); non-trivial: the schedule is not the default one, the paragraph follows a different one, or has several tokens",
		Spaces: func(t mc.Tier) []mc.Space {
			thorough := t == mc.Thorough
			alone := func(s *scen.Scenario) bool { return len(s.Threads) == 1 }
			several := func(s *scen.Scenario) bool { return len(s.Threads) > 1 }
			orders := []mode{
				{name: "orders", heavy: true, cap: 8, bound: t.Pick(1, 2)},
				{name: "orders-reversed", heavy: true, cap: 8, bound: t.Pick(1, 2), reversed: true},
			}
			spaces := []mc.Space{
				reuse(t.Pick(3, 4)), manyParagraphs(t.Pick(4, 5)), interleaved(), linesWithin(t), again(t.Pick(4, 5), 3),
				schedules("map-orders", "C23", thorough, orders, 1, alone),
				schedules("schedules", "C23", thorough, []mode{statements}, 16, several),
			}
			spaces = append(spaces, schedules("schedules-race", "C23", thorough, []mode{race1}, 16, several))
			if thorough {
				spaces = append(spaces, schedules("schedules-shared", "C23", true, []mode{shared2}, 64, several))
			}

			return spaces
		},
	}
}
