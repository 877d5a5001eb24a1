package main

import (
	"fmt"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
)

// turns: two iterators over one state, and one over another state, advanced in every order.
func turns(n int) mc.Space {
	set := []attrShape{{start: true, text: true}, {stop: true, text: true}, {start: true, stop: true, text: true}, {text: true}}

	return mc.Space{
		Name:  "turns",
		Bound: fmt.Sprintf("every list of up to %d renderers (start, stop, start and stop, plain), a second list of the same length, and every order in which three iterators (two over the first list, created before or after the other one has moved, and one over the second list) move to their ends, with First instead of Iterator too; items, levels, EndOfLine and StartOfLine at every move", n),
		Run: func(w *mc.W) {
			w.Words(len(set), 1, n, 2, func(seq []int) {
				c := newAttrCase(seq, set)
				back := make([]int, len(seq))
				for i := range seq {
					back[i] = seq[len(seq)-1-i]
				}
				d := newAttrCase(back, set)
				st, sd := c.push(), d.push()
				moves := make([]int, 0, 16)
				first := false
				w.Describe(func() string {
					return fmt.Sprintf("first list %v, second list %v, iterators moved in the order %v, First %v", c, d, moves, first)
				})
				orders(3, len(seq), func(order []int) {
					w.Tick()
					w.State()
					for _, first = range []bool{false, true} {
						moves = moves[:0]
						var its [3]*attributes.StateIterator
						cases := [3]*attrCase{c, c, d}
						at := [3]int{-1, -1, -1}
						for _, m := range order {
							moves = append(moves, m)
							if its[m] == nil {
								switch {
								case m == 2:
									its[m] = sd.Iterator()
								case first && m == 1:
									its[m], at[m] = st.First(), 0
								default:
									its[m] = st.Iterator()
								}
							}
							if more := its[m].Next(); more != (at[m]+1 < len(cases[m].items)) {
								w.Failf("iterator %d: Next is %v", m, more)
							}
							at[m]++
							for k, it := range its {
								if it == nil {
									continue
								}
								w.Step(1)
								if at[k] >= len(cases[k].items) {
									if it.Item() != nil {
										w.Failf("iterator %d: an item after the last", k)
									}

									continue
								}
								if at[k] < 0 {
									continue
								}
								if it.Item() != cases[k].items[at[k]] {
									w.Failf("iterator %d is not at item %d", k, at[k])
								}
								if got, want := it.Item().Level(), cases[k].level[at[k]]; got != want {
									w.Failf("iterator %d: level of item %d is %d, want %d", k, at[k], got, want)
								}
								if k == m {
									if got, want := written(it.EndOfLine), cases[k].endOfLine(at[k]); got != want {
										w.Failf("iterator %d: EndOfLine after item %d writes %q, want %q", k, at[k], got, want)
									}
									if got, want := written(it.StartOfLine), cases[k].startOfLine(at[k]); got != want {
										w.Failf("iterator %d: StartOfLine after item %d writes %q, want %q", k, at[k], got, want)
									}
								}
							}
						}
					}
					w.NonTrivial()
				})
				w.Outcome(uint64(len(c.closer)))
			})
		},
	}
}

// orders of k threads of n moves each.
func orders(k, n int, f func([]int)) {
	left := make([]int, k)
	for i := range left {
		left[i] = n
	}
	var seq []int
	var rec func()
	rec = func() {
		done := true
		for i := range left {
			if left[i] == 0 {
				continue
			}
			done = false
			left[i]--
			seq = append(seq, i)
			rec()
			seq = seq[:len(seq)-1]
			left[i]++
		}
		if done {
			f(seq)
		}
	}
	rec()
}

// lateStops: a stop set on the last renderer, between two ends of line at the same position.
func lateStops(n int) mc.Space {
	set := []attrShape{{start: true, text: true}, {stop: true, text: true}, {start: true, stop: true, text: true}, {text: true}}

	return mc.Space{
		Name:  "late-stops",
		Bound: fmt.Sprintf("every list of up to %d renderers (start, stop, start and stop, plain): at every position, EndOfLine and StartOfLine, once more, then again with the same iterator after a stop is set on the last renderer (when it has none, or another one than before)", n),
		Run: func(w *mc.W) {
			w.Words(len(set), 1, n, 2, func(seq []int) {
				last := set[seq[len(seq)-1]]
				stopped := last
				stopped.stop = true
				for at := range seq {
					at := at
					c := newAttrCase(seq, set)
					after := newAttrCase(seq, append(append([]attrShape{}, set...), stopped))
					if !last.stop {
						s2 := append(append([]int{}, seq[:len(seq)-1]...), len(set))
						after = newAttrCase(s2, append(append([]attrShape{}, set...), stopped))
					}
					k := len(seq) - 1
					after.stop[k] = "</late>"
					w.Describe(func() string { return fmt.Sprintf("%v at item %d", c, at) })
					w.Tick()
					w.State()
					st := c.push()
					it := st.Iterator()
					for j := 0; j <= at; j++ {
						it.Next()
					}
					check := func(when string, c *attrCase) {
						for times := 0; times < 2; times++ {
							w.Step(2)
							if got, want := written(it.EndOfLine), c.endOfLine(at); got != want {
								w.Failf("%s: EndOfLine writes %q, want %q", when, got, want)
							}
							if got, want := written(it.StartOfLine), c.startOfLine(at); got != want {
								w.Failf("%s: StartOfLine writes %q, want %q", when, got, want)
							}
						}
					}
					check("before the late stop", c)
					c.items[k].SetStop([]rune("</late>"))
					check("after the late stop", after)
					if len(c.opened[at]) > 0 {
						w.NonTrivial()
					}
					w.Outcome(uint64(len(c.opened[at])<<8 | len(after.opened[at])))
				}
			})
		},
	}
}
