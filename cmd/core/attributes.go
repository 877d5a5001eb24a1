package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/fredbi/go-typeset/attributes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
)

// attrShape is what one pushed renderer looks like.
type attrShape struct {
	null, start, stop, text bool
}

func (s attrShape) String() string {
	if s.null {
		return "nil"
	}
	out := ""
	if s.start {
		out += "S"
	}
	if s.text {
		out += "t"
	}
	if s.stop {
		out += "P"
	}
	if out == "" {
		return "-"
	}

	return out
}

var attrShapes = func() []attrShape {
	out := []attrShape{{null: true}}
	for m := 0; m < 8; m++ {
		out = append(out, attrShape{start: m&1 != 0, stop: m&2 != 0, text: m&4 != 0})
	}

	return out
}()

// attrCase is a history of pushes, with what the specification says of it.
type attrCase struct {
	shapes []attrShape
	items  []attributes.Renderer // non nil ones
	start  []string              // per non nil item
	stop   []string
	text   []string
	level  []int
	opened [][]int // per item, the items that opened the contexts still open after it, outermost first
	closer map[int]int
}

var seqText = [...]string{"a", "é字", "zz", "🙂", "q", "w", "e", "r", "t", "y"}

func newAttrCase(seq []int, set []attrShape) *attrCase {
	return newAttrCaseOf(seq, set, 0)
}

// foreign is an implementation of a renderer of its own.
type foreign struct {
	level             int
	text, start, stop string
}

func (f *foreign) Start(w runesio.Writer) { _, _ = w.WriteRunes([]rune(f.start)) }
func (f *foreign) Stop(w runesio.Writer)  { _, _ = w.WriteRunes([]rune(f.stop)) }
func (f *foreign) Runes() []rune          { return []rune(f.text) }
func (f *foreign) Level() int             { return f.level }
func (f *foreign) SetLevel(l int)         { f.level = l }
func (f *foreign) HasStart() bool         { return f.start != "" }
func (f *foreign) HasStop() bool          { return f.stop != "" }
func (f *foreign) SetStop(s []rune)       { f.stop = string(s) }
func (f *foreign) Render(w runesio.Writer) {
	f.Start(w)
	_, _ = w.WriteRunes([]rune(f.text))
	f.Stop(w)
}

// newAttrCaseOf: kinds has bit k set when item k is a foreign renderer.
func newAttrCaseOf(seq []int, set []attrShape, kinds uint) *attrCase {
	return newAttrCaseNamed(seq, set, kinds, func(pos int) int { return pos })
}

// newAttrCaseNamed: renderers of the same name have the same start and stop sequences.
func newAttrCaseNamed(seq []int, set []attrShape, kinds uint, name func(pos int) int) *attrCase {
	c := &attrCase{closer: map[int]int{}}
	var open []int
	for pos, s := range seq {
		sh := set[s]
		c.shapes = append(c.shapes, sh)
		if sh.null {
			continue
		}
		k := len(c.items)
		st, sp, tx := "", "", ""
		if sh.start {
			st = fmt.Sprintf("<%d>", name(pos))
		}
		if sh.stop {
			sp = fmt.Sprintf("</%d>", name(pos))
		}
		if sh.text {
			tx = seqText[pos%len(seqText)]
		}
		var a attributes.Renderer
		if kinds>>(uint(k)%64)&1 == 1 {
			a = &foreign{text: tx, start: st, stop: sp}
		} else if k%2 == 1 && sh.stop {
			// the stop may also be set afterwards
			a = attributes.New([]rune(tx), []rune(st), nil)
		} else {
			a = attributes.New([]rune(tx), []rune(st), []rune(sp))
		}
		c.items = append(c.items, a)
		c.start, c.stop, c.text = append(c.start, st), append(c.stop, sp), append(c.text, tx)

		if sh.start {
			open = append(open, k)
		}
		c.level = append(c.level, len(open))
		if sh.stop {
			if len(open) > 0 { // else closes nothing
				c.closer[open[len(open)-1]] = k
				open = open[:len(open)-1]
			}
		}
		c.opened = append(c.opened, append([]int(nil), open...))
	}

	return c
}

func (c *attrCase) push() *attributes.State {
	st := attributes.NewState()
	k := 0
	for _, sh := range c.shapes {
		if sh.null {
			st.Push(nil)

			continue
		}
		st.Push(c.items[k])
		if sh.stop && !c.items[k].HasStop() {
			c.items[k].SetStop([]rune(c.stop[k]))
		}
		k++
	}

	return st
}

func (c *attrCase) String() string {
	var out []string
	for _, s := range c.shapes {
		out = append(out, s.String())
	}

	return strings.Join(out, " ")
}

func written(f func(w runesio.Writer)) string {
	var b bytes.Buffer
	f(runesio.AsRunesWriter(&b))

	return b.String()
}

func propC17() mc.Property {
	return mc.Property{
		ID: "C17", Level: modelChecking,
		Rule: "non-trivial: at least two non-nil renderers and at least one start or stop",
		Spaces: func(t mc.Tier) []mc.Space {
			n := t.Pick(7, 8)

			return []mc.Space{{
				Name:  "push-histories",
				Bound: fmt.Sprintf("every sequence of up to %d pushes over {nil} + {start?}x{stop?}x{text?}; two interleaved iterators, rendering of every item and of the collection, with nil members", n),
				Run: func(w *mc.W) {
					w.Words(len(attrShapes), 0, n, 2, func(seq []int) {
						c := newAttrCase(seq, attrShapes)
						w.Describe(func() string { return c.String() })
						w.Tick()
						w.State()
						checkAttrList(w, c)
					})
				},
			}, {
				Name:  "nesting-depth",
				Bound: fmt.Sprintf("every sequence of %d to %d pushes over start, stop, start and stop, plain", n+1, n+3),
				Run: func(w *mc.W) {
					set := []attrShape{{start: true, text: true}, {stop: true, text: true}, {start: true, stop: true, text: true}, {text: true}}
					w.Words(len(set), n+1, n+3, 3, func(seq []int) {
						c := newAttrCase(seq, set)
						w.Describe(func() string { return c.String() })
						w.Tick()
						w.State()
						checkAttrList(w, c)
					})
				},
			}, {
				Name:  "foreign-renderers",
				Bound: "every sequence of up to 4 pushes over {nil} + {start?}x{stop?}x{text?}, every choice of which are another implementation of a renderer",
				Run: func(w *mc.W) {
					w.Words(len(attrShapes), 0, 4, 2, func(seq []int) {
						for kinds := uint(1); kinds < 1<<uint(len(seq)); kinds++ {
							c := newAttrCaseOf(seq, attrShapes, kinds)
							w.Describe(func() string { return fmt.Sprintf("%v kinds %b", c, kinds) })
							w.Tick()
							w.State()
							checkAttrList(w, c)
						}
					})
				},
			}, {
				Name:  "long",
				Bound: longBound,
				Run:   longCases(t, checkAttrList),
			}, sameSequences(t.Pick(5, 6), checkAttrList), spans(checkAttrList), turns(t.Pick(3, 4))}
		},
	}
}

// sameSequences are lists in which several renderers have the same start and stop sequences.
func sameSequences(n int, check func(*mc.W, *attrCase)) mc.Space {
	return mc.Space{
		Name:  "same-sequences",
		Bound: fmt.Sprintf("every sequence of up to %d pushes over {start?}x{stop?}x{text?}, all with the same start and stop sequences, and with two of each: alternating, in pairs, the first one against all others, the last one against all others", n),
		Run: func(w *mc.W) {
			names := []func(pos int) int{
				func(pos int) int { return 0 },
				func(pos int) int { return pos % 2 },
				func(pos int) int { return pos / 2 % 2 },
				func(pos int) int {
					if pos == 0 {
						return 0
					}

					return 1
				},
				nil,
			}
			w.Words(len(attrShapes)-1, 0, n, 2, func(seq []int) {
				for k, name := range names {
					if name == nil {
						name = func(pos int) int {
							if pos == len(seq)-1 {
								return 0
							}

							return 1
						}
					}
					for kinds := uint(0); kinds < 2; kinds++ {
						c := newAttrCaseNamed(seq, attrShapes[1:], -kinds, name)
						w.Describe(func() string { return fmt.Sprintf("%v naming %d, another implementation: %d", c, k, kinds) })
						w.Tick()
						w.State()
						check(w, c)
					}
				}
			})
		},
	}
}

// longCases are long and deep lists.
const longBound = "deep and long lists (starts then stops, then text; starts then plain; pairs in a row; staircases; stray stops first), every size up to 70 and sizes around 128, 256, 300, 500, 512, 1000, 1024 and 2000 (lists of more than 700 items are broken at some positions: around the ends, the quarters and every 97)"

func longCases(t mc.Tier, check func(*mc.W, *attrCase)) func(w *mc.W) {
	set := []attrShape{{start: true, text: true}, {stop: true, text: true}, {start: true, stop: true, text: true}, {text: true}, {null: true}}
	rep := func(k int, what ...int) []int {
		var out []int
		for i := 0; i < k; i++ {
			out = append(out, what...)
		}

		return out
	}
	cat := func(parts ...[]int) []int {
		var out []int
		for _, p := range parts {
			out = append(out, p...)
		}

		return out
	}
	makers := []func(k int) []int{
		func(k int) []int { return cat(rep(k, 0), rep(k, 1), []int{3, 3}) },
		func(k int) []int { return cat(rep(k, 0), rep(k, 3)) },
		func(k int) []int { return cat([]int{0}, rep(k, 3), []int{1, 3}) },
		func(k int) []int { return cat([]int{0}, rep(k, 0, 1), []int{3, 1, 3}) },
		func(k int) []int { return cat([]int{0}, rep(k, 2), []int{3, 1, 3}) },
		func(k int) []int { return cat(rep(k, 0, 4, 3, 2), rep(k, 3, 1, 2), []int{3}) },
		func(k int) []int { return cat(rep(k, 1), rep(2, 0, 0, 3), rep(k, 1), []int{3, 0, 3}) },
		func(k int) []int { return cat(rep(k, 0, 0, 1), []int{3}, rep(k, 1), []int{3}) },
	}

	return func(w *mc.W) {
		var sizes []int
		for k := 0; k <= 70; k++ {
			sizes = append(sizes, k)
		}
		sizes = append(sizes, 99, 100, 101, 126, 127, 128, 129, 130, 199, 200, 201, 254, 255, 256, 257, 258, 300, 301,
			499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000)
		for m, mk := range makers {
			for _, k := range sizes {
				m, k, mk := m, k, mk
				w.Unit(func() {
					c := newAttrCase(mk(k), set)
					w.Describe(func() string { return fmt.Sprintf("maker %d size %d", m, k) })
					w.Tick()
					w.State()
					w.Slow()
					check(w, c)
				})
			}
		}
	}
}

// spans: contexts in long lists of renderers without any.
func spans(check func(*mc.W, *attrCase)) mc.Space {
	set := []attrShape{{start: true, text: true}, {stop: true, text: true}, {start: true, stop: true, text: true}, {text: true}, {start: true}, {stop: true}, {}}
	sizes := []int{63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 258, 512, 513, 600}

	return mc.Space{
		Name:  "spans",
		Bound: fmt.Sprintf("lists of up to 24 renderers with text alone, or with nothing, in which one context opens at every place and closes at every later one, alone or within another one that spans the list, closed or not; of up to 12, in which two contexts open and close at every four places; and of %v, with one context, its ends at 16 places", sizes),
		Run: func(w *mc.W) {
			var seq []int
			plain := 3
			mark := func(i, j int) {
				if i == j {
					seq[i] = 2
				} else if plain == 3 {
					seq[i], seq[j] = 0, 1
				} else {
					seq[i], seq[j] = 4, 5
				}
			}
			try := func() {
				c := newAttrCase(seq, set)
				w.Describe(c.String)
				w.Tick()
				w.State()
				check(w, c)
			}
			fill := func(n int) {
				seq = seq[:0]
				for k := 0; k < n; k++ {
					seq = append(seq, plain)
				}
			}
			one := func(n, i, j int) {
				for outer := 0; outer < 3; outer++ {
					for _, plain = range []int{3, 6} {
						fill(n)
						mark(i, j)
						if outer > 0 {
							seq = append([]int{plain - 3 + plain/6}, seq...)
						}
						if outer > 1 {
							seq = append(seq, plain-2+plain/6)
						}
						try()
					}
				}
			}
			for n := 1; n <= 24; n++ {
				for i := 0; i < n; i++ {
					n, i := n, i
					w.Unit(func() {
						for j := i; j < n; j++ {
							one(n, i, j)
						}
					})
				}
			}
			for n := 4; n <= 12; n++ {
				n := n
				w.Unit(func() {
					for i := 0; i < n; i++ {
						for j := i + 1; j < n; j++ {
							for k := j + 1; k < n; k++ {
								for l := k + 1; l < n; l++ {
									for form := 0; form < 4; form++ {
										plain = 3 + form%2*3
										fill(n)
										if form < 2 {
											mark(i, j)
											mark(k, l)
										} else {
											mark(i, l)
											mark(j, k)
										}
										try()
									}
								}
							}
						}
					}
				})
			}
			for _, n := range sizes {
				n := n
				w.Unit(func() {
					at := []int{0, 1, 2, n / 4, n/2 - 1, n / 2, 3 * n / 4, n - 3, n - 2, n - 1}
					for p := 32; p < n && p <= 256; p *= 2 {
						at = append(at, p-1, p)
					}
					for _, i := range at {
						for _, j := range at {
							if i <= j {
								w.Slow()
								one(n, i, j)
							}
						}
					}
				})
			}
		},
	}
}

func checkAttrList(w *mc.W, c *attrCase) {
	// pushes and an iteration may alternate: an iterator yields what is pushed while it walks
	st := c.push()
	h := mc.NewHash()

	for name, it := range map[string]*attributes.StateIterator{"Iterator": st.Iterator()} {
		for k := 0; ; k++ {
			w.Step(1)
			more := it.Next()
			if more != (k < len(c.items)) {
				w.Failf("%s: Next #%d is %v, with %d renderers pushed", name, k+1, more, len(c.items))
			}
			if !more {
				break
			}
			if got := it.Item(); got != c.items[k] {
				w.Failf("%s: item %d is not the renderer pushed at that place: %v", name, k, got)
			}
			if got := it.Item().Level(); got != c.level[k] {
				w.Failf("%s: level of item %d is %d, want %d", name, k, got, c.level[k])
			}
			h = h.Add(uint64(c.level[k]))
		}
		if it.Item() != nil {
			w.Failf("%s: an item after the last", name)
		}
		if it.Next() {
			w.Failf("%s: Next is true again after the end", name)
		}
	}

	// First is positioned on the first item
	if len(c.items) > 0 {
		it := st.First()
		other := st.Iterator() // iterators are independent
		for k := 0; ; k++ {
			w.Step(1)
			if it.Item() != c.items[k] {
				w.Failf("First: item %d is not the renderer pushed at that place", k)
			}
			if !other.Next() || other.Item() != c.items[k] {
				w.Failf("second iterator: item %d is not the renderer pushed at that place", k)
			}
			if more := it.Next(); more != (k+1 < len(c.items)) {
				w.Failf("First: Next after item %d is %v", k, more)
			} else if !more {
				break
			}
		}
	} else if st.First().Item() != nil || st.Iterator().Next() || st.First().Next() {
		w.Failf("an empty state yields an item")
	}

	// rendering
	var all, starts, stops string
	coll := make(attributes.Renderers, 0, len(c.shapes))
	k := 0
	for _, sh := range c.shapes {
		if sh.null {
			coll = append(coll, nil)

			continue
		}
		a := c.items[k]
		coll = append(coll, a)
		want := c.start[k] + c.text[k] + c.stop[k]
		w.Step(3)
		if got := written(a.Render); got != want {
			w.Failf("Render of item %d writes %q, want %q", k, got, want)
		}
		if got := written(a.Start); got != c.start[k] {
			w.Failf("Start of item %d writes %q, want %q", k, got, c.start[k])
		}
		if got := written(a.Stop); got != c.stop[k] {
			w.Failf("Stop of item %d writes %q, want %q", k, got, c.stop[k])
		}
		if a.HasStart() != sh.start || a.HasStop() != sh.stop || string(a.Runes()) != c.text[k] {
			w.Failf("item %d: HasStart %v HasStop %v Runes %q", k, a.HasStart(), a.HasStop(), string(a.Runes()))
		}
		all += want
		starts += c.start[k]
		stops += c.stop[k]
		k++
	}
	w.Step(3)
	if got := written(coll.Render); got != all {
		w.Failf("Renderers.Render writes %q, want %q", got, all)
	}
	if got := written(coll.Start); got != starts {
		w.Failf("Renderers.Start writes %q, want %q", got, starts)
	}
	if got := written(coll.Stop); got != stops {
		w.Failf("Renderers.Stop writes %q, want %q", got, stops)
	}

	w.Outcome(uint64(h.Add(uint64(len(c.items)))))
	if len(c.items) > 1 && starts+stops != "" {
		w.NonTrivial()
	}
}

func propC18() mc.Property {
	return mc.Property{
		ID: "C18", Level: modelChecking,
		Rule: "non-trivial: at least one position with an open context",
		Assumptions: []string{
			"a stop with no open context closes nothing; contexts never closed have no stop sequence to write",
		},
		Spaces: func(t mc.Tier) []mc.Space {
			n := t.Pick(9, 10)
			set := []attrShape{{start: true, text: true}, {stop: true, text: true}, {start: true, stop: true, text: true}, {text: true}}
			all := t.Pick(6, 7)

			return []mc.Space{{
				Name:  "all-shapes",
				Bound: fmt.Sprintf("every sequence (stray stops included) of up to %d pushes over {nil} + {start?}x{stop?}x{text?}; EndOfLine and StartOfLine at every position, on a fresh iterator and on one that breaks everywhere", all),
				Run: func(w *mc.W) {
					w.Words(len(attrShapes), 0, all, 2, func(seq []int) {
						c := newAttrCase(seq, attrShapes)
						w.Describe(func() string { return c.String() })
						w.Tick()
						w.State()
						checkAttrLines(w, c)
					})
				},
			}, {
				Name:  "nesting",
				Bound: fmt.Sprintf("every sequence (stray stops included) of up to %d pushes over start, stop, start and stop, plain", n),
				Run: func(w *mc.W) {
					w.Words(len(set), 0, n, 3, func(seq []int) {
						c := newAttrCase(seq, set)
						w.Describe(func() string { return c.String() })
						w.Tick()
						w.State()
						checkAttrLines(w, c)
					})
				},
			}, {
				Name:  "deep",
				Bound: fmt.Sprintf("every sequence of starts and stops alone of %d to %d pushes", n+1, n+4),
				Run: func(w *mc.W) {
					w.Words(2, n+1, n+4, 3, func(seq []int) {
						c := newAttrCase(seq, set[:2])
						w.Describe(func() string { return c.String() })
						w.Tick()
						w.State()
						checkAttrLines(w, c)
					})
				},
			}, {
				Name:  "foreign-renderers",
				Bound: "every sequence of up to 4 pushes over {nil} + {start?}x{stop?}x{text?}, every choice of which are another implementation of a renderer",
				Run: func(w *mc.W) {
					w.Words(len(attrShapes), 0, 4, 2, func(seq []int) {
						for kinds := uint(1); kinds < 1<<uint(len(seq)); kinds++ {
							c := newAttrCaseOf(seq, attrShapes, kinds)
							w.Describe(func() string { return fmt.Sprintf("%v kinds %b", c, kinds) })
							w.Tick()
							w.State()
							checkAttrLines(w, c)
						}
					})
				},
			}, {
				Name:  "long",
				Bound: longBound,
				Run:   longCases(t, checkAttrLines),
			}, sameSequences(t.Pick(5, 6), checkAttrLines), spans(checkAttrLines), turns(t.Pick(3, 4)), lateStops(t.Pick(6, 8))}
		},
	}
}

func (c *attrCase) endOfLine(k int) string {
	var out strings.Builder
	for i := len(c.opened[k]) - 1; i >= 0; i-- {
		if cl, ok := c.closer[c.opened[k][i]]; ok {
			out.WriteString(c.stop[cl])
		}
	}

	return out.String()
}

func (c *attrCase) startOfLine(k int) string {
	var out strings.Builder
	for _, o := range c.opened[k] {
		out.WriteString(c.start[o])
	}

	return out.String()
}

// looked: in a very long list, only some positions are looked at.
func (c *attrCase) looked(k int) bool {
	n := len(c.items)
	if n <= 700 || k < 3 || n-k <= 3 || k%97 == 0 {
		return true
	}
	for _, p := range []int{n / 4, n / 3, n / 2, 2 * n / 3, 3 * n / 4} {
		if k >= p-2 && k <= p+2 {
			return true
		}
	}

	return false
}

func checkAttrLines(w *mc.W, c *attrCase) {
	st := c.push()
	h := mc.NewHash()

	check := func(name string, it *attributes.StateIterator, k int) {
		w.Step(2)
		want := c.endOfLine(k)
		if got := written(it.EndOfLine); got != want {
			w.Failf("%s: EndOfLine after item %d writes %q, want %q", name, k, got, want)
		}
		want = c.startOfLine(k)
		if got := written(it.StartOfLine); got != want {
			w.Failf("%s: StartOfLine after item %d writes %q, want %q", name, k, got, want)
		}
		if it.Item() != c.items[k] {
			w.Failf("%s: the iterator moved at item %d", name, k)
		}
	}

	it := st.Iterator()
	w.Step(2)
	if got := written(it.StartOfLine); got != "" {
		w.Failf("StartOfLine before the iteration starts writes %q", got)
	}
	if got := written(it.EndOfLine); got != "" {
		w.Failf("EndOfLine before the iteration starts writes %q", got)
	}

	nt := false
	for k := 0; it.Next(); k++ {
		if k >= len(c.items) {
			w.Failf("more items than pushed")
		}
		if c.looked(k) {
			check("breaking everywhere", it, k)
		}
		nt = nt || len(c.opened[k]) > 0
		h = h.Add(uint64(len(c.opened[k])))
	}

	for k := range c.items {
		if !c.looked(k) {
			continue
		}
		fresh := st.Iterator()
		for j := 0; j <= k; j++ {
			fresh.Next()
		}
		check("fresh iterator", fresh, k)
	}
	if len(c.items) > 0 {
		check("First", st.First(), 0)
	}

	w.Outcome(uint64(h))
	if nt {
		w.NonTrivial()
	}
}
