// Command trie decides C11 on the internal rune trie.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/internal/trie"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
)

func main() { mc.Main([]mc.Property{propC11()}) }

type op struct {
	kind byte // 'p' put, 'd' delete, 'n' put nil
	key  string
	val  int
}

func (o op) String() string {
	switch o.kind {
	case 'p':
		return fmt.Sprintf("Put(%q,%d)", o.key, o.val)
	case 'n':
		return fmt.Sprintf("Put(%q,nil)", o.key)
	default:
		return fmt.Sprintf("Delete(%q)", o.key)
	}
}

// model of a trie: a map; hadNil is set once a nil value was put, for what nodes exist is then unspecified.
type model struct {
	m      map[string]int
	hadNil bool
}

// run applies a history, comparing every answer, then every lookup after the last operation (after each of
// them when all is set).
func run(w *mc.W, hist []op, probes []string, all bool) {
	var t trie.Trier = trie.NewRuneTrie()
	md := model{m: map[string]int{}}
	h := mc.NewHash()
	nt := false
	buf := make([]rune, 0, 64) // keys are passed in a buffer that is reused: the trie may not hold on to it

	key := func(s string) []rune {
		full := buf[:cap(buf)]
		for i := range full {
			full[i] = '~'
		}
		if len(s) > cap(buf) {
			return []rune(s)
		}
		buf = buf[:0]
		for _, r := range s {
			buf = append(buf, r)
		}

		return buf
	}

	gets := func(after int) {
		for _, p := range probes {
			w.Step(1)
			got := t.Get(key(p))
			v, ok := md.m[p]
			if ok != (got != nil) || (ok && got != interface{}(v)) {
				w.Failf("after %d operations Get(%q) = %v, want %v (present: %v)", after, p, got, v, ok)
			}
		}
	}

	for i, o := range hist {
		w.Step(1)
		switch o.kind {
		case 'p', 'n':
			_, had := md.m[o.key]
			var isNew bool
			if o.kind == 'p' {
				isNew = t.Put(key(o.key), o.val)
				md.m[o.key] = o.val
			} else {
				isNew = t.Put(key(o.key), nil)
				delete(md.m, o.key)
				md.hadNil = true
			}
			if isNew == had {
				w.Failf("operation %d, %s = %v, the key held a value: %v", i+1, o, isNew, had)
			}
			nt = nt || had
		case 'd':
			under := o.key == ""
			for k := range md.m {
				under = under || strings.HasPrefix(k, o.key)
			}
			got := t.Delete(key(o.key))
			if got != under && !md.hadNil {
				w.Failf("operation %d, %s = %v, the key or an extension of it held a value: %v", i+1, o, got, under)
			}
			delete(md.m, o.key)
			nt = nt || under
		}
		if all {
			gets(i + 1)
		}
	}
	if !all {
		gets(len(hist))
	}

	keys := make([]string, 0, len(md.m))
	for k := range md.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		h = h.Str(k).Add(uint64(md.m[k]))
	}
	w.Outcome(uint64(h))
	if nt {
		w.NonTrivial()
	}
}

func histories(name string, keys []string, extra []string, kinds string, min, depth int) mc.Space {
	var ops []op
	for _, k := range keys {
		for _, c := range kinds {
			switch c {
			case 'p':
				ops = append(ops, op{'p', k, 1})
			case 'P':
				ops = append(ops, op{'p', k, 2})
			case 'd':
				ops = append(ops, op{'d', k, 0})
			case 'n':
				ops = append(ops, op{'n', k, 0})
			}
		}
	}
	probes := append(append([]string{}, keys...), extra...)

	return mc.Space{
		Name:  name,
		Bound: fmt.Sprintf("every history of %d to %d operations out of %d (kinds %q on keys %q), all %d keys and neighbours looked up afterwards", min, depth, len(ops), kinds, keys, len(probes)),
		Run: func(w *mc.W) {
			hist := make([]op, 0, depth)
			desc := func() string { return fmt.Sprint(hist) }
			w.Words(len(ops), min, depth, 2, func(seq []int) {
				hist = hist[:0]
				for _, s := range seq {
					hist = append(hist, ops[s])
				}
				w.Describe(desc)
				w.Tick()
				w.State()
				run(w, hist, probes, false)
			})
		},
	}
}

// subsets puts every subset of a family of nested keys, then deletes in every order of a second choice.
func subsets(keys []string) mc.Space {
	return mc.Space{
		Name:  "subsets",
		Bound: fmt.Sprintf("every subset of %q put, in order and in reverse, then every ordered pair and triple deleted, looking everything up after every operation", keys),
		Run: func(w *mc.W) {
			n := len(keys)
			var hist []op
			desc := func() string { return fmt.Sprint(hist) }
			w.Range(0, 1<<n, 8, func(mask int) {
				for rev := 0; rev < 2; rev++ {
					base := []op{}
					for j := 0; j < n; j++ {
						i := j
						if rev == 1 {
							i = n - 1 - j
						}
						if mask&(1<<i) != 0 {
							base = append(base, op{'p', keys[i], i + 1})
						}
					}
					for a := 0; a < n; a++ {
						for b := 0; b < n; b++ {
							for c := 0; c < n; c++ {
								hist = append(append([]op{}, base...), op{'d', keys[a], 0}, op{'d', keys[b], 0}, op{'d', keys[c], 0})
								w.Describe(desc)
								w.Tick()
								w.State()
								run(w, hist, keys, true)
							}
						}
					}
				}
			})
		},
	}
}

// fan checks a node with n children.
func fan(w *mc.W, n int, prefix []rune, order int) {
	tr := trie.NewRuneTrie()
	held := map[rune]int{}
	child := func(i int) rune { return rune('a' + i*3) }
	at := func(order, i int) int {
		switch order {
		case 1:
			return n - 1 - i
		case 2:
			if i%2 == 0 {
				return i / 2
			}

			return n - 1 - i/2
		}

		return i
	}
	key := func(r rune) []rune { return append(append(make([]rune, 0, 8), prefix...), r) }
	check := func(i int, what string) {
		for j := i - 1; j <= i+1; j++ {
			for d := rune(-1); d <= 1; d++ {
				r := child(j) + d
				w.Step(1)
				v, ok := held[r]
				if got := tr.Get(key(r)); ok != (got != nil) || ok && got != interface{}(v) {
					w.Failf("after %s of child %d: Get of rune %#x = %v, want %d (%v)", what, i, r, got, v, ok)
				}
			}
		}
	}
	full := func(what string) {
		for j := -1; j <= n; j++ {
			r := child(j)
			w.Step(1)
			v, ok := held[r]
			if got := tr.Get(key(r)); ok != (got != nil) || ok && got != interface{}(v) {
				w.Failf("after %s: Get of child %d = %v, want %d (%v)", what, j, got, v, ok)
			}
		}
	}
	for i := 0; i < n; i++ {
		c := at(order, i)
		if !tr.Put(key(child(c)), c+1) {
			w.Failf("Put of child %d replaces a value", c)
		}
		held[child(c)] = c + 1
		check(c, "Put")
	}
	full("all puts")
	for del := 0; del < 3; del++ {
		for i := 0; i < n; i++ {
			c := at(del, i)
			if !tr.Delete(key(child(c))) {
				w.Failf("Delete of child %d is false", c)
			}
			delete(held, child(c))
			check(c, "Delete")
			if del == 1 {
				long := append(key(child(c)), 'x')
				w.Step(6)
				if tr.Delete(key(child(c))) {
					w.Failf("Delete of child %d, deleted before, is true", c)
				}
				if !tr.Put(long, -1) || tr.Get(long) != interface{}(-1) || tr.Get(key(child(c))) != nil {
					w.Failf("a grandchild put below child %d, deleted before: it is %v, the child is %v", c, tr.Get(long), tr.Get(key(child(c))))
				}
				if !tr.Delete(key(child(c))) || tr.Get(long) != interface{}(-1) || !tr.Delete(long) || tr.Get(long) != nil || tr.Delete(long) {
					w.Failf("deletes of child %d and of a grandchild below it", c)
				}
				check(c, "Deletes below")
			}
			if i == n/2 || i == n-1 {
				full("half or all deletes")
			}
		}
		for i := 0; i < n; i++ {
			c := at(order, i)
			if !tr.Put(key(child(c)), -c-1) {
				w.Failf("Put again of child %d replaces a value", c)
			}
			held[child(c)] = -c - 1
		}
		full("all puts again")
	}
	if n > 1 {
		w.NonTrivial()
	}
}

func propC11() mc.Property {
	return mc.Property{
		ID: "C11", Level: "model_checking",
		Rule: "one case per operation history; non-trivial: an operation meets an existing value",
		Assumptions: []string{
			"values are comparable and not nil except where stated; after a nil value was put, what Delete returns is not checked (the package documents that a nil value cannot be told from none)",
			"no concurrent access (documented)",
		},
		Spaces: func(t mc.Tier) []mc.Space {
			return []mc.Space{
				histories("small-keys", []string{"", "a", "b", "ab", "aba", "ba"}, []string{"aa", "abb", "abab", "c", "bab"}, "pPd", 0, t.Pick(6, 7)),
				histories("chain", []string{"a", "abc", "abcde", "abd"}, []string{"", "ab", "abcd", "abcdef", "x"}, "pd", 6, t.Pick(8, 9)),
				histories("wide", []string{"x", "xa", "xb", "xc", "xab"}, []string{"", "xd", "xba"}, "pd", 5, t.Pick(6, 7)),
				histories("nil-values", []string{"", "a", "ab", "b"}, []string{"aa", "abb"}, "pnd", 0, t.Pick(6, 7)),
				histories("unicode", []string{"é", "e\u0301", "\x00", "\U0010FFFF", "字"}, []string{"", "e", "\x01", "字字"}, "pd", 0, t.Pick(6, 7)),
				subsets([]string{"", "a", "ab", "abc", "abcd", "abce", "b", "bc"}),
				{
					Name:  "long-keys",
					Bound: "keys of every length from 0 to 300, and of 500, 511 to 513, 1000, 1001, 1023 to 1025, 2048 and 4096, that are prefixes of each other, each put, looked up with all others, and each deleted",
					Run: func(w *mc.W) {
						var ends []int
						for i := 0; i <= 300; i++ {
							ends = append(ends, i)
						}
						ends = append(ends, 500, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 4096)
						w.Range(0, len(ends), 1, func(at int) {
							n := ends[at]
							w.Describe(func() string { return fmt.Sprintf("prefixes of length %d, and all others", n) })
							long := []rune(strings.Repeat("abcdé", 820))
							w.Tick()
							w.State()
							tr := trie.NewRuneTrie()
							for _, i := range ends {
								if !tr.Put(long[:i], i) {
									w.Failf("Put of prefix %d replaces a value", i)
								}
							}
							if !tr.Delete(long[:n]) {
								w.Failf("Delete of prefix %d is false", n)
							}
							for _, i := range ends {
								w.Step(1)
								got := tr.Get(long[:i])
								if (i == n) != (got == nil) || (i != n && got != interface{}(i)) {
									w.Failf("Get of prefix %d = %v", i, got)
								}
							}
							for at := len(ends) - 1; at >= 0; at-- {
								i := ends[at]
								if got := tr.Delete(long[:i]); !got && i != n {
									w.Failf("Delete of prefix %d is %v", i, got)
								}
								for to := 0; to < len(ends); to += 7 {
									j := ends[to]
									w.Step(1)
									if got := tr.Get(long[:j]); (j < i && j != n) != (got != nil) {
										w.Failf("after deleting prefixes down to %d, Get of prefix %d = %v", i, j, got)
									}
								}
							}
							w.NonTrivial()
						})
					},
				},
				{
					Name:  "fan-out",
					Bound: "nodes with every number of children up to 300, at the root and below, children put in order, in reverse and interleaved; every child looked up, then every one deleted in 3 orders (once with a second delete, and a grandchild put and deleted below) and put again, looking up neighbours and periodically everything",
					Run: func(w *mc.W) {
						w.Range(1, 301, 4, func(n int) {
							for _, prefix := range []string{"", "ab"} {
								for order := 0; order < 3; order++ {
									w.Describe(func() string { return fmt.Sprintf("%d children below %q, order %d", n, prefix, order) })
									w.Tick()
									w.State()
									fan(w, n, []rune(prefix), order)
								}
							}
						})
					},
				},
				{
					Name:  "colliding-runes",
					Bound: "for every rune value below 0x800 and around 0x2000, 0xD800 and 0xFFFF, a trie with the runes that equal it modulo 2^7, 2^8, 2^16 and 2^20, as first and as second rune; each deleted in turn",
					Run: func(w *mc.W) {
						w.Range(0, 0x900, 16, func(i int) {
							base := rune(i)
							switch {
							case i >= 0x880:
								base = rune(0xFFC0 + i - 0x880)
							case i >= 0x840:
								base = rune(0xD800 + i - 0x840)
							case i >= 0x800:
								base = rune(0x2000 + i - 0x800)
							}
							w.Describe(func() string { return fmt.Sprintf("base rune %#x", base) })
							runes := []rune{base}
							for _, sh := range []uint{7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 20, 24, 31} {
								for _, k := range []int64{1, 2, 3, -1} {
									r := rune(int32(int64(base) + k<<sh))
									dup := false
									for _, o := range runes {
										dup = dup || o == r
									}
									if !dup {
										runes = append(runes, r)
									}
								}
							}
							tr := trie.NewRuneTrie()
							w.Tick()
							w.State()
							w.NonTrivial()
							for j, r := range runes {
								if !tr.Put([]rune{r}, j) || !tr.Put([]rune{1 << 21, r}, -j-1) {
									w.Failf("Put of rune %#x replaces a value", r)
								}
							}
							for d := -1; d < len(runes); d++ {
								if d >= 0 && (!tr.Delete([]rune{runes[d]}) || !tr.Delete([]rune{1 << 21, runes[d]})) {
									w.Failf("Delete of rune %#x is false", runes[d])
								}
								for j, r := range runes {
									w.Step(2)
									a, b := tr.Get([]rune{r}), tr.Get([]rune{1 << 21, r})
									if j <= d && (a != nil || b != nil) || j > d && (a != interface{}(j) || b != interface{}(-j-1)) {
										w.Failf("after %d deletions Get of rune %#x = %v, %v", d+1, r, a, b)
									}
								}
							}
						})
					},
				},
				{
					Name:  "values",
					Bound: "all sequences of up to 3 puts of values of 14 kinds (zero values, typed nils, values that cannot be compared) on two nested keys, then a delete of either",
					Run: func(w *mc.W) {
						vals := []interface{}{0, 1, "", "x", false, 0.0, (*int)(nil), []int(nil), []int{1}, map[string]int{}, func() {}, struct{}{}, [1][]int{}, error(nil)}
						keys := []string{"a", "ab"}
						same := func(a, b interface{}) bool {
							return fmt.Sprintf("%T %p %v", a, a, a) == fmt.Sprintf("%T %p %v", b, b, b)
						}
						w.Words(2*len(vals), 1, 3, 1, func(seq []int) {
							w.Describe(func() string { return fmt.Sprintf("puts %v (2*value+key), then a delete", seq) })
							for del := 0; del < 2; del++ {
								w.Tick()
								w.State()
								tr := trie.NewRuneTrie()
								held := map[string]interface{}{}
								for _, k := range seq {
									key, v := keys[k%2], vals[k/2]
									if isNew := tr.Put([]rune(key), v); isNew != (held[key] == nil) {
										w.Failf("Put(%q, %v) = %v", key, v, isNew)
									}
									held[key] = v
									for _, key := range keys {
										w.Step(1)
										if got := tr.Get([]rune(key)); !same(got, held[key]) {
											w.Failf("Get(%q) = %#v, want %#v", key, got, held[key])
										}
									}
								}
								tr.Delete([]rune(keys[del]))
								delete(held, keys[del])
								for _, key := range keys {
									w.Step(1)
									if got := tr.Get([]rune(key)); !same(got, held[key]) {
										w.Failf("after Delete(%q), Get(%q) = %#v, want %#v", keys[del], key, got, held[key])
									}
								}
								w.NonTrivial()
							}
						})
					},
				},
				{
					Name:  "all-runes",
					Bound: "every rune value from -2 to 0x110001 as first and as second rune of keys held at once in one trie (blocks of 65536)",
					Run: func(w *mc.W) {
						w.Range(0, 18, 1, func(block int) {
							w.Describe(func() string { return fmt.Sprintf("block %d", block) })
							tr := trie.NewRuneTrie()
							lo, hi := block<<16-2, block<<16+1<<16-2
							for i := lo; i < hi; i++ {
								w.Tick()
								w.State()
								w.Step(2)
								if !tr.Put([]rune{rune(i)}, i) || !tr.Put([]rune{'a', rune(i)}, -i-5) && i != 'a' {
									w.Failf("Put of rune %#x replaces a value", i)
								}
							}
							for i := lo; i < hi; i++ {
								w.Step(2)
								if tr.Get([]rune{rune(i)}) != interface{}(i) || tr.Get([]rune{'a', rune(i)}) != interface{}(-i-5) {
									w.Failf("Get of rune %#x = %v, %v", i, tr.Get([]rune{rune(i)}), tr.Get([]rune{'a', rune(i)}))
								}
							}
							w.NonTrivial()
						})
					},
				},
			}
		},
	}
}
