package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"unicode/utf8"

	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
)

// runes of every UTF-8 size, first and last of each, and invalid ones
var utf8Alphabet = []rune{'a', 0x7F, 0x80, 0x7FF, 0x800, 0xFFFD, 0x10000, 0x10FFFF, -1, 0xD800, 0x110000, 0xDC00, 0}

// encLen is the length of a rune once written.
func encLen(r rune) int { return len(string(r)) }

type readerOp struct {
	name   string
	kind   int // 0 read, 1 seek, 2 runes, 3 slice
	off    int64
	whence int
}

func readerOps() []readerOp {
	ops := []readerOp{{name: "ReadRune", kind: 0}}
	for _, o := range []int64{-1, 0, 1, 2, 3, 4, 5, math.MaxInt64, math.MinInt64} {
		ops = append(ops, readerOp{fmt.Sprintf("Seek(%d,start)", o), 1, o, io.SeekStart})
	}
	for _, o := range []int64{-3, -2, -1, 0, 1, 2, math.MaxInt64, math.MinInt64} {
		ops = append(ops, readerOp{fmt.Sprintf("Seek(%d,current)", o), 1, o, io.SeekCurrent})
	}
	for _, o := range []int64{-4, -2, -1, 0, 1, math.MinInt64} {
		ops = append(ops, readerOp{fmt.Sprintf("Seek(%d,end)", o), 1, o, io.SeekEnd})
	}

	return append(ops, readerOp{name: "Slice", kind: 3}, readerOp{name: "Runes", kind: 2})
}

func propC12() mc.Property {
	return mc.Property{
		ID: "C12", Level: modelChecking,
		Rule: "one case per slice of runes and operation sequence; after every operation the result, the unread runes and the position are compared with a list and a cursor; non-trivial: the sequence moves the cursor",
		Spaces: func(t mc.Tier) []mc.Space {
			ops := readerOps()
			depth := t.Pick(5, 6)
			contents := [][]rune{nil, {}, {'a'}, {0x10FFFF}, {-1}, {'a', 0x800}, {0x80, 0xD800}, {'a', 0x80, 0x800}, {0x10000, 0x110000, 'b'}, {'a', 0x80, 0x800, 0x10000}, {0xFFFD, -1, 'a', 0x7FF}}

			stepOf := func(w *mc.W, r *runesio.SliceReader, content []rune, pos *int, op readerOp, quiet bool) {
				w.Step(1)
				switch op.kind {
				case 0:
					rn, n, err := r.ReadRune()
					if *pos >= len(content) {
						if !errors.Is(err, io.EOF) || n != 0 {
							w.Failf("%s at the end = %x, %d, %v", op.name, rn, n, err)
						}
					} else {
						if err != nil || rn != content[*pos] || n != encLen(content[*pos]) {
							w.Failf("%s = 0x%X, %d, %v, want 0x%X, %d", op.name, uint32(rn), n, err, uint32(content[*pos]), encLen(content[*pos]))
						}
						*pos++
					}
				case 1:
					var base int64
					switch op.whence {
					case io.SeekCurrent:
						base = int64(*pos)
					case io.SeekEnd:
						base = int64(len(content))
					}
					got, err := r.Seek(op.off, op.whence)
					want := int64(-1)
					for p := 0; p <= len(content); p++ {
						if int64(p)-base == op.off {
							want = int64(p)
						}
					}
					if want < 0 {
						if !errors.Is(err, runesio.ErrSeekOutOfRange) {
							w.Failf("%s from %d out of range = %d, %v", op.name, *pos, got, err)
						}
					} else {
						if err != nil || got != want {
							w.Failf("%s from %d = %d, %v, want %d", op.name, *pos, got, err, want)
						}
						*pos = int(want)
					}
				case 3:
					for a := 0; a <= len(content); a++ {
						for b := a; b <= len(content); b++ {
							if got := r.Slice(a, b); !eq(got, content[a:b]) {
								w.Failf("Slice(%d,%d) at %d = %s", a, b, *pos, q(got))
							}
						}
					}
				}
				if quiet && op.kind != 2 {
					return
				}
				if got := r.Runes(); !eq(got, content[*pos:]) {
					w.Failf("after %s: unread runes = %s, want %s", op.name, q(got), q(content[*pos:]))
				}
				if p, err := r.Seek(0, io.SeekCurrent); err != nil || p != int64(*pos) {
					w.Failf("after %s: position = %d, %v, want %d", op.name, p, err, *pos)
				}
			}

			step := func(w *mc.W, r *runesio.SliceReader, content []rune, pos *int, op readerOp) {
				stepOf(w, r, content, pos, op, false)
			}

			readAll := func(w *mc.W, text []rune) {
				w.Tick()
				w.State()
				content := clone(text)
				rd := runesio.NewSliceReader(content)
				pos := 0
				for range content {
					stepOf(w, rd, content, &pos, readerOp{name: "ReadRune"}, len(content) > 8)
				}
				step(w, rd, content, &pos, readerOp{name: "ReadRune"})
				w.NonTrivial()
			}

			return []mc.Space{
				{
					Name:  "operations",
					Bound: fmt.Sprintf("all sequences of up to %d operations out of %d (reads, seeks from start, current and end with in-range, out-of-range and extreme offsets, slices) on %d slices of 0 to 4 runes", depth, len(ops), len(contents)),
					Run: func(w *mc.W) {
						for _, content := range contents {
							content := content
							w.Words(len(ops), 0, depth, 2, func(seq []int) {
								w.Describe(func() string {
									s := q(content) + ":"
									for _, k := range seq {
										s += " " + ops[k].name
									}

									return s
								})
								w.Tick()
								w.State()
								r := runesio.NewSliceReader(content)
								pos, moved := 0, false
								h := mc.NewHash()
								for _, k := range seq {
									step(w, r, content, &pos, ops[k])
									moved = moved || pos != 0
									h = h.Add(uint64(pos))
								}
								// the same, watched at the end only
								r, pos = runesio.NewSliceReader(content), 0
								for _, k := range seq {
									stepOf(w, r, content, &pos, ops[k], true)
								}
								step(w, r, content, &pos, readerOp{name: "Runes", kind: 2})
								if moved {
									w.NonTrivial()
								}
								w.Outcome(uint64(h))
							})
						}
					},
				},
				{
					Name: "offsets", Bound: "from every position of slices of 0, 1, 4 and 300 runes, every whence, offsets within 5 of every power of two up to 2^63 and their opposites",
					Run: func(w *mc.W) {
						for _, n := range []int{0, 1, 4, 300} {
							rs := make([]rune, n)
							for i := range rs {
								rs[i] = utf8Alphabet[i%len(utf8Alphabet)]
							}
							w.Range(0, n+1, 8, func(from int) {
								var op readerOp
								w.Describe(func() string { return fmt.Sprintf("%d runes, from %d, %s", n, from, op.name) })
								for whence := io.SeekStart; whence <= io.SeekEnd; whence++ {
									for bit := 0; bit < 64; bit++ {
										for d := int64(-5); d <= 5; d++ {
											for _, base := range []int64{1 << uint(bit), -(1 << uint(bit))} {
												w.Tick()
												w.State()
												rd := runesio.NewSliceReader(rs)
												if _, err := rd.Seek(int64(from), io.SeekStart); err != nil {
													w.Failf("cannot start: %v", err)
												}
												pos := from
												op = readerOp{"", 1, base + d, whence}
												op.name = "Seek"
												want := int64(-1)
												switch whence {
												case io.SeekStart:
													want = op.off
												case io.SeekCurrent:
													want = op.off + int64(from)
												case io.SeekEnd:
													want = op.off + int64(n)
												}
												overflow := op.off > math.MaxInt64-int64(n)
												got, err := rd.Seek(op.off, whence)
												w.Step(1)
												if !overflow && want >= 0 && want <= int64(n) {
													pos = int(want)
													w.NonTrivial()
													if err != nil || got != want {
														w.Failf("Seek(%d,%d) = %d, %v", op.off, whence, got, err)
													}
												} else if !errors.Is(err, runesio.ErrSeekOutOfRange) {
													w.Failf("Seek(%d,%d) out of range = %d, %v", op.off, whence, got, err)
												}
												if p, err := rd.Seek(0, io.SeekCurrent); err != nil || p != int64(pos) || !eq(rd.Runes(), rs[pos:]) {
													w.Failf("Seek(%d,%d): position %d (%v) and %d unread runes, want position %d", op.off, whence, p, err, len(rd.Runes()), pos)
												}
											}
										}
									}
								}
							})
						}
					},
				},
				specialWords(2, [][2]string{{"", ""}, {"a", "b"}}, readAll),
				oddTexts([]string{"a", "é", "字", "\U0001F600"}, []string{"a", "é", "字", "\U0001F600", "\xff"}, 12, readAll),
				{
					Name: "all-runes", Bound: "reading every rune value, invalid ones included: rune and byte size",
					Run: func(w *mc.W) {
						allRunes(w, func(r rune) {
							w.Describe(func() string { return fmt.Sprintf("rune 0x%X", uint32(r)) })
							w.Tick()
							w.State()
							content := []rune{r, 'x'}
							rd := runesio.NewSliceReader(content)
							pos := 0
							step(w, rd, content, &pos, readerOp{name: "ReadRune"})
							step(w, rd, content, &pos, readerOp{name: "ReadRune"})
							step(w, rd, content, &pos, readerOp{name: "ReadRune"})
							if r >= 0x80 || r < 0 {
								w.NonTrivial()
							}
						})
					},
				},
				{
					Name: "lengths", Bound: "reading through every length up to 300 and around powers of two and round numbers up to 131072, seeking to every position (to 300) and back",
					Run: func(w *mc.W) {
						for _, n := range lengths(300, 131072) {
							n := n
							w.Unit(func() {
								w.Describe(func() string { return fmt.Sprintf("length %d", n) })
								w.Tick()
								w.State()
								rs := make([]rune, n)
								for i := range rs {
									rs[i] = utf8Alphabet[i%len(utf8Alphabet)]
								}
								rd := runesio.NewSliceReader(rs)
								for i := 0; i < n; i++ {
									rn, sz, err := rd.ReadRune()
									if rn != rs[i] || sz != encLen(rs[i]) || err != nil {
										w.Failf("rune %d = 0x%X, %d, %v", i, uint32(rn), sz, err)
									}
								}
								if _, _, err := rd.ReadRune(); !errors.Is(err, io.EOF) {
									w.Failf("no EOF: %v", err)
								}
								w.Step(n + 1)
								for i := 0; i <= n && n <= 300; i++ {
									pos, _ := rd.Seek(0, io.SeekCurrent)
									p := int(pos)
									step(w, rd, rs, &p, readerOp{name: "seek", kind: 1, off: int64(i), whence: io.SeekStart})
									step(w, rd, rs, &p, readerOp{name: "seek", kind: 1, off: int64(-i), whence: io.SeekEnd})
								}
								for _, i := range lengths(1, n) {
									if i > n {
										continue
									}
									pos, _ := rd.Seek(0, io.SeekCurrent)
									p := int(pos)
									step(w, rd, rs, &p, readerOp{name: "seek", kind: 1, off: int64(i), whence: io.SeekStart})
									step(w, rd, rs, &p, readerOp{name: "ReadRune"})
									step(w, rd, rs, &p, readerOp{name: "seek", kind: 1, off: int64(-i), whence: io.SeekEnd})
									step(w, rd, rs, &p, readerOp{name: "ReadRune"})
									step(w, rd, rs, &p, readerOp{name: "seek", kind: 1, off: int64(-p), whence: io.SeekCurrent})
								}
								if n > 0 {
									w.NonTrivial()
								}
							})
						}
					},
				},
			}
		},
	}
}

func propC13() mc.Property {
	return mc.Property{
		ID: "C13", Level: modelChecking,
		Rule: "one case per slice of runes, reader position and list of pairs of offsets, compared with slicing the runes or the bytes of the string; non-trivial: a pair that designates at least one rune",
		Spaces: func(t mc.Tier) []mc.Space {
			depth := t.Pick(5, 6)
			alpha := []rune{'a', 0x7FF, 0x800, 0x10000, -1, 0xD800}

			check := func(w *mc.W, rd *runesio.SliceReader, rs []rune, posAt, a, b, c, d int, bounds []int) {
				w.Tick()
				w.State()
				_, _ = rd.Seek(int64(posAt), io.SeekStart)
				got := rd.Slices([]int{a, b, c, d})
				if len(got) != 2 || !eq(got[0], rs[a:b]) || !eq(got[1], rs[c:d]) {
					w.Failf("Slices(%d,%d,%d,%d) = %s", a, b, c, d, qq(got))
				}
				got = rd.SliceFromByteOffsets([]int{bounds[a], bounds[b], bounds[c], bounds[d]})
				if len(got) != 2 || !eq(got[0], rs[a:b]) || !eq(got[1], rs[c:d]) {
					w.Failf("SliceFromByteOffsets(%d,%d,%d,%d) = %s, want runes %d:%d and %d:%d", bounds[a], bounds[b], bounds[c], bounds[d], qq(got), a, b, c, d)
				}
				w.Step(2)
				if p, err := rd.Seek(0, io.SeekCurrent); err != nil || p != int64(posAt) {
					w.Failf("position moved to %d, %v", p, err)
				}
				if a < b || c < d {
					w.NonTrivial()
				}
				w.Outcome(uint64(mc.NewHash().Add(uint64(a)).Add(uint64(b)).Add(uint64(c)).Add(uint64(d))))
			}
			boundsOf := func(rs []rune) []int {
				out := []int{0}
				for _, r := range rs {
					out = append(out, out[len(out)-1]+encLen(r))
				}

				return out
			}

			around := func(w *mc.W, text []rune) {
				n, bounds := len(text), boundsOf(text)
				rd := runesio.NewSliceReader(text)
				check(w, rd, text, n/2, 0, n, n/3, n-n/3, bounds)
				for _, a := range []int{n / 4, n / 2, 3 * n / 4, n - 2, n - 1} {
					if n > 40 {
						check(w, rd, text, a, 0, a, a, a+1, bounds)
					}
				}
				if n < 41 {
					for a := 0; a < n; a++ {
						check(w, rd, text, a, a, a+1, a/2, n, bounds)
						check(w, rd, text, a, a, a, n-a, n, bounds)
					}
				}
			}
			special := specialWords(2, [][2]string{{"", ""}, {"a", "é"}, {"字", "\U0001F600"}}, around)

			return []mc.Space{
				special,
				oddTexts([]string{"a", "é", "字", "\U0001F600"}, []string{"a", "é", "字", "\U0001F600", "\xff"}, 8, around),
				{
					Name: "all-runes", Bound: "every rune value, invalid ones included, between runes of 1 to 4 bytes",
					Run: func(w *mc.W) {
						rs := []rune{'a', 0, 0x7FF, 0x800, 0x10000}
						bounds := make([]int, len(rs)+1)
						allRunes(w, func(r rune) {
							w.Describe(func() string { return fmt.Sprintf("rune 0x%X", uint32(r)) })
							rs[1] = r
							for i, x := range rs {
								bounds[i+1] = bounds[i] + encLen(x)
							}
							rd := runesio.NewSliceReader(rs)
							check(w, rd, rs, 1, 1, 2, 2, 5, bounds)
							check(w, rd, rs, 2, 0, 1, 1, 3, bounds)
						})
					},
				},
				{
					Name:  "pairs",
					Bound: fmt.Sprintf("all sequences of up to %d runes of 1 to 4 bytes or invalid, every pair of pairs of valid offsets, by runes and by bytes, from one reader at its start or its end", depth),
					Run: func(w *mc.W) {
						var buf []rune
						w.Words(len(alpha), 0, depth, 2, func(seq []int) {
							buf = pick(alpha, seq, buf)
							rs := buf
							n := len(rs)
							bounds := boundsOf(rs)
							rd := runesio.NewSliceReader(rs)
							a, b, c, d := 0, 0, 0, 0
							w.Describe(func() string { return fmt.Sprintf("%s, runes %d:%d and %d:%d", q(rs), a, b, c, d) })
							for a = 0; a <= n; a++ {
								for b = a; b <= n; b++ {
									for c = 0; c <= n; c++ {
										for d = c; d <= n; d++ {
											check(w, rd, rs, (a+b+c+d)%2*n, a, b, c, d, bounds)
										}
									}
								}
							}
						})
					},
				},
				{
					Name:  "lists",
					Bound: "all sequences of 1 to 3 runes out of 6, all lists of 3 pairs (of 4 pairs up to 2 runes) of valid offsets, by runes and by bytes",
					Run: func(w *mc.W) {
						var buf []rune
						w.Words(len(alpha), 1, 3, 1, func(seq []int) {
							buf = pick(alpha, seq, buf)
							rs, bounds := buf, boundsOf(buf)
							var pairs [][2]int
							for a := 0; a <= len(rs); a++ {
								for b := a; b <= len(rs); b++ {
									pairs = append(pairs, [2]int{a, b})
								}
							}
							k := 3
							if len(rs) <= 2 {
								k = 4
							}
							idx := make([]int, k)
							ra, ba := make([]int, 2*k), make([]int, 2*k)
							w.Describe(func() string { return fmt.Sprintf("%s, rune offsets %v", q(rs), ra) })
							for {
								w.Tick()
								w.State()
								nt := false
								for i, p := range idx {
									ra[2*i], ra[2*i+1] = pairs[p][0], pairs[p][1]
									ba[2*i], ba[2*i+1] = bounds[pairs[p][0]], bounds[pairs[p][1]]
									nt = nt || ra[2*i] < ra[2*i+1]
								}
								rd := runesio.NewSliceReader(rs)
								for what, got := range [][][]rune{rd.Slices(ra), rd.SliceFromByteOffsets(ba)} {
									w.Step(1)
									if len(got) != k {
										w.Failf("%d groups (by bytes: %t)", len(got), what == 1)
									}
									for i := range got {
										if !eq(got[i], rs[ra[2*i]:ra[2*i+1]]) {
											w.Failf("group %d is %s (by bytes: %t, offsets %v)", i, qq(got), what == 1, ba)
										}
									}
								}
								if nt {
									w.NonTrivial()
								}
								i := 0
								for ; i < k; i++ {
									if idx[i]++; idx[i] < len(pairs) {
										break
									}
									idx[i] = 0
								}
								if i == k {
									break
								}
							}
						})
					},
				},
				{
					Name: "long-lists", Bound: "on slices of 1 to 40 runes and of 300, one list with every pair of valid offsets (to 40), in order and reversed",
					Run: func(w *mc.W) {
						sizes := []int{300}
						for n := 1; n <= 40; n++ {
							sizes = append(sizes, n)
						}
						for _, n := range sizes {
							n := n
							w.Unit(func() {
								rs := make([]rune, n)
								for i := range rs {
									rs[i] = alpha[(i*5+n)%len(alpha)]
								}
								bounds := boundsOf(rs)
								w.Describe(func() string { return fmt.Sprintf("length %d", n) })
								var pairs [][2]int
								step := 1
								if n > 40 {
									step = 13
								}
								for a := 0; a <= n; a += step {
									for b := a; b <= n; b += step {
										pairs = append(pairs, [2]int{a, b})
									}
								}
								for _, rev := range []bool{false, true} {
									w.Tick()
									w.State()
									w.NonTrivial()
									var ra, ba []int
									for i := range pairs {
										p := pairs[i]
										if rev {
											p = pairs[len(pairs)-1-i]
										}
										ra, ba = append(ra, p[0], p[1]), append(ba, bounds[p[0]], bounds[p[1]])
									}
									rd := runesio.NewSliceReader(rs)
									for what, got := range [][][]rune{rd.Slices(ra), rd.SliceFromByteOffsets(ba)} {
										w.Step(1)
										if len(got) != len(pairs) {
											w.Failf("%d groups for %d pairs (by bytes: %t)", len(got), len(pairs), what == 1)
										}
										for i := range got {
											if !eq(got[i], rs[ra[2*i]:ra[2*i+1]]) {
												w.Failf("group %d, runes %d:%d, is %s (by bytes: %t)", i, ra[2*i], ra[2*i+1], q(got[i]), what == 1)
											}
										}
									}
								}
							})
						}
					},
				},
				{
					Name: "arity", Bound: "lists of 0 to 9 offsets (even: all pairs answered; odd: panics), and 40 pairs",
					Run: func(w *mc.W) {
						w.Unit(func() {
							rs := []rune{'a', 0x80, 0x800, 0x10000}
							bounds := boundsOf(rs)
							n := 0
							w.Describe(func() string { return fmt.Sprintf("%d offsets", n) })
							for _, n = range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 79, 80, 81} {
								w.Tick()
								w.State()
								ra, ba := make([]int, n), make([]int, n)
								for i := range ra {
									ra[i] = i % 2 * 3
									if i%4 >= 2 {
										ra[i] = 1 + i%2
									}
									ba[i] = bounds[ra[i]]
								}
								for k, f := range []func([]int) [][]rune{runesio.NewSliceReader(rs).Slices, runesio.NewSliceReader(rs).SliceFromByteOffsets} {
									arg := ra
									if k == 1 {
										arg = ba
									}
									var got [][]rune
									panicked := true
									func() {
										defer func() { _ = recover() }()
										got = f(arg)
										panicked = false
									}()
									w.Step(1)
									if panicked != (n%2 == 1) {
										w.Failf("panics: %t", panicked)
									}
									if panicked {
										continue
									}
									w.NonTrivial()
									if len(got) != n/2 {
										w.Failf("%d groups", len(got))
									}
									for i := range got {
										if !eq(got[i], rs[ra[2*i]:ra[2*i+1]]) {
											w.Failf("group %d is %s", i, qq(got))
										}
									}
								}
							}
						})
					},
				},
				{
					Name: "lengths", Bound: "every length up to 200 and around powers of two and round numbers up to 131072, with pairs at the ends, in the middle and empty",
					Run: func(w *mc.W) {
						for _, n := range lengths(200, 131072) {
							n := n
							w.Unit(func() {
								rs := make([]rune, n)
								for i := range rs {
									rs[i] = alpha[(i*7+n)%len(alpha)]
								}
								bounds := boundsOf(rs)
								w.Describe(func() string { return fmt.Sprintf("length %d", n) })
								for _, ab := range [][2]int{{0, n}, {0, 0}, {n, n}, {n / 2, n}, {n / 3, n / 2}, {n / 2, n / 2}, {max(0, n-1), n}, {0, min(1, n)}} {
									check(w, runesio.NewSliceReader(rs), rs, n/2, ab[0], ab[1], n/4, n, bounds)
								}
							})
						}
					},
				},
			}
		},
	}
}

// faultyWriter accepts limit bytes in all, then fails, or writes short without an error.
type faultyWriter struct {
	got    []byte
	limit  int // -1: no limit
	err    error
	passes bool   // the fault happens once
	during func() // what else happens during a write
}

func (f *faultyWriter) Write(p []byte) (int, error) {
	if f.during != nil {
		f.during()
	}
	if f.limit < 0 || len(f.got)+len(p) <= f.limit {
		f.got = append(f.got, p...)

		return len(p), nil
	}
	n := f.limit - len(f.got)
	f.got = append(f.got, p[:n]...)
	if f.passes {
		f.limit = -1
	}

	return n, f.err
}

// Underlying writers may have other methods than Write: whichever is used, the same bytes count.
type (
	stringWriter struct{ *faultyWriter } // WriteString
	bytesWriter  struct{ stringWriter }  // WriteString, WriteByte, ReadFrom, like a bytes.Buffer without WriteRune
	runesWriter  struct{ bytesWriter }   // WriteRune and WriteRunes too: it is a runesio.Writer by itself
)

func (s stringWriter) WriteString(text string) (int, error) { return s.Write([]byte(text)) }

func (b bytesWriter) WriteByte(c byte) error {
	n, err := b.Write([]byte{c})
	if n < 1 && err == nil {
		err = io.ErrShortWrite
	}

	return err
}

func (b bytesWriter) ReadFrom(r io.Reader) (int64, error) {
	text, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := b.Write(text)
	if n < len(text) && err == nil {
		err = io.ErrShortWrite
	}

	return int64(n), err
}

func (r runesWriter) WriteRune(c rune) (int, error)     { return r.Write([]byte(string(c))) }
func (r runesWriter) WriteRunes(rs []rune) (int, error) { return r.Write([]byte(string(rs))) }

const writerKinds = 4

func (f *faultyWriter) of(kind int) io.Writer {
	s := stringWriter{f}
	switch kind {
	case 1:
		return s
	case 2:
		return bytesWriter{s}
	case 3:
		return runesWriter{bytesWriter{s}}
	default:
		return f
	}
}

// greedyWriter accepts all bytes and returns an error.
type greedyWriter struct {
	got   []byte
	calls int
}

func (g *greedyWriter) Write(p []byte) (int, error) {
	g.calls++
	g.got = append(g.got, p...)

	return len(p), errFault
}

var errFault = errors.New("injected fault")

type writeOp struct {
	name string
	do   func(runesio.Writer) (int, error)
	enc  []byte
}

func writeOps() []writeOp {
	var ops []writeOp
	for _, r := range []rune{'a', 0x80, 0x800, 0x10000, -1, 0xDC00} {
		r := r
		ops = append(ops, writeOp{fmt.Sprintf("WriteRune(0x%X)", uint32(r)), func(w runesio.Writer) (int, error) { return w.WriteRune(r) }, []byte(string(r))})
	}
	for _, rs := range [][]rune{{}, {'b', 0x7FF}, {0x10FFFF, 0xD800, 'c'}} {
		rs := rs
		ops = append(ops, writeOp{"WriteRunes(" + q(rs) + ")", func(w runesio.Writer) (int, error) { return w.WriteRunes(rs) }, []byte(string(rs))})
	}
	ops = append(ops, writeOp{"Write(\"\\xffz\")", func(w runesio.Writer) (int, error) { return w.Write([]byte("\xffz")) }, []byte("\xffz")})

	return ops
}

func propC14() mc.Property {
	return mc.Property{
		ID: "C14", Level: modelChecking,
		Rule: "one case per sequence of writes and per failure point of the underlying writer; non-trivial: a multi-byte rune or a failure is involved",
		Spaces: func(t mc.Tier) []mc.Space {
			ops := writeOps()
			depth := t.Pick(5, 6)
			// run plays a history of writes against a writer that accepts limit bytes.
			kind := 0
			runKind := func(w *mc.W, mk func(io.Writer) runesio.Writer, hist []writeOp, limit int, ferr error, passes bool, during func()) {
				w.Tick()
				w.State()
				f := &faultyWriter{limit: limit, err: ferr, passes: passes, during: during}
				wr := mk(f.of(kind))
				var want []byte
				multi := limit >= 0
				for i, op := range hist {
					before := len(f.got)
					n, err := op.do(wr)
					w.Step(1)
					accepted := len(f.got) - before
					room := len(op.enc)
					if limit >= 0 && room > limit-before {
						room = limit - before
						if passes {
							limit = -1
						}
					}
					want = append(want, op.enc[:room]...)
					multi = multi || len(op.enc) > 1
					if string(f.got) != string(want) {
						w.Failf("write %d: bytes written %q, want %q (underlying writer %T)", i, f.got, want, f.of(kind))
					}
					if n != accepted {
						w.Failf("write %d: returned count %d, but %d bytes were accepted (underlying writer %T)", i, n, accepted, f.of(kind))
					}
					switch {
					case room == len(op.enc):
						if err != nil {
							w.Failf("write %d: error %v without a fault", i, err)
						}
					case ferr != nil:
						if !errors.Is(err, ferr) {
							w.Failf("write %d: error %v, want the underlying one", i, err)
						}
					default:
						if err != nil && !errors.Is(err, io.ErrShortWrite) {
							w.Failf("write %d: error %v on a short write", i, err)
						}
					}
				}
				if multi {
					w.NonTrivial()
				}
				w.Outcome(uint64(mc.NewHash().Str(string(f.got))))
			}
			runOf := func(w *mc.W, mk func(io.Writer) runesio.Writer, hist []writeOp, limit int, ferr error, passes bool, during func()) {
				for kind = 0; kind < writerKinds; kind++ {
					runKind(w, mk, hist, limit, ferr, passes, during)
				}
			}
			run := func(w *mc.W, mk func(io.Writer) runesio.Writer, hist []writeOp, limit int, ferr error) {
				runOf(w, mk, hist, limit, ferr, false, nil)
			}
			makers := []func(io.Writer) runesio.Writer{runesio.NewWriter, runesio.AsRunesWriter}

			return []mc.Space{
				{
					Name:  "histories-and-faults",
					Bound: fmt.Sprintf("all sequences of up to %d writes out of %d, with no fault, and with an error and a short write at every byte position; underlying writers with Write alone, with WriteString, with WriteByte and ReadFrom, and with WriteRune and WriteRunes", depth, len(ops)),
					Run: func(w *mc.W) {
						w.Words(len(ops), 0, depth, 2, func(seq []int) {
							var (
								hist  []writeOp
								total int
								limit int
								ferr  error
								names string
							)
							for _, k := range seq {
								hist = append(hist, ops[k])
								total += len(ops[k].enc)
							}
							w.Describe(func() string {
								names = ""
								for _, op := range hist {
									names += op.name + " "
								}

								return fmt.Sprintf("%s, underlying writer limited to %d bytes (-1: not), error %v", names, limit, ferr)
							})
							for limit = -1; limit < total; limit++ {
								ferr = errFault
								run(w, makers[(limit+1)%2], hist, limit, ferr)
								if limit >= 0 {
									ferr = nil
									run(w, makers[limit%2], hist, limit, ferr)
								}
							}
						})
					},
				},
				{
					Name:  "passing-faults",
					Bound: "all sequences of up to 3 writes, with an error and a short write that happens once at every byte position, and with another writer used while the underlying writer is at work",
					Run: func(w *mc.W) {
						w.Words(len(ops), 0, 3, 2, func(seq []int) {
							var (
								hist  []writeOp
								total int
								limit int
								ferr  error
							)
							for _, k := range seq {
								hist = append(hist, ops[k])
								total += len(ops[k].enc)
							}
							w.Describe(func() string {
								names := ""
								for _, op := range hist {
									names += op.name + " "
								}

								return fmt.Sprintf("%s, underlying writer fails once after %d bytes (-1: not), error %v, or another writer used during a write", names, limit, ferr)
							})
							for limit = 0; limit < total; limit++ {
								ferr = errFault
								runOf(w, makers[(limit+1)%2], hist, limit, ferr, true, nil)
								ferr = nil
								runOf(w, makers[limit%2], hist, limit, ferr, true, nil)
							}
							limit = -1
							for i, mk := range makers {
								other := &faultyWriter{limit: -1}
								wr := makers[1-i](other)
								var want string
								runOf(w, mk, hist, -1, nil, false, func() {
									_, _ = wr.WriteRunes([]rune("XYZ\u0800\u00A0"))
									_, _ = wr.WriteRune('\U00010000')
									_, _ = wr.Write([]byte("w"))
									want += "XYZ\u0800\u00A0\U00010000w"
								})
								if string(other.got) != want {
									w.Failf("the other writer wrote %q, want %q", other.got, want)
								}
							}
						})
					},
				},
				{
					Name:  "full-write-and-error",
					Bound: "all sequences of up to 3 writes to an underlying writer that accepts everything and yet returns an error",
					Run: func(w *mc.W) {
						w.Words(len(ops), 1, 3, 2, func(seq []int) {
							w.Describe(func() string { return fmt.Sprintf("operations %v", seq) })
							for _, mk := range makers {
								w.Tick()
								w.State()
								f := &greedyWriter{}
								wr := mk(f)
								want := ""
								for i, k := range seq {
									f.calls = 0
									before := len(f.got)
									n, err := ops[k].do(wr)
									w.Step(1)
									accepted := len(f.got) - before
									if accepted > len(ops[k].enc) || string(f.got) != want+string(ops[k].enc[:accepted]) {
										w.Failf("write %d (%s) wrote %q in all", i, ops[k].name, f.got)
									}
									want = string(f.got)
									if f.calls == 0 && len(ops[k].enc) == 0 {
										continue // nothing to write: the underlying writer needs not be called
									}
									w.NonTrivial()
									if n != accepted || !errors.Is(err, errFault) {
										w.Failf("write %d (%s) = %d, %v, but %d bytes were accepted with an error", i, ops[k].name, n, err, accepted)
									}
								}
							}
						})
					},
				},
				{
					Name:  "rune-words",
					Bound: "WriteRunes of all sequences of up to 5 runes over 13 runes of every UTF-8 size, invalid ones included",
					Run: func(w *mc.W) {
						var buf []rune
						w.Words(len(utf8Alphabet), 0, t.Pick(5, 6), 2, func(seq []int) {
							buf = pick(utf8Alphabet, seq, buf)
							w.Describe(func() string { return q(buf) })
							run(w, runesio.NewWriter, []writeOp{{"", func(w runesio.Writer) (int, error) { return w.WriteRunes(clone(buf)) }, []byte(string(buf))}}, -1, nil)
						})
					},
				},
				specialWords(3, [][2]string{{"", ""}}, func(w *mc.W, word []rune) {
					run(w, runesio.NewWriter, []writeOp{{"", func(w runesio.Writer) (int, error) { return w.WriteRunes(word) }, []byte(string(word))}}, -1, nil)
				}),
				oddTexts([]string{"a", "é", "字", "\U0001F600"}, []string{"a", "é", "字", "\U0001F600", "\xff"}, 12, func(w *mc.W, text []rune) {
					enc := []byte(string(text))
					op := []writeOp{{"", func(w runesio.Writer) (int, error) { return w.WriteRunes(text) }, enc}}
					run(w, runesio.NewWriter, op, -1, nil)
					if len(enc) > 0 {
						run(w, runesio.NewWriter, op, len(enc)-1, errFault)
						run(w, runesio.NewWriter, op, len(enc)/2, errFault)
					}
				}),
				{
					Name: "all-runes", Bound: "WriteRune and WriteRunes of every rune value, invalid ones included",
					Run: func(w *mc.W) {
						allRunes(w, func(r rune) {
							w.Describe(func() string { return fmt.Sprintf("rune 0x%X", uint32(r)) })
							enc := []byte(string(r))
							if !utf8.ValidRune(r) {
								enc = []byte("\xef\xbf\xbd")
							}
							run(w, makers[int(r)&1], []writeOp{
								{"", func(w runesio.Writer) (int, error) { return w.WriteRune(r) }, enc},
								{"", func(w runesio.Writer) (int, error) { return w.WriteRunes([]rune{r}) }, enc},
								{"", func(w runesio.Writer) (int, error) { return w.WriteRunes([]rune{'a', r}) }, append([]byte("a"), enc...)},
							}, -1, nil)
						})
					},
				},
				{
					Name: "lengths", Bound: "WriteRunes of every length up to 600 and around powers of two and round numbers up to 65536, for each UTF-8 size and mixed, without fault and failing at each of 5 positions",
					Run: func(w *mc.W) {
						for _, n := range lengths(600, 65536) {
							n := n
							w.Unit(func() {
								for k := 0; k <= len(utf8Alphabet); k++ {
									rs := make([]rune, n)
									for i := range rs {
										rs[i] = utf8Alphabet[(i+k)%len(utf8Alphabet)]
										if k < len(utf8Alphabet) {
											rs[i] = utf8Alphabet[k]
										}
									}
									enc := []byte(string(rs))
									op := []writeOp{{"", func(w runesio.Writer) (int, error) { return w.WriteRunes(rs) }, enc}}
									for _, limit := range []int{-1, 0, 1, len(enc) / 2, len(enc) - 1} {
										w.Describe(func() string { return fmt.Sprintf("length %d, pattern %d, limit %d", n, k, limit) })
										if limit < len(enc) {
											run(w, runesio.NewWriter, op, limit, errFault)
										}
									}
								}
							})
						}
					},
				},
			}
		},
	}
}
