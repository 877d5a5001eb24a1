package main

import (
	"fmt"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
)

// oddTexts are texts made of one rune repeated, with one or two odd things in them, at every place: what reads
// a text by blocks, or by its beginning, does not see them all.
func oddTexts(bases, odds []string, two int, check func(w *mc.W, text []rune)) mc.Space {
	const one = 140
	var far []int
	for _, n := range []int{255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4100, 8200} {
		far = append(far, n)
	}

	return mc.Space{
		Name:  "odd-texts",
		Bound: fmt.Sprintf("texts that repeat each of %q up to each length to %d, with one of %q at every place, or (lengths to %d) two of them at every two places; and of %d lengths up to %d with one of them every 61 places and next to the ends and the powers of two", bases, one, odds, two, len(far), far[len(far)-1]),
		Run: func(w *mc.W) {
			var (
				b, n, i, j, x, y int
				buf              []rune
			)
			base, odd := make([][]rune, len(bases)), make([][]rune, len(odds))
			for k, s := range bases {
				base[k] = []rune(s)
			}
			for k, s := range odds {
				odd[k] = []rune(s)
				if s == "\xff" {
					odd[k] = []rune{-1}
				}
			}
			describe := func() string {
				return fmt.Sprintf("%q repeated up to %d runes, with %q before rune %d, %q before rune %d", bases[b], n, odds[x], i, odds[max(y, 0)], j)
			}
			build := func() {
				buf = buf[:0]
				for k := 0; k <= n; k++ {
					if k == i {
						buf = append(buf, odd[x]...)
					}
					if k == j && y >= 0 {
						buf = append(buf, odd[y]...)
					}
					if k < n {
						buf = append(buf, base[b][k%len(base[b])])
					}
				}
			}
			for bb := range bases {
				for nn := 0; nn <= one; nn++ {
					bb, nn := bb, nn
					w.Unit(func() {
						w.Describe(describe)
						b, n = bb, nn
						for i = 0; i <= n; i++ {
							for x = range odds {
								j, y = n+1, -1
								build()
								check(w, buf)
								for j = i; j <= n && n <= two; j++ {
									for y = range odds {
										build()
										check(w, buf)
									}
								}
							}
						}
					})
				}
				for _, nn := range far {
					bb, nn := bb, nn
					w.Unit(func() {
						w.Describe(describe)
						b, n, j, y = bb, nn, nn+1, -1
						for i = 0; i <= n; i++ {
							near := i < 3 || i > n-3 || i%61 == 0
							for p := 8; p < 8192; p *= 2 {
								near = near || i >= p-1 && i <= p+1
							}
							if !near {
								continue
							}
							for x = range odds {
								build()
								check(w, buf)
							}
						}
					})
				}
			}
		},
	}
}
