package main

import (
	"fmt"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
)

// same is the buffer of every input, when there is one for all.
var (
	reusing bool
	same    []rune
)

// lookalikes are histories of calls on texts that are easily taken for one another: in one buffer, of the
// same length, with the same ends, the same sum or the same runes in another order.
func lookalikes(bases []string, others []rune, check func(w *mc.W, word []rune)) mc.Space {
	return mc.Space{
		Name:  "lookalikes",
		Bound: fmt.Sprintf("for each of the texts %q, in one buffer for all inputs: the text, all texts that differ from it by one rune of %s, by a swap of two runes or by two runes with the same sum, the text again after each place; what is returned is overwritten by the caller after each call", bases, q(others)),
		Run: func(w *mc.W) {
			for _, base := range bases {
				base := base
				w.Unit(func() {
					reusing = true
					defer func() { reusing = false }()
					var cur []rune
					var how string
					w.Describe(func() string { return fmt.Sprintf("%q, from %q: %s", string(cur), base, how) })
					mc.Variants([]rune(base), others, func(buf []rune, what string) {
						cur, how = buf, what
						check(w, buf)
					})
				})
			}
		},
	}
}
