package main

import (
	"fmt"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/lb"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/para"
)

// huge: paragraphs with more tokens, nodes or lines than 16 bits can count.
func huge(t mc.Tier, check verdict) mc.Space {
	all := lb.Settings()
	settings := []*lb.Setting{all[0], lb.Plain()}
	type kind struct {
		pattern []string
		size    int
		width   float64
	}
	kinds := []kind{ // the time that a paragraph takes goes with the square of its size
		{[]string{"abc"}, 17000, 11},
		{[]string{"abc"}, 17000, 80},
		{[]string{"abc"}, 33000, 3},
		{[]string{"ab", "cdefgh,", "d"}, 12000, 20},
		{[]string{"incomprehensibilities"}, 2800, 30},
		{[]string{"a\u0301", "bc-def", "字g.h"}, 8700, 17},
	}
	if t == mc.Thorough {
		kinds = append(kinds, kind{[]string{"abc"}, 66000, 4}, kind{[]string{"ab", "cdefgh,", "d"}, 12000, 300}, kind{[]string{"incomprehensibilities"}, 6000, 80})
	}

	return mc.Space{
		Name:  "huge",
		Bound: fmt.Sprintf("paragraphs that repeat the same tokens (tokens, how many, width: %v), settings pairs and default", kinds),
		Run: func(w *mc.W) {
			r := &run{}
			for _, s := range settings {
				for _, k := range kinds {
					s, k := s, k
					w.Unit(func() {
						r.s, r.tokens, r.width = s, make([]string, k.size), k.width
						for i := range r.tokens {
							r.tokens[i] = k.pattern[i%len(k.pattern)]
						}
						w.Describe(func() string {
							return fmt.Sprintf("%d tokens repeating %q, width %v, %s", k.size, k.pattern, r.width, s.Name)
						})
						w.State()
						w.Slow()
						r.set(w, para.New(&s.Config, r.tokens), check)
					})
				}
			}
		},
	}
}
