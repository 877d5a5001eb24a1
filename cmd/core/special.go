package main

import (
	"fmt"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
)

// specials are runes that text software has reasons to handle together with their neighbours: joiners,
// selectors, modifiers, marks, halves of pairs, jamos, digits, quotes, hyphens, runes with odd cases.
var specials = []rune{
	'a', 'Z', 'é', 'ß', 0x0130, 0x0131, 0x017F, 0x212A, 0x01C5, 0x03C2, 0x03A3, 0xFB01, 0x0149, // letters with odd cases
	'1', '0', '9', 0x00B2, 0x0660, 0xFF11, 0x2460, 0x2167, '#', '*', '$', '%', '+', '=', '<', '^', '`', '~', // digits and symbols
	'.', ',', ':', ';', '!', '?', '\'', '"', 0x2019, 0x00AB, '(', ')', '[', '/', '\\', '_', '|', '&', '@', 0x2026, 0x3002, 0x00BF, // punctuation
	'-', 0x00AD, 0x2010, 0x2011, 0x2012, 0x2013, 0x2014, 0x2212, 0x058A, 0x30FB, 0x05BE, 0xFE63, // hyphens and dashes
	' ', '\t', '\n', '\r', '\v', 0x0085, 0x00A0, 0x2007, 0x2028, 0x202F, 0x3000, 0x200B, 0x2060, 0xFEFF, // blanks and those that are not
	0x0301, 0x0308, 0x0323, 0x20DD, 0x20E3, 0x093F, 0x1AB0, 0x3099, 0xFE20, // marks
	0x200C, 0x200D, 0x034F, 0xFE0E, 0xFE0F, 0xE0100, 0x180B, // joiners and selectors
	0x1F468, 0x1F3FB, 0x2764, 0x1F33E, 0x1F600, 0x1F1EB, 0x1F1F7, 0x1F3F4, 0xE0067, 0xE007F, 0x2194, // emojis
	0x1100, 0x1160, 0x11A8, 0xAC00, 0x4E2D, 0xFF21, 0xFF76, 0xFF9E, 0x0E33, 0x05D0, 0x0628, 0x200F, 0x202E, 0x2066, // scripts
	0, 0x07, 0x08, 0x1B, 0x7F, 0x9B, 0x9C, // controls
	0xD83D, 0xDE00, 0xD800, 0xDC00, 0xDFFF, 0xFFFD, 0xFFFE, 0xE000, 0x10FFFF, 0x110000, -1, // invalid ones, and others
}

// specialWords are all words of specials, alone and inside a text.
func specialWords(depth int, contexts [][2]string, check func(w *mc.W, word []rune)) mc.Space {
	return mc.Space{
		Name:  "special-words",
		Bound: fmt.Sprintf("all sequences of up to %d runes over %d runes that text software may handle together with their neighbours (marks, joiners, selectors, modifiers, halves of pairs, jamos, digits, quotes, hyphens, controls), in the contexts %q", depth, len(specials), contexts),
		Run: func(w *mc.W) {
			var buf []rune
			w.Words(len(specials), 1, depth, 2, func(seq []int) {
				w.Describe(func() string { return q(buf) })
				for _, c := range contexts {
					buf = append(buf[:0], []rune(c[0])...)
					for _, s := range seq {
						buf = append(buf, specials[s])
					}
					buf = append(buf, []rune(c[1])...)
					check(w, buf)
				}
			})
		},
	}
}
