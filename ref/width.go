// Package ref holds the reference models: small, slow and written without looking at how /repo does it.
package ref

import (
	_ "embed"
	"fmt"
	"strings"
)

//go:embed unicode15.txt
var unicode15 string

const (
	wide = 1 << iota
	ambiguous
	narrow
	combining
	pictographic
	nonprint
)

var classes = loadClasses()

func loadClasses() []uint8 {
	bits := map[string]uint8{"wide": wide, "ambiguous": ambiguous, "narrow": narrow, "combining": combining, "pictographic": pictographic}
	out := make([]uint8, 0x110000)
	for _, line := range strings.Split(strings.TrimSpace(unicode15), "\n") {
		var (
			name string
			a, b int
		)
		if _, err := fmt.Sscanf(line, "%s %X %X", &name, &a, &b); err != nil {
			panic(err)
		}
		for r := a; r <= b; r++ {
			out[r] |= bits[name]
		}
	}
	// non-spacing marks whose name lacks COMBINING but that the published ranges list with combining ones
	for _, r := range []int{0xD01, 0x11301, 0x1133C, 0x1CF42, 0x1CF43, 0x1CF44, 0x1CF45, 0x1CF46} {
		out[r] |= combining
	}
	for _, ab := range [][2]int{
		{0x0000, 0x001F},
		{0x007F, 0x009F}, // controls
		{0x00AD, 0x00AD}, // soft hyphen
		{0x070F, 0x070F},
		{0x180B, 0x180E},
		{0x200B, 0x200F},
		{0x2028, 0x202E},
		{0x206A, 0x206F},
		{0xD800, 0xDFFF}, // surrogates
		{0xFEFF, 0xFEFF},
		{0xFFF9, 0xFFFB},
		{0xFFFE, 0xFFFF},
		{0xFFFD, 0xFFFD}, // replacement character
	} {
		for r := ab[0]; r <= ab[1]; r++ {
			out[r] |= nonprint
		}
	}

	return out
}

// WidthOptions are the settings of a width question.
type WidthOptions struct {
	EastAsian  bool
	EmojiSkip  bool
	AmbigWidth int
}

// DefaultWidth are the documented defaults.
func DefaultWidth() WidthOptions { return WidthOptions{AmbigWidth: 2} }

// Width in terminal cells.
func Width(r rune, o WidthOptions) int {
	if r < 0 || r > 0x10FFFF {
		return 0
	}
	c := classes[r]
	switch {
	case c&nonprint != 0:
		return 0
	case r == 0x2E3B:
		return 4
	case r == 0x2E3A:
		return 3
	case c&combining != 0:
		return 0
	case c&wide != 0:
		return 2
	case !o.EastAsian:
		return 1
	case c&ambiguous != 0:
		return o.AmbigWidth
	case o.EmojiSkip && c&pictographic != 0 && c&narrow == 0 && r >= 0x100:
		return 2
	}

	return 1
}

// IsAmbiguous per Unicode 15.
func IsAmbiguous(r rune) bool {
	return r >= 0 && r <= 0x10FFFF && classes[r]&ambiguous != 0
}

// Widths sums.
func Widths(rs []rune, o WidthOptions) int {
	n := 0
	for _, r := range rs {
		n += Width(r, o)
	}

	return n
}

// Class of a rune, for coverage counts.
func Class(r rune) uint8 {
	if r < 0 || r > 0x10FFFF {
		return 0xFF
	}

	return classes[r]
}
