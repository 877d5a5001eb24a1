package ref

import "unicode"

// Fields are the maximal runs of runes for which sep is false.
func Fields(in []rune, sep func(rune) bool) [][]rune {
	var (
		out [][]rune
		cur []rune
	)
	for _, r := range in {
		if sep(r) {
			if len(cur) > 0 {
				out = append(out, cur)
				cur = nil
			}

			continue
		}
		cur = append(cur, r)
	}
	if len(cur) > 0 {
		out = append(out, cur)
	}

	return out
}

// Isolate cuts a word in maximal runs without separators and single separators.
func Isolate(in []rune, sep func(rune) bool) [][]rune {
	var (
		out [][]rune
		cur []rune
	)
	for _, r := range in {
		if !sep(r) {
			cur = append(cur, r)

			continue
		}
		if len(cur) > 0 {
			out = append(out, cur)
			cur = nil
		}
		out = append(out, []rune{r})
	}
	if len(cur) > 0 {
		out = append(out, cur)
	}

	return out
}

// the 11 code points with the Unicode property Hyphen
var hyphens = map[rune]bool{
	0x2D: true, 0xAD: true, 0x58A: true, 0x1806: true, 0x2010: true, 0x2011: true, 0x2E17: true,
	0x30FB: true, 0xFE63: true, 0xFF0D: true, 0xFF65: true,
}

// IsHyphen is the Unicode property Hyphen.
func IsHyphen(r rune) bool { return hyphens[r] }

// IsSeparator is what the punctuator isolates.
func IsSeparator(r rune) bool {
	return r == '|' || unicode.Is(unicode.P, r) && !hyphens[r]
}

// HasHyphen reports an explicit hyphen.
func HasHyphen(word []rune) bool {
	for _, r := range word {
		if hyphens[r] {
			return true
		}
	}

	return false
}
