package mc

// Variants of a text: itself between runs of texts of the same length that differ in one place, in two
// places with the same sum, or in the order of two runes. The function is called with each of them in a
// buffer that is always the same.
func Variants(base []rune, others []rune, f func(buf []rune, what string)) {
	buf := append([]rune{}, base...)
	f(buf, "base")
	for i := range base {
		for _, r := range others {
			if r == base[i] {
				continue
			}
			buf[i] = r
			f(buf, "one other rune")
		}
		buf[i] = base[i]
		f(buf, "base")
	}
	for i := range base {
		for j := i + 1; j < len(base); j++ {
			if base[i] != base[j] {
				buf[i], buf[j] = base[j], base[i]
				f(buf, "two runes swapped")
				buf[i], buf[j] = base[i], base[j]
			}
			if base[i] > 'a' && base[i] <= 'z' && base[j] >= 'a' && base[j] < 'z' {
				buf[i]--
				buf[j]++
				f(buf, "two other runes, the same sum")
				buf[i], buf[j] = base[i], base[j]
			}
			if base[j] > 'a' && base[j] <= 'z' && base[i] >= 'a' && base[i] < 'z' {
				buf[i]++
				buf[j]--
				f(buf, "two other runes, the same sum")
				buf[i], buf[j] = base[i], base[j]
			}
		}
		f(buf, "base")
	}
}
