package main

import (
	"fmt"
	"strings"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
)

const modelChecking = "model_checking"

func q(rs []rune) string {
	var b strings.Builder
	b.WriteString("[]rune{")
	plain := true
	for _, r := range rs {
		if r < 0x20 || r > 0x7E {
			plain = false
		}
	}
	if plain {
		return fmt.Sprintf("%q", string(rs))
	}
	for i, r := range rs {
		if i > 0 {
			b.WriteString(",")
		}
		if r > 0x20 && r < 0x7F {
			fmt.Fprintf(&b, "'%c'", r)
		} else if r < 0 {
			fmt.Fprintf(&b, "%d", r)
		} else {
			fmt.Fprintf(&b, "0x%X", r)
		}
	}

	return b.String() + "}"
}

func qq(parts [][]rune) string {
	out := make([]string, 0, len(parts))
	for _, p := range parts {
		out = append(out, q(p))
	}

	return "{" + strings.Join(out, " ") + "}"
}

func eq(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}

	return true
}

func eqParts(a, b [][]rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eq(a[i], b[i]) {
			return false
		}
	}

	return true
}

// pick maps a sequence of symbols to runes, into buf.
func pick(alphabet []rune, seq []int, buf []rune) []rune {
	buf = buf[:0]
	for _, s := range seq {
		buf = append(buf, alphabet[s])
	}

	return buf
}

// clone gives each case its own exact-capacity input so that nothing is aliased between cases.
func clone(rs []rune) []rune {
	if reusing {
		if cap(same) < len(rs) {
			same = make([]rune, 0, 4096+len(rs))
		}
		same = append(same[:0], rs...)

		return same
	}
	out := make([]rune, len(rs))
	copy(out, rs)

	return out
}

// spoil what was returned: it is the caller's. The runes of the parts only are when they are not the input's.
func spoil(parts [][]rune, owned bool) {
	if !reusing {
		return
	}
	for i, p := range parts {
		if owned {
			for k := range p {
				p[k] = 0x2603
			}
		}
		parts[i] = nil
	}
}

func hashParts(parts [][]rune) uint64 {
	h := mc.NewHash()
	for _, p := range parts {
		h = h.Add(uint64(len(p)))
	}

	return uint64(h)
}
