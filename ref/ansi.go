package ref

import "unicode"

// Kind of an item of a token.
type Kind uint8

const (
	// Text is a maximal run of runes outside control sequences.
	Text Kind = iota
	// Start is a start sequence.
	Start
	// Stop is a stop sequence.
	Stop
	// Other is any other control sequence.
	Other
)

func (k Kind) String() string { return [...]string{"text", "start", "stop", "other"}[k] }

// Item of a token.
type Item struct {
	Kind  Kind
	Runes []rune
}

const esc = 0x1B

func isDigit(r rune) bool { return r >= '0' && r <= '9' }

// Lex cuts a token in items. It reports false when the token holds a control sequence that the documented
// grammar does not cover: a parameter of more than 3 digits, a digit that is not ASCII, or an escape as
// the final rune.
func Lex(in []rune) ([]Item, bool) {
	var out []Item
	ok := true
	textFrom := 0
	flush := func(to int) {
		if to > textFrom {
			out = append(out, Item{Text, in[textFrom:to]})
		}
	}
	for i := 0; i < len(in); {
		if in[i] != esc || i+1 >= len(in) || in[i+1] != '[' {
			i++

			continue
		}
		flush(i)
		j := i + 2
		section, zero := 0, true
		for {
			digits := 0
			for j < len(in) && isDigit(in[j]) {
				digits++
				if section == 0 && in[j] != '0' {
					zero = false
				}
				j++
			}
			if digits > 3 {
				ok = false
			}
			if j >= len(in) || in[j] != ';' && in[j] != ':' {
				break
			}
			section++
			j++
		}
		kind := Other
		if j < len(in) {
			switch final := in[j]; {
			case final == 's' || final == 'h' || final == 'm' && !zero:
				kind = Start
			case final == 'u' || final == 'l' || final == 'm':
				kind = Stop
			case final == esc || unicode.IsDigit(final):
				ok = false
			}
			j++
		}
		out = append(out, Item{kind, in[i:j]})
		i, textFrom = j, j
	}
	flush(len(in))

	return out, ok
}
