package main

import (
	"fmt"
	"strings"

	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ref"
)

func segs(in []ansi.StrippedToken) string {
	var b strings.Builder
	for _, s := range in {
		fmt.Fprintf(&b, "{start %q text %q stop %q}", string(s.StartSequence), string(s.Text), string(s.StopSequence))
	}

	return b.String()
}

// lossless checks what C15 states.
func lossless(w *mc.W, in []rune) []ansi.StrippedToken {
	w.Tick()
	w.State()
	got := ansi.StripToken(clone(in))
	w.Step(1)
	if len(got) == 0 {
		w.Failf("no stripped token")
	}
	at := 0
	for i, s := range got {
		if len(s.StartSequence)+len(s.Text)+len(s.StopSequence) == 0 && len(in) > 0 {
			w.Failf("stripped token %d is empty: %s", i, segs(got))
		}
		for _, part := range [][]rune{s.StartSequence, s.Text, s.StopSequence} {
			if at+len(part) > len(in) || !eq(part, in[at:at+len(part)]) {
				w.Failf("stripped tokens do not concatenate to the token: %s", segs(got))
			}
			at += len(part)
		}
	}
	if at != len(in) {
		w.Failf("stripped tokens do not concatenate to the token: %s", segs(got))
	}

	return got
}

func checkC15(w *mc.W, in []rune) {
	got := lossless(w, in)

	// the same, one strip at a time
	rest := clone(in)
	for i := 0; ; i++ {
		one := ansi.StripANSIFromRunes(rest)
		w.Step(1)
		sum := len(one.StartSequence) + len(one.Text) + len(one.StopSequence)
		if sum+len(one.Remainder) != len(rest) || !eq(one.Remainder, rest[sum:]) {
			w.Failf("strip %d: the remainder %q does not follow from %q", i, string(one.Remainder), string(rest))
		}
		if i >= len(got) || !eq(one.StartSequence, got[i].StartSequence) || !eq(one.Text, got[i].Text) || !eq(one.StopSequence, got[i].StopSequence) {
			w.Failf("strip %d gives %s but StripToken gives %s", i, segs([]ansi.StrippedToken{one}), segs(got))
		}
		if len(one.Remainder) == 0 {
			if i != len(got)-1 {
				w.Failf("%d strips, but StripToken gives %s", i+1, segs(got))
			}

			break
		}
		rest = one.Remainder
	}
	if len(got) > 1 || len(got[0].Text) != len(in) {
		w.NonTrivial()
	}
	w.Outcome(shape(got))
	for i := range got { // it is the caller's
		got[i] = ansi.StrippedToken{}
	}
}

func shape(got []ansi.StrippedToken) uint64 {
	h := mc.NewHash()
	for _, s := range got {
		h = h.Add(uint64(len(s.StartSequence))).Add(uint64(len(s.Text))).Add(uint64(len(s.StopSequence)))
	}

	return uint64(h)
}

func checkC16(w *mc.W, in []rune) {
	items, ok := ref.Lex(in)
	if !ok {
		return
	}
	w.Tick()
	w.State()
	got := ansi.StripToken(clone(in))
	w.Step(1)

	// walk the items through the stripped tokens
	k := 0
	bad := func(i int, why string) {
		w.Failf("stripped token %d: %s\n  got   %s\n  items %s", i, why, segs(got), itemsString(items))
	}
	take := func(i int, want ref.Kind, runes []rune, what string) {
		if k >= len(items) || items[k].Kind != want || !eq(items[k].Runes, runes) {
			bad(i, what+" is not exactly the next item")
		}
		k++
	}
	var last ref.Kind
	for i, s := range got {
		// a token should not have been cut from the previous one
		if i > 0 && k < len(items) {
			prev := got[i-1]
			switch {
			case items[k].Kind == ref.Stop && len(prev.StopSequence) == 0 && (last == ref.Start || last == ref.Text):
				bad(i, "a stop is separated from the start or text it directly follows")
			case items[k].Kind == ref.Text && last == ref.Start:
				bad(i, "a text is separated from the start it directly follows")
			}
		}
		if len(s.StartSequence) > 0 {
			take(i, ref.Start, s.StartSequence, "the start sequence")
			last = ref.Start
		}
		for at := 0; at < len(s.Text); {
			if k >= len(items) || items[k].Kind != ref.Text && items[k].Kind != ref.Other {
				bad(i, "the text holds a start or stop sequence")
			}
			n := len(items[k].Runes)
			if at+n > len(s.Text) || !eq(items[k].Runes, s.Text[at:at+n]) {
				bad(i, "a text or sequence is split")
			}
			last = items[k].Kind
			at += n
			k++
		}
		if len(s.StopSequence) > 0 {
			take(i, ref.Stop, s.StopSequence, "the stop sequence")
			last = ref.Stop
		}
	}
	if k != len(items) {
		bad(len(got), "items are missing")
	}
	for _, it := range items {
		if it.Kind != ref.Text {
			w.NonTrivial()

			break
		}
	}
	w.Outcome(shape(got))
	for i := range got { // it is the caller's
		got[i] = ansi.StrippedToken{}
	}
}

func itemsString(items []ref.Item) string {
	var b strings.Builder
	for _, it := range items {
		fmt.Fprintf(&b, "<%s %q>", it.Kind, string(it.Runes))
	}

	return b.String()
}

var ansiAlphabet = []rune{0x1B, '[', '0', '1', '2', ';', ':', 'm', 'h', 'l', 'K', 'x'}

// one macro per form the decoder distinguishes
var ansiMacros = []string{
	"\x1b[31m", "\x1b[1m", "\x1b[4;5m", "\x1b[38;5;123m", "\x1b[38:2:1:22:255m", "\x1b[123m", "\x1b[010m", "\x1b[1;0m", "\x1b[s", "\x1b[7h", "\x1b[255;9s", // starts
	"\x1b[0m", "\x1b[m", "\x1b[000m", "\x1b[0;31m", "\x1b[;m", "\x1b[u", "\x1b[25l", // stops
	"\x1b[K", "\x1b[2J", "\x1b[10;200H", "\x1b[1;;2A", "\x1b[?", "\x1b[ ", // others
	"\x1b[", "\x1b[1", "\x1b[123", "\x1b[12;", "\x1b", "\x1b\x1b", "\x1bc", // truncated and lone
	"a", "bc", "[", "m", "0", "é", // text
}

func ansiSpaces(t mc.Tier, check func(w *mc.W, in []rune)) []mc.Space {
	raw, macro := t.Pick(7, 8), t.Pick(4, 5)

	return []mc.Space{
		lookalikes([]string{"\x1b[31mred\x1b[0m", "text only", "\x1b[1m\x1b[4mab\x1b[m\x1b[24l", "a\x1b[38;5;123mb\x1b[Kc\x1b[0md", "\x1b[1mlong text without any sequence in it, until its end\x1b[0m"},
			[]rune{0x1B, '[', '0', '7', ';', 'm', 'h', 'l', 'K', 'x'}, check),
		{
			Name:  "raw",
			Bound: fmt.Sprintf("all sequences of up to %d runes over %s", raw, q(ansiAlphabet)),
			Run: func(w *mc.W) {
				var buf []rune
				w.Words(len(ansiAlphabet), 0, raw, 3, func(seq []int) {
					buf = pick(ansiAlphabet, seq, buf)
					w.Describe(func() string { return fmt.Sprintf("%q", string(buf)) })
					check(w, buf)
				})
			},
		},
		{
			Name:  "forms",
			Bound: fmt.Sprintf("all sequences of up to %d items out of %d complete, truncated and malformed sequences and texts", macro, len(ansiMacros)),
			Run: func(w *mc.W) {
				var buf []rune
				w.Words(len(ansiMacros), 0, macro, 2, func(seq []int) {
					buf = buf[:0]
					for _, k := range seq {
						buf = append(buf, []rune(ansiMacros[k])...)
					}
					w.Describe(func() string { return fmt.Sprintf("%q", string(buf)) })
					check(w, buf)
				})
			},
		},
		{
			Name:  "chains",
			Bound: fmt.Sprintf("all sequences of up to %d items over one start, stop, other, truncated, lone escape and text", t.Pick(8, 9)),
			Run: func(w *mc.W) {
				alpha := []string{"\x1b[31m", "\x1b[0m", "\x1b[K", "ab", "\x1b", "\x1b[5;6h"}
				var buf []rune
				w.Words(len(alpha), 0, t.Pick(8, 9), 3, func(seq []int) {
					buf = buf[:0]
					for _, k := range seq {
						buf = append(buf, []rune(alpha[k])...)
					}
					w.Describe(func() string { return fmt.Sprintf("%q", string(buf)) })
					check(w, buf)
				})
			},
		},
		{
			Name:  "parameters",
			Bound: "every parameter of up to 3 digits, alone and as each section of two- and three-section lists with both separators, with finals m, h, l, s, u, K, ~ or none, followed by text and a stop",
			Run: func(w *mc.W) {
				var buf []rune
				var params []string
				params = append(params, "")
				for n := 1; n <= 3; n++ {
					for v, lim := 0, []int{0, 10, 100, 1000}[n]; v < lim; v++ {
						params = append(params, fmt.Sprintf("%0*d", n, v))
					}
				}
				w.Range(0, len(params), 16, func(i int) {
					p := params[i]
					w.Describe(func() string { return fmt.Sprintf("%q", string(buf)) })
					for _, form := range []string{"%s", "%s;1", "%s:0", "1;%s", "0;%s", "38;5;%s", "38:2:%s:7:200", ";%s", "%s;", "0;%s;0", "%s;%s;%s;%s;%s;%s"} {
						for _, final := range []string{"m", "h", "l", "s", "u", "K", "~", ""} {
							for _, tail := range []string{"", "x", "x\x1b[0m", "\x1b[K"} {
								s := "\x1b[" + strings.ReplaceAll(form, "%s", p) + final + tail
								buf = []rune(s)
								check(w, buf)
								buf = []rune("y" + s)
								check(w, buf)
							}
						}
					}
				})
			},
		},
		oddTexts([]string{"a", "字", "\x1b[1m"}, []string{"\x1b[1m", "\x1b[0m", "\x1b[2K", "\x1b", "\x1b[", "\x1b[1;", "m", "\x1b[0;31m", "\x1b[38;5;12h"}, 20, check),
		specialWords(3, [][2]string{{"", ""}, {"\x1b[1m", "\x1b[0m"}, {"a\x1b[", "mb"}, {"\x1b[1", "x\x1b[m"}, {"\x1b[1;", "h"}, {"x\x1b", "y"}, {"\x1b[1mab\x1b[0m", "\x1b[3mc\x1b[m"}}, check),
		{
			Name:  "all-runes",
			Bound: "every rune value in 8 contexts: alone, after escape, as first parameter, as separator, as final, after a lone escape, between sequences",
			Run: func(w *mc.W) {
				var buf []rune
				ctxs := []string{"\x00", "\x1b\x00[0m", "\x1b[\x00m", "\x1b[1\x002m", "\x1b[31\x00", "x\x1b\x00y", "\x1b[1m\x00\x1b[0m", "\x1b[12;\x00x\x1b[m"}
				allRunes(w, func(r rune) {
					w.Describe(func() string { return q(buf) })
					for _, c := range ctxs {
						buf = buf[:0]
						for _, x := range c {
							if x == 0 {
								x = r
							}
							buf = append(buf, x)
						}
						check(w, buf)
					}
				})
			},
		},
		{
			Name:  "lengths",
			Bound: "texts of every length up to 300 and around powers of two and round numbers up to 65536 between sequences, chains of up to 300 sequences of each form, and of 7 forms around powers of two and round numbers up to 4096, sequences of up to 300 sections and around powers of two and round numbers up to 4096",
			Run: func(w *mc.W) {
				for _, n := range lengths(300, 65536) {
					n := n
					w.Unit(func() {
						var buf []rune
						w.Describe(func() string { return fmt.Sprintf("length %d: %q", n, string(buf)) })
						text := strings.Repeat("ab c", n/4+1)[:n]
						for _, f := range []string{"%s", "\x1b[1m%s\x1b[0m", "%s\x1b[0m", "\x1b[K%s", "%s\x1b", "\x1b%s\x1b[31m%s\x1b[m"} {
							buf = []rune(strings.ReplaceAll(f, "%s", text))
							check(w, buf)
						}
						if n > 300 && n < 5000 {
							for _, m := range []string{"\x1b[1ma\x1b[0m", "\x1b[31m", "a\x1b[m", "\x1b[Kb", "\x1b[38;5;123m\x1b[Ha", "\x1b", "\x1b["} {
								for _, tail := range []string{"", "z\x1b[0m"} {
									buf = []rune(strings.Repeat(m, n) + tail)
									check(w, buf)
								}
							}
							for _, sections := range []string{"1;", "0;", "255:", ";"} {
								for _, final := range []string{"0m", "1h", "u", ""} {
									buf = []rune("x\x1b[" + strings.Repeat(sections, n) + final + "\x1b[0m")
									check(w, buf)
								}
							}
						}
						if n <= 300 {
							for _, m := range ansiMacros {
								if n > 40 && n%10 != 0 {
									continue
								}
								buf = []rune(strings.Repeat(m, n))
								check(w, buf)
								for _, sections := range []string{"1;", "0;", "255:", ";", "38;5;007;", "00:1;"} {
									for _, final := range []string{"0m", "m", "1h", "u", "200K", ""} {
										buf = []rune("\x1b[" + strings.Repeat(sections, n) + final + m)
										check(w, buf)
									}
								}
							}
						}
					})
				}
			},
		},
	}
}

func propC15() mc.Property {
	return mc.Property{
		ID: "C15", Level: modelChecking,
		Rule: "one case per token; non-trivial: the token is not a single text",
		Spaces: func(t mc.Tier) []mc.Space {
			spaces := ansiSpaces(t, checkC15)

			return append([]mc.Space{{
				Name: "nil", Bound: "nil and empty tokens",
				Run: func(w *mc.W) {
					w.Unit(func() {
						for _, in := range [][]rune{nil, {}} {
							w.Tick()
							got := ansi.StripToken(in)
							w.Step(1)
							if len(got) != 1 || len(got[0].Text)+len(got[0].StartSequence)+len(got[0].StopSequence)+len(got[0].Remainder) != 0 {
								w.Failf("%s", segs(got))
							}
						}
					})
				},
			}}, spaces...)
		},
	}
}

func propC16() mc.Property {
	return mc.Property{
		ID: "C16", Level: modelChecking,
		Rule:        "one case per token inside the documented grammar, compared with a reference lexer; non-trivial: the token holds a control sequence",
		Assumptions: []string{"tokens with a parameter of more than three digits, a non-ASCII digit or an escape as final rune are left to C15"},
		Spaces:      func(t mc.Tier) []mc.Space { return ansiSpaces(t, checkC16) },
	}
}
