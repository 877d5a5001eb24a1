// Package scen defines the concurrent scenarios that are explored: which operations of /repo each goroutine
// does. An operation calls the library and returns a function that writes out what it got: formatting is
// left until every goroutine has ended, as it would synchronise them (package fmt uses a pool).
package scen

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/fredbi/go-typeset/linebreak"
	"github.com/fredbi/go-typeset/terminal/ansi"
	"github.com/fredbi/go-typeset/terminal/runes"
	"github.com/fredbi/go-typeset/terminal/runes/runesio"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/punctuator"
	"github.com/fredbi/go-typeset/wordbreak/tokenizer"
	"golang.org/x/text/language"
)

// Out writes out the result of an operation.
type Out func() string

// World is what the operations of one execution share.
type World struct {
	Buf    []rune // one array, of which the operations process slices
	Shared *hyphenator.Hyphenator
	Tokens [][]string
	Opts   []linebreak.Option // with spare room, as all lists of options
	Wide   []runes.Option

	dicts map[string][]*hyphenator.Dictionary
}

// dict tells if the dictionary is the first one seen for the language.
func (w *World) dict(lang string, d *hyphenator.Dictionary) string {
	if d == nil {
		return lang + ": no dictionary"
	}
	for i, x := range w.dicts[lang] {
		if x == d {
			return fmt.Sprintf("%s: dictionary %d %s", lang, i, d.Identifier)
		}
	}
	w.dicts[lang] = append(w.dicts[lang], d)

	return fmt.Sprintf("%s: dictionary %d %s", lang, len(w.dicts[lang])-1, d.Identifier)
}

// Scenario is what some goroutines do at once, and what is done once they have ended.
type Scenario struct {
	Name    string
	Prop    string
	Threads [][]string
	After   []string
	Setup   func(*World) `json:"-"`
	// Deep scenarios are left to the thorough tier.
	Deep bool
}

// Op is an operation.
type Op func(*World) Out

// NewWorld for a scenario.
func NewWorld(s *Scenario) *World {
	w := &World{dicts: map[string][]*hyphenator.Dictionary{}}
	w.Wide = append(make([]runes.Option, 0, 8), runes.WithEastAsian(true), runes.WithEastAsianAmbiguousWidth(3), runes.WithSkipStrictEmojiNeutral(true))
	if s.Setup != nil {
		s.Setup(w)
	}

	return w
}

func text(parts [][]rune) string {
	var b strings.Builder
	for _, p := range parts {
		fmt.Fprintf(&b, "[%x:%s]", p, string(p))
	}

	return b.String()
}

func single(rs []rune) string { return fmt.Sprintf("%x:%s", rs, string(rs)) }

func number(n int) Out { return func() string { return fmt.Sprint(n) } }

// WidthSettings by name.
var WidthSettings = map[string]func() []runes.Option{
	"":   func() []runes.Option { return nil },
	"ea": func() []runes.Option { return []runes.Option{runes.WithEastAsian(true)} },
	"ea3": func() []runes.Option {
		return []runes.Option{runes.WithEastAsian(true), runes.WithEastAsianAmbiguousWidth(3)}
	},
	"eaemoji": func() []runes.Option {
		return []runes.Option{runes.WithEastAsian(true), runes.WithSkipStrictEmojiNeutral(true), runes.WithEastAsianAmbiguousWidth(1)}
	},
	"amb3":  func() []runes.Option { return []runes.Option{runes.WithEastAsianAmbiguousWidth(3)} },
	"emoji": func() []runes.Option { return []runes.Option{runes.WithSkipStrictEmojiNeutral(true)} },
}

// Ops by name.
var Ops = map[string]Op{}

// Scenarios of all properties.
var Scenarios []*Scenario

var mixed = []rune{'a', 0xF8, 0x301, 0x4E2D, 0x2764, 0x2E3A, 0x2E3B, -1, 0x1F600, 0x110000, 0x7F}

func init() {
	// C03: width NAME=FUNCTION/SETTING/ARGUMENT
	for name, mk := range WidthSettings {
		mk := mk
		for _, r := range mixed {
			r := r
			Ops[fmt.Sprintf("width/%s/%x", name, uint32(r))] = func(*World) Out { return number(runes.Width(r, mk()...)) }
		}
		Ops["widths/"+name] = func(*World) Out { return number(runes.Widths(mixed, mk()...)) }
		Ops["string/"+name] = func(*World) Out { return number(runes.StringWidth("aø中❤⸺⸻", mk()...)) }
	}
	Ops["ambiguous"] = func(*World) Out {
		a, b := runes.IsAmbiguous(0xF8), runes.IsAmbiguous('a')

		return func() string { return fmt.Sprint(a, b) }
	}
	Ops["every-width"] = func(*World) Out {
		h := uint64(14695981039346656037)
		add := func(n int) { h = (h ^ uint64(uint32(n))) * 1099511628211 }
		for r := rune(-2); r < 0x110002; r++ {
			add(runes.Width(r))
		}
		add(runes.Widths(mixed))
		for _, name := range []string{"ea", "ea3", "eaemoji", "amb3", "emoji"} {
			opts := WidthSettings[name]()
			add(runes.Widths(mixed, opts...))
			for r := rune(0); r < 0x20000; r += 97 {
				add(runes.Width(r, opts...))
			}
		}

		return func() string { return fmt.Sprintf("%x", h) }
	}
	for n := 0; n <= 3; n++ { // a list of options used by several goroutines, in part or whole
		n := n
		Ops[fmt.Sprintf("list/%d", n)] = func(w *World) Out {
			a, b, c := runes.Width(0xF8, w.Wide[:n]...), runes.Widths(mixed, w.Wide[:n]...), runes.StringWidth("aø中❤⸺⸻", w.Wide[:n]...)

			return func() string { return fmt.Sprint(a, b, c) }
		}
	}
	every := []string{"every-width"}
	c03 := func(name string, deep bool, threads ...[]string) {
		Scenarios = append(Scenarios, &Scenario{Name: "C03-" + name, Prop: "C03", Threads: threads, After: every, Deep: deep})
	}
	c03("width-width", false, []string{"width//4e2d", "width/ea/f8"}, []string{"width//2e3a", "width//f8"})
	c03("width-widths", false, []string{"width/ea3/f8", "width//301"}, []string{"widths/", "width/ea/f8"})
	c03("string-options", false, []string{"string/eaemoji", "string/"}, []string{"widths/amb3", "widths/ea3"})
	c03("option-list", false, []string{"list/1", "list/2"}, []string{"list/3", "list/0", "list/1"})
	c03("emoji-options", true, []string{"width/eaemoji/2764", "width/emoji/2764", "width//2764"}, []string{"width//2764", "width/eaemoji/2764", "ambiguous"})
	c03("three", true, []string{"width//4e2d"}, []string{"widths/ea"}, []string{"string/"})
	c03("three-cold", true, []string{"widths/"}, []string{"width//1f600"}, []string{"width//f8"})

	// C10
	tags := map[string]language.Tag{"en-US": language.AmericanEnglish, "en-GB": language.BritishEnglish, "fr": language.French, "de": language.German, "es": language.Spanish}
	words := []string{"hyphenation", "Association", "incomprehensibilities", "cat", "Straßenbahnhaltestelle", "anticonstitutionnellement", "well-known", "présent", "project", "honorificabilitudinitatibusque"}
	for lang, tag := range tags {
		lang, tag := lang, tag
		Ops["new/"+lang] = func(w *World) Out {
			h := hyphenator.New(hyphenator.WithLanguageTag(tag))
			var got [8][][]rune
			for i := range got {
				got[i] = h.BreakWordString(words[i])
			}

			return func() string {
				out := w.dict(lang, h.Dictionary)
				for _, g := range got {
					out += " " + text(g)
				}

				return out
			}
		}
		Ops["minima/"+lang] = func(w *World) Out {
			h := hyphenator.New(hyphenator.WithLanguage(lang), hyphenator.WithMinLength(1), hyphenator.WithMinLeft(1), hyphenator.WithMinRight(1))
			a, b := h.BreakWordString(words[0]), h.BreakWordString(words[9])

			return func() string { return w.dict(lang, h.Dictionary) + text(a) + text(b) }
		}
		Ops["load/"+lang] = func(w *World) Out {
			file := map[string]string{"en-US": "ushyphmax.tex", "en-GB": "hyph-en-gb.tex", "fr": "hyph-fr.tex", "de": "hyph-de-1996.tex", "es": "hyph-es.tex"}[lang]
			d, err := hyphenator.LoadPatterns(file)

			return func() string { return fmt.Sprint(d != nil, err) }
		}
	}
	for i, word := range words {
		word := word
		Ops[fmt.Sprintf("shared/%d", i)] = func(w *World) Out {
			got := w.Shared.BreakWord([]rune(word))

			return func() string { return text(got) }
		}
	}
	Ops["options"] = func(*World) Out { // made by one goroutine, used by several
		h := hyphenator.New(sharedOptions...)
		got := h.BreakWordString(words[0])

		return func() string { return text(got) }
	}
	c10 := func(name string, deep bool, setup func(*World), threads ...[]string) {
		Scenarios = append(Scenarios, &Scenario{Name: "C10-" + name, Prop: "C10", Threads: threads, Setup: setup, Deep: deep,
			After: []string{"new/es", "new/en-US", "new/fr"}})
	}
	warm := func(lang string) func(*World) {
		return func(w *World) { w.Shared = hyphenator.New(hyphenator.WithLanguage(lang)) }
	}
	c10("same-language", false, nil, []string{"new/es"}, []string{"new/es"})
	c10("two-languages", false, nil, []string{"new/es"}, []string{"new/fr"})
	c10("crossed-languages", false, nil, []string{"new/fr", "minima/es"}, []string{"new/es", "minima/fr"})
	c10("shared", false, warm("es"), []string{"shared/2", "shared/0", "shared/3"}, []string{"shared/9", "shared/5", "shared/8"})
	c10("shared-and-new", false, warm("es"), []string{"shared/1", "minima/es", "shared/6"}, []string{"minima/es", "shared/2", "new/fr"})
	c10("options", true, nil, []string{"options", "minima/es"}, []string{"minima/es", "options"})
	c10("load", true, nil, []string{"load/es", "new/es"}, []string{"new/es", "load/es"})
	c10("three", true, nil, []string{"new/es"}, []string{"new/es"}, []string{"new/fr"})
	c10("three-shared", true, warm("fr"), []string{"shared/5"}, []string{"shared/7"}, []string{"shared/2"})
	c10("english", true, nil, []string{"new/en-US"}, []string{"new/en-US"})
	c10("english-british", true, nil, []string{"new/en-US", "new/en-GB"}, []string{"new/en-GB", "new/en-US"})

	// C19: the same input, or neighbouring slices of one array
	input := []rune("\x1b[31mcOLou\u0301Red,text\x1b[0m and-more\x1b[1;4mx\x1b[mno\u00adw,")
	cut := 14
	slices := map[string]func(w *World) []rune{
		"all":   func(w *World) []rune { return w.Buf[:len(input)] },
		"left":  func(w *World) []rune { return w.Buf[:cut] },
		"right": func(w *World) []rune { return w.Buf[cut:len(input)] },
	}
	for name, slice := range slices {
		slice := slice
		on := func(op string, f func([]rune) Out) {
			Ops[op+"/"+name] = func(w *World) Out { return f(slice(w)) }
		}
		on("strip", func(in []rune) Out {
			got := ansi.StripToken(in)

			return func() string {
				var b strings.Builder
				for _, s := range got {
					fmt.Fprintf(&b, "<%x|%s|%x>", s.StartSequence, string(s.Text), s.StopSequence)
				}

				return b.String()
			}
		})
		on("strip1", func(in []rune) Out {
			got := ansi.StripANSIFromRunes(in)

			return func() string {
				return fmt.Sprintf("<%x|%s|%x|%s>", got.StartSequence, string(got.Text), got.StopSequence, string(got.Remainder))
			}
		})
		on("punct", func(in []rune) Out {
			got := punctuator.New().BreakWord(in)

			return func() string { return text(got) }
		})
		on("token", func(in []rune) Out {
			got := tokenizer.New().BreakWord(in)

			return func() string { return text(got) }
		})
		on("fields", func(in []rune) Out {
			got := runes.FieldsFunc(in, unicode.IsPunct)

			return func() string { return text(got) }
		})
		on("hyph", func(in []rune) Out {
			got := hyphenator.New(hyphenator.WithLanguage("es"), hyphenator.WithMinLeft(1), hyphenator.WithMinRight(1)).BreakWord(in)

			return func() string { return text(got) }
		})
		on("split", func(in []rune) Out {
			got := hyphenator.SplitWord(in)
			a, b := hyphenator.IsHyphen(in), punctuator.IsPunctuation(in)

			return func() string { return text(got) + fmt.Sprint(a, b) }
		})
		on("cells", func(in []rune) Out {
			return number(runes.Widths(in, runes.WithEastAsian(true)))
		})
		on("table", func(in []rune) Out { // builds the lookup table first
			return number(runes.Widths(in))
		})
		on("reader", func(in []rune) Out {
			r := runesio.NewSliceReader(in)
			c, n, err := r.ReadRune()
			_, _ = r.Seek(2, 1)
			rest, part := r.Runes(), r.Slices([]int{1, 3, 2, 5})
			part = append(part, r.SliceFromByteOffsets([]int{1, 3, 0, 4})...)

			return func() string { return fmt.Sprint(c, n, err, single(rest), text(part)) }
		})
		on("writer", func(in []rune) Out {
			var b strings.Builder
			n, err := runesio.AsRunesWriter(&b).WriteRunes(in)
			out := b.String()

			return func() string { return fmt.Sprint(n, err, out) }
		})
	}
	Ops["buffer"] = func(w *World) Out { return func() string { return single(w.Buf) } }
	setup := func(w *World) {
		w.Buf = make([]rune, len(input)+40)
		for i := range w.Buf {
			w.Buf[i] = 0x2022
		}
		copy(w.Buf, input)
	}
	c19 := func(name string, deep bool, threads ...[]string) {
		Scenarios = append(Scenarios, &Scenario{Name: "C19-" + name, Prop: "C19", Threads: threads, Setup: setup, After: []string{"buffer"}, Deep: deep})
	}
	all := []string{"strip", "strip1", "punct", "token", "fields", "hyph", "split", "cells", "reader", "writer"}
	for _, a := range all {
		c19(a+"-same", a == "hyph", []string{a + "/all"}, []string{a + "/all"})
		c19(a+"-neighbours", a == "hyph", []string{a + "/left"}, []string{a + "/right", a + "/all"})
	}
	c19("table-same", true, []string{"table/all"}, []string{"table/all"})
	for i, a := range all {
		for _, b := range all[i+1:] {
			c19(a+"-"+b, true, []string{a + "/all", b + "/left"}, []string{b + "/all", a + "/right"})
		}
	}
	c19("word-breakers", false, []string{"punct/all", "split/left", "token/all"}, []string{"hyph/left", "punct/right", "fields/all"})

	// C23
	paragraphs := [][]string{
		strings.Fields("In olden times when wishing, still helped well-known kings"),
		strings.Fields("\x1b[31mred \x1b[1mbold\x1b[0m still\x1b[0m plain, incomprehensibilities"),
		strings.Fields("a Honorificabilitudinitatibus"),
		strings.Fields("one two three four five six seven eight nine ten eleven"),
	}
	break1 := func(l *linebreak.LineBreaker, tokens []string, width float64) Out {
		lines, err := l.LeftAlignUniform(tokens, width)

		return func() string { return fmt.Sprintf("%q %v", lines, err) }
	}
	for i := range paragraphs {
		i := i
		for _, width := range []float64{4, 9, 16} {
			width := width
			Ops[fmt.Sprintf("lines/%d/%v", i, width)] = func(w *World) Out {
				return break1(linebreak.New(w.Opts...), w.Tokens[i], width)
			}
			Ops[fmt.Sprintf("default/%d/%v", i, width)] = func(w *World) Out { // the default hyphenator and punctuator
				return break1(linebreak.New(linebreak.WithMeasurer(cells)), w.Tokens[i], width)
			}
			Ops[fmt.Sprintf("plain/%d/%v", i, width)] = func(w *World) Out { return break1(linebreak.New(), w.Tokens[i], width) }
			Ops[fmt.Sprintf("reuse/%d/%v", i, width)] = func(w *World) Out {
				l := linebreak.New(w.Opts...)
				a := break1(l, w.Tokens[1], 3)
				b := break1(l, w.Tokens[i], width)
				c := break1(l, w.Tokens[i], width)

				return func() string { return a() + b() + c() }
			}
		}
	}
	every2 := func(word []rune) [][]rune {
		var out [][]rune
		for len(word) > 3 {
			out = append(out, word[:2])
			word = word[2:]
		}

		return append(out, word)
	}
	tokens := func(w *World) {
		w.Tokens = paragraphs
		w.Opts = append(make([]linebreak.Option, 0, 8), linebreak.WithHyphenator(every2), linebreak.WithTolerance(20), linebreak.WithMeasurer(cells))
	}
	c23 := func(name string, deep bool, threads ...[]string) {
		Scenarios = append(Scenarios, &Scenario{Name: "C23-" + name, Prop: "C23", Threads: threads, Setup: tokens, After: []string{"lines/0/9", "lines/1/16"}, Deep: deep})
	}
	c23("same", false, []string{"lines/0/9"}, []string{"lines/0/9"})
	c23("styles", false, []string{"lines/1/9"}, []string{"lines/1/16"})
	c23("reuse", false, []string{"reuse/2/9"}, []string{"lines/1/16", "lines/3/9"})
	c23("default", false, []string{"default/2/16"}, []string{"default/1/16"})
	c23("plain", true, []string{"plain/2/16"}, []string{"plain/1/16"})
	c23("three", true, []string{"lines/0/9"}, []string{"lines/1/9"}, []string{"lines/3/16"})
	c23("reuse-both", true, []string{"reuse/1/16"}, []string{"reuse/0/9"})
	for i := range paragraphs {
		for _, width := range []float64{4, 9, 16} {
			// a single goroutine: the only decisions are the orders of iteration over maps
			c23(fmt.Sprintf("alone-%d-%v", i, width), false, []string{fmt.Sprintf("reuse/%d/%v", i, width)})
		}
	}
}

func cells(rs []rune) float64 { return float64(len(rs)) }

var sharedOptions = append(make([]hyphenator.Option, 0, 8), hyphenator.WithLanguage("es"), hyphenator.WithMinLeft(1))
