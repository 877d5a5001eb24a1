package main

import (
	"fmt"
	"strings"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/mc"
	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ref"
	"golang.org/x/text/language"
)

// the supported languages, in order of preference (the first is the default), and their pattern files
var (
	supportedTags = []language.Tag{
		language.MustParse("en-US"), language.MustParse("en-GB"), language.MustParse("en"),
		language.MustParse("fr"), language.MustParse("fr-CA"),
		language.MustParse("de"),
		language.MustParse("es"), language.MustParse("es-ES"), language.MustParse("es-419"),
	}
	supportedFiles = []string{
		"ushyphmax.tex", "hyph-en-gb.tex", "ushyphmax.tex", "hyph-fr.tex", "hyph-fr.tex", "hyph-de-1996.tex",
		"hyph-es.tex", "hyph-es.tex", "hyph-es.tex",
	}
	refMatcher = language.NewMatcher(supportedTags)
)

func wantFile(tag language.Tag) string {
	_, i, _ := refMatcher.Match(tag)

	return supportedFiles[i]
}

func wantFileString(s ...string) string {
	_, i := language.MatchStrings(refMatcher, s...)

	return supportedFiles[i]
}

// fingerprint words: they break differently in every pair of languages.
var fingerprint = []string{"hyphenation", "present", "table", "university", "algorithmus", "something", "bibliothek", "generalidad", "construction", "abogado", "wolkenkratzer"}

func fingerprintOf(h *hyphenator.Hyphenator) string {
	var b strings.Builder
	for _, f := range fingerprint {
		for _, p := range h.BreakWordString(f) {
			b.WriteString(string(p))
			b.WriteByte('-')
		}
		b.WriteByte(' ')
	}

	return b.String()
}

func refFingerprint(l *ref.Language) string {
	var b strings.Builder
	for _, f := range fingerprint {
		for _, p := range l.Hyphenate([]rune(f), ref.DefaultMinima) {
			b.WriteString(string(p))
			b.WriteByte('-')
		}
		b.WriteByte(' ')
	}

	return b.String()
}

var refPrints = func() map[string]string {
	out, back := map[string]string{}, map[string]string{}
	for _, l := range ref.Languages {
		p := refFingerprint(l)
		if back[p] != "" {
			panic("fingerprints of " + l.File + " and " + back[p] + " are equal")
		}
		out[l.File], back[p] = p, l.File
	}

	return out
}()

func checkLang(w *mc.W, want string, opts ...hyphenator.Option) {
	h := hyphenator.New(opts...)
	got := fingerprintOf(h)
	w.Step(1)
	w.Outcome(uint64(mc.NewHash().Str(got)))
	if got != refPrints[want] {
		which := "none of the supported languages"
		for f, p := range refPrints {
			if p == got {
				which = f
			}
		}
		w.Failf("uses the patterns of %s, want %s", which, want)
	}
	if want != supportedFiles[0] {
		w.NonTrivial()
	}
}

func checkTag(w *mc.W, s string) {
	tag, err := language.Parse(s)
	if err == nil {
		w.Tick()
		w.State()
		checkLang(w, wantFile(tag), hyphenator.WithLanguageTag(tag))
		checkLang(w, wantFile(tag), hyphenator.WithLanguage(s))
	}
}

var (
	baseTags = []string{
		"en", "en-US", "en-GB", "en-AU", "fr", "fr-CA", "fr-CH", "de", "de-AT", "es", "es-MX", "es-ES", "es-419", "pt", "ja", "und", "x-private", "",
		"not a language", "en_GB", "EN-gb", "de-DE-1996", "fr-u-co-phonebk", "en-US-u-rg-gbzzzz",
	}
	regionLangs = []string{"en", "fr", "de", "es"}
)

func propC09() mc.Property {
	return mc.Property{
		ID: "C09", Level: modelChecking,
		Rule:        "one case per tag or string; the pattern set in use is identified by how eleven words break, which differs for all five languages; non-trivial: not the default language",
		Assumptions: []string{"golang.org/x/text/language implements BCP 47 parsing and CLDR matching correctly; the supported languages in order of preference are en-US, en-GB, en, fr, fr-CA, de, es, es-ES, es-419"},
		Spaces: func(t mc.Tier) []mc.Space {
			return []mc.Space{
				{
					Name: "regions", Bound: "en, fr, de, es, alone and with Latn, times every two-letter and three-digit region",
					Run: func(w *mc.W) {
						var s string
						desc := func() string { return fmt.Sprintf("%q", s) }
						do := func(x string) {
							s = x
							w.Describe(desc)
							checkTag(w, s)
						}
						for _, l := range regionLangs {
							l := l
							w.Range(0, 26, 1, func(a int) {
								for b := 0; b < 26; b++ {
									r := string([]byte{byte('A' + a), byte('A' + b)})
									do(l + "-" + r)
									do(l + "-Latn-" + r)
									do(l + "-" + r + "-u-co-standard")
									do(l + "-" + r + "-x-user")
									do(l + "_" + strings.ToLower(r))
								}
							})
							w.Range(0, 1000, 50, func(n int) { do(fmt.Sprintf("%s-%03d", l, n)) })
						}
					},
				},
				{
					Name: "languages", Bound: "every two-letter and three-letter language code, alone, and with US, GB, DE, FR, ES, CH and Latn",
					Run: func(w *mc.W) {
						var s string
						w.Range(0, 26*26+26*26*26, 128, func(i int) {
							var l string
							if i < 676 {
								l = string([]byte{byte('a' + i/26), byte('a' + i%26)})
							} else {
								j := i - 676
								l = string([]byte{byte('a' + j/676), byte('a' + j/26%26), byte('a' + j%26)})
							}
							w.Describe(func() string { return fmt.Sprintf("%q", s) })
							if _, err := language.ParseBase(l); err != nil {
								return
							}
							for _, suffix := range []string{"", "-US", "-GB", "-DE", "-FR", "-ES", "-CH", "-Latn"} {
								s = l + suffix
								checkTag(w, s)
							}
						})
					},
				},
				{
					Name: "subtags", Bound: "en, fr, de, es, it, und, zh, gsw times a script, a region, a variant and an extension or private use, each of a few or absent, and the grandfathered tags",
					Run: func(w *mc.W) {
						scripts := []string{"", "-Latn", "-Cyrl", "-Arab", "-Dsrt"}
						regions := []string{"", "-US", "-GB", "-CH", "-AU", "-CA", "-MX", "-419", "-001", "-ZZ"}
						variants := []string{"", "-1996", "-1901", "-oxendict", "-scotland", "-valencia", "-rozaj-biske"}
						extensions := []string{"", "-u-co-phonebk", "-u-rg-gbzzzz", "-u-sd-usca", "-t-fr", "-x-en-us", "-u-va-posix", "-a-foo-u-co-trad"}
						var s string
						desc := func() string { return fmt.Sprintf("%q", s) }
						for _, l := range []string{"en", "fr", "de", "es", "it", "und", "zh", "gsw"} {
							for _, sc := range scripts {
								l, sc := l, sc
								w.Unit(func() {
									w.Describe(desc)
									for _, r := range regions {
										for _, v := range variants {
											for _, x := range extensions {
												s = l + sc + r + v + x
												checkTag(w, s)
											}
										}
									}
								})
							}
						}
						w.Unit(func() {
							w.Describe(desc)
							for _, s = range []string{
								"art-lojban", "cel-gaulish", "en-GB-oed", "en-gb-OED", "i-ami", "i-bnn", "i-default", "i-enochian", "i-hak", "i-klingon", "i-lux",
								"i-mingo", "i-navajo", "i-pwn", "i-tao", "i-tay", "i-tsu", "no-bok", "no-nyn", "sgn-BE-FR", "sgn-BE-NL", "sgn-CH-DE",
								"zh-guoyu", "zh-hakka", "zh-min", "zh-min-nan", "zh-xiang", "root", "mul", "mis", "zxx", "x-en-us", "en-abc", "zh-yue", "sr-ME", "ar-001",
							} {
								checkTag(w, s)
							}
						})
					},
				},
				{
					Name: "strings", Bound: "all strings of up to 3 bytes over 17 bytes, and every base tag with every prefix removed, accepted or not as a language tag",
					Run: func(w *mc.W) {
						alpha := "enfrdsGBU-_;q=0,1"
						var s string
						desc := func() string { return fmt.Sprintf("WithLanguage(%q)", s) }
						do := func() {
							w.Describe(desc)
							w.Tick()
							w.State()
							checkLang(w, wantFileString(s), hyphenator.WithLanguage(s))
						}
						w.Words(len(alpha), 0, 3, 1, func(seq []int) {
							var b []byte
							for _, k := range seq {
								b = append(b, alpha[k])
							}
							s = string(b)
							do()
						})
						w.Unit(func() {
							for _, b := range baseTags {
								for i := 0; i <= len(b); i++ {
									for j := i; j <= len(b); j++ {
										s = b[i:j]
										do()
									}
								}
								for _, c := range baseTags {
									s = b + ", " + c
									do()
									s = b + ";q=0.3," + c + ";q=0.8"
									do()
								}
							}
						})
					},
				},
				{
					Name: "options", Bound: "no option, and all pairs and triples of language options by tag and by string over the base tags: the last one wins, other options and earlier hyphenators do not matter",
					Run: func(w *mc.W) {
						w.Unit(func() {
							w.Describe(func() string { return "no option" })
							w.Tick()
							checkLang(w, supportedFiles[0])
							checkLang(w, supportedFiles[0], hyphenator.WithMinLength(4))
						})
						n := len(baseTags)
						w.Words(n, 2, 2, 1, func(seq []int) {
							a, b := baseTags[seq[0]], baseTags[seq[1]]
							kind := 0
							w.Describe(func() string { return fmt.Sprintf("options %q then %q (kinds %02b)", a, b, kind) })
							for kind = 0; kind < 4; kind++ {
								opt := func(s string, byTag bool) (hyphenator.Option, string) {
									if byTag {
										return hyphenator.WithLanguageTag(language.Make(s)), wantFile(language.Make(s))
									}

									return hyphenator.WithLanguage(s), wantFileString(s)
								}
								o1, f1 := opt(a, kind&1 == 1)
								o2, f2 := opt(b, kind&2 == 2)
								w.Tick()
								w.State()
								checkLang(w, f2, o1, o2)
								checkLang(w, f1, o2, hyphenator.WithMinLeft(2), o1)
								checkLang(w, f1, o1)
							}
						})
					},
				},
				{
					Name: "pattern-files", Bound: "every listed pattern file, and unknown names",
					Run: func(w *mc.W) {
						name := ""
						w.Unit(func() {
							w.Describe(func() string { return fmt.Sprintf("SupportedPatterns/LoadPatterns(%q)", name) })
							w.Tick()
							list, err := hyphenator.SupportedPatterns()
							if err != nil {
								w.Failf("SupportedPatterns: %v", err)
							}
							have := map[string]bool{}
							for _, name = range list {
								w.Tick()
								w.State()
								have[name] = true
								d, err := hyphenator.LoadPatterns(name)
								if err != nil || d == nil {
									w.Failf("LoadPatterns: %v", err)
								}
								w.Step(1)
							}
							for _, name = range supportedFiles {
								w.Tick()
								if !have[name] {
									w.Failf("not listed: %q", list)
								}
							}
							for _, name = range []string{"", "no-such-file.tex", "tex", "../languages.go", "hyph-fr"} {
								w.Tick()
								if d, err := hyphenator.LoadPatterns(name); err == nil && name != "" && name != "tex" {
									w.Failf("loads %v", d)
								}
								w.Step(1)
							}
						})
					},
				},
			}
		},
	}
}
