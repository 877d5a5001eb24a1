package ref

import (
	"embed"
	"sort"
	"strings"
	"unicode"
)

//go:embed tex/*.tex
var texFS embed.FS

// Language is a hyphenation reference: the pattern files as published (copies in ref/tex, comments and all)
// read with a TeX-like scanner, and Liang's algorithm applied literally.
type Language struct {
	Name       string
	File       string
	Patterns   map[string][]byte // letters and dots -> value before each letter, and after the last
	Exceptions map[string][]bool // word -> break before letter i
	Letters    []rune            // letters of the patterns, sorted
	Keys       []string          // sorted pattern keys
	Words      []string          // sorted exceptions
	maxKey     int
}

// Languages in a fixed order.
var Languages = []*Language{
	load("en-US", "ushyphmax.tex"),
	load("en-GB", "hyph-en-gb.tex"),
	load("de", "hyph-de-1996.tex"),
	load("fr", "hyph-fr.tex"),
	load("es", "hyph-es.tex"),
}

// ByFile finds the reference of a pattern file.
func ByFile(file string) *Language {
	for _, l := range Languages {
		if l.File == file {
			return l
		}
	}

	return nil
}

func lower(s string) string {
	return strings.Map(unicode.ToLower, s)
}

func load(name, file string) *Language {
	raw, err := texFS.ReadFile("tex/" + file)
	if err != nil {
		panic(err)
	}
	var clean strings.Builder
	for _, line := range strings.Split(string(raw), "\n") {
		if i := strings.IndexByte(line, '%'); i >= 0 {
			line = line[:i]
		}
		clean.WriteString(line)
		clean.WriteByte('\n')
	}
	text := clean.String()
	l := &Language{Name: name, File: file, Patterns: map[string][]byte{}, Exceptions: map[string][]bool{}}
	for _, p := range group(text, `\patterns{`) {
		l.addPattern(p)
	}
	for _, e := range group(text, `\hyphenation{`) {
		l.addException(e)
	}
	seen := map[rune]bool{}
	for k := range l.Patterns {
		l.Keys = append(l.Keys, k)
		n := 0
		for _, r := range k {
			n++
			if r != '.' && !seen[r] {
				seen[r] = true
				l.Letters = append(l.Letters, r)
			}
		}
		if n > l.maxKey {
			l.maxKey = n
		}
	}
	for k := range l.Exceptions {
		l.Words = append(l.Words, k)
	}
	sort.Strings(l.Keys)
	sort.Strings(l.Words)
	sort.Slice(l.Letters, func(i, j int) bool { return l.Letters[i] < l.Letters[j] })

	return l
}

// group returns the blank-separated items of all groups opened by head.
func group(text, head string) []string {
	var out []string
	for {
		i := strings.Index(text, head)
		if i < 0 {
			return out
		}
		text = text[i+len(head):]
		j := strings.IndexByte(text, '}')
		if j < 0 {
			j = len(text)
		}
		out = append(out, strings.Fields(text[:j])...)
		text = text[j:]
	}
}

func (l *Language) addPattern(p string) {
	var (
		key  []rune
		vals = []byte{0}
	)
	for _, r := range p {
		if r >= '0' && r <= '9' {
			vals[len(vals)-1] = byte(r - '0')

			continue
		}
		key = append(key, unicode.ToLower(r))
		vals = append(vals, 0)
	}
	l.Patterns[string(key)] = vals
}

func (l *Language) addException(e string) {
	var (
		word   []rune
		breaks []bool
		next   bool
	)
	for _, r := range e {
		if r == '-' {
			next = true

			continue
		}
		word = append(word, unicode.ToLower(r))
		breaks = append(breaks, next)
		next = false
	}
	l.Exceptions[string(word)] = breaks
}

// Minima of a hyphenation.
type Minima struct{ Length, Left, Right int }

// DefaultMinima as documented.
var DefaultMinima = Minima{4, 2, 2}

// Points returns whether the patterns or the exceptions allow a break before letter i, minima aside.
func (l *Language) Points(word []rune) []bool {
	low := lower(string(word))
	if ex, ok := l.Exceptions[low]; ok {
		return ex
	}
	delimited := append(append([]rune{'.'}, []rune(low)...), '.')
	vals := make([]byte, len(delimited)+1)
	for i := range delimited {
		for j := i + 1; j <= len(delimited) && j-i <= l.maxKey; j++ {
			for k, v := range l.Patterns[string(delimited[i:j])] {
				if v > vals[i+k] {
					vals[i+k] = v
				}
			}
		}
	}
	out := make([]bool, len(word))
	for i := range word {
		out[i] = i > 0 && vals[i+1]%2 == 1
	}

	return out
}

// Hyphenate cuts a word.
func (l *Language) Hyphenate(word []rune, m Minima) [][]rune {
	if len(word) < m.Length || HasHyphen(word) {
		return [][]rune{word}
	}

	return Cut(word, l.Points(word), m)
}

// Cut applies the minima greedily from the left.
func Cut(word []rune, points []bool, m Minima) [][]rune {
	var out [][]rune
	prev := 0
	for i, ok := range points {
		if i > 0 && ok && i-prev >= m.Left && len(word)-i >= m.Right {
			out = append(out, word[prev:i])
			prev = i
		}
	}

	return append(out, word[prev:])
}
