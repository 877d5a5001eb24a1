// Package para is the reference model of paragraph setting, and the checks of observed lines against it.
//
// The model is the classical one: a paragraph is a list of atoms (unbreakable pieces of words) with the legal
// breaks after them. The least total demerits are found by dynamic programming over all legal breaks and
// fitness classes, without any of the pruning of the implementation.
package para

import (
	"fmt"
	"math"
	"strings"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ref"
)

// Config of a line breaker, as the reference sees it.
type Config struct {
	Name          string
	Tolerance     float64
	Scale         float64
	WordBreak     bool
	RenderHyphens bool
	HyphenPenalty float64
	Flagged       float64
	Measure       func([]rune) float64
	Hyphenate     func([]rune) [][]rune
	Punctuate     func([]rune) [][]rune
}

const (
	linePenalty   = 10.0
	badness       = 100.0
	fitness       = 200.0
	stretch       = 6.0
	finalStretch  = 10000.0
	hardPenalty   = 200.0
	punctPenalty  = 400.0
	shortestSplit = 5 // shorter parts of words are never broken
)

// Default configuration.
func Default() Config {
	return Config{
		Name: "default", Tolerance: 8.6, Scale: 1, WordBreak: true, RenderHyphens: true,
		HyphenPenalty: 300, Flagged: 100, Measure: Cells,
		Hyphenate: func(w []rune) [][]rune { return ref.Languages[0].Hyphenate(w, ref.DefaultMinima) },
		Punctuate: func(w []rune) [][]rune { return ref.Isolate(w, ref.IsSeparator) },
	}
}

// Cells of a terminal.
func Cells(in []rune) float64 {
	n := 0
	for _, r := range in {
		n += ref.Width(r, ref.WidthOptions{})
	}

	return float64(n)
}

type breakKind uint8

const (
	noBreak breakKind = iota
	spaceBreak
	punctBreak
	hardBreak
	softBreak
	finalBreak
)

type atom struct {
	text  []rune
	width float64
	after breakKind // intrinsic legal break after the atom
	token int
	last  bool // last atom of its token
}

// Para is a paragraph under a configuration.
type Para struct {
	Tokens []string
	Plain  []string // tokens without escape sequences
	Styled bool
	cfg    *Config
	atoms  []atom
	space  float64
	hyphen float64
}

// New paragraph. Tokens may hold start and stop sequences only.
func New(cfg *Config, tokens []string) *Para {
	p := &Para{Tokens: tokens, cfg: cfg, space: cfg.width([]rune{' '}), hyphen: cfg.width([]rune{'-'})}

	for t, tok := range tokens {
		items, _ := ref.Lex([]rune(tok))
		first := len(p.atoms)
		plain := ""
		for _, it := range items {
			if it.Kind != ref.Text {
				p.Styled = true

				continue
			}
			plain += string(it.Runes)
			for _, part := range cfg.Punctuate(it.Runes) {
				switch {
				case len(part) == 1 && ref.IsSeparator(part[0]):
					p.add(t, part, punctBreak)
				case !cfg.WordBreak || len(part) < shortestSplit:
					p.add(t, part, noBreak)
				default:
					for _, word := range ref.Isolate(part, ref.IsHyphen) {
						if len(word) == 1 && ref.IsHyphen(word[0]) {
							p.add(t, word, hardBreak)

							continue
						}
						hy := cfg.Hyphenate(word)
						for i, w := range hy {
							if i < len(hy)-1 {
								p.add(t, w, softBreak)
							} else {
								p.add(t, w, noBreak)
							}
						}
					}
				}
			}
		}
		if len(p.atoms) == first {
			p.add(t, nil, noBreak)
		}
		p.atoms[len(p.atoms)-1].last = true
		p.Plain = append(p.Plain, plain)
	}

	return p
}

func (c *Config) width(rs []rune) float64 { return math.Round(c.Measure(rs) * c.Scale) }

func (p *Para) add(t int, text []rune, after breakKind) {
	p.atoms = append(p.atoms, atom{text: text, width: p.cfg.width(text), after: after, token: t})
}

// options are the legal breaks after an atom.
func (p *Para) options(i int) []breakKind {
	if i == len(p.atoms)-1 {
		return []breakKind{finalBreak}
	}
	a := p.atoms[i]
	switch {
	case a.last && a.after != noBreak && a.after != softBreak:
		return []breakKind{spaceBreak, a.after}
	case a.last:
		return []breakKind{spaceBreak}
	case a.after != noBreak:
		return []breakKind{a.after}
	}

	return nil
}

// lineWidth is the width of the line made of atoms from..to.
func (p *Para) lineWidth(from, to int, kind breakKind) float64 {
	w := 0.0
	for i := from; i <= to; i++ {
		w += p.atoms[i].width
		if i < to && p.atoms[i].last {
			w += p.space
		}
	}
	if kind == softBreak && p.cfg.RenderHyphens {
		w += p.hyphen
	}

	return w
}

func (k breakKind) flagged() bool { return k >= punctBreak }

func (p *Para) penalty(k breakKind) float64 {
	switch k {
	case punctBreak:
		return punctPenalty
	case hardBreak:
		return hardPenalty
	case softBreak:
		return p.cfg.HyphenPenalty
	}

	return 0
}

func class(ratio float64) int {
	switch {
	case ratio < -0.5:
		return 0
	case ratio <= 0.5:
		return 1
	case ratio <= 1:
		return 2
	}

	return 3
}

// line gives demerits and class of a line of some width, false when not feasible.
func (p *Para) line(width, ideal float64, prev, kind breakKind, prevClass int) (float64, int, bool) {
	if width > ideal {
		return 0, 0, false
	}
	ratio := 0.0
	if width < ideal {
		s := stretch
		if kind == finalBreak {
			s = finalStretch
		}
		ratio = (ideal - width) / s
	}
	if ratio > p.cfg.Tolerance {
		return 0, 0, false
	}
	b := linePenalty + badness*math.Pow(ratio, 3)
	d := 0.0
	switch pen := p.penalty(kind); {
	case kind == finalBreak:
		d = b * b
	case pen > 0:
		d = (b + pen) * (b + pen)
	default:
		d = b*b - pen*pen
	}
	if prev.flagged() && kind.flagged() {
		d += p.cfg.Flagged
	}
	c := class(ratio)
	if c-prevClass > 1 || prevClass-c > 1 {
		d += fitness
	}

	return d, c, true
}

type state struct {
	atom  int // the line before ended after this atom
	kind  breakKind
	class int
}

// Best returns the least total demerits of any way to set the paragraph, false when there is none. When ends
// is not nil, lines end exactly after these atoms.
func (p *Para) Best(width float64, ends []End) (float64, bool) {
	ideal := math.Floor(width*p.cfg.Scale + 1e-6) // measures are whole
	n := len(p.atoms)
	isEnd := map[int]int{}
	for i, e := range ends {
		isEnd[e.Atom] = i + 1
	}

	// best[i] : states that end after atom i-1; i = 0 is the start of the paragraph
	best := make([]map[state]float64, n+1)
	best[0] = map[state]float64{{-1, noBreak, 1}: 0}

	for from := 0; from < n; from++ {
		if len(best[from]) == 0 {
			continue
		}
		w := 0.0
		for to := from; to < n; to++ {
			w += p.atoms[to].width
			lw := w
			if p.atoms[to].last {
				w += p.space
			}
			if lw > ideal && p.space >= 0 {
				break
			}
			if ends != nil && isEnd[to] == 0 {
				continue
			}
			if ends != nil && from > 0 && isEnd[to] != isEnd[from-1]+1 {
				continue
			}
			if ends != nil && from == 0 && isEnd[to] != 1 {
				continue
			}
			for _, k := range p.options(to) {
				if ends != nil && (k == softBreak) != ends[isEnd[to]-1].Soft {
					continue
				}
				width := lw
				if k == softBreak && p.cfg.RenderHyphens {
					width += p.hyphen
				}
				for s, total := range best[from] {
					d, c, ok := p.line(width, ideal, s.kind, k, s.class)
					if !ok {
						continue
					}
					if best[to+1] == nil {
						best[to+1] = map[state]float64{}
					}
					ns := state{to, k, c}
					if old, seen := best[to+1][ns]; !seen || total+d < old {
						best[to+1][ns] = total + d
					}
				}
			}
		}
	}

	min, ok := math.Inf(1), false
	for _, total := range best[n] {
		if total < min {
			min, ok = total, true
		}
	}

	return min, ok
}

// End of an observed line.
type End struct {
	Atom int
	Soft bool
}

// Visible is the text of a line without its escape sequences.
func Visible(line string) string {
	if !strings.Contains(line, "\x1b") {
		return line
	}
	var b strings.Builder
	items, _ := ref.Lex([]rune(line))
	for _, it := range items {
		if it.Kind == ref.Text {
			b.WriteString(string(it.Runes))
		}
	}

	return b.String()
}

// Parse finds at which legal breaks the lines were cut. It fails when the lines do not carry the text, or were
// cut elsewhere.
func (p *Para) Parse(lines []string) ([]End, error) {
	var (
		ends     []End
		furthest int
		search   func(line, from int) bool
	)
	vis := make([]string, len(lines))
	for i, l := range lines {
		vis[i] = Visible(l)
	}
	search = func(line, from int) bool {
		if line > furthest {
			furthest = line
		}
		if line == len(vis) {
			return from == len(p.atoms)
		}
		text := ""
		for to := from; to < len(p.atoms); to++ {
			text += string(p.atoms[to].text)
			if len(text) > len(vis[line])+1 {
				return false
			}
			for _, k := range p.options(to) {
				want := text
				if k == softBreak && p.cfg.RenderHyphens {
					want += "-"
				}
				if want != vis[line] {
					continue
				}
				ends = append(ends, End{to, k == softBreak})
				if search(line+1, to+1) {
					return true
				}
				ends = ends[:len(ends)-1]
			}
			if p.atoms[to].last {
				text += " "
			}
		}

		return false
	}
	if search(0, 0) {
		return ends, nil
	}
	if furthest >= len(lines) {
		return nil, fmt.Errorf("the lines end before the text does: %q", lines)
	}

	return nil, fmt.Errorf("line %d of %q is not what the text has between two legal breaks (visible %q)", furthest+1, lines, vis[furthest])
}
