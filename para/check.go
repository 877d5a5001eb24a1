package para

import (
	"fmt"
	"math"

	"github.com/fredbi/go-typeset/wordbreak/hyphenator/verif/ref"
)

// CheckFit decides C20 on one answer.
func (p *Para) CheckFit(width float64, lines []string, err error) error {
	_, feasible := p.Best(width, nil)
	switch {
	case err != nil && feasible:
		return fmt.Errorf("error %q, but the paragraph can be set", err)
	case err == nil && !feasible:
		return fmt.Errorf("lines %q, but no choice of legal breaks sets the paragraph within width and tolerance", lines)
	}
	for i, l := range lines {
		v := Visible(l)
		if w := p.cfg.Measure([]rune(v)); w > width {
			return fmt.Errorf("line %d, %q, is %v wide", i+1, v, w)
		}
	}

	return nil
}

// CheckText decides C21 on one answer without error.
func (p *Para) CheckText(lines []string) error {
	_, err := p.Parse(lines)

	return err
}

// CheckOptimal decides C22 on one answer without error.
func (p *Para) CheckOptimal(width float64, lines []string) error {
	ends, err := p.Parse(lines)
	if err != nil {
		return nil // C21 tells
	}
	opt, ok := p.Best(width, nil)
	if !ok {
		return nil // C20 tells
	}
	got, ok := p.Best(width, ends)
	if !ok {
		return fmt.Errorf("the lines %q are not within width and tolerance, other breaks are", lines)
	}
	if got > opt+1e-11*math.Max(1, math.Abs(opt)) {
		return fmt.Errorf("the lines %q have %.6f demerits, the least possible is %.6f", lines, got, opt)
	}

	return nil
}

// context is an open style.
type context struct{ start, stop string }

type styledItem struct {
	kind ref.Kind
	text string // one rune, or a sequence
	ctx  int    // the context a start opens or a stop closes
}

// CheckStyle decides C24: lines are cut so that every line is closed and reopens what was open.
func (p *Para) CheckStyle(lines []string) error {
	var (
		want  []styledItem
		ctxs  []context
		stack []int
	)
	for _, tok := range p.Tokens {
		items, ok := ref.Lex([]rune(tok))
		if !ok {
			return nil
		}
		for _, it := range items {
			switch it.Kind {
			case ref.Start:
				ctxs = append(ctxs, context{start: string(it.Runes)})
				stack = append(stack, len(ctxs)-1)
				want = append(want, styledItem{ref.Start, string(it.Runes), len(ctxs) - 1})
			case ref.Stop:
				if len(stack) == 0 {
					return nil // not properly nested
				}
				c := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				ctxs[c].stop = string(it.Runes)
				want = append(want, styledItem{ref.Stop, string(it.Runes), c})
			default:
				for _, r := range it.Runes {
					want = append(want, styledItem{ref.Text, string(r), 0})
				}
			}
		}
	}
	if len(stack) > 0 {
		return nil
	}

	got := make([][]styledItem, len(lines))
	for i, l := range lines {
		items, _ := ref.Lex([]rune(l))
		for _, it := range items {
			if it.Kind == ref.Text {
				for _, r := range it.Runes {
					if r != ' ' {
						got[i] = append(got[i], styledItem{ref.Text, string(r), 0})
					}
				}

				continue
			}
			got[i] = append(got[i], styledItem{it.Kind, string(it.Runes), 0})
		}
	}

	type node struct{ line, pos int }
	seen := map[node]bool{}
	deepest := 0

	// search tells whether lines from line on carry the items from pos on, with these contexts open
	var search func(line, pos int, open []int) bool
	search = func(line, pos int, open []int) bool {
		if line > deepest {
			deepest = line
		}
		if line == len(got) {
			return pos == len(want)
		}
		if seen[node{line, pos}] {
			return false
		}
		seen[node{line, pos}] = true

		g := got[line]
		for _, c := range open {
			if len(g) == 0 || g[0].kind != ref.Start || g[0].text != ctxs[c].start {
				return false
			}
			g = g[1:]
		}
		open = append([]int(nil), open...)
		for {
			// may the line end here?
			rest := g
			if len(rest) > 0 && rest[0].kind == ref.Text && rest[0].text == "-" && line < len(got)-1 {
				if p.closes(rest[1:], open, ctxs) && search(line+1, pos, open) {
					return true
				}
			}
			if p.closes(rest, open, ctxs) && search(line+1, pos, open) {
				return true
			}
			if len(g) == 0 || pos == len(want) || g[0].kind != want[pos].kind || g[0].text != want[pos].text {
				return false
			}
			switch want[pos].kind {
			case ref.Start:
				open = append(open, want[pos].ctx)
			case ref.Stop:
				open = open[:len(open)-1]
			}
			g, pos = g[1:], pos+1
		}
	}
	if search(0, 0, nil) {
		return nil
	}

	return fmt.Errorf("line %d of %q: styles are not those of the text, closed at the end of each line and reopened at the start of the next", min(deepest+1, len(lines)), lines)
}

func (p *Para) closes(g []styledItem, open []int, ctxs []context) bool {
	if len(g) != len(open) {
		return false
	}
	for i, it := range g {
		c := ctxs[open[len(open)-1-i]]
		if it.kind != ref.Stop || it.text != c.stop {
			return false
		}
	}

	return true
}

// Wellformed tells whether the tokens have only text and properly nested, closed sequences.
func Wellformed(tokens []string) bool {
	depth := 0
	for _, t := range tokens {
		items, ok := ref.Lex([]rune(t))
		if !ok {
			return false
		}
		for _, it := range items {
			switch it.Kind {
			case ref.Start:
				depth++
			case ref.Stop:
				if depth--; depth < 0 {
					return false
				}
			case ref.Other:
				return false
			}
		}
	}

	return depth == 0
}
