package main

import (
	"github.com/gdamore/tcell"
)

type cell struct {
	ch    rune
	comb  []rune
	style tcell.Style
}

// grid is a views.View which keeps what is drawn.
type grid struct {
	w, h  int
	cells []cell
}

func newGrid(w, h int) *grid {
	g := &grid{w: w, h: h}
	g.Clear()
	return g
}

func (g *grid) SetContent(x, y int, ch rune, comb []rune, style tcell.Style) {
	if x >= 0 && x < g.w && y >= 0 && y < g.h {
		g.cells[y*g.w+x] = cell{ch, append([]rune(nil), comb...), style}
	}
}
func (g *grid) Size() (int, int)               { return g.w, g.h }
func (g *grid) Resize(x, y, width, height int) {}
func (g *grid) Clear()                         { g.Fill(' ', tcell.StyleDefault) }
func (g *grid) Fill(ch rune, style tcell.Style) {
	g.cells = make([]cell, g.w*g.h)
	for i := range g.cells {
		g.cells[i] = cell{ch, nil, style}
	}
}

// row returns the text of a row (wide characters fill two cells, of which the second is left out by
// the caller) without blanks at the end, and which cells are highlighted.
func (g *grid) row(y int) ([]string, []int) {
	var s []string
	var rev []int
	for x := 0; x < g.w; x++ {
		c := g.cells[y*g.w+x]
		s = append(s, string(c.ch)+string(c.comb))
		_, _, a := c.style.Decompose()
		r := 0
		if a&tcell.AttrReverse != 0 {
			r = 1
		}
		rev = append(rev, r)
	}
	return s, rev
}

func (g *grid) line(y int) string {
	cs, _ := g.row(y)
	s := ""
	for _, c := range cs {
		s += c
	}
	for len(s) > 0 && s[len(s)-1] == ' ' {
		s = s[:len(s)-1]
	}
	return s
}

func (g *grid) lines() []string {
	ls := []string{}
	for y := 0; y < g.h; y++ {
		if s := g.line(y); s != "" {
			ls = append(ls, s)
		}
	}
	return ls
}
