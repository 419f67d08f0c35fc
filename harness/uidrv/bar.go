package main

import (
	"context"
	"time"

	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"

	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/ui"
	"github.com/squizzling/osmindex/internal/ui/widget"
)

func codes(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

// see emits what a line shows, on a screen of the width of the job
func see(j *Job, ev string, i int, w views.Widget, g *grid) {
	s := text(w)
	m := M{"ev": ev, "k": j.K, "i": i, "text": s, "shown": codes(s)}
	hl := []int{}
	for p := range m["shown"].([]int) {
		h := 0
		if w.(interface{ StyleAt(int) tcell.Style }).StyleAt(p) != tcell.StyleDefault {
			h = 1
		}
		hl = append(hl, h)
	}
	m["hl"] = hl
	w.Draw()
	cells, chl := []int{}, []int{}
	for x := 0; x < g.w; x++ {
		c := g.cells[x]
		h := 0
		if c.style != tcell.StyleDefault {
			h = 1
		}
		cells = append(cells, int(c.ch))
		chl = append(chl, h)
	}
	m["cells"], m["chl"] = cells, chl
	emit(m)
}

func jobBar(j *Job) {
	g := newGrid(j.Width, 1)
	v := views.NewViewPort(g, 0, 0, j.Width, 1)
	emit(M{"ev": "bar", "k": j.K})
	switch j.Tool {
	case "mark":
		l := widget.NewWidgetCommonLine(func() {})
		l.SetView(v)
		for i, a := range j.At {
			l.SetMarkup(ui.MarkupAsProgress(j.Text, j.Width, float64(a)/float64(j.Max)))
			see(j, "see", i, l, g)
		}
	case "file":
		gate := make(chan struct{})
		got := make(chan struct{})
		work := func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
			for range in {
				got <- struct{}{}
				<-gate
			}
		}
		pfs := pbf.ProcessFileAsync(context.Background(), j.Text, work, nil, 1)
		var w views.Widget
		if j.Count > 0 {
			w = widget.NewPassProgress(j.Pass, j.Count, pfs)
		} else {
			w = widget.NewProcessFileStateWidget("action", pfs)
		}
		w.SetView(v)
		late := time.After(20 * time.Second)
		for i := range j.At {
			select {
			case <-got:
			case <-late:
				emit(M{"ev": "hang", "k": j.K})
				return
			}
			// the worker holds block i; the reader gets to wait with the next one
			for t := 0; t < 20000; t++ {
				if i+1 < len(j.At) && pfs.At() == j.At[i+1] && pfs.CurrentState() == pbf.ProcessFileStateSendingBlock {
					break
				}
				if i+1 == len(j.At) && pfs.CurrentState() == pbf.ProcessFileStateShuttingDown {
					break
				}
				time.Sleep(100 * time.Microsecond)
			}
			w.HandleEvent(ui.NewEventUpdate())
			if i+1 < len(j.At) {
				see(j, "see", i+1, w, g)
			} else {
				see(j, "end", 0, w, g)
			}
			gate <- struct{}{}
		}
		pfs.Wait()
		w.HandleEvent(ui.NewEventUpdate())
		see(j, "end", 0, w, g)
	default:
		l := newLine(j.Tool)
		l.widget.SetView(v)
		for i, o := range j.Ops {
			if o.Op != "see" {
				l.ops[o.Op](o.Arg)
				continue
			}
			l.widget.HandleEvent(ui.NewEventUpdate())
			see(j, "see", i, l.widget, g)
		}
	}
}
