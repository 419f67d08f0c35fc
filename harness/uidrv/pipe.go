package main

import (
	"context"
	"encoding/base64"
	"fmt"
	"time"

	"github.com/edsrzf/mmap-go"

	"github.com/squizzling/osmindex/internal/pbf"
)

// jobPipe runs the real workers of a tool over channels of its own: feed gives the next block to
// whichever worker waits, take receives one, end closes the input and lets the rest out.  Before
// every look the display is given time to show the blocks held by workers.
func jobPipe(j *Job) {
	theSched = nil
	b, work := newTool(j.Tool)
	g := newGrid(150, 40)
	b.w.SetView(g)
	in := make(chan pbf.Block)
	out := make(chan pbf.Block)
	ended := make(chan struct{})
	for i := 0; i < j.Workers; i++ {
		go func() {
			work(context.Background(), in, out)
			ended <- struct{}{}
		}()
	}
	emit(M{"ev": "begin", "k": j.K, "n": j.Workers, "tool": j.Tool})
	next := 0
	held := map[int]bool{}
	for _, st := range j.Steps {
		switch st {
		case "feed":
			raw, err := base64.StdEncoding.DecodeString(j.Blobs[next])
			if err != nil {
				panic(err)
			}
			select {
			case in <- pbf.Block{Index: uint64(next), Data: mmap.MMap(raw), BlobType: "OSMData"}:
				emit(M{"ev": "feed", "k": j.K, "i": next})
			case <-time.After(10 * time.Second):
				emit(M{"ev": "hang", "k": j.K})
				return
			}
			held[next] = true
			next++
		case "take":
			select {
			case blk := <-out:
				emit(M{"ev": "take", "k": j.K, "i": int(blk.Index)})
				delete(held, int(blk.Index))
			case <-time.After(10 * time.Second):
				emit(M{"ev": "hang", "k": j.K})
				return
			}
		case "end":
			close(in)
			for n := 0; n < j.Workers; {
				select {
				case <-ended:
					n++
				case blk := <-out:
					emit(M{"ev": "take", "k": j.K, "i": int(blk.Index)})
				case <-time.After(10 * time.Second):
					emit(M{"ev": "hang", "k": j.K})
					return
				}
			}
			j.Workers = 0
			held = nil
			emit(M{"ev": "ended", "k": j.K})
		case "look":
			// the workers get there on their own time: wait until enough lines show what is expected
			deadline := time.Now().Add(3 * time.Second)
			for {
				b.refresh()
				if settled(b.workers(), want(held, j.Workers)) || time.Now().After(deadline) {
					break
				}
				time.Sleep(100 * time.Microsecond)
			}
			emit(M{"ev": "lines", "k": j.K, "texts": b.workers()})
			// on the screen it is there after the next redraws
			for i := 0; i < 3; i++ {
				b.w.Draw()
				b.refresh()
			}
			b.w.Draw()
			ls := g.lines()
			if len(ls) == 0 {
				ls = []string{""}
			}
			emit(M{"ev": "lines", "k": j.K, "texts": ls[:len(ls)-1]})
		}
	}
}

func want(held map[int]bool, n int) []int {
	w := []int{}
	for i := range held {
		w = append(w, i)
	}
	for len(w) < n {
		w = append(w, -1)
	}
	return w
}

func settled(lines []string, want []int) bool {
	left := map[int]int{}
	for _, w := range want {
		left[w]++
	}
	for _, s := range lines {
		n := -2
		if _, err := fmt.Sscanf(s, "Worker: sending block %d", &n); err != nil && s == "Worker: waiting for block" {
			n = -1
		}
		left[n]--
	}
	for _, n := range left {
		if n != 0 {
			return false
		}
	}
	return true
}
