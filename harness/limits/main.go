// Command limits packs pairs of numbers into the entries of the indexes and reads them back.
//
//	limits IN OUT    lines "co count offset" or "wi wayid offset" (64 bit patterns, unsigned)
//	                 -> lines "1 x y" (read back) or "0 0 0" (refused)
package main

import (
	"bufio"
	"fmt"
	"os"

	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/wayindex"
)

func try(kind string, x, y uint64) (taken int, a, b uint64) {
	defer func() {
		if e := recover(); e != nil {
			taken, a, b = 0, 0, 0
		}
	}()
	if kind == "co" {
		w := nodeindex.NewCountOffset(x, y)
		return 1, w.Count(), w.Offset()
	}
	w := wayindex.MakeIndexData(int64(x), int64(y))
	return 1, uint64(w.WayID()), uint64(w.Offset())
}

func main() {
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(out)
	sc := bufio.NewScanner(in)
	for sc.Scan() {
		var kind string
		var x, y uint64
		if _, err := fmt.Sscan(sc.Text(), &kind, &x, &y); err != nil {
			panic(err)
		}
		t, a, b := try(kind, x, y)
		fmt.Fprintln(w, t, a, b)
	}
	if err := w.Flush(); err != nil {
		panic(err)
	}
}
