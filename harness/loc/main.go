// Command loc runs internal/morton (and lookups in a node index) over many positions.
//
//	loc enc IN OUT        lines "lon lat" -> lines "word lon lat"
//	loc dec IN OUT        lines "word" -> lines "word lon lat"
//	loc find IDX N OUT    nodes 1..N of an index -> lines "word lon lat"
//	loc sweep TAB STEP    every STEP-th longitude and latitude against the table of the specification
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
	"sync"

	"github.com/squizzling/osmindex/internal/morton"
	"github.com/squizzling/osmindex/internal/nodeindex"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func word(lon, lat int32) uint64 { return morton.Encode(lon, lat|math.MinInt32) }

type table struct{ Spread, Top []uint64 }

func (t *table) want(lon, lat int32) uint64 {
	w := uint64(0)
	for k := 0; k < 4; k++ {
		x := uint32(lon) >> (8 * k) & 0xff
		y := uint64(uint32(lat) >> (8 * k) & 0xff)
		if k == 3 {
			y = t.Top[y]
		}
		w |= (t.Spread[x] + 2*t.Spread[y]) << (16 * k)
	}
	return w
}

func main() {
	switch os.Args[1] {
	case "enc", "dec":
		in, err := os.Open(os.Args[2])
		must(err)
		out, err := os.Create(os.Args[3])
		must(err)
		w := bufio.NewWriter(out)
		sc := bufio.NewScanner(in)
		for sc.Scan() {
			var u uint64
			if os.Args[1] == "enc" {
				var lon, lat int32
				_, err := fmt.Sscan(sc.Text(), &lon, &lat)
				must(err)
				u = word(lon, lat)
			} else {
				i, err := strconv.ParseInt(sc.Text(), 10, 64)
				must(err)
				u = uint64(i)
			}
			lo, la := morton.DecodeLocation(u)
			fmt.Fprintln(w, int64(u), lo, la)
		}
		must(w.Flush())
		must(out.Close())
	case "find":
		n, err := strconv.Atoi(os.Args[3])
		must(err)
		out, err := os.Create(os.Args[4])
		must(err)
		w := bufio.NewWriter(out)
		ni := nodeindex.NewNodeIndex(os.Args[2], nil)
		si := ni.SubIndex(0, 1)
		for id := 1; id <= n; id++ {
			l, _, ok := si.FindNode(uint64(id), 0)
			if !ok {
				l = 0
			}
			lo, la := morton.DecodeLocation(uint64(l))
			fmt.Fprintln(w, int64(l), lo, la)
		}
		must(w.Flush())
		must(out.Close())
	case "sweep":
		var t table
		must(json.Unmarshal([]byte(os.Args[2]), &t))
		step, err := strconv.ParseInt(os.Args[3], 10, 64)
		must(err)
		const lonMax, latMax = 1800000000, 900000000
		var mu sync.Mutex
		var n, bad uint64
		first := ""
		var wg sync.WaitGroup
		p := int64(runtime.NumCPU())
		for g := int64(0); g < p; g++ {
			wg.Add(1)
			go func(g int64) {
				defer wg.Done()
				var ln, lb uint64
				try := func(lon, lat int32) {
					ln++
					w := word(lon, lat)
					lo, la := morton.DecodeLocation(w)
					if w != t.want(lon, lat) || int64(w) >= 0 || lo != lon || la != lat {
						lb++
						mu.Lock()
						if first == "" {
							first = fmt.Sprint(lon, " ", lat)
						}
						mu.Unlock()
					}
				}
				// the coordinates move together, so that their bits combine in many ways
				for x := -lonMax + g*step; x <= lonMax; x += p * step {
					lat := int64(uint32(x)*2654435761>>1)%(2*latMax+1) - latMax
					try(int32(x), int32(lat))
				}
				for y := -latMax + g*step; y <= latMax; y += p * step {
					lon := int64(uint32(y)*2246822519)%(2*lonMax+1) - lonMax
					try(int32(lon), int32(y))
				}
				mu.Lock()
				n += ln
				bad += lb
				mu.Unlock()
			}(g)
		}
		wg.Wait()
		out, _ := json.Marshal(map[string]interface{}{"n": n, "bad": bad, "first": first})
		fmt.Println(string(out))
	}
}
