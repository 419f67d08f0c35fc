// Command nidx looks ids up in node indexes through internal/nodeindex.
//
//	nidx CONFIG OUT     one JSON scenario per line in, one JSON event per line out
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	"github.com/squizzling/osmindex/internal/nodeindex"
)

type Scen struct {
	K      int      `json:"k"`
	Idx    string   `json:"idx"`
	Passes []uint64 `json:"passes"`
	Ids    []string `json:"ids"`
	Hints  []int    `json:"hints"`  // empty: every hint from 0 to elements+1
	Chains [][]int  `json:"chains"` // sequences of positions in Ids, looked up with the hint carried along
	Timing float64  `json:"timing"`
}

type Event struct {
	Ev   string    `json:"ev"`
	K    int       `json:"k"`
	N    uint64    `json:"n"`
	P    uint64    `json:"p"`
	Res  [][]int64 `json:"res"`
	Qs   []int     `json:"qs"`
	Locs uint64    `json:"locs"`
	Big  uint64    `json:"big"`
	Why  string    `json:"why,omitempty"`
}

func limbs(v int64) []int64 {
	u := uint64(v)
	return []int64{int64(u & 0xffff), int64(u >> 16 & 0xffff), int64(u >> 32 & 0xffff), int64(u >> 48)}
}

var none = []int64{}

func same(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func find(si *nodeindex.NodeSubIndex, id uint64, hint int) (res []int64, next int) {
	defer func() {
		if r := recover(); r != nil {
			res, next = []int64{-2}, 0
		}
	}()
	loc, h, ok := si.FindNode(id, hint)
	if !ok {
		return none, h
	}
	return limbs(loc), h
}

func main() {
	cf, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	of, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(of)
	enc := json.NewEncoder(w)
	sc := bufio.NewScanner(cf)
	sc.Buffer(make([]byte, 1<<20), 1<<30)
	for sc.Scan() {
		var s Scen
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			panic(err)
		}
		_ = enc.Encode(Event{Ev: "file", K: s.K, Res: [][]int64{}, Qs: []int{}})
		scenario(&s, enc)
	}
	_ = enc.Encode(Event{Ev: "end", Res: [][]int64{}, Qs: []int{}})
	_ = w.Flush()
}

func scenario(s *Scen, enc *json.Encoder) {
	defer func() {
		if r := recover(); r != nil {
			_ = enc.Encode(Event{Ev: "refused", K: s.K, Why: fmt.Sprint(r), Res: [][]int64{}, Qs: []int{}})
		}
	}()
	var timing *float64
	if s.Timing != 0 {
		timing = &s.Timing
	}
	ix := nodeindex.NewNodeIndex(s.Idx, timing)
	ids := make([]uint64, len(s.Ids))
	for i, x := range s.Ids {
		v, err := strconv.ParseUint(x, 10, 64)
		if err != nil {
			panic(err)
		}
		ids[i] = v
	}
	_ = enc.Encode(Event{Ev: "open", K: s.K, Locs: ix.LocationCount(), Res: [][]int64{}, Qs: []int{}})
	for _, n := range s.Passes {
		for p := uint64(0); p < n; p++ {
			si := ix.SubIndex(p, n)
			ec := si.ElementCount()
			hints := s.Hints
			if len(hints) == 0 {
				for h := 0; h <= ec+1; h++ {
					hints = append(hints, h)
				}
			}
			e := Event{Ev: "pass", K: s.K, N: n, P: p, Res: make([][]int64, len(ids)), Qs: []int{}}
			for i, id := range ids {
				var first []int64
				for j, h := range hints {
					if h < 0 { // relative to the number of elements
						h = ec + 1 + h
						if h < 0 {
							h = 0
						}
					}
					r, _ := find(si, id, h)
					if j == 0 {
						first = r
					} else if !same(first, r) {
						first = []int64{-1} // the answer depends on the hint
						break
					}
				}
				e.Res[i] = first
			}
			for i := 0; i < ec; i++ {
				c := si.Element(i).LastID() - si.Element(i).FirstID() + 1
				e.Locs += c
				if c > e.Big {
					e.Big = c
				}
			}
			_ = enc.Encode(e)
			for ci, ch := range s.Chains {
				if n > 1 && (p > 2 && p+1 < n || ci > 1) {
					break
				}
				c := Event{Ev: "chain", K: s.K, N: n, P: p, Res: make([][]int64, len(ch)), Qs: ch}
				h := 0
				for i, q := range ch {
					c.Res[i], h = find(si, ids[q], h)
				}
				_ = enc.Encode(c)
			}
		}
	}
	_ = enc.Encode(Event{Ev: "closed", K: s.K, Res: [][]int64{}, Qs: []int{}})
	ix.Close()
}
