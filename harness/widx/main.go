// Command widx looks ways up in way indexes through internal/wayindex.
//
//	widx CONFIG OUT     one JSON scenario per line in, one JSON event per line out
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	"github.com/squizzling/osmindex/internal/wayindex"
)

type Scen struct {
	K      int      `json:"k"`
	Idx    string   `json:"idx"`
	Passes []int    `json:"passes"`
	Ids    []string `json:"ids"`
	Hints  []int    `json:"hints"` // empty: every hint from 0 to ways+1
	Chains [][]int  `json:"chains"`
	Timing float64  `json:"timing"`
}

// Res[i]: [] not found, otherwise ["+", locations...], or ["hint"] / ["panic"]
type Event struct {
	Ev  string     `json:"ev"`
	K   int        `json:"k"`
	N   int        `json:"n"`
	P   int        `json:"p"`
	Res [][]string `json:"res"`
	Qs  []int      `json:"qs"`
	Why string     `json:"why,omitempty"`
}

func find(si *wayindex.SubWayIndex, id int64, hint int) (res []string, next int) {
	defer func() {
		if r := recover(); r != nil {
			res, next = []string{"panic"}, 0
		}
	}()
	locs, h, ok := si.FindLocations(id, hint)
	if !ok {
		return []string{}, h
	}
	res = append(make([]string, 0, len(locs)+1), "+")
	for _, l := range locs {
		res = append(res, strconv.FormatInt(l, 10))
	}
	return res, h
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func main() {
	cf, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	of, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(of)
	enc := json.NewEncoder(w)
	sc := bufio.NewScanner(cf)
	sc.Buffer(make([]byte, 1<<20), 1<<30)
	for sc.Scan() {
		var s Scen
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			panic(err)
		}
		scenario(&s, enc)
	}
	_ = enc.Encode(Event{Ev: "end", Res: [][]string{}, Qs: []int{}})
	_ = w.Flush()
}

func scenario(s *Scen, enc *json.Encoder) {
	defer func() {
		if r := recover(); r != nil {
			_ = enc.Encode(Event{Ev: "refused", K: s.K, Why: fmt.Sprint(r), Res: [][]string{}, Qs: []int{}})
		}
	}()
	var timing *float64
	if s.Timing != 0 {
		timing = &s.Timing
	}
	ix := wayindex.NewWayIndex(s.Idx, timing)
	ids := make([]int64, len(s.Ids))
	for i, x := range s.Ids {
		v, err := strconv.ParseInt(x, 10, 64)
		if err != nil {
			panic(err)
		}
		ids[i] = v
	}
	_ = enc.Encode(Event{Ev: "open", K: s.K, Res: [][]string{}, Qs: []int{}})
	for _, n := range s.Passes {
		for p := 0; p < n; p++ {
			si := ix.SubIndexWithScaledPass(p, n)
			ec := len(ix.Ids)
			hints := s.Hints
			if len(hints) == 0 {
				for h := 0; h <= ec+1; h++ {
					hints = append(hints, h)
				}
			}
			e := Event{Ev: "pass", K: s.K, N: n, P: p, Res: make([][]string, len(ids)), Qs: []int{}}
			for i, id := range ids {
				var first []string
				for j, h := range hints {
					if h < 0 {
						h = ec + 1 + h
						if h < 0 {
							h = 0
						}
					}
					r, _ := find(si, id, h)
					if j == 0 {
						first = r
					} else if !same(first, r) {
						first = []string{"hint"}
						break
					}
				}
				e.Res[i] = first
			}
			_ = enc.Encode(e)
			for ci, ch := range s.Chains {
				if n > 1 && (p > 2 && p+1 < n || ci > 1) {
					break
				}
				c := Event{Ev: "chain", K: s.K, N: n, P: p, Res: make([][]string, len(ch)), Qs: ch}
				h := 0
				for i, q := range ch {
					c.Res[i], h = find(si, ids[q], h)
				}
				_ = enc.Encode(c)
			}
		}
	}
	_ = enc.Encode(Event{Ev: "closed", K: s.K, Res: [][]string{}, Qs: []int{}})
	ix.Close()
}
