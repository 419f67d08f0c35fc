// Command pipe drives pbf.ProcessFileAsync with workers and a writer which are
// gated by a schedule (or run freely), and reports what each of them observed.
//
//	pipe CONFIG OUT
//
// CONFIG: one JSON run per line.  OUT: one JSON event per line.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/edsrzf/mmap-go"

	"github.com/squizzling/osmindex/internal/pbf"
)

type Step struct {
	Op string `json:"op"`
	W  int    `json:"w"`
}

type CancelAt struct {
	Op string `json:"op"`
	N  int    `json:"n"`
}

type Blk struct {
	T string `json:"t"`
	N int    `json:"n"`
	C uint32 `json:"c"`
}

type Run struct {
	Run       int       `json:"run"`
	File      string    `json:"file"`
	Blocks    []Blk     `json:"blocks"`
	W         int       `json:"w"`
	Mode      string    `json:"mode"` // gated, free
	Steps     []Step    `json:"steps"`
	NilWriter bool      `json:"nilwriter"`
	Seed      int64     `json:"seed"`
	Hold      int       `json:"hold"`      // free: keep this block back until HoldUntil others were sent
	HoldUntil int       `json:"holduntil"` //
	Slow      string    `json:"slow"`      // free: "", "writer", "workers", "both", "none"
	CancelAt  *CancelAt `json:"cancelat"`
	Merge     bool      `json:"merge"`
	Retain    bool      `json:"retain"`
	Procs     int       `json:"procs"`
	HangMs    int       `json:"hangms"`
}

type Event struct {
	Ev  string `json:"ev"`
	Run int    `json:"run"`
	W   int    `json:"w"`
	I   int    `json:"i"`
	Lo  int    `json:"lo"`
	Hi  int    `json:"hi"`
	Ok  bool   `json:"ok"`
	At  int64  `json:"at"`
	Max int64  `json:"max"`
	Why string `json:"why,omitempty"`
}

// payload is what a worker passes on; the writer must receive this very value
type payload struct {
	index uint64
	token int64
	orig  []byte
}

type driver struct {
	r      Run
	mu     sync.Mutex
	events []Event
	counts map[string]int
	cancel context.CancelFunc
	tokens []int64 // token sent for each block
	sent   int64
	sentCh chan struct{}
	ended  bool
}

func (d *driver) log(e Event) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.ended {
		return
	}
	e.Run = d.r.Run
	d.events = append(d.events, e)
	d.counts[e.Ev]++
	if c := d.r.CancelAt; c != nil && c.Op == e.Ev && c.N == d.counts[e.Ev] {
		d.events = append(d.events, Event{Ev: "cancel", Run: d.r.Run})
		d.cancel()
	}
}

func bytesOf(v interface{}) ([]byte, bool) {
	switch x := v.(type) {
	case mmap.MMap:
		return x, true
	case []byte:
		return x, true
	}
	return nil, false
}

func (d *driver) matches(i uint64, typ string, data []byte) (bool, string) {
	if i >= uint64(len(d.r.Blocks)) {
		return false, fmt.Sprintf("index %d out of range", i)
	}
	b := d.r.Blocks[i]
	if b.T != typ {
		return false, fmt.Sprintf("block %d has type %q, the file has %q", i, typ, b.T)
	}
	if len(data) != b.N || crc32.ChecksumIEEE(data) != b.C {
		return false, fmt.Sprintf("block %d: %d bytes crc %08x, the file has %d bytes crc %08x", i, len(data), crc32.ChecksumIEEE(data), b.N, b.C)
	}
	return true, ""
}

type gate struct {
	tok  chan struct{} // permission for one operation
	ack  chan struct{} // the operation completed
	free chan struct{} // closed: everything is permitted
}

func newGate(free chan struct{}) *gate {
	return &gate{tok: make(chan struct{}, 64), ack: make(chan struct{}, 1024), free: free}
}

func (g *gate) wait() {
	select {
	case <-g.tok:
	case <-g.free:
	}
}

func (g *gate) done() {
	select {
	case g.ack <- struct{}{}:
	default:
	}
}

func main() {
	cf, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	of, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(cf)
	sc.Buffer(make([]byte, 1<<20), 1<<30)
	enc := json.NewEncoder(of)
	for sc.Scan() {
		var r Run
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			panic(err)
		}
		_ = enc.Encode(Event{Ev: "start", Run: r.Run})
		d := &driver{r: r, counts: map[string]int{}, tokens: make([]int64, len(r.Blocks)), sentCh: make(chan struct{})}
		ok := d.run()
		for _, e := range d.events {
			_ = enc.Encode(e)
		}
		if !ok {
			_ = enc.Encode(Event{Ev: "hang", Run: r.Run})
			os.Exit(0)
		}
	}
	_ = enc.Encode(Event{Ev: "end"})
}

func (d *driver) run() bool {
	r := d.r
	if r.Procs > 0 {
		runtime.GOMAXPROCS(r.Procs)
	}
	ctx, cancel := context.WithCancel(context.Background())
	d.cancel = cancel
	defer cancel()

	free := make(chan struct{})
	gates := make([]*gate, r.W+1)
	for i := range gates {
		gates[i] = newGate(free)
	}
	gated := r.Mode == "gated"
	if !gated {
		close(free)
	}

	var nextWorker int64
	work := func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		w := int(atomic.AddInt64(&nextWorker, 1))
		g := gates[0]
		if w < len(gates) {
			g = gates[w]
		}
		rng := rand.New(rand.NewSource(r.Seed*1000 + int64(w)))
		var kept []pbf.Block
		for {
			g.wait()
			b, ok := <-in
			if !ok {
				g.done()
				break
			}
			data, isBytes := bytesOf(b.Data)
			good, why := d.matches(b.Index, b.BlobType, data)
			if !isBytes {
				good, why = false, fmt.Sprintf("data is a %T", b.Data)
			}
			if !r.Merge {
				d.log(Event{Ev: "recv", W: w, I: int(b.Index), Ok: good, Why: why})
			} else {
				d.log(Event{Ev: "rcv1", W: w, I: int(b.Index), Ok: good, Why: why})
			}
			if r.Retain {
				kept = append(kept, b)
			}
			g.done()

			if r.Mode == "free" {
				if (r.Slow == "workers" || r.Slow == "both") && rng.Intn(3) == 0 {
					time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
				} else if r.Slow != "none" && rng.Intn(2) == 0 {
					runtime.Gosched()
				}
				if r.HoldUntil > 0 && int(b.Index) == r.Hold {
					select {
					case <-d.sentCh:
					case <-ctx.Done():
					}
				}
			}
			if out == nil {
				if !r.Merge {
					d.log(Event{Ev: "consume", W: w, I: int(b.Index)})
				}
				continue
			}
			g.wait()
			tok := rng.Int63() | 1
			if b.Index < uint64(len(d.tokens)) {
				atomic.StoreInt64(&d.tokens[b.Index], tok)
			}
			msg := pbf.Block{Index: b.Index, BlobType: b.BlobType + "/out", Data: payload{b.Index, tok, data}}
			if !r.Merge {
				d.log(Event{Ev: "send", W: w, I: int(b.Index)})
			}
			// a send on a closed channel is a violation of the contract, and crashes the driver
			out <- msg
			if n := atomic.AddInt64(&d.sent, 1); r.HoldUntil > 0 && int(n) == r.HoldUntil {
				close(d.sentCh)
			}
			g.done()
		}
		good, why := true, ""
		for _, b := range kept {
			data, _ := bytesOf(b.Data)
			if ok, wy := d.matches(b.Index, b.BlobType, data); !ok {
				good, why = false, wy
			}
		}
		d.log(Event{Ev: "wexit", W: w, Ok: good, Why: why})
	}

	var write pbf.WriteFunc
	if !r.NilWriter {
		write = func(ctx context.Context, in <-chan pbf.Block) {
			g := gates[0]
			rng := rand.New(rand.NewSource(r.Seed*1000 + 999))
			var kept []payload
			types := map[uint64]string{}
			for {
				g.wait()
				b, ok := <-in
				if !ok {
					g.done()
					break
				}
				good, why := true, ""
				p, isP := b.Data.(payload)
				if !isP {
					good, why = false, fmt.Sprintf("the writer received a %T", b.Data)
				} else if p.index != b.Index || b.Index >= uint64(len(d.tokens)) || atomic.LoadInt64(&d.tokens[b.Index]) != p.token {
					good, why = false, fmt.Sprintf("block %d does not carry what its worker sent", b.Index)
				} else {
					typ := b.BlobType
					if len(typ) > 4 {
						typ = typ[:len(typ)-4]
					}
					types[b.Index] = typ
					good, why = d.matches(b.Index, typ, p.orig)
					if r.Retain {
						kept = append(kept, p)
					}
				}
				if !r.Merge {
					d.log(Event{Ev: "write", I: int(b.Index), Ok: good, Why: why})
				} else {
					d.log(Event{Ev: "wrt1", I: int(b.Index), Ok: good, Why: why})
				}
				g.done()
				if r.Mode == "free" && (r.Slow == "writer" || r.Slow == "both") && rng.Intn(3) == 0 {
					time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
				}
			}
			if r.Slow == "writer" || r.Slow == "both" {
				time.Sleep(2 * time.Millisecond) // anything which does not wait for the writer shows now
			}
			good, why := true, ""
			for _, p := range kept {
				if ok, wy := d.matches(p.index, types[p.index], p.orig); !ok {
					good, why = false, wy
				}
			}
			d.log(Event{Ev: "wrexit", Ok: good, Why: why})
		}
	}

	pfs := pbf.ProcessFileAsync(ctx, r.File, work, write, r.W)
	waited := make(chan struct{})
	go func() {
		pfs.Wait()
		at, max := int64(pfs.At()), int64(pfs.Max())
		d.log(Event{Ev: "done", At: at, Max: max})
		close(waited)
	}()

	if gated {
		for _, s := range r.Steps {
			g := gates[s.W]
			switch s.Op {
			case "recv", "send", "write":
				g.tok <- struct{}{}
				select {
				case <-g.ack:
				case <-time.After(25 * time.Millisecond): // cannot complete yet; it will later
				case <-waited:
				}
			case "cancel":
				d.log(Event{Ev: "cancel"})
				cancel()
			case "giveup":
				time.Sleep(200 * time.Microsecond)
			}
		}
		close(free)
	}

	hang := time.Duration(r.HangMs) * time.Millisecond
	select {
	case <-waited:
	case <-time.After(hang):
		d.mu.Lock()
		d.ended = true
		d.mu.Unlock()
		return false
	}
	time.Sleep(100 * time.Microsecond)
	d.mu.Lock()
	defer d.mu.Unlock()
	d.ended = true
	if r.Merge {
		d.events = merge(d.events)
	}
	return true
}

// merge turns single events into intervals: receives (a set) at the front, and
// writes (a sequence) in order behind them
func merge(in []Event) []Event {
	var out, tail []Event
	n := 0
	good, why := true, ""
	seen := map[int]int{}
	hi := -1
	for _, e := range in {
		switch e.Ev {
		case "rcv1":
			seen[e.I]++
			if e.I > hi {
				hi = e.I
			}
			if !e.Ok {
				good, why = false, e.Why
			}
			n++
		case "wrt1":
			if k := len(tail); k > 0 && tail[k-1].Ev == "writes" && tail[k-1].Hi+1 == e.I && tail[k-1].Ok == e.Ok {
				tail[k-1].Hi = e.I
			} else {
				tail = append(tail, Event{Ev: "writes", Run: e.Run, Lo: e.I, Hi: e.I, Ok: e.Ok, Why: e.Why})
			}
		default:
			tail = append(tail, e)
		}
	}
	run := 0
	if len(in) > 0 {
		run = in[0].Run
	}
	for i := 0; i <= hi; i++ {
		for k := 0; k < seen[i]; k++ {
			if m := len(out); k == 0 && m > 0 && out[m-1].Hi+1 == i {
				out[m-1].Hi = i
			} else {
				out = append(out, Event{Ev: "recvs", Run: run, Lo: i, Hi: i, Ok: good, Why: why})
			}
		}
	}
	return append(out, tail...)
}
