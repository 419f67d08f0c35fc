// Command cut runs the workers and writers of the tools, cancels them in the midst of a run, and
// reports what their workers got and sent on.
//
//	cut CONFIG OUT
//
// CONFIG: one JSON run per line.  OUT: one JSON event per line.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"os"
	"sync"
	"time"

	"github.com/squizzling/osmindex/cmd/decompress/decompressor"
	"github.com/squizzling/osmindex/cmd/nodeindex/indexer"
	"github.com/squizzling/osmindex/cmd/relindex/relindexerinit"
	"github.com/squizzling/osmindex/cmd/rewritenodes/rewriter"
	"github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer"
	"github.com/squizzling/osmindex/cmd/wayindex/wayindexer"
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/pbf"
)

type Step struct {
	Op string `json:"op"`
	I  int    `json:"i"`
}

type Run struct {
	K       int    `json:"k"`
	Tool    string `json:"tool"`
	In      string `json:"in"`
	Out     string `json:"out"`
	Index   string `json:"index"`
	Blocks  int    `json:"blocks"`
	W       int    `json:"w"`
	Steps   []Step `json:"steps"`   // what happens before the cancel; none: nothing is held
	AfterUs int    `json:"afterus"` // without steps: cancel after so many microseconds, -1 never
}

type Event struct {
	Ev string `json:"ev"`
	K  int    `json:"k"`
	I  int    `json:"i"`
}

type driver struct {
	r      Run
	mu     sync.Mutex
	events []Event
	take   chan struct{}
	tok    [2][]chan struct{}
	ack    chan struct{}
	free   chan struct{}
	void   chan struct{}
	once   sync.Once
}

func (d *driver) log(ev string, i int) {
	d.mu.Lock()
	d.events = append(d.events, Event{ev, d.r.K, i})
	d.mu.Unlock()
}

func (d *driver) wait(c chan struct{}) {
	select {
	case <-c:
	case <-d.free:
	}
}

func (d *driver) did() {
	select {
	case d.ack <- struct{}{}:
	default:
	}
}

func (d *driver) token(n int, i uint64) chan struct{} {
	if i < uint64(len(d.tok[n])) {
		return d.tok[n][i]
	}
	return nil
}

// wrap lets a worker of a tool look at its block, and send on what it has made, when it may
func (d *driver) wrap(inner pbf.WorkFunc) pbf.WorkFunc {
	return func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		ci, co, gone := make(chan pbf.Block), make(chan pbf.Block), make(chan struct{})
		go func() {
			inner(ctx, ci, co)
			close(gone)
		}()
		for {
			d.wait(d.take)
			var b pbf.Block
			var ok bool
			select {
			case b, ok = <-in:
			case <-gone: // it does not take any more
				d.did()
				return
			}
			if !ok {
				d.did()
				break
			}
			d.log("in", int(b.Index))
			d.did()
			d.wait(d.token(0, b.Index))
			select {
			case ci <- b:
			case <-gone:
				// It would not have taken this block, so this is no run of the tool
				d.once.Do(func() { close(d.void) })
				select {}
			}
			d.did()
			var x pbf.Block
			select {
			case x = <-co:
			case <-gone:
				select {} // the block is lost, and the run hangs
			}
			d.wait(d.token(1, b.Index))
			d.log("out", int(x.Index))
			out <- x
			d.did()
		}
		close(ci)
		<-gone
	}
}

func (d *driver) run() string {
	r := d.r
	var work pbf.WorkFunc
	var write pbf.WriteFunc
	var ix *nodeindex.NodeIndex
	switch r.Tool {
	case "decompress":
		x := &decompressor.Decompressor{}
		work, write = x.Worker, x.Output(r.Out)
	case "tagfilter":
		x := &tagfilterer.TagFilterer{}
		work, write = x.Worker(), x.Writer(r.Out)
	case "rewritenodes":
		ix = nodeindex.NewNodeIndex(r.Index, nil)
		x := &rewriter.NodeRewriter{}
		work, write = x.Worker(ix.SubIndex(0, 1), true), x.Writer(r.Out)
	case "relindex":
		x := &relindexerinit.RelIndexerInitializer{}
		work, write = x.Worker(), x.Output(r.Out)
	case "nodeindex":
		x := &indexer.NodeIndexer{}
		work, write = x.Worker, x.Output(r.Out)
	case "wayindex":
		x := &wayindexer.WayIndexer{}
		work, write = x.Worker(3), x.Output(r.Out, 3)
	default:
		panic(r.Tool)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if len(r.Steps) == 0 {
		close(d.free)
	}
	waited := make(chan struct{})
	pfs := pbf.ProcessFileAsync(ctx, r.In, d.wrap(work), write, r.W)
	go func() {
		pfs.Wait()
		d.log("done", 0)
		close(waited)
	}()
	if len(r.Steps) > 0 {
		for _, s := range r.Steps {
			if s.Op == "cancel" {
				d.log("cancel", 0)
				cancel()
				continue
			}
			var c chan struct{}
			switch s.Op {
			case "take":
				c = d.take
			case "feed":
				c = d.tok[0][s.I]
			case "send":
				c = d.tok[1][s.I]
			default:
				panic(s.Op)
			}
			for len(d.ack) > 0 {
				<-d.ack
			}
			c <- struct{}{}
			select {
			case <-d.ack:
			case <-time.After(100 * time.Millisecond): // not possible now
			case <-waited:
			}
		}
		close(d.free)
	} else if r.AfterUs >= 0 {
		time.Sleep(time.Duration(r.AfterUs) * time.Microsecond)
		d.log("cancel", 0)
		cancel()
	}
	select {
	case <-waited:
	case <-d.void:
		return "void"
	case <-time.After(20 * time.Second):
		return "hang"
	}
	if ix != nil {
		ix.Close()
	}
	return ""
}

func main() {
	cf, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	of, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(cf)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	enc := json.NewEncoder(of)
	for sc.Scan() {
		var r Run
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			panic(err)
		}
		_ = enc.Encode(Event{"start", r.K, 0})
		d := &driver{r: r, take: make(chan struct{}, 64), ack: make(chan struct{}, 1024), free: make(chan struct{}), void: make(chan struct{})}
		for i := range d.tok {
			for j := 0; j < r.Blocks; j++ {
				d.tok[i] = append(d.tok[i], make(chan struct{}, 8))
			}
		}
		end := d.run()
		d.mu.Lock()
		for _, e := range d.events {
			_ = enc.Encode(e)
		}
		if end != "" {
			_ = enc.Encode(Event{end, r.K, 0})
			os.Exit(0)
		}
		d.mu.Unlock()
	}
	_ = enc.Encode(Event{Ev: "end"})
}
