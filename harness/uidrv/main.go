// Command uidrv drives the real list of workers, state lines and widgets.
//
//	uidrv IN OUT   one JSON job per line; one JSON event per line
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sync"
	"time"

	"github.com/gdamore/tcell/views"

	"github.com/squizzling/osmindex/internal/tracker"
	"github.com/squizzling/osmindex/internal/ui"
	"github.com/squizzling/osmindex/internal/ui/widget"
)

type Op struct {
	Op  string `json:"op"`
	Arg uint64 `json:"arg"`
}

type Job struct {
	Mode    string   `json:"mode"`
	K       int      `json:"k"`
	Tool    string   `json:"tool"`
	Workers int      `json:"workers"`
	Shows   int      `json:"shows"`
	Sched   []string `json:"sched"`
	Ops     []Op     `json:"ops"`
	Blobs   []string `json:"blobs"`
	Steps   []string `json:"steps"`
	Seed    int64    `json:"seed"`
	Ms      int      `json:"ms"`
	Width   int      `json:"width"`
	Text    string   `json:"text"`
	Pcts    []float64
	At      []uint64
	Max     uint64
	Pass    uint64
	Count   uint64
}

type M map[string]interface{}

var (
	outMu sync.Mutex
	enc   *json.Encoder
)

func emit(m M) {
	outMu.Lock()
	defer outMu.Unlock()
	if err := enc.Encode(m); err != nil {
		panic(err)
	}
}

func children(w views.Widget) []views.Widget {
	return w.(interface{ Widgets() []views.Widget }).Widgets()
}

func text(w views.Widget) string {
	// SimpleStyledText has its Text both as field and as method
	t := reflect.Indirect(reflect.ValueOf(w)).FieldByName("Text").Addr().Interface()
	return t.(interface{ Text() string }).Text()
}

// box is the display of the workers and the writer of a tool
type box struct{ w views.Widget }

func (b *box) refresh() { b.w.HandleEvent(ui.NewEventUpdate()) }
func (b *box) workers() []string {
	ls := []string{}
	for _, w := range children(children(b.w)[0]) {
		ls = append(ls, text(w))
	}
	return ls
}
func (b *box) writer() string { return text(children(b.w)[1]) }

type ident struct{ name string }

func newIdent(s interface{}) views.Widget {
	yield(false)
	var l *widget.WidgetCommonLine
	l = widget.NewWidgetCommonLine(func() { l.SetText(s.(*ident).name) })
	return l
}

type trackable interface {
	tracker.StateProvider
	TrackWorker(interface{})
	UntrackWorker(interface{})
}

type identProvider struct {
	trackable
}

func (ip identProvider) WriterState() interface{} { return &ident{"writer"} }

func jobTrack(j *Job) {
	p := newProvider(j.Tool)
	b := &box{widget.NewWidgetCmd(identProvider{p}, newIdent, newIdent)}
	names := []string{}
	for i := 0; i < j.Workers; i++ {
		names = append(names, string(rune('a'+i)))
	}
	emit(M{"ev": "start", "k": j.K, "ws": names})
	s := newSched()
	for _, n := range names {
		id := &ident{n}
		s.add(n, func() {
			emit(M{"ev": "track", "k": j.K, "w": id.name})
			p.TrackWorker(id)
			emit(M{"ev": "tracked", "k": j.K, "w": id.name})
			yield(false)
			emit(M{"ev": "untrack", "k": j.K, "w": id.name})
			p.UntrackWorker(id)
			emit(M{"ev": "untracked", "k": j.K, "w": id.name})
		})
	}
	s.add("r", func() {
		for i := 0; i < j.Shows; i++ {
			yield(false)
			emit(M{"ev": "refresh", "k": j.K})
			b.refresh()
			emit(M{"ev": "shown", "k": j.K, "shown": b.workers()})
		}
	})
	if !s.run(j.Sched) {
		emit(M{"ev": "hang", "k": j.K})
		return
	}
	emit(M{"ev": "refresh", "k": j.K})
	b.refresh()
	emit(M{"ev": "shown", "k": j.K, "shown": b.workers()})
}

// jobFree lets workers come and go freely while the display refreshes, for the race detector
func jobFree(j *Job) {
	p := newProvider(j.Tool)
	b := &box{widget.NewWidgetCmd(identProvider{p}, newIdent, newIdent)}
	var wg sync.WaitGroup
	emit(M{"ev": "start", "k": j.K, "ws": []string{"x"}})
	stop := make(chan struct{})
	stay := &ident{"x"}
	p.TrackWorker(stay)
	for i := 0; i < j.Workers; i++ {
		wg.Add(1)
		rg := rand.New(rand.NewSource(j.Seed + int64(i)))
		go func(i int) {
			defer wg.Done()
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				id := &ident{fmt.Sprintf("w%d.%d", i, n)}
				p.TrackWorker(id)
				time.Sleep(time.Duration(rg.Intn(50)) * time.Microsecond)
				p.UntrackWorker(id)
			}
		}(i)
	}
	end := time.Now().Add(time.Duration(j.Ms) * time.Millisecond)
	for time.Now().Before(end) {
		b.refresh()
		b.workers()
	}
	close(stop)
	wg.Wait()
	emit(M{"ev": "track", "k": j.K, "w": "x"})
	emit(M{"ev": "tracked", "k": j.K, "w": "x"})
	emit(M{"ev": "refresh", "k": j.K})
	b.refresh()
	emit(M{"ev": "shown", "k": j.K, "shown": b.workers()})
}

func jobLine(j *Job) {
	l := newLine(j.Tool)
	g := newGrid(120, 1)
	v := views.NewViewPort(g, 0, 0, 120, 1)
	l.widget.SetView(v)
	emit(M{"ev": "line", "k": j.K, "line": j.Tool})
	s := newSched()
	s.add("w", func() {
		for _, o := range j.Ops {
			yield(false)
			emit(M{"ev": "op", "k": j.K, "op": o.Op, "arg": o.Arg})
			l.ops[o.Op](o.Arg)
			emit(M{"ev": "done", "k": j.K})
		}
	})
	s.add("r", func() {
		for i := 0; i < j.Shows; i++ {
			yield(false)
			emit(M{"ev": "look", "k": j.K})
			l.widget.HandleEvent(ui.NewEventUpdate())
			emit(M{"ev": "see", "k": j.K, "text": text(l.widget)})
		}
	})
	if !s.run(j.Sched) {
		emit(M{"ev": "hang", "k": j.K})
		return
	}
	emit(M{"ev": "look", "k": j.K})
	l.widget.HandleEvent(ui.NewEventUpdate())
	emit(M{"ev": "see", "k": j.K, "text": text(l.widget)})
	l.widget.Draw()
	emit(M{"ev": "look", "k": j.K})
	emit(M{"ev": "see", "k": j.K, "text": g.line(0)})
}

func main() {
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	bw := bufio.NewWriter(out)
	enc = json.NewEncoder(bw)
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var j Job
		if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
			panic(err)
		}
		switch j.Mode {
		case "track":
			jobTrack(&j)
		case "free":
			jobFree(&j)
		case "line":
			jobLine(&j)
		case "pipe":
			jobPipe(&j)
		case "bar":
			jobBar(&j)
		default:
			panic(j.Mode)
		}
	}
	bw.Flush()
	out.Close()
}
