package main

import (
	"time"
	"unsafe"

	"github.com/squizzling/osmindex/internal/zzverif/vatomic"
	"github.com/squizzling/osmindex/internal/zzverif/vsync"
)

// proc is a goroutine which runs only when the scheduler lets it, up to its next atomic
// operation or lock.
type proc struct {
	name    string
	resume  chan struct{}
	blocked bool
	done    bool
	stuck   bool
}

type sched struct {
	procs map[string]*proc
	order []string
	cur   *proc
	back  chan struct{}
}

var theSched *sched

func yield(blocked bool) {
	s := theSched
	if s == nil || s.cur == nil {
		return
	}
	p := s.cur
	p.blocked = blocked
	s.back <- struct{}{}
	<-p.resume
}

func init() {
	if vatomic.Hook == nil {
		vatomic.Hook = func(string, unsafe.Pointer) { yield(false) }
	}
	vsync.Hook = func(op string) { yield(op == "blocked") }
}

func newSched() *sched {
	s := &sched{procs: map[string]*proc{}, back: make(chan struct{}, 1)}
	theSched = s
	return s
}

func (s *sched) add(name string, f func()) {
	p := &proc{name: name, resume: make(chan struct{})}
	s.procs[name] = p
	s.order = append(s.order, name)
	go func() {
		<-p.resume
		f()
		p.done = true
		s.back <- struct{}{}
	}()
}

// step lets p run; false when it did not come back
func (s *sched) step(p *proc) bool {
	if p.done || p.stuck {
		return true
	}
	s.cur = p
	p.blocked = false
	p.resume <- struct{}{}
	select {
	case <-s.back:
	case <-time.After(10 * time.Second):
		p.stuck = true
		return false
	}
	s.cur = nil
	return true
}

// run follows the tokens and then lets everything end; false when that is impossible
func (s *sched) run(tokens []string) bool {
	defer func() { theSched = nil }()
	for _, t := range tokens {
		if p := s.procs[t]; p != nil && !s.step(p) {
			return false
		}
	}
	for {
		left, moved := false, false
		for _, n := range s.order {
			p := s.procs[n]
			if p.done {
				continue
			}
			left = true
			for i := 0; i < 100000 && !p.done; i++ {
				if !s.step(p) {
					return false
				}
				if p.blocked {
					break
				}
				moved = true
			}
			if p.done {
				moved = true
			}
		}
		if !left {
			return true
		}
		if !moved {
			return false
		}
	}
}
