// Package vsync stands in for sync: locks tell Hook before they are taken and wait by asking
// Hook again, so that a scheduler which runs one goroutine at a time can go on.
package vsync

import (
	"runtime"
	"sync"
)

type (
	WaitGroup = sync.WaitGroup
	Once      = sync.Once
	Pool      = sync.Pool
	Cond      = sync.Cond
	Map       = sync.Map
	Locker    = sync.Locker
)

var NewCond = sync.NewCond

// Hook is called with "lock" before an attempt and with "blocked" after a failed one.
var Hook func(op string)

func h(op string) {
	if f := Hook; f != nil {
		f(op)
	} else if op == "blocked" {
		runtime.Gosched()
	}
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	h("lock")
	for !m.m.TryLock() {
		h("blocked")
	}
}
func (m *Mutex) TryLock() bool { h("lock"); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	h("lock")
	for !m.m.TryLock() {
		h("blocked")
	}
}
func (m *RWMutex) RLock() {
	h("lock")
	for !m.m.TryRLock() {
		h("blocked")
	}
}
func (m *RWMutex) TryLock() bool  { h("lock"); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { h("lock"); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }

type rlocker RWMutex

func (r *rlocker) Lock()                { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()              { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }
