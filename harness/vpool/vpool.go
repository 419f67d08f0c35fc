// Package vpool is an adversarial sync.Pool: what is put is handed out again at once, with its
// content overwritten, and buffers nobody owns are watched.
//
//	VPOOL_MODE   lifo (default), fifo, fresh (never hands out again)
//	VPOOL_FILL   the byte with which buffers are overwritten (default 219)
//	VPOOL_TRACE  file to which get and put are appended
package vpool

import (
	"fmt"
	"os"
	"strconv"
	"sync"
	"unsafe"
)

type Pool struct {
	New func() interface{}

	mu    sync.Mutex
	items []interface{}
	ids   map[unsafe.Pointer]int
	keep  [][]byte
}

var (
	mode  = os.Getenv("VPOOL_MODE")
	fill  = byte(219)
	trace *os.File
	once  sync.Once
)

func setup() {
	if s := os.Getenv("VPOOL_FILL"); s != "" {
		n, _ := strconv.Atoi(s)
		fill = byte(n)
	}
	if s := os.Getenv("VPOOL_TRACE"); s != "" {
		trace, _ = os.OpenFile(s, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	}
}

func die(s string) {
	fmt.Fprintln(os.Stderr, "VPOOL "+s)
	os.Exit(97)
}

func (p *Pool) id(b []byte) int {
	b = b[:cap(b)]
	if len(b) == 0 {
		return 0
	}
	if p.ids == nil {
		p.ids = map[unsafe.Pointer]int{}
	}
	k := unsafe.Pointer(&b[0])
	n, ok := p.ids[k]
	if !ok {
		n = len(p.ids) + 1
		p.ids[k] = n
		if len(b) <= 1<<20 {
			p.keep = append(p.keep, b) // so that the address is not used for another one
		}
	}
	return n
}

func note(s string, id int) {
	if trace != nil {
		fmt.Fprintf(trace, "{\"ev\":\"%s\",\"b\":%d}\n", s, id)
	}
}

func paint(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = fill
	}
}

func (p *Pool) Get() interface{} {
	once.Do(setup)
	p.mu.Lock()
	defer p.mu.Unlock()
	var x interface{}
	if n := len(p.items); n > 0 && mode != "fresh" {
		i := n - 1
		if mode == "fifo" {
			i = 0
		}
		x = p.items[i]
		p.items = append(p.items[:i:i], p.items[i+1:]...)
		if b, ok := x.([]byte); ok {
			whole := b[:cap(b)]
			for _, v := range whole {
				if v != fill {
					die("a buffer which had been given back was written to")
				}
			}
		}
	} else if p.New != nil {
		x = p.New()
		if b, ok := x.([]byte); ok {
			paint(b)
		}
	}
	if b, ok := x.([]byte); ok {
		note("get", p.id(b))
	}
	return x
}

func (p *Pool) Put(x interface{}) {
	once.Do(setup)
	p.mu.Lock()
	defer p.mu.Unlock()
	if b, ok := x.([]byte); ok {
		note("put", p.id(b))
		paint(b)
	}
	p.items = append(p.items, x)
}
