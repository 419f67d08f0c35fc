// Command poolhist records histories of the real buffer pool.
//
//	poolhist seq  IN OUT             histories to replay: {"def": n, "ops": [["get",u,sz],["put",u],["foreign",u,sz]]}
//	poolhist conc OUT USERS N SEED   USERS goroutines, N buffers each, on pool.ByteSlice and others
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"unsafe"

	"github.com/squizzling/osmindex/internal/pool"
)

var (
	mu  sync.Mutex
	ids = map[unsafe.Pointer]int{}
	all [][]byte
	out *bufio.Writer
)

func ident(b []byte) int {
	b = b[:cap(b)]
	if len(b) == 0 {
		return 0
	}
	k := unsafe.Pointer(&b[0])
	n, ok := ids[k]
	if !ok {
		n = len(ids) + 1
		ids[k] = n
		all = append(all, b)
	}
	return n
}

func mark(b []byte, m byte) {
	for i := range b {
		b[i] = m
	}
}

func intact(b []byte, m byte) int {
	for _, x := range b {
		if x != m {
			return 0
		}
	}
	return 1
}

func get(p *pool.ByteSlicePool, u, sz int) pool.BorrowedBuffer {
	bb := p.Get(uint64(sz))
	mark(bb.Buffer, byte(u*16+1))
	mu.Lock()
	fmt.Fprintf(out, `{"ev":"get","u":%d,"sz":%d,"b":%d,"len":%d}`+"\n", u, sz, ident(bb.Buffer), len(bb.Buffer))
	mu.Unlock()
	return bb
}

func put(p *pool.ByteSlicePool, u int, bb pool.BorrowedBuffer) {
	mu.Lock()
	fmt.Fprintf(out, `{"ev":"put","u":%d,"b":%d,"ok":%d}`+"\n", u, ident(bb.Buffer), intact(bb.Buffer, byte(u*16+1)))
	mu.Unlock()
	p.Put(bb)
}

func foreign(p *pool.ByteSlicePool, u, sz int) {
	b := make([]byte, sz, sz+3)
	mark(b, byte(u*16+2))
	mu.Lock()
	fmt.Fprintf(out, `{"ev":"foreign","u":%d,"b":%d}`+"\n", u, ident(b))
	mu.Unlock()
	p.Put(pool.NonBorrowedBuffer(b))
}

func main() {
	if os.Args[1] == "seq" {
		in, err := os.Open(os.Args[2])
		if err != nil {
			panic(err)
		}
		f, err := os.Create(os.Args[3])
		if err != nil {
			panic(err)
		}
		out = bufio.NewWriter(f)
		sc := bufio.NewScanner(in)
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			var j struct {
				Def uint64
				Ops [][]interface{}
			}
			if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
				panic(err)
			}
			p := pool.NewByteSlicePool(j.Def)
			if j.Def == 65536 {
				p = pool.ByteSlice
			}
			fmt.Fprintf(out, `{"ev":"new"}`+"\n")
			held := map[int]pool.BorrowedBuffer{}
			for _, o := range j.Ops {
				u := int(o[1].(float64))
				switch o[0] {
				case "get":
					held[u] = get(p, u, int(o[2].(float64)))
				case "put":
					put(p, u, held[u])
					delete(held, u)
				case "foreign":
					foreign(p, u, int(o[2].(float64)))
				}
			}
		}
		out.Flush()
		f.Close()
		return
	}
	f, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	out = bufio.NewWriter(f)
	users, _ := strconv.Atoi(os.Args[3])
	n, _ := strconv.Atoi(os.Args[4])
	seed, _ := strconv.Atoi(os.Args[5])
	for round, def := range []uint64{65536, 0, 1, 64} {
		p := pool.NewByteSlicePool(def)
		if def == 65536 {
			p = pool.ByteSlice
		}
		fmt.Fprintf(out, `{"ev":"new"}`+"\n")
		var wg sync.WaitGroup
		for u := 1; u <= users; u++ {
			wg.Add(1)
			go func(u int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(int64(seed*1000 + round*100 + u)))
				sizes := []int{0, 1, 2, 63, 64, 65, 100, 1000, 4096, 5000}
				if def == 65536 {
					sizes = append(sizes, 65535, 65536, 65537, 70000)
				}
				for i := 0; i < n; i++ {
					bb := get(p, u, sizes[r.Intn(len(sizes))])
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
					if r.Intn(20) == 0 {
						foreign(p, u, 1+r.Intn(100))
					}
					if r.Intn(60) == 0 {
						runtime.GC()
					}
					put(p, u, bb)
				}
			}(u)
		}
		wg.Wait()
	}
	out.Flush()
	f.Close()
}
