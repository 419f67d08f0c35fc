// Command wire runs the encoders and decoders of internal/pb over the cases of a file.
//
//	wire CASES OUT     one JSON job per line in, one JSON event per line out
//
// The table of functions (table.go) is generated by the check from those which exist.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"os"
	"strconv"

	"github.com/squizzling/osmindex/internal/pb"
)

type Job struct {
	Op    string          `json:"op"`
	Fn    string          `json:"fn"`
	F     json.RawMessage `json:"f"`
	Vals  [][]string      `json:"vals"`  // enc
	Bytes [][]int         `json:"bytes"` // dec, raw, skip
	Ids   []uint64        `json:"ids"`
	Ns    []int           `json:"ns"` // lengths
}

type Event struct {
	Ev    string          `json:"ev"`
	Fn    string          `json:"fn"`
	F     json.RawMessage `json:"f,omitempty"`
	Cases []interface{}   `json:"cases"`
}

type arr = []interface{}

func limbs(u uint64) []uint64 { return []uint64{u & 0xffff, u >> 16 & 0xffff, u >> 32 & 0xffff, u >> 48} }

func words(us []uint64) arr {
	r := arr{}
	for _, u := range us {
		r = append(r, limbs(u))
	}
	return r
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func raw(b []int) []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x)
	}
	return r
}

func nums(ss []string) []uint64 {
	r := make([]uint64, len(ss))
	for i, s := range ss {
		if s[0] == '-' {
			v, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				panic(err)
			}
			r[i] = uint64(v)
		} else {
			v, err := strconv.ParseUint(s, 10, 64)
			if err != nil {
				panic(err)
			}
			r[i] = v
		}
	}
	return r
}

var prefix = []byte{0xaa, 0x80, 0xff}

// fresh is a buffer with something in it and spare capacity full of rubbish
func fresh(spare int) []byte {
	b := bytes.Repeat([]byte{0xff}, len(prefix)+spare)
	copy(b, prefix)
	return b[:len(prefix)]
}

func main() {
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(out, 1<<20)
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var j Job
		if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
			panic(err)
		}
		e := Event{Ev: j.Op, Fn: j.Fn, F: j.F, Cases: arr{}}
		add := func(x ...interface{}) { e.Cases = append(e.Cases, x) }
		switch j.Op {
		case "enc":
			fn := encoders[j.Fn]
			for i, vs := range j.Vals {
				us := nums(vs)
				func() {
					defer func() {
						if r := recover(); r != nil {
							add(words(us), []int{}, 0)
						}
					}()
					b := fn(fresh(i%3*8), us)
					ok := 0
					if bytes.HasPrefix(b, prefix) {
						ok = 1
						b = b[len(prefix):]
					}
					add(words(us), ints(b), ok)
				}()
			}
		case "dec":
			fn := decoders[j.Fn]
			for i, bs := range j.Bytes {
				b := append(append(append([]byte{}, prefix...), raw(bs)...), bytes.Repeat([]byte{byte(i), 0x80, 0xff}, i%4)...)
				if j.Fn == "DecodeS64PackedDeltaZero" {
					b = b[len(prefix):]
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							add(bs, arr{}, -1)
						}
					}()
					next := len(prefix)
					got := fn(b, &next)
					if j.Fn == "DecodeS64PackedDeltaZero" {
						next += len(bs)
					}
					add(bs, words(got), next-len(prefix))
				}()
			}
		case "raw":
			fn := decoders[j.Fn]
			for _, bs := range j.Bytes {
				func() {
					next := 0
					defer func() {
						if r := recover(); r != nil {
							add(bs, arr{}, 0)
						}
					}()
					got := fn(raw(bs), &next)
					add(bs, limbs(got[0]), next)
				}()
			}
		case "key":
			for _, id := range j.Ids {
				add(id, 0, limbs(pb.MakeIdType(id, pb.PbVarInt)))
				add(id, 2, limbs(pb.MakeIdType(id, pb.PbFixedBytes)))
			}
		case "field":
			for _, id := range j.Ids {
				for _, u := range nums(j.Vals[0]) {
					b := pb.EncodeIdVarInt(fresh(3), id, u)
					add(id, limbs(u), ints(b[len(prefix):]))
				}
			}
		case "bytes":
			fn := blobs[j.Fn]
			for _, n := range j.Ns {
				for _, id := range j.Ids {
					c := content(n)
					b := fn(fresh(n%5), id, c)
					b = b[len(prefix):]
					ok := 0
					head := []byte{}
					if len(b) >= n {
						head = b[:len(b)-n]
						if bytes.Equal(b[len(b)-n:], c) {
							ok = 1
						}
					}
					if len(head) > 30 {
						head = head[:30]
					}
					key := arr{}
					if withID[j.Fn] {
						key = arr{id}
					}
					add(key, n, ints(head), len(b), ok)
				}
			}
		case "embed":
			fn := embeds[j.Fn]
			limit, _ := strconv.Atoi(j.Fn[len("Embed"):])
			for _, n := range j.Ns {
				for _, id := range j.Ids {
					func() {
						defer func() {
							if r := recover(); r != nil {
								add(id, limit, n, []int{}, 0, 0, 1)
							}
						}()
						c := content(n)
						b := fn(id, func(b []byte) []byte {
							// in two steps, so that the buffer may move in between
							b = append(b, c[:n/2]...)
							return append(b, c[n/2:]...)
						}, fresh(n%7))
						ok := 0
						if bytes.HasPrefix(b, prefix) && bytes.HasSuffix(b, c) {
							ok = 1
						}
						b = b[len(prefix):]
						head := b
						if len(b) >= n {
							head = b[:len(b)-n]
						}
						if len(head) > 30 {
							head = head[:30]
						}
						add(id, limit, n, ints(head), len(b), ok, 0)
					}()
				}
			}
		case "skip":
			fn := skips[j.Fn]
			for i, bs := range j.Bytes {
				b := raw(bs)
				next := j.Ns[i]
				got := fn(b, &next)
				add(bs, j.Ns[i], ints(got), next)
			}
		}
		o, err := json.Marshal(e)
		if err != nil {
			panic(err)
		}
		w.Write(o)
		w.WriteByte('\n')
	}
	if err := w.Flush(); err != nil {
		panic(err)
	}
	out.Close()
}

func content(n int) []byte {
	c := make([]byte, n)
	for i := range c {
		c[i] = byte(i*7 + i>>8)
	}
	return c
}
