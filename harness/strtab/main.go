// Command strtab drives the string table builder and writes blocks.
//
//	strtab IN OUT      one JSON job per line in, one JSON result per line out
//
// Strings are hexadecimal.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"

	"github.com/squizzling/osmindex/internal/t"
)

type Op struct {
	K string      `json:"k"`
	S string      `json:"s"`
	N int         `json:"n"`
	M [][2]string `json:"m"`
}

type Entity struct {
	Kind    int         `json:"kind"`
	Id      int64       `json:"id"`
	Tags    [][2]string `json:"tags"`
	Roles   []string    `json:"roles"`
	Members []int64     `json:"members"`
	Types   []int       `json:"types"`
	Refs    []int64     `json:"refs"`
	Lon     int64       `json:"lon"`
	Lat     int64       `json:"lat"`
}

type Job struct {
	Op  string   `json:"op"`
	Ops []Op     `json:"ops"`
	Es  []Entity `json:"es"`
	S   []string `json:"s"`
}

func un(s string) string {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func hx(ss []string) []string {
	r := make([]string, len(ss))
	for i, s := range ss {
		r[i] = hex.EncodeToString([]byte(s))
	}
	return r
}

func mp(m [][2]string) map[string]string {
	r := map[string]string{}
	for _, p := range m {
		r[un(p[0])] = un(p[1])
	}
	return r
}

func main() {
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(out)
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var j Job
		if err := json.Unmarshal(sc.Bytes(), &j); err != nil {
			panic(err)
		}
		var res interface{}
		switch j.Op {
		case "hist":
			var rs []interface{}
			stb := t.NewStringTableBuilder()
			for _, o := range j.Ops {
				switch o.K {
				case "add":
					stb.AddString(un(o.S))
					for i := 1; i < o.N; i++ {
						stb.AddString(un(o.S))
					}
					rs = append(rs, nil)
				case "range":
					for i := o.N; i > 0; i-- {
						stb.AddString(fmt.Sprintf("%08d", (i*7919)%o.N+1))
					}
					stb.Finalize()
					rs = append(rs, hx(stb.ToStringTable().S))
				case "map":
					stb.AddMap(mp(o.M))
					rs = append(rs, nil)
				case "close":
					stb.Finalize()
					rs = append(rs, hx(stb.ToStringTable().S))
				case "index":
					func() {
						defer func() {
							if recover() != nil {
								rs = append(rs, -1)
							}
						}()
						rs = append(rs, int64(stb.GetIndex(un(o.S))))
					}()
				case "kv":
					ks, vs := stb.ToKeyVals(mp(o.M))
					rs = append(rs, [][]uint32{ks, vs})
				case "lin":
					rs = append(rs, stb.ToKeyValLinear(mp(o.M)))
				}
			}
			res = rs
		case "block":
			var ns t.Nodes
			var ws t.Ways
			var rels t.Relations
			for _, e := range j.Es {
				switch e.Kind {
				case 1:
					ns = append(ns, &t.HLNode{Id: t.NodeId(e.Id), Tags: mp(e.Tags), Lat: e.Lat, Lon: e.Lon})
				case 2:
					var ids []t.NodeId
					for _, r := range e.Refs {
						ids = append(ids, t.NodeId(r))
					}
					ws = append(ws, &t.HLWay{Id: t.WayId(e.Id), Tags: mp(e.Tags), Nodes: ids})
				case 3:
					var roles []string
					for _, r := range e.Roles {
						roles = append(roles, un(r))
					}
					rels = append(rels, &t.HLRelation{Id: t.RelId(e.Id), Tags: mp(e.Tags), Roles: roles, Members: e.Members, MemberType: e.Types})
				}
			}
			prefix := []byte{1, 2, 3}
			b := t.MakePrimitiveBlock(ns, ws, rels).Write(prefix)
			res = hex.EncodeToString(b[len(prefix):])
		case "codec":
			st := &t.StringTable{}
			for _, s := range j.S {
				st.S = append(st.S, un(s))
			}
			b := st.Write([]byte{9, 9})[2:]
			var back t.StringTable
			t.ReadStringTable(b, &back)
			res = []interface{}{hx(back.S), hex.EncodeToString(b)}
		}
		o, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		w.Write(o)
		w.WriteByte('\n')
	}
	w.Flush()
	out.Close()
}
