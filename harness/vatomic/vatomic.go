// Package vatomic stands in for sync/atomic: every operation first tells Hook.
// VATOMIC=delay:N makes every operation wait for up to N microseconds first.
package vatomic

import (
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Hook is called before every operation.
var Hook func(op string, addr unsafe.Pointer)

func init() {
	if s := os.Getenv("VATOMIC"); strings.HasPrefix(s, "delay:") {
		n, _ := strconv.Atoi(s[6:])
		Hook = func(string, unsafe.Pointer) {
			if rand.Intn(4) != 0 {
				time.Sleep(time.Duration(rand.Intn(n+1)) * time.Microsecond)
			}
		}
	}
}

func h(op string, addr unsafe.Pointer) {
	if f := Hook; f != nil {
		f(op, addr)
	}
}

type Value struct{ v atomic.Value }

func (v *Value) Load() interface{}              { h("load", unsafe.Pointer(v)); return v.v.Load() }
func (v *Value) Store(x interface{})            { h("store", unsafe.Pointer(v)); v.v.Store(x) }
func (v *Value) Swap(x interface{}) interface{} { h("swap", unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Value) CompareAndSwap(a, b interface{}) bool {
	h("cas", unsafe.Pointer(v))
	return v.v.CompareAndSwap(a, b)
}

type Bool struct{ v atomic.Bool }

func (v *Bool) Load() bool       { h("load", unsafe.Pointer(v)); return v.v.Load() }
func (v *Bool) Store(x bool)     { h("store", unsafe.Pointer(v)); v.v.Store(x) }
func (v *Bool) Swap(x bool) bool { h("swap", unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Bool) CompareAndSwap(a, b bool) bool {
	h("cas", unsafe.Pointer(v))
	return v.v.CompareAndSwap(a, b)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	h("load", unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, x unsafe.Pointer) {
	h("store", unsafe.Pointer(p))
	atomic.StorePointer(p, x)
}
func SwapPointer(p *unsafe.Pointer, x unsafe.Pointer) unsafe.Pointer {
	h("swap", unsafe.Pointer(p))
	return atomic.SwapPointer(p, x)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	h("cas", unsafe.Pointer(p))
	return atomic.CompareAndSwapPointer(p, a, b)
}

type Int32 struct{ v atomic.Int32 }

func (v *Int32) Load() int32        { h("load", unsafe.Pointer(v)); return v.v.Load() }
func (v *Int32) Store(x int32)      { h("store", unsafe.Pointer(v)); v.v.Store(x) }
func (v *Int32) Swap(x int32) int32 { h("swap", unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Int32) Add(x int32) int32  { h("add", unsafe.Pointer(v)); return v.v.Add(x) }
func (v *Int32) And(x int32) int32  { h("and", unsafe.Pointer(v)); return v.v.And(x) }
func (v *Int32) Or(x int32) int32   { h("or", unsafe.Pointer(v)); return v.v.Or(x) }
func (v *Int32) CompareAndSwap(a, b int32) bool {
	h("cas", unsafe.Pointer(v))
	return v.v.CompareAndSwap(a, b)
}

func LoadInt32(p *int32) int32          { h("load", unsafe.Pointer(p)); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, x int32)      { h("store", unsafe.Pointer(p)); atomic.StoreInt32(p, x) }
func SwapInt32(p *int32, x int32) int32 { h("swap", unsafe.Pointer(p)); return atomic.SwapInt32(p, x) }
func AddInt32(p *int32, x int32) int32  { h("add", unsafe.Pointer(p)); return atomic.AddInt32(p, x) }
func AndInt32(p *int32, x int32) int32  { h("and", unsafe.Pointer(p)); return atomic.AndInt32(p, x) }
func OrInt32(p *int32, x int32) int32   { h("or", unsafe.Pointer(p)); return atomic.OrInt32(p, x) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	h("cas", unsafe.Pointer(p))
	return atomic.CompareAndSwapInt32(p, a, b)
}

type Int64 struct{ v atomic.Int64 }

func (v *Int64) Load() int64        { h("load", unsafe.Pointer(v)); return v.v.Load() }
func (v *Int64) Store(x int64)      { h("store", unsafe.Pointer(v)); v.v.Store(x) }
func (v *Int64) Swap(x int64) int64 { h("swap", unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Int64) Add(x int64) int64  { h("add", unsafe.Pointer(v)); return v.v.Add(x) }
func (v *Int64) And(x int64) int64  { h("and", unsafe.Pointer(v)); return v.v.And(x) }
func (v *Int64) Or(x int64) int64   { h("or", unsafe.Pointer(v)); return v.v.Or(x) }
func (v *Int64) CompareAndSwap(a, b int64) bool {
	h("cas", unsafe.Pointer(v))
	return v.v.CompareAndSwap(a, b)
}

func LoadInt64(p *int64) int64          { h("load", unsafe.Pointer(p)); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, x int64)      { h("store", unsafe.Pointer(p)); atomic.StoreInt64(p, x) }
func SwapInt64(p *int64, x int64) int64 { h("swap", unsafe.Pointer(p)); return atomic.SwapInt64(p, x) }
func AddInt64(p *int64, x int64) int64  { h("add", unsafe.Pointer(p)); return atomic.AddInt64(p, x) }
func AndInt64(p *int64, x int64) int64  { h("and", unsafe.Pointer(p)); return atomic.AndInt64(p, x) }
func OrInt64(p *int64, x int64) int64   { h("or", unsafe.Pointer(p)); return atomic.OrInt64(p, x) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	h("cas", unsafe.Pointer(p))
	return atomic.CompareAndSwapInt64(p, a, b)
}

type Uint32 struct{ v atomic.Uint32 }

func (v *Uint32) Load() uint32         { h("load", unsafe.Pointer(v)); return v.v.Load() }
func (v *Uint32) Store(x uint32)       { h("store", unsafe.Pointer(v)); v.v.Store(x) }
func (v *Uint32) Swap(x uint32) uint32 { h("swap", unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Uint32) Add(x uint32) uint32  { h("add", unsafe.Pointer(v)); return v.v.Add(x) }
func (v *Uint32) And(x uint32) uint32  { h("and", unsafe.Pointer(v)); return v.v.And(x) }
func (v *Uint32) Or(x uint32) uint32   { h("or", unsafe.Pointer(v)); return v.v.Or(x) }
func (v *Uint32) CompareAndSwap(a, b uint32) bool {
	h("cas", unsafe.Pointer(v))
	return v.v.CompareAndSwap(a, b)
}

func LoadUint32(p *uint32) uint32     { h("load", unsafe.Pointer(p)); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, x uint32) { h("store", unsafe.Pointer(p)); atomic.StoreUint32(p, x) }
func SwapUint32(p *uint32, x uint32) uint32 {
	h("swap", unsafe.Pointer(p))
	return atomic.SwapUint32(p, x)
}
func AddUint32(p *uint32, x uint32) uint32 {
	h("add", unsafe.Pointer(p))
	return atomic.AddUint32(p, x)
}
func AndUint32(p *uint32, x uint32) uint32 {
	h("and", unsafe.Pointer(p))
	return atomic.AndUint32(p, x)
}
func OrUint32(p *uint32, x uint32) uint32 { h("or", unsafe.Pointer(p)); return atomic.OrUint32(p, x) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	h("cas", unsafe.Pointer(p))
	return atomic.CompareAndSwapUint32(p, a, b)
}

type Uint64 struct{ v atomic.Uint64 }

func (v *Uint64) Load() uint64         { h("load", unsafe.Pointer(v)); return v.v.Load() }
func (v *Uint64) Store(x uint64)       { h("store", unsafe.Pointer(v)); v.v.Store(x) }
func (v *Uint64) Swap(x uint64) uint64 { h("swap", unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Uint64) Add(x uint64) uint64  { h("add", unsafe.Pointer(v)); return v.v.Add(x) }
func (v *Uint64) And(x uint64) uint64  { h("and", unsafe.Pointer(v)); return v.v.And(x) }
func (v *Uint64) Or(x uint64) uint64   { h("or", unsafe.Pointer(v)); return v.v.Or(x) }
func (v *Uint64) CompareAndSwap(a, b uint64) bool {
	h("cas", unsafe.Pointer(v))
	return v.v.CompareAndSwap(a, b)
}

func LoadUint64(p *uint64) uint64     { h("load", unsafe.Pointer(p)); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, x uint64) { h("store", unsafe.Pointer(p)); atomic.StoreUint64(p, x) }
func SwapUint64(p *uint64, x uint64) uint64 {
	h("swap", unsafe.Pointer(p))
	return atomic.SwapUint64(p, x)
}
func AddUint64(p *uint64, x uint64) uint64 {
	h("add", unsafe.Pointer(p))
	return atomic.AddUint64(p, x)
}
func AndUint64(p *uint64, x uint64) uint64 {
	h("and", unsafe.Pointer(p))
	return atomic.AndUint64(p, x)
}
func OrUint64(p *uint64, x uint64) uint64 { h("or", unsafe.Pointer(p)); return atomic.OrUint64(p, x) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	h("cas", unsafe.Pointer(p))
	return atomic.CompareAndSwapUint64(p, a, b)
}

type Uintptr struct{ v atomic.Uintptr }

func (v *Uintptr) Load() uintptr          { h("load", unsafe.Pointer(v)); return v.v.Load() }
func (v *Uintptr) Store(x uintptr)        { h("store", unsafe.Pointer(v)); v.v.Store(x) }
func (v *Uintptr) Swap(x uintptr) uintptr { h("swap", unsafe.Pointer(v)); return v.v.Swap(x) }
func (v *Uintptr) Add(x uintptr) uintptr  { h("add", unsafe.Pointer(v)); return v.v.Add(x) }
func (v *Uintptr) And(x uintptr) uintptr  { h("and", unsafe.Pointer(v)); return v.v.And(x) }
func (v *Uintptr) Or(x uintptr) uintptr   { h("or", unsafe.Pointer(v)); return v.v.Or(x) }
func (v *Uintptr) CompareAndSwap(a, b uintptr) bool {
	h("cas", unsafe.Pointer(v))
	return v.v.CompareAndSwap(a, b)
}

func LoadUintptr(p *uintptr) uintptr     { h("load", unsafe.Pointer(p)); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, x uintptr) { h("store", unsafe.Pointer(p)); atomic.StoreUintptr(p, x) }
func SwapUintptr(p *uintptr, x uintptr) uintptr {
	h("swap", unsafe.Pointer(p))
	return atomic.SwapUintptr(p, x)
}
func AddUintptr(p *uintptr, x uintptr) uintptr {
	h("add", unsafe.Pointer(p))
	return atomic.AddUintptr(p, x)
}
func AndUintptr(p *uintptr, x uintptr) uintptr {
	h("and", unsafe.Pointer(p))
	return atomic.AndUintptr(p, x)
}
func OrUintptr(p *uintptr, x uintptr) uintptr {
	h("or", unsafe.Pointer(p))
	return atomic.OrUintptr(p, x)
}
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	h("cas", unsafe.Pointer(p))
	return atomic.CompareAndSwapUintptr(p, a, b)
}
