// Package vatomic is package sync/atomic with every operation announced to the explorer.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/Ptt-official-app/go-bbs/verifmcshim/vsched"
)

func point() { vsched.Point(vsched.Op{Kind: "atomic"}) }

// Value is atomic.Value.
type Value struct{ v atomic.Value }

func (v *Value) Load() interface{}                    { point(); return v.v.Load() }
func (v *Value) Store(x interface{})                  { point(); v.v.Store(x) }
func (v *Value) Swap(x interface{}) interface{}       { point(); return v.v.Swap(x) }
func (v *Value) CompareAndSwap(o, n interface{}) bool { point(); return v.v.CompareAndSwap(o, n) }

// Bool is atomic.Bool.
type Bool struct{ v atomic.Bool }

func (v *Bool) Load() bool                    { point(); return v.v.Load() }
func (v *Bool) Store(x bool)                  { point(); v.v.Store(x) }
func (v *Bool) Swap(x bool) bool              { point(); return v.v.Swap(x) }
func (v *Bool) CompareAndSwap(o, n bool) bool { point(); return v.v.CompareAndSwap(o, n) }

// Int32 is atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (v *Int32) Load() int32                    { point(); return v.v.Load() }
func (v *Int32) Store(x int32)                  { point(); v.v.Store(x) }
func (v *Int32) Add(x int32) int32              { point(); return v.v.Add(x) }
func (v *Int32) Swap(x int32) int32             { point(); return v.v.Swap(x) }
func (v *Int32) CompareAndSwap(o, n int32) bool { point(); return v.v.CompareAndSwap(o, n) }

// Int64 is atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (v *Int64) Load() int64                    { point(); return v.v.Load() }
func (v *Int64) Store(x int64)                  { point(); v.v.Store(x) }
func (v *Int64) Add(x int64) int64              { point(); return v.v.Add(x) }
func (v *Int64) Swap(x int64) int64             { point(); return v.v.Swap(x) }
func (v *Int64) CompareAndSwap(o, n int64) bool { point(); return v.v.CompareAndSwap(o, n) }

// Uint32 is atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (v *Uint32) Load() uint32                    { point(); return v.v.Load() }
func (v *Uint32) Store(x uint32)                  { point(); v.v.Store(x) }
func (v *Uint32) Add(x uint32) uint32             { point(); return v.v.Add(x) }
func (v *Uint32) Swap(x uint32) uint32            { point(); return v.v.Swap(x) }
func (v *Uint32) CompareAndSwap(o, n uint32) bool { point(); return v.v.CompareAndSwap(o, n) }

// Uint64 is atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (v *Uint64) Load() uint64                    { point(); return v.v.Load() }
func (v *Uint64) Store(x uint64)                  { point(); v.v.Store(x) }
func (v *Uint64) Add(x uint64) uint64             { point(); return v.v.Add(x) }
func (v *Uint64) Swap(x uint64) uint64            { point(); return v.v.Swap(x) }
func (v *Uint64) CompareAndSwap(o, n uint64) bool { point(); return v.v.CompareAndSwap(o, n) }

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (v *Uintptr) Load() uintptr                    { point(); return v.v.Load() }
func (v *Uintptr) Store(x uintptr)                  { point(); v.v.Store(x) }
func (v *Uintptr) Add(x uintptr) uintptr            { point(); return v.v.Add(x) }
func (v *Uintptr) Swap(x uintptr) uintptr           { point(); return v.v.Swap(x) }
func (v *Uintptr) CompareAndSwap(o, n uintptr) bool { point(); return v.v.CompareAndSwap(o, n) }

func LoadInt32(p *int32) int32          { point(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, x int32)      { point(); atomic.StoreInt32(p, x) }
func SwapInt32(p *int32, x int32) int32 { point(); return atomic.SwapInt32(p, x) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	point()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AddInt32(p *int32, x int32) int32 { point(); return atomic.AddInt32(p, x) }

func LoadInt64(p *int64) int64          { point(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, x int64)      { point(); atomic.StoreInt64(p, x) }
func SwapInt64(p *int64, x int64) int64 { point(); return atomic.SwapInt64(p, x) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	point()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AddInt64(p *int64, x int64) int64 { point(); return atomic.AddInt64(p, x) }

func LoadUint32(p *uint32) uint32           { point(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, x uint32)       { point(); atomic.StoreUint32(p, x) }
func SwapUint32(p *uint32, x uint32) uint32 { point(); return atomic.SwapUint32(p, x) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	point()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, x uint32) uint32 { point(); return atomic.AddUint32(p, x) }

func LoadUint64(p *uint64) uint64           { point(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, x uint64)       { point(); atomic.StoreUint64(p, x) }
func SwapUint64(p *uint64, x uint64) uint64 { point(); return atomic.SwapUint64(p, x) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	point()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, x uint64) uint64 { point(); return atomic.AddUint64(p, x) }

func LoadUintptr(p *uintptr) uintptr            { point(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, x uintptr)        { point(); atomic.StoreUintptr(p, x) }
func SwapUintptr(p *uintptr, x uintptr) uintptr { point(); return atomic.SwapUintptr(p, x) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	point()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, x uintptr) uintptr { point(); return atomic.AddUintptr(p, x) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { point(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, x unsafe.Pointer) { point(); atomic.StorePointer(p, x) }
func SwapPointer(p *unsafe.Pointer, x unsafe.Pointer) unsafe.Pointer {
	point()
	return atomic.SwapPointer(p, x)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	point()
	return atomic.CompareAndSwapPointer(p, o, n)
}
