// Package atomic is the controlled version of the standard package: every operation is a
// scheduling point followed by the real operation.
package atomic

import (
	std "sync/atomic"
	"unsafe"
	"verif/rt"
)

func LoadInt32(p *int32) int32          { rt.AtomicPoint(); return std.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { rt.AtomicPoint(); std.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { rt.AtomicPoint(); return std.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 { rt.AtomicPoint(); return std.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, old, new int32) bool {
	rt.AtomicPoint()
	return std.CompareAndSwapInt32(p, old, new)
}
func AndInt32(p *int32, m int32) int32 { rt.AtomicPoint(); return std.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32  { rt.AtomicPoint(); return std.OrInt32(p, m) }

type Int32 struct{ v std.Int32 }

func (x *Int32) Load() int32        { rt.AtomicPoint(); return x.v.Load() }
func (x *Int32) Store(v int32)      { rt.AtomicPoint(); x.v.Store(v) }
func (x *Int32) Add(d int32) int32  { rt.AtomicPoint(); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32 { rt.AtomicPoint(); return x.v.Swap(v) }
func (x *Int32) And(m int32) int32  { rt.AtomicPoint(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32   { rt.AtomicPoint(); return x.v.Or(m) }
func (x *Int32) CompareAndSwap(old, new int32) bool {
	rt.AtomicPoint()
	return x.v.CompareAndSwap(old, new)
}

func LoadInt64(p *int64) int64          { rt.AtomicPoint(); return std.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { rt.AtomicPoint(); std.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { rt.AtomicPoint(); return std.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 { rt.AtomicPoint(); return std.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, old, new int64) bool {
	rt.AtomicPoint()
	return std.CompareAndSwapInt64(p, old, new)
}
func AndInt64(p *int64, m int64) int64 { rt.AtomicPoint(); return std.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64  { rt.AtomicPoint(); return std.OrInt64(p, m) }

type Int64 struct{ v std.Int64 }

func (x *Int64) Load() int64        { rt.AtomicPoint(); return x.v.Load() }
func (x *Int64) Store(v int64)      { rt.AtomicPoint(); x.v.Store(v) }
func (x *Int64) Add(d int64) int64  { rt.AtomicPoint(); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64 { rt.AtomicPoint(); return x.v.Swap(v) }
func (x *Int64) And(m int64) int64  { rt.AtomicPoint(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64   { rt.AtomicPoint(); return x.v.Or(m) }
func (x *Int64) CompareAndSwap(old, new int64) bool {
	rt.AtomicPoint()
	return x.v.CompareAndSwap(old, new)
}

func LoadUint32(p *uint32) uint32           { rt.AtomicPoint(); return std.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { rt.AtomicPoint(); std.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { rt.AtomicPoint(); return std.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { rt.AtomicPoint(); return std.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, old, new uint32) bool {
	rt.AtomicPoint()
	return std.CompareAndSwapUint32(p, old, new)
}
func AndUint32(p *uint32, m uint32) uint32 { rt.AtomicPoint(); return std.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { rt.AtomicPoint(); return std.OrUint32(p, m) }

type Uint32 struct{ v std.Uint32 }

func (x *Uint32) Load() uint32         { rt.AtomicPoint(); return x.v.Load() }
func (x *Uint32) Store(v uint32)       { rt.AtomicPoint(); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32  { rt.AtomicPoint(); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32 { rt.AtomicPoint(); return x.v.Swap(v) }
func (x *Uint32) And(m uint32) uint32  { rt.AtomicPoint(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32   { rt.AtomicPoint(); return x.v.Or(m) }
func (x *Uint32) CompareAndSwap(old, new uint32) bool {
	rt.AtomicPoint()
	return x.v.CompareAndSwap(old, new)
}

func LoadUint64(p *uint64) uint64           { rt.AtomicPoint(); return std.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { rt.AtomicPoint(); std.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { rt.AtomicPoint(); return std.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { rt.AtomicPoint(); return std.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, old, new uint64) bool {
	rt.AtomicPoint()
	return std.CompareAndSwapUint64(p, old, new)
}
func AndUint64(p *uint64, m uint64) uint64 { rt.AtomicPoint(); return std.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { rt.AtomicPoint(); return std.OrUint64(p, m) }

type Uint64 struct{ v std.Uint64 }

func (x *Uint64) Load() uint64         { rt.AtomicPoint(); return x.v.Load() }
func (x *Uint64) Store(v uint64)       { rt.AtomicPoint(); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64  { rt.AtomicPoint(); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64 { rt.AtomicPoint(); return x.v.Swap(v) }
func (x *Uint64) And(m uint64) uint64  { rt.AtomicPoint(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64   { rt.AtomicPoint(); return x.v.Or(m) }
func (x *Uint64) CompareAndSwap(old, new uint64) bool {
	rt.AtomicPoint()
	return x.v.CompareAndSwap(old, new)
}

func LoadUintptr(p *uintptr) uintptr            { rt.AtomicPoint(); return std.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { rt.AtomicPoint(); std.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { rt.AtomicPoint(); return std.AddUintptr(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { rt.AtomicPoint(); return std.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, old, new uintptr) bool {
	rt.AtomicPoint()
	return std.CompareAndSwapUintptr(p, old, new)
}
func AndUintptr(p *uintptr, m uintptr) uintptr { rt.AtomicPoint(); return std.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { rt.AtomicPoint(); return std.OrUintptr(p, m) }

type Uintptr struct{ v std.Uintptr }

func (x *Uintptr) Load() uintptr          { rt.AtomicPoint(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)        { rt.AtomicPoint(); x.v.Store(v) }
func (x *Uintptr) Add(d uintptr) uintptr  { rt.AtomicPoint(); return x.v.Add(d) }
func (x *Uintptr) Swap(v uintptr) uintptr { rt.AtomicPoint(); return x.v.Swap(v) }
func (x *Uintptr) And(m uintptr) uintptr  { rt.AtomicPoint(); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr   { rt.AtomicPoint(); return x.v.Or(m) }
func (x *Uintptr) CompareAndSwap(old, new uintptr) bool {
	rt.AtomicPoint()
	return x.v.CompareAndSwap(old, new)
}

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { rt.AtomicPoint(); return std.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { rt.AtomicPoint(); std.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	rt.AtomicPoint()
	return std.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, old, new unsafe.Pointer) bool {
	rt.AtomicPoint()
	return std.CompareAndSwapPointer(p, old, new)
}

type Bool struct{ v std.Bool }

func (x *Bool) Load() bool       { rt.AtomicPoint(); return x.v.Load() }
func (x *Bool) Store(v bool)     { rt.AtomicPoint(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool { rt.AtomicPoint(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(old, new bool) bool {
	rt.AtomicPoint()
	return x.v.CompareAndSwap(old, new)
}

type Value struct{ v std.Value }

func (x *Value) Load() any      { rt.AtomicPoint(); return x.v.Load() }
func (x *Value) Store(v any)    { rt.AtomicPoint(); x.v.Store(v) }
func (x *Value) Swap(v any) any { rt.AtomicPoint(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(old, new any) bool {
	rt.AtomicPoint()
	return x.v.CompareAndSwap(old, new)
}

type Pointer[T any] struct{ v std.Pointer[T] }

func (x *Pointer[T]) Load() *T     { rt.AtomicPoint(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)   { rt.AtomicPoint(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { rt.AtomicPoint(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(old, new *T) bool {
	rt.AtomicPoint()
	return x.v.CompareAndSwap(old, new)
}
