// Package vatomic replaces sync/atomic: the real operations, each preceded by a scheduling point.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/conc/vsched"
)

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { vsched.S(); return x.v.Load() }
func (x *Int32) Store(n int32)                  { vsched.S(); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32             { vsched.S(); return x.v.Swap(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { vsched.S(); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { vsched.S(); return x.v.Add(d) }
func (x *Int32) And(m int32) int32              { vsched.S(); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { vsched.S(); return x.v.Or(m) }

func LoadInt32(p *int32) int32          { vsched.S(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, n int32)      { vsched.S(); atomic.StoreInt32(p, n) }
func SwapInt32(p *int32, n int32) int32 { vsched.S(); return atomic.SwapInt32(p, n) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsched.S()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func AddInt32(p *int32, d int32) int32 { vsched.S(); return atomic.AddInt32(p, d) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { vsched.S(); return x.v.Load() }
func (x *Int64) Store(n int64)                  { vsched.S(); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64             { vsched.S(); return x.v.Swap(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { vsched.S(); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { vsched.S(); return x.v.Add(d) }
func (x *Int64) And(m int64) int64              { vsched.S(); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { vsched.S(); return x.v.Or(m) }

func LoadInt64(p *int64) int64          { vsched.S(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, n int64)      { vsched.S(); atomic.StoreInt64(p, n) }
func SwapInt64(p *int64, n int64) int64 { vsched.S(); return atomic.SwapInt64(p, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsched.S()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func AddInt64(p *int64, d int64) int64 { vsched.S(); return atomic.AddInt64(p, d) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { vsched.S(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { vsched.S(); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32            { vsched.S(); return x.v.Swap(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { vsched.S(); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { vsched.S(); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32             { vsched.S(); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { vsched.S(); return x.v.Or(m) }

func LoadUint32(p *uint32) uint32           { vsched.S(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32)       { vsched.S(); atomic.StoreUint32(p, n) }
func SwapUint32(p *uint32, n uint32) uint32 { vsched.S(); return atomic.SwapUint32(p, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsched.S()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, d uint32) uint32 { vsched.S(); return atomic.AddUint32(p, d) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { vsched.S(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { vsched.S(); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64            { vsched.S(); return x.v.Swap(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { vsched.S(); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { vsched.S(); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64             { vsched.S(); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { vsched.S(); return x.v.Or(m) }

func LoadUint64(p *uint64) uint64           { vsched.S(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64)       { vsched.S(); atomic.StoreUint64(p, n) }
func SwapUint64(p *uint64, n uint64) uint64 { vsched.S(); return atomic.SwapUint64(p, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsched.S()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, d uint64) uint64 { vsched.S(); return atomic.AddUint64(p, d) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { vsched.S(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { vsched.S(); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { vsched.S(); return x.v.Swap(n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { vsched.S(); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { vsched.S(); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr            { vsched.S(); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { vsched.S(); return x.v.Or(m) }

func LoadUintptr(p *uintptr) uintptr            { vsched.S(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr)        { vsched.S(); atomic.StoreUintptr(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr { vsched.S(); return atomic.SwapUintptr(p, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	vsched.S()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { vsched.S(); return atomic.AddUintptr(p, d) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { vsched.S(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { vsched.S(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { vsched.S(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { vsched.S(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { vsched.S(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { vsched.S(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { vsched.S(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { vsched.S(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { vsched.S(); return x.v.Load() }
func (x *Value) Store(n any)                  { vsched.S(); x.v.Store(n) }
func (x *Value) Swap(n any) any               { vsched.S(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { vsched.S(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { vsched.S(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { vsched.S(); atomic.StorePointer(p, n) }
func SwapPointer(p *unsafe.Pointer, n unsafe.Pointer) unsafe.Pointer {
	vsched.S()
	return atomic.SwapPointer(p, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	vsched.S()
	return atomic.CompareAndSwapPointer(p, o, n)
}
