// Package simatomic stands in for package sync/atomic: each operation is preceded by a scheduling point.
package simatomic

import (
	real "sync/atomic"
	"unsafe"

	"possumsim/sched"
)

type Int32 struct{ v real.Int32 }

func (x *Int32) Load() int32                    { sched.Point(); return x.v.Load() }
func (x *Int32) Store(n int32)                  { sched.Point(); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32             { sched.Point(); return x.v.Swap(n) }
func (x *Int32) Add(n int32) int32              { sched.Point(); return x.v.Add(n) }
func (x *Int32) CompareAndSwap(a, b int32) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Int32) And(n int32) int32              { sched.Point(); o := x.v.Load(); x.v.Store(o & n); return o }
func (x *Int32) Or(n int32) int32               { sched.Point(); o := x.v.Load(); x.v.Store(o | n); return o }
func LoadInt32(p *int32) int32                  { sched.Point(); return real.LoadInt32(p) }
func StoreInt32(p *int32, n int32)              { sched.Point(); real.StoreInt32(p, n) }
func SwapInt32(p *int32, n int32) int32         { sched.Point(); return real.SwapInt32(p, n) }
func AddInt32(p *int32, n int32) int32          { sched.Point(); return real.AddInt32(p, n) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	sched.Point()
	return real.CompareAndSwapInt32(p, a, b)
}

type Int64 struct{ v real.Int64 }

func (x *Int64) Load() int64                    { sched.Point(); return x.v.Load() }
func (x *Int64) Store(n int64)                  { sched.Point(); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64             { sched.Point(); return x.v.Swap(n) }
func (x *Int64) Add(n int64) int64              { sched.Point(); return x.v.Add(n) }
func (x *Int64) CompareAndSwap(a, b int64) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Int64) And(n int64) int64              { sched.Point(); o := x.v.Load(); x.v.Store(o & n); return o }
func (x *Int64) Or(n int64) int64               { sched.Point(); o := x.v.Load(); x.v.Store(o | n); return o }
func LoadInt64(p *int64) int64                  { sched.Point(); return real.LoadInt64(p) }
func StoreInt64(p *int64, n int64)              { sched.Point(); real.StoreInt64(p, n) }
func SwapInt64(p *int64, n int64) int64         { sched.Point(); return real.SwapInt64(p, n) }
func AddInt64(p *int64, n int64) int64          { sched.Point(); return real.AddInt64(p, n) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	sched.Point()
	return real.CompareAndSwapInt64(p, a, b)
}

type Uint32 struct{ v real.Uint32 }

func (x *Uint32) Load() uint32                    { sched.Point(); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { sched.Point(); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32            { sched.Point(); return x.v.Swap(n) }
func (x *Uint32) Add(n uint32) uint32             { sched.Point(); return x.v.Add(n) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Uint32) And(n uint32) uint32             { sched.Point(); o := x.v.Load(); x.v.Store(o & n); return o }
func (x *Uint32) Or(n uint32) uint32              { sched.Point(); o := x.v.Load(); x.v.Store(o | n); return o }
func LoadUint32(p *uint32) uint32                 { sched.Point(); return real.LoadUint32(p) }
func StoreUint32(p *uint32, n uint32)             { sched.Point(); real.StoreUint32(p, n) }
func SwapUint32(p *uint32, n uint32) uint32       { sched.Point(); return real.SwapUint32(p, n) }
func AddUint32(p *uint32, n uint32) uint32        { sched.Point(); return real.AddUint32(p, n) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	sched.Point()
	return real.CompareAndSwapUint32(p, a, b)
}

type Uint64 struct{ v real.Uint64 }

func (x *Uint64) Load() uint64                    { sched.Point(); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { sched.Point(); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64            { sched.Point(); return x.v.Swap(n) }
func (x *Uint64) Add(n uint64) uint64             { sched.Point(); return x.v.Add(n) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Uint64) And(n uint64) uint64             { sched.Point(); o := x.v.Load(); x.v.Store(o & n); return o }
func (x *Uint64) Or(n uint64) uint64              { sched.Point(); o := x.v.Load(); x.v.Store(o | n); return o }
func LoadUint64(p *uint64) uint64                 { sched.Point(); return real.LoadUint64(p) }
func StoreUint64(p *uint64, n uint64)             { sched.Point(); real.StoreUint64(p, n) }
func SwapUint64(p *uint64, n uint64) uint64       { sched.Point(); return real.SwapUint64(p, n) }
func AddUint64(p *uint64, n uint64) uint64        { sched.Point(); return real.AddUint64(p, n) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	sched.Point()
	return real.CompareAndSwapUint64(p, a, b)
}

type Uintptr struct{ v real.Uintptr }

func (x *Uintptr) Load() uintptr                    { sched.Point(); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { sched.Point(); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { sched.Point(); return x.v.Swap(n) }
func (x *Uintptr) Add(n uintptr) uintptr            { sched.Point(); return x.v.Add(n) }
func (x *Uintptr) CompareAndSwap(a, b uintptr) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }
func (x *Uintptr) And(n uintptr) uintptr            { sched.Point(); o := x.v.Load(); x.v.Store(o & n); return o }
func (x *Uintptr) Or(n uintptr) uintptr             { sched.Point(); o := x.v.Load(); x.v.Store(o | n); return o }
func LoadUintptr(p *uintptr) uintptr                { sched.Point(); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, n uintptr)            { sched.Point(); real.StoreUintptr(p, n) }
func SwapUintptr(p *uintptr, n uintptr) uintptr     { sched.Point(); return real.SwapUintptr(p, n) }
func AddUintptr(p *uintptr, n uintptr) uintptr      { sched.Point(); return real.AddUintptr(p, n) }
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	sched.Point()
	return real.CompareAndSwapUintptr(p, a, b)
}

type Bool struct{ v real.Bool }

func (x *Bool) Load() bool                    { sched.Point(); return x.v.Load() }
func (x *Bool) Store(n bool)                  { sched.Point(); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { sched.Point(); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(a, b bool) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }

type Pointer[T any] struct{ v real.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { sched.Point(); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { sched.Point(); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { sched.Point(); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }

type Value struct{ v real.Value }

func (x *Value) Load() any                    { sched.Point(); return x.v.Load() }
func (x *Value) Store(n any)                  { sched.Point(); x.v.Store(n) }
func (x *Value) Swap(n any) any               { sched.Point(); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(a, b any) bool { sched.Point(); return x.v.CompareAndSwap(a, b) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { sched.Point(); return real.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, n unsafe.Pointer) { sched.Point(); real.StorePointer(p, n) }
