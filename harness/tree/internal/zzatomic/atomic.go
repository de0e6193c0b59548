// Package zzatomic stands for package sync/atomic in replays of concurrent counterexamples.
package zzatomic

import sym "github.com/indigo-web/indigo/internal/zzsym"

type Bool struct{ v bool }

func (b *Bool) Load() bool       { sym.Visible(); return b.v }
func (b *Bool) Store(v bool)     { sym.Visible(); b.v = v }
func (b *Bool) Swap(v bool) bool { sym.Visible(); o := b.v; b.v = v; return o }
func (b *Bool) CompareAndSwap(o, n bool) bool {
	sym.Visible()
	if b.v != o {
		return false
	}
	b.v = n
	return true
}

type Pointer[T any] struct{ v *T }

func (b *Pointer[T]) Load() *T     { sym.Visible(); return b.v }
func (b *Pointer[T]) Store(v *T)   { sym.Visible(); b.v = v }
func (b *Pointer[T]) Swap(v *T) *T { sym.Visible(); o := b.v; b.v = v; return o }
func (b *Pointer[T]) CompareAndSwap(o, n *T) bool {
	sym.Visible()
	if b.v != o {
		return false
	}
	b.v = n
	return true
}

type Int32 struct{ v int32 }

func (b *Int32) Load() int32                    { sym.Visible(); return b.v }
func (b *Int32) Store(v int32)                  { sym.Visible(); b.v = v }
func (b *Int32) Swap(v int32) int32             { sym.Visible(); o := b.v; b.v = v; return o }
func (b *Int32) Add(d int32) int32              { sym.Visible(); b.v += d; return b.v }
func (b *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&b.v, o, n) }

func LoadInt32(p *int32) int32          { sym.Visible(); return *p }
func StoreInt32(p *int32, v int32)      { sym.Visible(); *p = v }
func SwapInt32(p *int32, v int32) int32 { sym.Visible(); o := *p; *p = v; return o }
func AddInt32(p *int32, d int32) int32  { sym.Visible(); *p += d; return *p }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	sym.Visible()
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uint32 struct{ v uint32 }

func (b *Uint32) Load() uint32                    { sym.Visible(); return b.v }
func (b *Uint32) Store(v uint32)                  { sym.Visible(); b.v = v }
func (b *Uint32) Swap(v uint32) uint32            { sym.Visible(); o := b.v; b.v = v; return o }
func (b *Uint32) Add(d uint32) uint32             { sym.Visible(); b.v += d; return b.v }
func (b *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&b.v, o, n) }

func LoadUint32(p *uint32) uint32           { sym.Visible(); return *p }
func StoreUint32(p *uint32, v uint32)       { sym.Visible(); *p = v }
func SwapUint32(p *uint32, v uint32) uint32 { sym.Visible(); o := *p; *p = v; return o }
func AddUint32(p *uint32, d uint32) uint32  { sym.Visible(); *p += d; return *p }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	sym.Visible()
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Int64 struct{ v int64 }

func (b *Int64) Load() int64                    { sym.Visible(); return b.v }
func (b *Int64) Store(v int64)                  { sym.Visible(); b.v = v }
func (b *Int64) Swap(v int64) int64             { sym.Visible(); o := b.v; b.v = v; return o }
func (b *Int64) Add(d int64) int64              { sym.Visible(); b.v += d; return b.v }
func (b *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&b.v, o, n) }

func LoadInt64(p *int64) int64          { sym.Visible(); return *p }
func StoreInt64(p *int64, v int64)      { sym.Visible(); *p = v }
func SwapInt64(p *int64, v int64) int64 { sym.Visible(); o := *p; *p = v; return o }
func AddInt64(p *int64, d int64) int64  { sym.Visible(); *p += d; return *p }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	sym.Visible()
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uint64 struct{ v uint64 }

func (b *Uint64) Load() uint64                    { sym.Visible(); return b.v }
func (b *Uint64) Store(v uint64)                  { sym.Visible(); b.v = v }
func (b *Uint64) Swap(v uint64) uint64            { sym.Visible(); o := b.v; b.v = v; return o }
func (b *Uint64) Add(d uint64) uint64             { sym.Visible(); b.v += d; return b.v }
func (b *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&b.v, o, n) }

func LoadUint64(p *uint64) uint64           { sym.Visible(); return *p }
func StoreUint64(p *uint64, v uint64)       { sym.Visible(); *p = v }
func SwapUint64(p *uint64, v uint64) uint64 { sym.Visible(); o := *p; *p = v; return o }
func AddUint64(p *uint64, d uint64) uint64  { sym.Visible(); *p += d; return *p }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	sym.Visible()
	if *p != o {
		return false
	}
	*p = n
	return true
}

type Uintptr struct{ v uintptr }

func (b *Uintptr) Load() uintptr                    { sym.Visible(); return b.v }
func (b *Uintptr) Store(v uintptr)                  { sym.Visible(); b.v = v }
func (b *Uintptr) Swap(v uintptr) uintptr           { sym.Visible(); o := b.v; b.v = v; return o }
func (b *Uintptr) Add(d uintptr) uintptr            { sym.Visible(); b.v += d; return b.v }
func (b *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&b.v, o, n) }

func LoadUintptr(p *uintptr) uintptr            { sym.Visible(); return *p }
func StoreUintptr(p *uintptr, v uintptr)        { sym.Visible(); *p = v }
func SwapUintptr(p *uintptr, v uintptr) uintptr { sym.Visible(); o := *p; *p = v; return o }
func AddUintptr(p *uintptr, d uintptr) uintptr  { sym.Visible(); *p += d; return *p }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	sym.Visible()
	if *p != o {
		return false
	}
	*p = n
	return true
}
