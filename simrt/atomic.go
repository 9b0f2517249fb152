package simrt

import (
	"sync/atomic"
	"unsafe"
)

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func load[T any](p *T) T {
	Sync()
	atomicAccess(p, false)
	acquire(unsafe.Pointer(p))
	return *p
}
func store[T any](p *T, v T) {
	Sync()
	atomicAccess(p, true)
	release(unsafe.Pointer(p), false)
	*p = v
}

// rmw is the synchronisation of an atomic read-modify-write.
func rmw[T any](p *T) {
	Sync()
	atomicAccess(p, true)
	acquire(unsafe.Pointer(p))
	release(unsafe.Pointer(p), true)
}
func swap[T any](p *T, v T) T { rmw(p); o := *p; *p = v; return o }
func add[T integer](p *T, v T) T {
	rmw(p)
	*p += v
	return *p
}
func cas[T comparable](p *T, o, n T) bool {
	Sync()
	if *p != o {
		atomicAccess(p, false)
		acquire(unsafe.Pointer(p))
		return false
	}
	atomicAccess(p, true)
	acquire(unsafe.Pointer(p))
	release(unsafe.Pointer(p), true)
	*p = n
	return true
}
func and[T integer](p *T, m T) T { rmw(p); o := *p; *p = o & m; return o }
func or[T integer](p *T, m T) T  { rmw(p); o := *p; *p = o | m; return o }

func LoadInt32(p *int32) int32                         { return load(p) }
func LoadInt64(p *int64) int64                         { return load(p) }
func LoadUint32(p *uint32) uint32                      { return load(p) }
func LoadUint64(p *uint64) uint64                      { return load(p) }
func LoadUintptr(p *uintptr) uintptr                   { return load(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { return load(p) }
func StoreInt32(p *int32, v int32)                     { store(p, v) }
func StoreInt64(p *int64, v int64)                     { store(p, v) }
func StoreUint32(p *uint32, v uint32)                  { store(p, v) }
func StoreUint64(p *uint64, v uint64)                  { store(p, v) }
func StoreUintptr(p *uintptr, v uintptr)               { store(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { store(p, v) }
func SwapInt32(p *int32, v int32) int32                { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64                { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return swap(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr        { return swap(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	return swap(p, v)
}
func AddInt32(p *int32, v int32) int32                    { return add(p, v) }
func AddInt64(p *int64, v int64) int64                    { return add(p, v) }
func AddUint32(p *uint32, v uint32) uint32                { return add(p, v) }
func AddUint64(p *uint64, v uint64) uint64                { return add(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr            { return add(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool       { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool       { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool    { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool    { return cas(p, o, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return cas(p, o, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	return cas(p, o, n)
}
func AndInt32(p *int32, v int32) int32     { return and(p, v) }
func AndInt64(p *int64, v int64) int64     { return and(p, v) }
func AndUint32(p *uint32, v uint32) uint32 { return and(p, v) }
func AndUint64(p *uint64, v uint64) uint64 { return and(p, v) }
func OrInt32(p *int32, v int32) int32      { return or(p, v) }
func OrInt64(p *int64, v int64) int64      { return or(p, v) }
func OrUint32(p *uint32, v uint32) uint32  { return or(p, v) }
func OrUint64(p *uint64, v uint64) uint64  { return or(p, v) }

type num[T integer] struct{ v T }

func (x *num[T]) Load() T                    { return load(&x.v) }
func (x *num[T]) Store(v T)                  { store(&x.v, v) }
func (x *num[T]) Swap(v T) T                 { return swap(&x.v, v) }
func (x *num[T]) Add(v T) T                  { return add(&x.v, v) }
func (x *num[T]) CompareAndSwap(o, n T) bool { return cas(&x.v, o, n) }
func (x *num[T]) And(m T) T                  { return and(&x.v, m) }
func (x *num[T]) Or(m T) T                   { return or(&x.v, m) }

// Replacements of the types of sync/atomic.
type (
	AtomicInt32   struct{ num[int32] }
	AtomicInt64   struct{ num[int64] }
	AtomicUint32  struct{ num[uint32] }
	AtomicUint64  struct{ num[uint64] }
	AtomicUintptr struct{ num[uintptr] }
)

type AtomicBool struct{ v bool }

func (x *AtomicBool) Load() bool                    { return load(&x.v) }
func (x *AtomicBool) Store(v bool)                  { store(&x.v, v) }
func (x *AtomicBool) Swap(v bool) bool              { return swap(&x.v, v) }
func (x *AtomicBool) CompareAndSwap(o, n bool) bool { return cas(&x.v, o, n) }

type AtomicPointer[T any] struct{ v *T }

func (x *AtomicPointer[T]) Load() *T                    { return load(&x.v) }
func (x *AtomicPointer[T]) Store(v *T)                  { store(&x.v, v) }
func (x *AtomicPointer[T]) Swap(v *T) *T                { return swap(&x.v, v) }
func (x *AtomicPointer[T]) CompareAndSwap(o, n *T) bool { return cas(&x.v, o, n) }

type AtomicValue struct{ v atomic.Value }

func (x *AtomicValue) Load() interface{} {
	Sync()
	acquire(unsafe.Pointer(x))
	return x.v.Load()
}
func (x *AtomicValue) Store(v interface{}) {
	Sync()
	release(unsafe.Pointer(x), false)
	x.v.Store(v)
}
func (x *AtomicValue) Swap(v interface{}) interface{} {
	Sync()
	acquire(unsafe.Pointer(x))
	release(unsafe.Pointer(x), true)
	return x.v.Swap(v)
}
func (x *AtomicValue) CompareAndSwap(o, n interface{}) bool {
	Sync()
	acquire(unsafe.Pointer(x))
	release(unsafe.Pointer(x), true)
	return x.v.CompareAndSwap(o, n)
}
