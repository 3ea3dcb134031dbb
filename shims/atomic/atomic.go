package atomic

import (
	real "sync/atomic"
	"unsafe"

	mc "github.com/sisu-network/dheart/zzmc"
)

type vcs = mc.VC

func op(p unsafe.Pointer) {
	if !mc.Active() {
		return
	}
	m := mc.Local("atomic", func() interface{} { return map[unsafe.Pointer]*mc.VC{} }).(map[unsafe.Pointer]*mc.VC)
	v := m[p]
	if v == nil {
		v = new(mc.VC)
		m[p] = v
	}
	mc.AtomicOp(v)
}

// Value is atomic.Value.
type Value struct {
	v  real.Value
	vc mc.VC
}

func (v *Value) Load() interface{}                  { mc.AtomicOp(&v.vc); return v.v.Load() }
func (v *Value) Store(x interface{})                { mc.AtomicOp(&v.vc); v.v.Store(x) }
func (v *Value) Swap(x interface{}) interface{}     { mc.AtomicOp(&v.vc); return v.v.Swap(x) }
func (v *Value) CompareAndSwap(a, b interface{}) bool { mc.AtomicOp(&v.vc); return v.v.CompareAndSwap(a, b) }

func AddInt32(a *int32, d int32) int32 { op(unsafe.Pointer(a)); return real.AddInt32(a, d) }
func LoadInt32(a *int32) int32 { op(unsafe.Pointer(a)); return real.LoadInt32(a) }
func StoreInt32(a *int32, v int32) { op(unsafe.Pointer(a)); real.StoreInt32(a, v) }
func SwapInt32(a *int32, v int32) int32 { op(unsafe.Pointer(a)); return real.SwapInt32(a, v) }
func CompareAndSwapInt32(a *int32, o, v int32) bool { op(unsafe.Pointer(a)); return real.CompareAndSwapInt32(a, o, v) }
func AddInt64(a *int64, d int64) int64 { op(unsafe.Pointer(a)); return real.AddInt64(a, d) }
func LoadInt64(a *int64) int64 { op(unsafe.Pointer(a)); return real.LoadInt64(a) }
func StoreInt64(a *int64, v int64) { op(unsafe.Pointer(a)); real.StoreInt64(a, v) }
func SwapInt64(a *int64, v int64) int64 { op(unsafe.Pointer(a)); return real.SwapInt64(a, v) }
func CompareAndSwapInt64(a *int64, o, v int64) bool { op(unsafe.Pointer(a)); return real.CompareAndSwapInt64(a, o, v) }
func AddUint32(a *uint32, d uint32) uint32 { op(unsafe.Pointer(a)); return real.AddUint32(a, d) }
func LoadUint32(a *uint32) uint32 { op(unsafe.Pointer(a)); return real.LoadUint32(a) }
func StoreUint32(a *uint32, v uint32) { op(unsafe.Pointer(a)); real.StoreUint32(a, v) }
func SwapUint32(a *uint32, v uint32) uint32 { op(unsafe.Pointer(a)); return real.SwapUint32(a, v) }
func CompareAndSwapUint32(a *uint32, o, v uint32) bool { op(unsafe.Pointer(a)); return real.CompareAndSwapUint32(a, o, v) }
func AddUint64(a *uint64, d uint64) uint64 { op(unsafe.Pointer(a)); return real.AddUint64(a, d) }
func LoadUint64(a *uint64) uint64 { op(unsafe.Pointer(a)); return real.LoadUint64(a) }
func StoreUint64(a *uint64, v uint64) { op(unsafe.Pointer(a)); real.StoreUint64(a, v) }
func SwapUint64(a *uint64, v uint64) uint64 { op(unsafe.Pointer(a)); return real.SwapUint64(a, v) }
func CompareAndSwapUint64(a *uint64, o, v uint64) bool { op(unsafe.Pointer(a)); return real.CompareAndSwapUint64(a, o, v) }
func AddUintptr(a *uintptr, d uintptr) uintptr { op(unsafe.Pointer(a)); return real.AddUintptr(a, d) }
func LoadUintptr(a *uintptr) uintptr { op(unsafe.Pointer(a)); return real.LoadUintptr(a) }
func StoreUintptr(a *uintptr, v uintptr) { op(unsafe.Pointer(a)); real.StoreUintptr(a, v) }
func SwapUintptr(a *uintptr, v uintptr) uintptr { op(unsafe.Pointer(a)); return real.SwapUintptr(a, v) }
func CompareAndSwapUintptr(a *uintptr, o, v uintptr) bool { op(unsafe.Pointer(a)); return real.CompareAndSwapUintptr(a, o, v) }
func LoadPointer(a *unsafe.Pointer) unsafe.Pointer { op(unsafe.Pointer(a)); return real.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { op(unsafe.Pointer(a)); real.StorePointer(a, v) }
func SwapPointer(a *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer { op(unsafe.Pointer(a)); return real.SwapPointer(a, v) }
func CompareAndSwapPointer(a *unsafe.Pointer, o, v unsafe.Pointer) bool { op(unsafe.Pointer(a)); return real.CompareAndSwapPointer(a, o, v) }
