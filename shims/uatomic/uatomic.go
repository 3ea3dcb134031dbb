package atomic

import (
	"time"

	mc "github.com/sisu-network/dheart/zzmc"
)

type Int32 struct {
	v  int32
	vc mc.VC
}

func NewInt32(v int32) *Int32 { return &Int32{v: v} }
func (x *Int32) Load() int32 { mc.AtomicOp(&x.vc); return x.v }
func (x *Int32) Store(v int32) { mc.AtomicOp(&x.vc); x.v = v }
func (x *Int32) Swap(v int32) int32 { mc.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Int32) CAS(o, v int32) bool {
	mc.AtomicOp(&x.vc)
	if x.v == o {
		x.v = v
		return true
	}
	return false
}
func (x *Int32) CompareAndSwap(o, v int32) bool { return x.CAS(o, v) }
func (x *Int32) Add(d int32) int32 { mc.AtomicOp(&x.vc); x.v += d; return x.v }
func (x *Int32) Sub(d int32) int32 { mc.AtomicOp(&x.vc); x.v -= d; return x.v }
func (x *Int32) Inc() int32 { return x.Add(1) }
func (x *Int32) Dec() int32 { return x.Sub(1) }

type Int64 struct {
	v  int64
	vc mc.VC
}

func NewInt64(v int64) *Int64 { return &Int64{v: v} }
func (x *Int64) Load() int64 { mc.AtomicOp(&x.vc); return x.v }
func (x *Int64) Store(v int64) { mc.AtomicOp(&x.vc); x.v = v }
func (x *Int64) Swap(v int64) int64 { mc.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Int64) CAS(o, v int64) bool {
	mc.AtomicOp(&x.vc)
	if x.v == o {
		x.v = v
		return true
	}
	return false
}
func (x *Int64) CompareAndSwap(o, v int64) bool { return x.CAS(o, v) }
func (x *Int64) Add(d int64) int64 { mc.AtomicOp(&x.vc); x.v += d; return x.v }
func (x *Int64) Sub(d int64) int64 { mc.AtomicOp(&x.vc); x.v -= d; return x.v }
func (x *Int64) Inc() int64 { return x.Add(1) }
func (x *Int64) Dec() int64 { return x.Sub(1) }

type Uint32 struct {
	v  uint32
	vc mc.VC
}

func NewUint32(v uint32) *Uint32 { return &Uint32{v: v} }
func (x *Uint32) Load() uint32 { mc.AtomicOp(&x.vc); return x.v }
func (x *Uint32) Store(v uint32) { mc.AtomicOp(&x.vc); x.v = v }
func (x *Uint32) Swap(v uint32) uint32 { mc.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Uint32) CAS(o, v uint32) bool {
	mc.AtomicOp(&x.vc)
	if x.v == o {
		x.v = v
		return true
	}
	return false
}
func (x *Uint32) CompareAndSwap(o, v uint32) bool { return x.CAS(o, v) }
func (x *Uint32) Add(d uint32) uint32 { mc.AtomicOp(&x.vc); x.v += d; return x.v }
func (x *Uint32) Sub(d uint32) uint32 { mc.AtomicOp(&x.vc); x.v -= d; return x.v }
func (x *Uint32) Inc() uint32 { return x.Add(1) }
func (x *Uint32) Dec() uint32 { return x.Sub(1) }

type Uint64 struct {
	v  uint64
	vc mc.VC
}

func NewUint64(v uint64) *Uint64 { return &Uint64{v: v} }
func (x *Uint64) Load() uint64 { mc.AtomicOp(&x.vc); return x.v }
func (x *Uint64) Store(v uint64) { mc.AtomicOp(&x.vc); x.v = v }
func (x *Uint64) Swap(v uint64) uint64 { mc.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Uint64) CAS(o, v uint64) bool {
	mc.AtomicOp(&x.vc)
	if x.v == o {
		x.v = v
		return true
	}
	return false
}
func (x *Uint64) CompareAndSwap(o, v uint64) bool { return x.CAS(o, v) }
func (x *Uint64) Add(d uint64) uint64 { mc.AtomicOp(&x.vc); x.v += d; return x.v }
func (x *Uint64) Sub(d uint64) uint64 { mc.AtomicOp(&x.vc); x.v -= d; return x.v }
func (x *Uint64) Inc() uint64 { return x.Add(1) }
func (x *Uint64) Dec() uint64 { return x.Sub(1) }

type Bool struct {
	v  bool
	vc mc.VC
}

func NewBool(v bool) *Bool { return &Bool{v: v} }
func (x *Bool) Load() bool { mc.AtomicOp(&x.vc); return x.v }
func (x *Bool) Store(v bool) { mc.AtomicOp(&x.vc); x.v = v }
func (x *Bool) Swap(v bool) bool { mc.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Bool) CAS(o, v bool) bool {
	mc.AtomicOp(&x.vc)
	if x.v == o {
		x.v = v
		return true
	}
	return false
}
func (x *Bool) CompareAndSwap(o, v bool) bool { return x.CAS(o, v) }
func (x *Bool) Toggle() bool { mc.AtomicOp(&x.vc); o := x.v; x.v = !x.v; return o }

type String struct {
	v  string
	vc mc.VC
}

func NewString(v string) *String { return &String{v: v} }
func (x *String) Load() string { mc.AtomicOp(&x.vc); return x.v }
func (x *String) Store(v string) { mc.AtomicOp(&x.vc); x.v = v }
func (x *String) Swap(v string) string { mc.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *String) CAS(o, v string) bool {
	mc.AtomicOp(&x.vc)
	if x.v == o {
		x.v = v
		return true
	}
	return false
}
func (x *String) CompareAndSwap(o, v string) bool { return x.CAS(o, v) }

type Float64 struct {
	v  float64
	vc mc.VC
}

func NewFloat64(v float64) *Float64 { return &Float64{v: v} }
func (x *Float64) Load() float64 { mc.AtomicOp(&x.vc); return x.v }
func (x *Float64) Store(v float64) { mc.AtomicOp(&x.vc); x.v = v }
func (x *Float64) Swap(v float64) float64 { mc.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Float64) CAS(o, v float64) bool {
	mc.AtomicOp(&x.vc)
	if x.v == o {
		x.v = v
		return true
	}
	return false
}
func (x *Float64) CompareAndSwap(o, v float64) bool { return x.CAS(o, v) }
func (x *Float64) Add(d float64) float64 { mc.AtomicOp(&x.vc); x.v += d; return x.v }
func (x *Float64) Sub(d float64) float64 { mc.AtomicOp(&x.vc); x.v -= d; return x.v }

type Duration struct {
	v  time.Duration
	vc mc.VC
}

func NewDuration(v time.Duration) *Duration { return &Duration{v: v} }
func (x *Duration) Load() time.Duration { mc.AtomicOp(&x.vc); return x.v }
func (x *Duration) Store(v time.Duration) { mc.AtomicOp(&x.vc); x.v = v }
func (x *Duration) Swap(v time.Duration) time.Duration { mc.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Duration) CAS(o, v time.Duration) bool {
	mc.AtomicOp(&x.vc)
	if x.v == o {
		x.v = v
		return true
	}
	return false
}
func (x *Duration) CompareAndSwap(o, v time.Duration) bool { return x.CAS(o, v) }
func (x *Duration) Add(d time.Duration) time.Duration { mc.AtomicOp(&x.vc); x.v += d; return x.v }
func (x *Duration) Sub(d time.Duration) time.Duration { mc.AtomicOp(&x.vc); x.v -= d; return x.v }

type Time struct {
	v  time.Time
	vc mc.VC
}

func NewTime(v time.Time) *Time { return &Time{v: v} }
func (x *Time) Load() time.Time { mc.AtomicOp(&x.vc); return x.v }
func (x *Time) Store(v time.Time) { mc.AtomicOp(&x.vc); x.v = v }
func (x *Time) Swap(v time.Time) time.Time { mc.AtomicOp(&x.vc); o := x.v; x.v = v; return o }
func (x *Time) CAS(o, v time.Time) bool {
	mc.AtomicOp(&x.vc)
	if x.v == o {
		x.v = v
		return true
	}
	return false
}
func (x *Time) CompareAndSwap(o, v time.Time) bool { return x.CAS(o, v) }

type Error struct {
	v  error
	vc mc.VC
}

func NewError(v error) *Error { return &Error{v: v} }
func (x *Error) Load() error { mc.AtomicOp(&x.vc); return x.v }
func (x *Error) Store(v error) { mc.AtomicOp(&x.vc); x.v = v }
func (x *Error) Swap(v error) error { mc.AtomicOp(&x.vc); o := x.v; x.v = v; return o }

