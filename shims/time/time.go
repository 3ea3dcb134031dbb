package time

import (
	real "time"

	mc "github.com/sisu-network/dheart/zzmc"
)

func Now() Time                      { return mc.TimeNow() }
func Since(t Time) Duration          { return Now().Sub(t) }
func Until(t Time) Duration          { return t.Sub(Now()) }
func Sleep(d Duration)               { mc.Sleep(int64(d)) }
func After(d Duration) <-chan Time   { return NewTimer(d).C }
func Tick(d Duration) <-chan Time    { return NewTicker(d).C }

// Timer is a virtual timer.
type Timer struct {
	C  <-chan Time
	c  chan Time
	f  func()
	mt *mc.Timer
}

func (t *Timer) arm(d Duration) {
	if t.f != nil {
		t.mt = mc.AddTimerG(int64(d), t.f)
		return
	}
	c := t.c
	t.mt = mc.AddTimer(int64(d), func() {
		select {
		case c <- mc.TimeNow():
		default:
		}
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool { return t.mt.Stop() }
func (t *Timer) Reset(d Duration) bool {
	b := t.mt.Stop()
	t.arm(d)
	return b
}

// Ticker is a virtual ticker.
type Ticker struct {
	C  <-chan Time
	c  chan Time
	d  Duration
	mt *mc.Timer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.mt = mc.AddTimer(int64(t.d), func() {
		select {
		case t.c <- mc.TimeNow():
		default:
		}
		t.arm()
	})
}
func (t *Ticker) Stop()            { t.mt.Stop() }
func (t *Ticker) Reset(d Duration) { t.mt.Stop(); t.d = d; t.arm() }

var _ = real.Second
