package mc

import "time"

// Sleep blocks for d ns of virtual time.
func Sleep(d int64) {
	e := cur
	if e == nil || e.aborting {
		return
	}
	if d <= 0 {
		yield("sleep", nil)
		return
	}
	fired := false
	e.addTimer(d, func() { fired = true })
	yield("sleep", func() bool { return fired })
}

func (e *Exec) addTimer(d int64, fire func()) *timer {
	e.tseq++
	if d < 0 {
		d = 0
	}
	t := &timer{when: e.now + d, seq: e.tseq, fire: fire}
	if e.cells != nil && e.cur != nil {
		t.vc = e.cur.vc.copy()
		e.cur.vc = e.cur.vc.inc(e.cur.id)
	}
	e.timers = append(e.timers, t)
	return t
}

// Timer is a virtual timer handle.
type Timer struct {
	t *timer
	e int
}

// AddTimer schedules fire (run by the clock, must not block).
func AddTimer(d int64, fire func()) *Timer {
	if cur == nil || cur.aborting {
		return &Timer{}
	}
	return &Timer{t: cur.addTimer(d, fire), e: cur.id}
}

// AddTimerG schedules f to run in its own G.
func AddTimerG(d int64, f func()) *Timer {
	if cur == nil || cur.aborting {
		return &Timer{}
	}
	e := cur
	var t *timer
	t = e.addTimer(d, func() {
		g := e.newG("timer", f)
		g.vc = t.vc.copy().inc(g.id)
	})
	return &Timer{t: t, e: e.id}
}

// Stop removes the timer; true if it had not fired.
func (t *Timer) Stop() bool {
	if t.t == nil || cur == nil || cur.aborting || cur.id != t.e {
		return false
	}
	for i, x := range cur.timers {
		if x == t.t {
			cur.timers = append(cur.timers[:i], cur.timers[i+1:]...)
			return true
		}
	}
	return false
}

// TimeNow is the virtual wall clock.
func TimeNow() time.Time { return time.Unix(0, Now()).UTC() }
