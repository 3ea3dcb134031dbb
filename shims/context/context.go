package context

import (
	real "context"
	"time"

	mc "github.com/sisu-network/dheart/zzmc"
)

// ctx is a context whose deadline passes in virtual time. Cancelling happens before everything that sees it.
type ctx struct {
	real.Context
	deadline time.Time
	expired  bool
}

func (c *ctx) Deadline() (time.Time, bool) {
	if d, ok := c.Context.Deadline(); ok && (c.deadline.IsZero() || d.Before(c.deadline)) {
		return d, true
	}
	return c.deadline, !c.deadline.IsZero()
}

func (c *ctx) Err() error {
	err := c.Context.Err()
	if err == nil {
		return nil
	}
	mc.ForeignAcquire()
	if c.expired {
		return real.DeadlineExceeded
	}
	return err
}

func newCtx(parent real.Context) (*ctx, real.CancelFunc) {
	in, f := real.WithCancel(parent)
	c := &ctx{Context: in}
	return c, func() {
		mc.Point("cancel")
		mc.ForeignRelease()
		f()
	}
}

func WithCancel(parent real.Context) (real.Context, real.CancelFunc) {
	return newCtx(parent)
}

func WithTimeout(parent real.Context, d time.Duration) (real.Context, real.CancelFunc) {
	return WithDeadline(parent, mc.TimeNow().Add(d))
}

func WithDeadline(parent real.Context, t time.Time) (real.Context, real.CancelFunc) {
	in, f := real.WithCancel(parent)
	c := &ctx{Context: in, deadline: t}
	tm := mc.AddTimer(int64(t.Sub(mc.TimeNow())), func() {
		c.expired = c.Context.Err() == nil
		f()
	})
	return c, func() {
		mc.Point("cancel")
		tm.Stop()
		mc.ForeignRelease()
		f()
	}
}
