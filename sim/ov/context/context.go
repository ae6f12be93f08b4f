//go:build go1.21

package context

import (
	real "context"
	simtime "msim/ov/time"
	"msim/rt"
	"time"
)

type cctx struct {
	parent real.Context
	done   chan struct{}
	err    error
	cause  error
	kids   []*cctx
	dl     time.Time
	hasDL  bool
}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error            { rt.Y(); return c.err }
func (c *cctx) Value(k interface{}) interface{} {
	if k == &keyC {
		return c
	}
	return c.parent.Value(k)
}

var keyC int

func (c *cctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	rt.Close(c.done)
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
}

func newC(parent real.Context) *cctx {
	c := &cctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&keyC).(*cctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func WithCancel(parent real.Context) (real.Context, real.CancelFunc) {
	c := newC(parent)
	return c, func() { c.cancel(real.Canceled, nil) }
}
func WithCancelCause(parent real.Context) (real.Context, real.CancelCauseFunc) {
	c := newC(parent)
	return c, func(e error) { c.cancel(real.Canceled, e) }
}
func WithDeadline(parent real.Context, d time.Time) (real.Context, real.CancelFunc) {
	c := newC(parent)
	if p, ok := parent.Deadline(); ok && p.Before(d) {
		return c, func() { c.cancel(real.Canceled, nil) }
	}
	c.dl, c.hasDL = d, true
	t := simtime.AfterFunc(d.Sub(simtime.Now()), func() { c.cancel(real.DeadlineExceeded, nil) })
	return c, func() { t.Stop(); c.cancel(real.Canceled, nil) }
}
func WithTimeout(parent real.Context, d time.Duration) (real.Context, real.CancelFunc) {
	return WithDeadline(parent, simtime.Now().Add(d))
}
func Cause(c real.Context) error {
	if p, ok := c.Value(&keyC).(*cctx); ok {
		return p.cause
	}
	return c.Err()
}
