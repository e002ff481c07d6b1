package xcontext

import (
	"context"
	"time"

	mc "github.com/aceld/zinx/zzmc/mc"
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *mc.Chan[struct{}]
	Err() error
	Value(key any) any
}

type CancelFunc func()
type CancelCauseFunc func(cause error)

var Canceled = context.Canceled
var DeadlineExceeded = context.DeadlineExceeded

type emptyCtx struct{ name string }

func (*emptyCtx) Deadline() (t time.Time, ok bool) { return }
func (*emptyCtx) Done() *mc.Chan[struct{}]         { return nil }
func (*emptyCtx) Err() error                       { return nil }
func (*emptyCtx) Value(any) any                    { return nil }

func Background() Context { return &emptyCtx{"background"} }
func TODO() Context       { return &emptyCtx{"todo"} }

type cancelCtx struct {
	Context
	o        mc.Obj
	done     *mc.Chan[struct{}]
	err      error
	cause    error
	children []*cancelCtx
	deadline time.Time
	timer    *mc.TimerH
}

func (c *cancelCtx) Done() *mc.Chan[struct{}] { return c.done }
func (c *cancelCtx) Err() error {
	if mc.S == nil || mc.Aborting() {
		return c.err
	}
	mc.ShimPoint(&c.o, "ctx.Err", nil)
	mc.ShimEffect(&c.o, false, 1)
	return c.err
}
func (c *cancelCtx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

type selfKey struct{}

func (c *cancelCtx) Value(k any) any {
	if _, ok := k.(selfKey); ok {
		return c
	}
	return c.Context.Value(k)
}

func (c *cancelCtx) cancelNow(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	c.cause = cause
	mc.ShimEffect(&c.o, true, 2)
	c.done.CloseNow()
	for _, k := range c.children {
		k.cancelNow(err, cause)
	}
	c.children = nil
	if c.timer != nil {
		c.timer.Stop()
	}
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{Context: parent, done: mc.MakeChan[struct{}](0)}
	if mc.S != nil && !mc.Aborting() {
		mc.ShimEffect(&c.o, true, 3)
	}
	if p, ok := parent.Value(selfKey{}).(*cancelCtx); ok && p != nil {
		if p.err != nil {
			c.cancelNow(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	}
	return c
}

func (c *cancelCtx) cancel(err, cause error) {
	if mc.S == nil || mc.Aborting() {
		return
	}
	mc.ShimPoint(&c.o, "ctx cancel", nil)
	if c.err != nil {
		mc.ShimEffect(&c.o, false, 4)
		return
	}
	if cause == nil {
		cause = err
	}
	c.cancelNow(err, cause)
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.cancel(Canceled, nil) }
}
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(e error) { c.cancel(Canceled, e) }
}
func Cause(c Context) error {
	if p, ok := c.Value(selfKey{}).(*cancelCtx); ok && p != nil {
		return p.cause
	}
	return c.Err()
}
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	c := newCancel(parent)
	c.deadline = d
	c.timer = mc.AddTimer(d.UnixNano()-mc.NowNano(), 0, func() { c.cancelNow(DeadlineExceeded, DeadlineExceeded) })
	return c, func() { c.cancel(Canceled, nil) }
}
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Unix(0, mc.NowNano()).Add(d))
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCancel(parent)
	c.deadline = d
	c.timer = mc.AddTimer(d.UnixNano()-mc.NowNano(), 0, func() { c.cancelNow(DeadlineExceeded, cause) })
	return c, func() { c.cancel(Canceled, nil) }
}
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Unix(0, mc.NowNano()).Add(d), cause)
}

// RawErr is Err without a scheduling point, for conditions of other shims.
func RawErr(c Context) error {
	if p, ok := c.Value(selfKey{}).(*cancelCtx); ok && p != nil {
		return p.err
	}
	return nil
}

type valueCtx struct {
	Context
	k, v any
}

func (c *valueCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}
func WithValue(parent Context, k, v any) Context { return &valueCtx{parent, k, v} }

type withoutCancel struct{ Context }

func (withoutCancel) Deadline() (t time.Time, ok bool) { return }
func (withoutCancel) Done() *mc.Chan[struct{}]         { return nil }
func (withoutCancel) Err() error                       { return nil }
func (w withoutCancel) Value(k any) any {
	if _, ok := k.(selfKey); ok {
		return nil
	}
	return w.Context.Value(k)
}
func WithoutCancel(p Context) Context { return withoutCancel{p} }
func AfterFunc(ctx Context, f func()) func() bool {
	stop := mc.MakeChan[struct{}](0)
	state := 0
	mc.Go(0, func() {
		a, b := ctx.Done().RecvCase(), stop.RecvCase()
		if mc.Select(0, false, a, b) == 0 && state == 0 {
			state = 1
			f()
		}
	})
	return func() bool {
		if state != 0 {
			return false
		}
		state = 2
		stop.CloseNow()
		return true
	}
}
