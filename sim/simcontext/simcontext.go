// Package simcontext replaces context: deadlines are on the simulator's
// clock.
package simcontext

import (
	"context"
	"time"

	"github.com/Harvey-OS/ninep/sim/simrt"
	"github.com/Harvey-OS/ninep/sim/simtime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                                { return context.Background() }
func TODO() Context                                      { return context.TODO() }
func WithValue(parent Context, k, v interface{}) Context { return context.WithValue(parent, k, v) }

type ctx struct {
	Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	kids     []*ctx
	after    []func()
}

type self struct{}

func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error            { return c.err }
func (c *ctx) Value(k interface{}) interface{} {
	if _, ok := k.(self); ok {
		return c
	}
	return c.Context.Value(k)
}
func (c *ctx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	close(c.done)
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
	for _, f := range c.after {
		simrt.Go("context", f)
	}
}

func derive(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(self{}).(*ctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := derive(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := derive(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := derive(parent)
	if p, ok := parent.Deadline(); ok && p.Before(d) {
		return c, func() { c.cancel(Canceled, nil) }
	}
	c.deadline = d
	left := simtime.Until(d)
	if left <= 0 {
		c.cancel(DeadlineExceeded, cause)
		return c, func() {}
	}
	t := simtime.AfterFunc(left, func() { c.cancel(DeadlineExceeded, cause) })
	return c, func() {
		t.Stop()
		c.cancel(Canceled, nil)
	}
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, simtime.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simtime.Now().Add(d), cause)
}

func Cause(c Context) error {
	if p, ok := c.Value(self{}).(*ctx); ok {
		return p.cause
	}
	return c.Err()
}

type withoutCancel struct{ Context }

func (withoutCancel) Deadline() (t time.Time, ok bool) { return }
func (withoutCancel) Done() <-chan struct{}            { return nil }
func (withoutCancel) Err() error                       { return nil }
func (w withoutCancel) Value(k interface{}) interface{} {
	if _, ok := k.(self); ok {
		return nil
	}
	return w.Context.Value(k)
}

func WithoutCancel(parent Context) Context { return withoutCancel{parent} }

func AfterFunc(c Context, f func()) (stop func() bool) {
	p, ok := c.Value(self{}).(*ctx)
	if !ok {
		return func() bool { return true }
	}
	ran, off := false, false
	g := func() {
		if !off {
			ran = true
			f()
		}
	}
	if p.err != nil {
		simrt.Go("context", g)
	} else {
		p.after = append(p.after, g)
	}
	return func() bool {
		was := !ran && !off
		off = true
		return was
	}
}
