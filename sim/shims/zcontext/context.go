package context

import (
	real "context"
	"time"

	"github.com/vivint/rothko/internal/zsim"
	_ "github.com/vivint/rothko/internal/zsim/ztime"
)

type canceler interface {
	cancel(err, cause error)
}

type cancelCtx struct {
	real.Context
	done     chan struct{}
	err      error
	cause    error
	children []canceler
	stop     *zsim.Timer
	deadline time.Time
	hasDl    bool
	hb       byte
}

type cancelKeyT struct{}

var cancelKey cancelKeyT

func (c *cancelCtx) Done() <-chan struct{} { return c.done }

func (c *cancelCtx) Err() error {
	zsim.YS()
	if c.err != nil {
		zsim.Acquire(&c.hb)
	}
	return c.err
}

func (c *cancelCtx) Value(k interface{}) interface{} {
	if k == cancelKey {
		return c
	}
	return c.Context.Value(k)
}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *cancelCtx) String() string { return "simulated context" }

// cancel happens in one step, like the critical section of the original.
func (c *cancelCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	zsim.ReleaseMerge(&c.hb)
	c.err, c.cause = err, cause
	zsim.CloseNow(c.done)
	kids := c.children
	c.children = nil
	for _, k := range kids {
		k.cancel(err, cause)
	}
	if c.stop != nil {
		c.stop.Stop()
	}
}

func newCtx(parent real.Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{Context: parent, done: make(chan struct{})}
	if zsim.Killed() {
		return c
	}
	if p, ok := parent.Value(cancelKey).(*cancelCtx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	} else if d := parent.Done(); d != nil {
		// a context of an unknown kind
		zsim.Go(func() {
			select2(d, c.done)
			if err := parent.Err(); err != nil {
				c.cancel(err, err)
			}
		})
	}
	return c
}

func select2(a, b <-chan struct{}) {
	zsim.Select(false, zsim.RecvCase(a), zsim.RecvCase(b))
}

func (c *cancelCtx) drop() {
	if p, ok := c.Context.Value(cancelKey).(*cancelCtx); ok {
		for i, k := range p.children {
			if k == canceler(c) {
				p.children = append(p.children[:i:i], p.children[i+1:]...)
				return
			}
		}
	}
}

func (c *cancelCtx) fin(cause error) {
	zsim.YS()
	if zsim.Killed() {
		return
	}
	c.cancel(real.Canceled, cause)
	c.drop()
	zsim.YS()
}

func WithCancel(parent real.Context) (real.Context, real.CancelFunc) {
	zsim.YS()
	c := newCtx(parent)
	return c, func() { c.fin(nil) }
}

func WithCancelCause(parent real.Context) (real.Context, real.CancelCauseFunc) {
	zsim.YS()
	c := newCtx(parent)
	return c, func(cause error) { c.fin(cause) }
}

func WithDeadlineCause(parent real.Context, d time.Time, cause error) (real.Context, real.CancelFunc) {
	zsim.YS()
	c := newCtx(parent)
	if zsim.Killed() {
		return c, func() {}
	}
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return c, func() { c.fin(nil) }
	}
	c.deadline, c.hasDl = d, true
	dur := untilSim(d)
	if dur <= 0 {
		c.cancel(real.DeadlineExceeded, cause)
		return c, func() { c.fin(nil) }
	}
	if c.err == nil {
		c.stop = zsim.S.AddTimer(dur, func() { c.cancel(real.DeadlineExceeded, cause) })
	}
	return c, func() { c.fin(nil) }
}

// untilSim is the time left on the simulated monotonic clock when the
// deadline carries one, on the wall clock otherwise.
func untilSim(d time.Time) time.Duration {
	return zsim.UntilHook(d)
}

func WithDeadline(parent real.Context, d time.Time) (real.Context, real.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithTimeout(parent real.Context, d time.Duration) (real.Context, real.CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}

func WithTimeoutCause(parent real.Context, d time.Duration, cause error) (real.Context, real.CancelFunc) {
	return WithDeadlineCause(parent, zsim.NowHook().Add(d), cause)
}

type withoutCancel struct{ c real.Context }

func (w withoutCancel) Deadline() (t time.Time, ok bool) { return }
func (w withoutCancel) Done() <-chan struct{}            { return nil }
func (w withoutCancel) Err() error                       { return nil }
func (w withoutCancel) Value(k interface{}) interface{} {
	if k == cancelKey {
		return nil
	}
	return w.c.Value(k)
}

func WithoutCancel(parent real.Context) real.Context { return withoutCancel{parent} }

func Cause(c real.Context) error {
	if p, ok := c.Value(cancelKey).(*cancelCtx); ok {
		return p.cause
	}
	return c.Err()
}

type afterFunc struct {
	f    func()
	p    *zsim.Proc
	done bool
}

func (a *afterFunc) cancel(err, cause error) {
	if a.done {
		return
	}
	a.done = true
	zsim.S.GoIn(a.p, "afterfunc", a.f)
}

func AfterFunc(ctx real.Context, f func()) (stop func() bool) {
	zsim.YS()
	if zsim.Killed() {
		return func() bool { return false }
	}
	a := &afterFunc{f: f, p: zsim.CurProc()}
	if p, ok := ctx.Value(cancelKey).(*cancelCtx); ok {
		if p.err != nil {
			a.cancel(nil, nil)
		} else {
			p.children = append(p.children, a)
		}
	}
	return func() bool {
		zsim.YS()
		was := !a.done
		a.done = true
		return was
	}
}

// CancelNow cancels a context of this package from the scheduler.
func CancelNow(ctx real.Context) {
	if c, ok := ctx.Value(cancelKey).(*cancelCtx); ok {
		c.cancel(real.Canceled, nil)
	}
}
