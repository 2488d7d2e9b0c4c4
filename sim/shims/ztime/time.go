package time

import (
	real "time"
	"unsafe"

	"github.com/vivint/rothko/internal/zsim"
)

// layout of time.Time
type layout struct {
	wall uint64
	ext  int64
	loc  *real.Location
}

const (
	unixToInternal = int64(1969*365+1969/4-1969/100+1969/400) * 86400
	wallToInternal = int64(1884*365+1884/4-1884/100+1884/400) * 86400
)

func mk(wall, mono int64) real.Time {
	sec := wall / 1e9
	nsec := wall % 1e9
	var t real.Time
	l := (*layout)(unsafe.Pointer(&t))
	l.wall = 1<<63 | uint64(sec+unixToInternal-wallToInternal)<<30 | uint64(nsec)
	l.ext = mono
	l.loc = real.UTC
	return t
}

func init() {
	zsim.NowHook = Now
	// the layout of time.Time is an assumption: check it
	w := int64(1500000000123456789)
	a, b := mk(w, 1000), mk(w+5e9, 1777)
	if a.UnixNano() != w || b.Sub(a) != 777 || b.Round(0).Sub(a.Round(0)) != 5*real.Second {
		panic("zsim: unexpected layout of time.Time")
	}
}

// Now reads the simulated wall and monotonic clocks. Every reading takes a
// little time.
func Now() real.Time {
	s := zsim.S
	if s == nil {
		return mk(1500000000*1e9, 1)
	}
	if !zsim.Killed() {
		s.TickClock()
	}
	return mk(s.WallNow(), s.Mono())
}

func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }

func Sleep(d real.Duration) {
	if zsim.Killed() {
		return
	}
	zsim.YS()
	zsim.S.Sleep(d)
}

// Timer is time.Timer on the simulated clock.
type Timer struct {
	C  <-chan real.Time
	ch chan real.Time
	fn func()
	tm *zsim.Timer
}

func (t *Timer) start(d real.Duration) {
	if zsim.Killed() {
		return
	}
	ch, fn := t.ch, t.fn
	p := zsim.CurProc()
	t.tm = zsim.S.AddTimer(d, func() {
		if p.Dead {
			return
		}
		if fn != nil {
			zsim.S.GoIn(p, "timer", fn)
			return
		}
		zsim.TrySendNow(ch, mk(zsim.S.WallNow(), zsim.S.Mono()))
	})
}

func NewTimer(d real.Duration) *Timer {
	zsim.YS()
	ch := make(chan real.Time, 1)
	t := &Timer{C: ch, ch: ch}
	t.start(d)
	return t
}

func AfterFunc(d real.Duration, f func()) *Timer {
	zsim.YS()
	t := &Timer{fn: f}
	t.start(d)
	return t
}

func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	zsim.YS()
	if t.tm == nil {
		return false
	}
	was := t.tm.Stop()
	t.drain()
	return was
}

// drain discards a stale expiry: since Go 1.23 no stale values are delivered
// after Stop or Reset.
func (t *Timer) drain() {
	if t.ch != nil && !zsim.Killed() {
		zsim.DrainNow(t.ch)
	}
}

func (t *Timer) Reset(d real.Duration) bool {
	zsim.YS()
	was := false
	if t.tm != nil {
		was = t.tm.Stop()
	}
	t.drain()
	t.start(d)
	return was
}

// Ticker is time.Ticker on the simulated clock.
type Ticker struct {
	C  <-chan real.Time
	ch chan real.Time
	d  real.Duration
	tm *zsim.Timer
	p  *zsim.Proc
	on bool
}

func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	zsim.YS()
	ch := make(chan real.Time, 1)
	t := &Ticker{C: ch, ch: ch, d: d, on: true}
	if zsim.Killed() {
		return t
	}
	t.p = zsim.CurProc()
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.tm = zsim.S.AddTimer(t.d, func() {
		if t.p.Dead || !t.on {
			return
		}
		zsim.S.Ticks++
		zsim.TrySendNow(t.ch, mk(zsim.S.WallNow(), zsim.S.Mono()))
		t.arm()
	})
}

func (t *Ticker) Stop() {
	zsim.YS()
	if zsim.Killed() {
		return
	}
	t.on = false
	if t.tm != nil {
		t.tm.Stop()
	}
	zsim.DrainNow(t.ch)
}

func (t *Ticker) Reset(d real.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.Stop()
	if zsim.Killed() {
		return
	}
	t.on, t.d = true, d
	t.arm()
}

func Tick(d real.Duration) <-chan real.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
