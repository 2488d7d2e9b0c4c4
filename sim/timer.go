package zsim

import (
	"time"
	"unsafe"
)

// Timer is one scheduled event. fn runs on the scheduler.
type Timer struct {
	at    int64
	seq   uint64
	fn    func()
	dead  bool
	fired bool
	sync  byte
}

type timerHeap struct{ a []*Timer }

func (h *timerHeap) len() int { return len(h.a) }

func less(a, b *Timer) bool { return a.at < b.at || a.at == b.at && a.seq < b.seq }

func (h *timerHeap) push(t *Timer) {
	h.a = append(h.a, t)
	i := len(h.a) - 1
	for i > 0 {
		p := (i - 1) / 2
		if !less(h.a[i], h.a[p]) {
			break
		}
		h.a[i], h.a[p] = h.a[p], h.a[i]
		i = p
	}
}

func (h *timerHeap) pop() *Timer {
	t := h.a[0]
	n := len(h.a) - 1
	h.a[0] = h.a[n]
	h.a[n] = nil
	h.a = h.a[:n]
	i := 0
	for {
		c := 2*i + 1
		if c >= n {
			break
		}
		if c+1 < n && less(h.a[c+1], h.a[c]) {
			c++
		}
		if !less(h.a[c], h.a[i]) {
			break
		}
		h.a[i], h.a[c] = h.a[c], h.a[i]
		i = c
	}
	return t
}

// AddTimer schedules fn to run on the scheduler after d.
func (s *Sim) AddTimer(d time.Duration, fn func()) *Timer {
	if d < 0 {
		d = 0
	}
	s.timerSeq++
	at := s.Now + int64(d)
	if at < s.Now {
		at = 1<<63 - 1
	}
	t := &Timer{at: at, seq: s.timerSeq, fn: fn}
	raceReleaseMerge(unsafe.Pointer(&t.sync))
	s.timers.push(t)
	return t
}

// Stop cancels the timer and reports whether it was still pending.
func (t *Timer) Stop() bool {
	was := !t.dead
	t.dead = true
	return was
}

// Sleep blocks the current task for d of virtual time.
func (s *Sim) Sleep(d time.Duration) {
	t := s.cur
	if t == nil || t.killed {
		return
	}
	if d <= 0 {
		s.preempt()
		return
	}
	seq := t.seq + 1
	s.AddTimer(d, func() {
		if t.seq == seq {
			s.Unpark(t, 0)
		}
	})
	s.Park("sleep")
}

// WaitQ is a queue of blocked tasks.
type WaitQ struct{ q []*waiter }

type waiter struct {
	t   *Task
	seq uint64
}

// Wait blocks until woken.
func (w *WaitQ) Wait(s *Sim, why string) int {
	t := s.cur
	if t == nil || t.killed {
		return -1
	}
	w.q = append(w.q, &waiter{t, t.seq + 1})
	return s.Park(why)
}

// WaitTimeout blocks until woken (true) or the time has passed (false).
func (w *WaitQ) WaitTimeout(s *Sim, why string, d time.Duration) bool {
	t := s.cur
	if t == nil || t.killed {
		return false
	}
	seq := t.seq + 1
	w.q = append(w.q, &waiter{t, seq})
	tm := s.AddTimer(d, func() {
		if t.seq == seq {
			s.Unpark(t, -2)
		}
	})
	v := s.Park(why)
	tm.Stop()
	return v != -2
}

// WakeOne wakes one waiter.
func (w *WaitQ) WakeOne(s *Sim) bool {
	for len(w.q) > 0 {
		x := w.q[0]
		w.q = w.q[1:]
		if x.t.state == tsBlocked && x.t.seq == x.seq && !x.t.P.Dead {
			raceReleaseMerge(unsafe.Pointer(&x.t.sync))
			s.Unpark(x.t, 1)
			return true
		}
	}
	return false
}

// WakeAll wakes all waiters.
func (w *WaitQ) WakeAll(s *Sim) {
	for w.WakeOne(s) {
	}
}

// Empty reports whether no live task waits.
func (w *WaitQ) Empty() bool {
	for _, x := range w.q {
		if x.t.state == tsBlocked && x.t.seq == x.seq && !x.t.P.Dead {
			return false
		}
	}
	return true
}

// TickClock lets a little time pass, as between any two clock readings. An
// event that is due holds the timers' clock back; the readings still advance
// (Fine is the amount they are ahead of it).
func (s *Sim) TickClock() {
	before := s.Now
	s.Now += 37
	if s.timers.len() > 0 {
		// never move past a pending event
		for s.timers.len() > 0 && s.timers.a[0].dead {
			s.timers.pop()
		}
		if s.timers.len() > 0 && s.timers.a[0].at < s.Now {
			s.Now = s.timers.a[0].at
		}
	}
	if s.Now <= before {
		s.Now = before
		s.Fine++
	}
}

// Mono is the simulated monotonic clock.
func (s *Sim) Mono() int64 { return s.Now + 1 + s.Fine }

// WallNow is the simulated wall clock in nanoseconds since 1970.
func (s *Sim) WallNow() int64 { return s.Wall + s.Now + s.Fine }

// JumpWall steps the wall clock (the monotonic clock is not affected).
func (s *Sim) JumpWall(d time.Duration) { s.Wall += int64(d) }

// NowHook and UntilHook give the context shim access to the clock of the
// time shim.
var NowHook func() time.Time

func UntilHook(t time.Time) time.Duration { return t.Sub(NowHook()) }
