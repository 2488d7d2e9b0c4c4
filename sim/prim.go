package zsim

import "unsafe"

// Lock state of the sync shim. Owner processes matter: a lock held by a dead
// process belongs to memory that no longer exists.
type MuState struct {
	owner  *Proc
	locked bool
	q      WaitQ
	sync   byte
}

func curProc() *Proc {
	if S != nil && S.cur != nil {
		return S.cur.P
	}
	return nil
}

// own resets state that belongs to a process that is gone.
func own(o **Proc) bool {
	p := curProc()
	if *o != p {
		if *o == nil || (*o).Dead {
			*o = p
			return true
		}
	}
	return false
}

func idle() bool { return S == nil || S.cur == nil }
func dead() bool { return S.cur.killed }

func (m *MuState) Lock() {
	if idle() || dead() {
		return
	}
	YS()
	if own(&m.owner) {
		m.locked = false
		m.q = WaitQ{}
	}
	for m.locked {
		m.q.Wait(S, "mutex")
		if dead() {
			return
		}
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.sync))
}

func (m *MuState) TryLock() bool {
	if idle() {
		return true
	}
	if dead() {
		return false
	}
	YS()
	if own(&m.owner) {
		m.locked = false
		m.q = WaitQ{}
	}
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(unsafe.Pointer(&m.sync))
	return true
}

func (m *MuState) Unlock() {
	if idle() || dead() {
		return
	}
	if own(&m.owner) {
		m.locked = false
		m.q = WaitQ{}
	}
	if !m.locked {
		FatalProc("fatal error: sync: unlock of unlocked mutex")
		return
	}
	raceRelease(unsafe.Pointer(&m.sync))
	m.locked = false
	wakeNoSync(&m.q)
	YS()
}

// wakeNoSync wakes one waiter without a happens-before edge of its own.
func wakeNoSync(w *WaitQ) bool {
	for len(w.q) > 0 {
		x := w.q[0]
		w.q = w.q[1:]
		if x.t.state == tsBlocked && x.t.seq == x.seq && !x.t.P.Dead {
			S.Unpark(x.t, 1)
			return true
		}
	}
	return false
}

// FatalProc is an unrecoverable runtime error: the process dies at once.
func FatalProc(msg string) {
	t := S.cur
	if t.killed {
		return
	}
	if t.P.Crashed == "" {
		t.P.Crashed = msg
		t.P.Stack = stack()
	}
	S.procDied(t.P, t)
	t.killed = true
	S.toSched()
}

type RWState struct {
	owner *Proc
	w     bool
	r     int
	wwait int
	q     WaitQ
	wsync byte
	rsync byte
}

func (m *RWState) own() {
	if own(&m.owner) {
		m.w, m.r, m.wwait, m.q = false, 0, 0, WaitQ{}
	}
}

func (m *RWState) Lock() {
	if idle() || dead() {
		return
	}
	YS()
	m.own()
	m.wwait++
	for m.w || m.r > 0 {
		m.q.Wait(S, "rwmutex")
		if dead() {
			return
		}
	}
	m.wwait--
	m.w = true
	raceAcquire(unsafe.Pointer(&m.wsync))
	raceAcquire(unsafe.Pointer(&m.rsync))
}

func (m *RWState) TryLock() bool {
	if idle() || dead() {
		return true
	}
	YS()
	m.own()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	raceAcquire(unsafe.Pointer(&m.wsync))
	raceAcquire(unsafe.Pointer(&m.rsync))
	return true
}

func (m *RWState) Unlock() {
	if idle() || dead() {
		return
	}
	m.own()
	if !m.w {
		FatalProc("fatal error: sync: Unlock of unlocked RWMutex")
		return
	}
	raceRelease(unsafe.Pointer(&m.wsync))
	m.w = false
	for wakeNoSync(&m.q) {
	}
	YS()
}

func (m *RWState) RLock() {
	if idle() || dead() {
		return
	}
	YS()
	m.own()
	for m.w || m.wwait > 0 {
		m.q.Wait(S, "rwmutex read")
		if dead() {
			return
		}
	}
	m.r++
	raceAcquire(unsafe.Pointer(&m.wsync))
}

func (m *RWState) TryRLock() bool {
	if idle() || dead() {
		return true
	}
	YS()
	m.own()
	if m.w || m.wwait > 0 {
		return false
	}
	m.r++
	raceAcquire(unsafe.Pointer(&m.wsync))
	return true
}

func (m *RWState) RUnlock() {
	if idle() || dead() {
		return
	}
	m.own()
	if m.r == 0 {
		FatalProc("fatal error: sync: RUnlock of unlocked RWMutex")
		return
	}
	raceReleaseMerge(unsafe.Pointer(&m.rsync))
	m.r--
	if m.r == 0 {
		for wakeNoSync(&m.q) {
		}
	}
	YS()
}

type WGState struct {
	owner *Proc
	n     int
	q     WaitQ
	sync  byte
}

func (w *WGState) Add(d int) {
	if idle() || dead() {
		return
	}
	YS()
	if own(&w.owner) {
		w.n, w.q = 0, WaitQ{}
	}
	if d < 0 {
		raceReleaseMerge(unsafe.Pointer(&w.sync))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for wakeNoSync(&w.q) {
		}
	}
}

func (w *WGState) Wait() {
	if idle() || dead() {
		return
	}
	YS()
	if own(&w.owner) {
		w.n, w.q = 0, WaitQ{}
	}
	if w.n > 0 {
		w.q.Wait(S, "waitgroup")
		if dead() {
			return
		}
	}
	raceAcquire(unsafe.Pointer(&w.sync))
}

type OnceState struct {
	owner *Proc
	done  bool
	mu    MuState
}

func (o *OnceState) Do(f func()) {
	if idle() {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	if dead() {
		return
	}
	YS()
	if o.done && o.owner == nil {
		return // done during initialisation
	}
	if own(&o.owner) {
		o.done = false
	}
	if o.done {
		raceAcquire(unsafe.Pointer(&o.mu.sync))
		return
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type CondState struct{ q WaitQ }

func (c *CondState) Wait(unlock, lock func()) {
	if idle() || dead() {
		return
	}
	t := S.cur
	c.q.q = append(c.q.q, &waiter{t, t.seq + 1})
	// released and parked in one step: unlock may be an interleaving point,
	// so remember a wake-up that arrives in between
	x := c.q.q[len(c.q.q)-1]
	x.seq = 0
	cw := &condWait{t: t}
	c.q.q = c.q.q[:len(c.q.q)-1]
	conds = append(conds, condEntry{c, cw})
	unlock()
	for !cw.signaled {
		cw.parked = true
		cw.seq = t.seq + 1
		S.Park("cond")
		cw.parked = false
		if dead() {
			return
		}
	}
	lock()
}

type condWait struct {
	t        *Task
	seq      uint64
	parked   bool
	signaled bool
}

type condEntry struct {
	c *CondState
	w *condWait
}

var conds []condEntry

func (c *CondState) Signal() { c.signal(false) }

func (c *CondState) Broadcast() { c.signal(true) }

func (c *CondState) signal(all bool) {
	if idle() || dead() {
		return
	}
	YS()
	var keep []condEntry
	done := false
	for _, e := range conds {
		if e.c != c || (done && !all) {
			keep = append(keep, e)
			continue
		}
		if e.w.t.P.Dead || e.w.t.state == tsDead {
			continue
		}
		done = true
		e.w.signaled = true
		raceReleaseMerge(unsafe.Pointer(&e.w.t.sync))
		if e.w.parked && e.w.t.seq == e.w.seq {
			S.Unpark(e.w.t, 0)
		}
	}
	conds = keep
}

// HB helpers for the other shims.
func Acquire(p *byte)      { raceAcquire(unsafe.Pointer(p)) }
func Release(p *byte)      { raceRelease(unsafe.Pointer(p)) }
func ReleaseMerge(p *byte) { raceReleaseMerge(unsafe.Pointer(p)) }

// Owner is embedded by shims whose state belongs to a process.
type Owner struct{ p *Proc }

// Stale reports whether the state belonged to a process that is gone (or is
// fresh) and takes it over.
func (o *Owner) Stale() bool { return own(&o.p) }

// Idle reports whether no simulated task is running.
func Idle() bool { return idle() }

// CurProc returns the process of the current task.
func CurProc() *Proc { return curProc() }
