package sync

import (
	"fmt"
	real "sync"

	"github.com/vivint/rothko/internal/zsim"
)

type Locker = real.Locker

type Mutex struct{ st zsim.MuState }

func (m *Mutex) Lock()         { m.st.Lock() }
func (m *Mutex) Unlock()       { m.st.Unlock() }
func (m *Mutex) TryLock() bool { return m.st.TryLock() }

type RWMutex struct{ st zsim.RWState }

func (m *RWMutex) Lock()          { m.st.Lock() }
func (m *RWMutex) Unlock()        { m.st.Unlock() }
func (m *RWMutex) TryLock() bool  { return m.st.TryLock() }
func (m *RWMutex) RLock()         { m.st.RLock() }
func (m *RWMutex) RUnlock()       { m.st.RUnlock() }
func (m *RWMutex) TryRLock() bool { return m.st.TryRLock() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct{ st zsim.WGState }

func (w *WaitGroup) Add(n int) { w.st.Add(n) }
func (w *WaitGroup) Done()     { w.st.Add(-1) }
func (w *WaitGroup) Wait()     { w.st.Wait() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	zsim.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct{ st zsim.OnceState }

func (o *Once) Do(f func()) { o.st.Do(f) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type Cond struct {
	L  Locker
	st zsim.CondState
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait()        { c.st.Wait(c.L.Unlock, c.L.Lock) }
func (c *Cond) Signal()      { c.st.Signal() }
func (c *Cond) Broadcast()   { c.st.Broadcast() }

// Pool hands out what was put back, most recent first, so that anything that
// is used after it was put back is seen by the next user. Sometimes it drops
// values like the garbage collector does.
type Pool struct {
	New func() any

	own zsim.Owner
	st  []poolItem
}

type poolItem struct {
	v    any
	sync *byte
}

func (p *Pool) Get() any {
	if !zsim.Idle() && !zsim.Killed() {
		zsim.YS()
		if p.own.Stale() {
			p.st = nil
		}
		if n := len(p.st); n > 0 {
			it := p.st[n-1]
			p.st = p.st[:n-1]
			zsim.Acquire(it.sync)
			return it.v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil || zsim.Idle() || zsim.Killed() {
		return
	}
	zsim.YS()
	if p.own.Stale() {
		p.st = nil
	}
	if zsim.Chance(zsim.StPool, 0.02) {
		return
	}
	it := poolItem{v, new(byte)}
	zsim.Release(it.sync)
	p.st = append(p.st, it)
	zsim.YS()
}

// Map is sync.Map: every operation is one atomic step. Range visits keys in
// an order decided by the simulator, without a snapshot.
type Map struct {
	m    map[any]*mapEnt
	ents []*mapEnt
	sync byte
}

type mapEnt struct {
	k, v any
	del  bool
	sync byte
}

func (m *Map) do(fn func()) {
	zsim.YS()
	if zsim.Idle() {
		fn()
		return
	}
	zsim.S.OnSched(fn)
}

func (m *Map) find(k any) *mapEnt {
	if m.m == nil {
		return nil
	}
	return m.m[k]
}

func (m *Map) Load(key any) (value any, ok bool) {
	var e *mapEnt
	m.do(func() {
		if e = m.find(key); e != nil {
			value, ok = e.v, true
		}
	})
	if e != nil {
		zsim.Acquire(&e.sync)
	}
	return
}

func (m *Map) put(key, value any) *mapEnt {
	if m.m == nil {
		m.m = map[any]*mapEnt{}
	}
	e := &mapEnt{k: key, v: value}
	m.m[key] = e
	m.ents = append(m.ents, e)
	return e
}

func (m *Map) Store(key, value any) { m.Swap(key, value) }

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	sync := new(byte)
	_ = sync
	var e *mapEnt
	zsim.YS()
	zsim.ReleaseMerge(&m.sync)
	m.do(func() {
		e = m.find(key)
		if e != nil {
			previous, loaded = e.v, true
			e.v = value
			return
		}
		e = m.put(key, value)
	})
	zsim.Acquire(&e.sync)
	zsim.ReleaseMerge(&e.sync)
	return
}

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	var e *mapEnt
	m.do(func() {
		if e = m.find(key); e != nil {
			actual, loaded = e.v, true
			return
		}
		e = m.put(key, value)
		actual = value
	})
	zsim.Acquire(&e.sync)
	if !loaded {
		zsim.ReleaseMerge(&e.sync)
	}
	return
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	var e *mapEnt
	m.do(func() {
		if e = m.find(key); e != nil {
			value, loaded = e.v, true
			e.del = true
			delete(m.m, key)
			for i, x := range m.ents {
				if x == e {
					m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
					break
				}
			}
		}
	})
	if e != nil {
		zsim.Acquire(&e.sync)
	}
	return
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) CompareAndSwap(key, old, new any) (swapped bool) {
	var e *mapEnt
	m.do(func() {
		if e = m.find(key); e != nil && e.v == old {
			e.v = new
			swapped = true
		}
	})
	if e != nil {
		zsim.Acquire(&e.sync)
		if swapped {
			zsim.ReleaseMerge(&e.sync)
		}
	}
	return
}

func (m *Map) CompareAndDelete(key, old any) (deleted bool) {
	m.do(func() {
		if e := m.find(key); e != nil && e.v == old {
			e.del = true
			deleted = true
			delete(m.m, key)
			for i, x := range m.ents {
				if x == e {
					m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
					break
				}
			}
		}
	})
	return
}

func (m *Map) Clear() {
	m.do(func() {
		for _, e := range m.ents {
			e.del = true
		}
		m.m, m.ents = nil, nil
	})
}

func (m *Map) Range(f func(key, value any) bool) {
	var l []zsim.Ent[string, *mapEnt]
	m.do(func() {
		idx := map[string]*mapEnt{}
		for i, e := range m.ents {
			ks, ok := e.k.(string)
			if !ok {
				ks = fmt.Sprintf("\x00%08d", i)
			}
			idx[ks] = e
		}
		l = zsim.MapEnts(idx)
	})
	for _, x := range l {
		e, _ := x.Get()
		var k, v any
		del := false
		m.do(func() { k, v, del = e.k, e.v, e.del })
		if del {
			continue
		}
		zsim.Acquire(&e.sync)
		if !f(k, v) {
			return
		}
	}
}
