package zsim

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Channels keep their real types; their state lives in a side table keyed by
// the identity of the channel.

type elem struct {
	v    interface{}
	sync byte
}

type chanWaiter struct {
	t    *Task
	seq  uint64
	sel  *selState
	idx  int
	e    *elem // value to send, or slot for the received value
	ok   bool
	rel  byte
	done bool
}

type selState struct{ fired bool }

func (w *chanWaiter) live() bool {
	return !w.done && w.t.state == tsBlocked && w.t.seq == w.seq && !w.t.P.Dead && (w.sel == nil || !w.sel.fired)
}

type chanState struct {
	key    uintptr
	ref    interface{} // keeps the channel alive so that its identity is not reused
	cap    int
	buf    []*elem
	recvq  []*chanWaiter
	sendq  []*chanWaiter
	closed bool
	free   byte // happens-before from receives to later sends
	clsync byte
}

// open addressing table without Go maps: map accesses are always visible to
// the race detector.
var chTab []*chanState
var chCount int

func resetTables() {
	conds = nil
	chTab = make([]*chanState, 64)
	chCount = 0
}

func chHash(k uintptr) uintptr { k ^= k >> 15; k *= 0x9e3779b1; return k ^ k>>13 }

func chanOf(key uintptr, cap int, ref interface{}) *chanState {
	m := uintptr(len(chTab) - 1)
	i := chHash(key) & m
	for chTab[i] != nil {
		if chTab[i].key == key {
			return chTab[i]
		}
		i = (i + 1) & m
	}
	st := &chanState{key: key, ref: ref, cap: cap}
	chTab[i] = st
	chCount++
	if chCount*2 > len(chTab) {
		old := chTab
		chTab = make([]*chanState, 2*len(old))
		m := uintptr(len(chTab) - 1)
		for _, x := range old {
			if x == nil {
				continue
			}
			j := chHash(x.key) & m
			for chTab[j] != nil {
				j = (j + 1) & m
			}
			chTab[j] = x
		}
	}
	return st
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

func popLive(q *[]*chanWaiter) *chanWaiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.live() {
			return w
		}
	}
	return nil
}

func hasLive(q *[]*chanWaiter) bool {
	for len(*q) > 0 {
		if (*q)[0].live() {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func (w *chanWaiter) fire() {
	w.done = true
	if w.sel != nil {
		w.sel.fired = true
	}
	S.Unpark(w.t, w.idx)
}

// trySend attempts a send that does not block.
func (st *chanState) trySend(v interface{}) bool {
	if st.closed {
		panic(plainError("send on closed channel"))
	}
	if w := popLive(&st.recvq); w != nil {
		raceAcquire(unsafe.Pointer(&w.rel))
		w.e.v = v
		w.ok = true
		raceRelease(unsafe.Pointer(&w.e.sync))
		w.fire()
		return true
	}
	if len(st.buf) < st.cap {
		raceAcquire(unsafe.Pointer(&st.free))
		e := &elem{v: v}
		raceRelease(unsafe.Pointer(&e.sync))
		st.buf = append(st.buf, e)
		return true
	}
	return false
}

func (st *chanState) canSend() bool {
	return st.closed || len(st.buf) < st.cap || hasLive(&st.recvq)
}

func (st *chanState) canRecv() bool {
	return len(st.buf) > 0 || st.closed || hasLive(&st.sendq)
}

// tryRecv attempts a receive that does not block.
func (st *chanState) tryRecv() (v interface{}, ok, done bool) {
	if len(st.buf) > 0 {
		e := st.buf[0]
		st.buf = st.buf[1:]
		raceAcquire(unsafe.Pointer(&e.sync))
		raceReleaseMerge(unsafe.Pointer(&st.free))
		if w := popLive(&st.sendq); w != nil {
			st.buf = append(st.buf, w.e)
			w.ok = true
			w.fire()
		}
		return e.v, true, true
	}
	if w := popLive(&st.sendq); w != nil {
		raceAcquire(unsafe.Pointer(&w.e.sync))
		raceRelease(unsafe.Pointer(&w.rel))
		w.ok = true
		w.fire()
		return w.e.v, true, true
	}
	if st.closed {
		raceAcquire(unsafe.Pointer(&st.clsync))
		return nil, false, true
	}
	return nil, false, false
}

//go:noinline
func sendCore(key uintptr, cap int, ref interface{}, v interface{}) {
	YS()
	s := S
	if s == nil || s.cur == nil {
		panic("zsim: channel operation outside of the simulation")
	}
	if s.cur.killed {
		return
	}
	if key == 0 {
		for {
			s.Park("send on nil channel")
		}
	}
	st := chanOf(key, cap, ref)
	if st.trySend(v) {
		return
	}
	w := &chanWaiter{t: s.cur, seq: s.cur.seq + 1, e: &elem{v: v}}
	raceRelease(unsafe.Pointer(&w.e.sync))
	st.sendq = append(st.sendq, w)
	s.Park("chan send")
	if s.cur.killed {
		return
	}
	if !w.ok {
		panic(plainError("send on closed channel"))
	}
	raceAcquire(unsafe.Pointer(&w.rel))
}

//go:noinline
func recvCore(key uintptr, cap int, ref interface{}) (interface{}, bool) {
	YS()
	s := S
	if s == nil || s.cur == nil {
		panic("zsim: channel operation outside of the simulation")
	}
	if s.cur.killed {
		return nil, false
	}
	if key == 0 {
		for {
			s.Park("receive on nil channel")
		}
	}
	st := chanOf(key, cap, ref)
	if v, ok, done := st.tryRecv(); done {
		return v, ok
	}
	w := &chanWaiter{t: s.cur, seq: s.cur.seq + 1, e: &elem{}}
	raceRelease(unsafe.Pointer(&w.rel))
	st.recvq = append(st.recvq, w)
	s.Park("chan receive")
	if s.cur.killed {
		return nil, false
	}
	if w.ok {
		raceAcquire(unsafe.Pointer(&w.e.sync))
	} else {
		raceAcquire(unsafe.Pointer(&st.clsync))
	}
	return w.e.v, w.ok
}

//go:noinline
func closeCore(key uintptr, cap int, ref interface{}) {
	YS()
	s := S
	if s == nil || s.cur == nil {
		panic("zsim: channel operation outside of the simulation")
	}
	if s.cur.killed {
		return
	}
	closeNow(key, cap, ref)
}

// closeNow closes without an interleaving point (also usable on the scheduler).
func closeNow(key uintptr, cap int, ref interface{}) {
	if key == 0 {
		panic(plainError("close of nil channel"))
	}
	st := chanOf(key, cap, ref)
	if st.closed {
		panic(plainError("close of closed channel"))
	}
	st.closed = true
	raceReleaseMerge(unsafe.Pointer(&st.clsync))
	for {
		w := popLive(&st.recvq)
		if w == nil {
			break
		}
		w.ok = false
		w.fire()
	}
	for {
		w := popLive(&st.sendq)
		if w == nil {
			break
		}
		w.ok = false
		w.fire()
	}
}

func chKey[T any](ch <-chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := recvCore(chKey(ch), cap(ch), ch)
	t, _ := v.(T)
	return t
}

// Recv2 is the two valued receive.
func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := recvCore(chKey(ch), cap(ch), ch)
	t, _ := v.(T)
	return t, ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	closeCore(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch)
}

// CloseNow closes without an interleaving point.
func CloseNow[T any](ch chan<- T) {
	closeNow(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch)
}

// TrySendNow sends without blocking and without an interleaving point.
func TrySendNow[T any](ch chan<- T, v T) bool {
	st := chanOf(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch)
	if st.closed {
		return false
	}
	return st.trySend(v)
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	k := chKey(ch)
	if k == 0 || S == nil {
		return 0
	}
	return len(chanOf(k, cap(ch), ch).buf)
}

type sender[T any] struct{ ch chan<- T }

// SendTo starts a send statement.
func SendTo[T any](ch chan<- T) sender[T] { return sender[T]{ch} }

// Do is ch <- v.
func (x sender[T]) Do(v T) {
	sendCore(*(*uintptr)(unsafe.Pointer(&x.ch)), cap(x.ch), x.ch, v)
}

type caseCore struct {
	key  uintptr
	cap  int
	ref  interface{}
	send bool
	v    interface{}
	ok   bool
}

// Case is one case of a select statement.
type Case interface {
	core() *caseCore
	fin()
}

type RecvC[T any] struct {
	Val T
	Ok  bool
	c   caseCore
}

func (r *RecvC[T]) core() *caseCore { return &r.c }
func (r *RecvC[T]) fin()            { r.Val, _ = r.c.v.(T); r.Ok = r.c.ok }

type SendC struct{ c caseCore }

func (r *SendC) core() *caseCore { return &r.c }
func (r *SendC) fin()            {}

// RecvCase builds a receive case.
func RecvCase[T any](ch <-chan T) *RecvC[T] {
	return &RecvC[T]{c: caseCore{key: chKey(ch), cap: cap(ch), ref: ch}}
}

// Case builds a send case.
func (x sender[T]) Case(v T) *SendC {
	return &SendC{c: caseCore{key: *(*uintptr)(unsafe.Pointer(&x.ch)), cap: cap(x.ch), ref: x.ch, send: true, v: v}}
}

// Select performs a select statement and returns the index of the chosen
// case, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	YS()
	s := S
	if s == nil || s.cur == nil {
		panic("zsim: select outside of the simulation")
	}
	if s.cur.killed {
		if hasDefault || len(cases) == 0 {
			return -1
		}
		return 0
	}
	var ready []int
	for i, c := range cases {
		k := c.core()
		if k.key == 0 {
			continue
		}
		st := chanOf(k.key, k.cap, k.ref)
		if k.send && st.canSend() || !k.send && st.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[Choice(StSel, len(ready))]
		k := cases[i].core()
		st := chanOf(k.key, k.cap, k.ref)
		if k.send {
			if !st.trySend(k.v) {
				panic("zsim: ready send failed")
			}
		} else {
			v, ok, done := st.tryRecv()
			if !done {
				panic("zsim: ready receive failed")
			}
			k.v, k.ok = v, ok
		}
		cases[i].fin()
		return i
	}
	if hasDefault {
		return -1
	}
	sel := &selState{}
	ws := make([]*chanWaiter, len(cases))
	for i, c := range cases {
		k := c.core()
		if k.key == 0 {
			continue
		}
		st := chanOf(k.key, k.cap, k.ref)
		w := &chanWaiter{t: s.cur, seq: s.cur.seq + 1, sel: sel, idx: i, e: &elem{}}
		ws[i] = w
		if k.send {
			w.e.v = k.v
			raceRelease(unsafe.Pointer(&w.e.sync))
			st.sendq = append(st.sendq, w)
		} else {
			raceRelease(unsafe.Pointer(&w.rel))
			st.recvq = append(st.recvq, w)
		}
	}
	i := s.Park("select")
	if s.cur.killed {
		return 0
	}
	k := cases[i].core()
	w := ws[i]
	if k.send {
		if !w.ok {
			panic(plainError("send on closed channel"))
		}
		raceAcquire(unsafe.Pointer(&w.rel))
	} else {
		if w.ok {
			raceAcquire(unsafe.Pointer(&w.e.sync))
		} else {
			raceAcquire(unsafe.Pointer(&chanOf(k.key, k.cap, k.ref).clsync))
		}
		k.v, k.ok = w.e.v, w.ok
	}
	cases[i].fin()
	return i
}

// Block is select {}.
func Block() {
	S.Park("select {}")
	if S.cur.killed {
		goexit()
	}
}

// ---------------------------------------------------------------------------
// map iteration

// Ent is one key of a map being iterated.
type Ent[K comparable, V any] struct {
	K K
	m map[K]V
}

// Get returns the current value; ok is false if the key was removed.
func (e Ent[K, V]) Get() (V, bool) { v, ok := e.m[e.K]; return v, ok }

// MapEnts lists the keys of the map in an order decided by the simulator.
func MapEnts[K comparable, V any](m map[K]V) []Ent[K, V] {
	out := make([]Ent[K, V], 0, len(m))
	for k := range m {
		out = append(out, Ent[K, V]{k, m})
	}
	if len(out) < 2 {
		return out
	}
	if _, ok := any(out[0].K).(string); ok {
		sort.Slice(out, func(i, j int) bool { return any(out[i].K).(string) < any(out[j].K).(string) })
	} else {
		sort.Slice(out, func(i, j int) bool { return lessAny(out[i].K, out[j].K) })
	}
	// any order is legal: rotate and maybe reverse
	if c := Choice(StMap, 2*len(out)); c != 0 {
		n := len(out)
		rot := c % n
		out = append(out[rot:len(out):len(out)], out[:rot]...)
		if c >= n {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func lessAny(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return va.Int() < vb.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return va.Uint() < vb.Uint()
	case reflect.Float32, reflect.Float64:
		return va.Float() < vb.Float()
	case reflect.String:
		return va.String() < vb.String()
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// DrainNow discards buffered values without an interleaving point.
func DrainNow[T any](ch chan T) {
	st := chanOf(*(*uintptr)(unsafe.Pointer(&ch)), cap(ch), ch)
	st.buf = nil
}
