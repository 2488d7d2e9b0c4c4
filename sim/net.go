package zsim

// net.go: the simulated network: reliable byte streams with fragmentation,
// delay, half close and resets, between any two tasks of the simulation.

import (
	"errors"
	"fmt"
	"sort"
	"time"
)

// Net is the network of the run.
type Net struct {
	lis      map[string]*Lis
	nextPort int
	Conns    []*Conn
	// behaviour
	PFrag       float64       // probability that a write is split
	MaxDelay    time.Duration // per segment
	PShort      float64       // probability that a read returns less than it could
	Window      int
	AcceptFails int // how many accepts fail for lack of a descriptor, -1: all
	ListenErr   func(addr string) error
}

func newNet() *Net {
	return &Net{lis: map[string]*Lis{}, nextPort: 40000, Window: 65536, PFrag: 0.3, MaxDelay: 2 * time.Millisecond, PShort: 0.2}
}

// Lis is a listening socket.
type Lis struct {
	Addr     string
	p        *Proc
	backlog  []*Conn
	q        WaitQ
	Closed   bool
	Accepted int
	Fail     error // what the next Accept returns
}

// Conn is one end of a connection.
type Conn struct {
	ID         int
	Local      string
	Remote     string
	p          *Proc
	peer       *Conn
	buf        []byte // arrived, not yet read
	inflight   int    // written by the peer, not yet arrived
	arriveAt   int64
	finSent    bool // by the peer, will arrive
	eof        bool // arrived
	reset      bool
	Closed     bool
	wrClosed   bool
	rq, wq     WaitQ
	rdl, wdl   int64  // absolute virtual deadlines, 0 none
	Delivered  []byte // everything Read handed out at this end
	KeepDeliv  bool
	OnPeerGone func()
	hb         byte
	ReadErr    string
	parked     bool
}

var (
	ErrReset   = errors.New("connection reset by peer")
	ErrPipe    = errors.New("broken pipe")
	ErrNClosed = errors.New("use of closed network connection")
	ErrTimeout = errors.New("i/o timeout")
	ErrRefused = errors.New("connection refused")
	ErrInUse   = errors.New("address already in use")
	ErrNoFD    = errors.New("too many open files")
	ErrEOF     = errors.New("EOF")
)

// HookProcNet closes the sockets of a process when it dies.
func (n *Net) adopt(p *Proc) {
	if p.ID == 0 {
		return
	}
	o := p.OS()
	if o.netHooked {
		return
	}
	o.netHooked = true
	p.OnDeath(func(p *Proc) {
		var names []string
		for a, l := range n.lis {
			if l.p == p {
				names = append(names, a)
			}
		}
		sort.Strings(names)
		for _, a := range names {
			l := n.lis[a]
			l.close(n)
		}
		for _, c := range n.Conns {
			if c.p == p && !c.Closed {
				c.close()
			}
		}
	})
}

func normAddr(a string) string {
	for i := len(a) - 1; i >= 0; i-- {
		if a[i] == ':' {
			return a[i:]
		}
	}
	return ":" + a
}

// Listen opens a listening socket.
func (n *Net) Listen(addr string) (l *Lis, err error) {
	YS()
	s := S
	if s.cur.killed {
		return nil, ErrNClosed
	}
	s.OnSched(func() {
		a := normAddr(addr)
		if n.ListenErr != nil {
			if err = n.ListenErr(a); err != nil {
				FaultHit("listen error")
				return
			}
		}
		if a == ":0" {
			n.nextPort++
			a = fmt.Sprintf(":%d", n.nextPort)
		}
		if n.lis[a] != nil {
			err = ErrInUse
			return
		}
		l = &Lis{Addr: a, p: s.cur.P}
		n.lis[a] = l
		n.adopt(s.cur.P)
		Tracef("listen %s", a)
	})
	return
}

// Listener returns the listening socket at the address.
func (n *Net) Listener(addr string) *Lis { return n.lis[normAddr(addr)] }

func (l *Lis) close(n *Net) {
	if l.Closed {
		return
	}
	l.Closed = true
	if n.lis[l.Addr] == l {
		delete(n.lis, l.Addr)
	}
	for _, c := range l.backlog {
		c.p = l.p
		c.doReset()
		c.Closed = true
	}
	l.backlog = nil
	l.q.WakeAll(S)
	Tracef("listener %s closed", l.Addr)
}

// Close closes the listening socket.
func (l *Lis) Close() (err error) {
	YS()
	if S.cur.killed {
		return nil
	}
	S.OnSched(func() {
		if l.Closed {
			err = ErrNClosed
			return
		}
		l.close(S.Net)
	})
	return
}

// FailAccept makes the next Accept return an error.
func (l *Lis) FailAccept(err error) {
	S.OnSched(func() {
		l.Fail = err
		l.q.WakeAll(S)
	})
}

// Accept waits for a connection.
func (l *Lis) Accept() (c *Conn, err error) {
	YS()
	for {
		if S.cur.killed {
			return nil, ErrNClosed
		}
		wait := false
		S.OnSched(func() {
			switch {
			case l.Closed:
				err = ErrNClosed
			case S.Net.AcceptFails != 0:
				if S.Net.AcceptFails > 0 {
					S.Net.AcceptFails--
				}
				err = ErrNoFD
				FaultHit("no descriptor for a connection")
			case l.Fail != nil:
				err, l.Fail = l.Fail, nil
				FaultHit("accept failed")
			case len(l.backlog) > 0:
				c = l.backlog[0]
				l.backlog = l.backlog[1:]
				c.p = S.cur.P
				l.Accepted++
				Tracef("accept conn %d", c.ID)
			default:
				wait = true
			}
		})
		if !wait {
			return
		}
		l.q.Wait(S, "accept")
	}
}

// Dial connects to a listening socket.
func (n *Net) Dial(addr string) (c *Conn, err error) {
	YS()
	s := S
	if s.cur.killed {
		return nil, ErrNClosed
	}
	s.OnSched(func() {
		l := n.lis[normAddr(addr)]
		if l == nil {
			err = ErrRefused
			return
		}
		id := len(n.Conns)
		c = &Conn{ID: id, Local: fmt.Sprintf("127.0.0.1:%d", 50000+id), Remote: "127.0.0.1" + l.Addr, p: s.cur.P}
		d := &Conn{ID: id, Local: "127.0.0.1" + l.Addr, Remote: c.Local, p: l.p, peer: c}
		c.peer = d
		n.Conns = append(n.Conns, c, d)
		n.adopt(s.cur.P)
		l.backlog = append(l.backlog, d)
		l.q.WakeOne(s)
		Tracef("dial conn %d", id)
	})
	return
}

// Peer returns the other end.
func (c *Conn) Peer() *Conn { return c.peer }

// Proc returns the owning process.
func (c *Conn) Proc() *Proc { return c.p }

func (c *Conn) doReset() {
	if c.Closed && c.peer.Closed {
		return
	}
	for _, x := range []*Conn{c, c.peer} {
		x.reset = true
		x.inflight = 0
		if Chance(StNet, 0.5) {
			x.buf = nil // a reset may discard what was not read yet
		}
		x.rq.WakeAll(S)
		x.wq.WakeAll(S)
		if x.OnPeerGone != nil {
			f := x.OnPeerGone
			x.OnPeerGone = nil
			f()
		}
	}
	Tracef("conn %d reset", c.ID)
}

// Reset breaks the connection abruptly.
func (c *Conn) Reset() {
	YS()
	if S.cur.killed {
		return
	}
	S.OnSched(func() {
		FaultHit("connection reset")
		c.doReset()
		c.Closed = true
	})
}

func (c *Conn) close() {
	c.Closed = true
	c.rq.WakeAll(S)
	c.wq.WakeAll(S)
	c.peer.wq.WakeAll(S)
	if len(c.buf) > 0 && !c.peer.Closed {
		c.doReset() // closing with unread data resets, as TCP does
		return
	}
	c.sendFin()
	Tracef("conn %d closed by %s", c.ID, c.p.Name)
}

func (c *Conn) sendFin() {
	if c.wrClosed {
		return
	}
	c.wrClosed = true
	p := c.peer
	if p.finSent || p.reset {
		return
	}
	p.finSent = true
	d := time.Duration(0)
	if p.arriveAt > S.Now {
		d = time.Duration(p.arriveAt - S.Now)
	}
	S.AddTimer(d, func() {
		p.eof = true
		p.rq.WakeAll(S)
		if p.OnPeerGone != nil {
			f := p.OnPeerGone
			p.OnPeerGone = nil
			f()
		}
	})
}

// Close closes this end.
func (c *Conn) Close() (err error) {
	YS()
	if S.cur.killed {
		return nil
	}
	S.OnSched(func() {
		if c.Closed {
			err = ErrNClosed
			return
		}
		c.close()
	})
	return
}

// CloseWrite sends a FIN.
func (c *Conn) CloseWrite() (err error) {
	YS()
	if S.cur.killed {
		return nil
	}
	S.OnSched(func() {
		if c.Closed {
			err = ErrNClosed
			return
		}
		c.sendFin()
	})
	return
}

// Read reads what has arrived.
func (c *Conn) Read(p []byte) (n int, err error) {
	YS()
	for {
		if S.cur.killed {
			return 0, ErrNClosed
		}
		wait := false
		var dl int64
		S.OnSched(func() {
			switch {
			case c.Closed:
				err = ErrNClosed
			case c.rdl != 0 && S.Now >= c.rdl:
				err = ErrTimeout
			case len(p) == 0:
			case len(c.buf) > 0:
				n = len(c.buf)
				if n > len(p) {
					n = len(p)
				}
				if n > 1 && Chance(StNet, S.Net.PShort) {
					FaultHit("short network read")
					n = 1 + Choice(StNet, n-1)
				}
				copy(p, c.buf[:n])
				if c.KeepDeliv {
					c.Delivered = append(c.Delivered, p[:n]...)
				}
				c.buf = c.buf[n:]
				c.peer.wq.WakeAll(S)
			case c.reset:
				err = ErrReset
			case c.eof:
				err = ErrEOF
			default:
				wait = true
				dl = c.rdl
			}
			if err != nil {
				c.ReadErr = err.Error()
			}
		})
		if !wait {
			Acquire(&c.hb)
			return
		}
		c.wait(&c.rq, "network read", dl)
	}
}

func (c *Conn) wait(q *WaitQ, why string, dl int64) {
	if dl == 0 {
		q.Wait(S, why)
		return
	}
	q.WaitTimeout(S, why, time.Duration(dl-S.Now))
}

// Write sends all of p.
func (c *Conn) Write(p []byte) (n int, err error) {
	YS()
	for {
		if S.cur.killed {
			return n, ErrNClosed
		}
		wait := false
		var dl int64
		S.OnSched(func() {
			switch {
			case c.Closed || c.wrClosed:
				err = ErrNClosed
			case c.reset:
				err = ErrReset
			case c.peer.Closed:
				// the peer answers with a reset
				err = ErrPipe
				c.reset = true
			case c.wdl != 0 && S.Now >= c.wdl:
				err = ErrTimeout
			case n == len(p):
			default:
				room := S.Net.Window - len(c.peer.buf) - c.peer.inflight
				if room <= 0 {
					wait = true
					dl = c.wdl
					return
				}
				k := len(p) - n
				if k > room {
					k = room
				}
				if k > 1 && Chance(StNet, S.Net.PFrag) {
					FaultHit("write split into segments")
					k = 1 + Choice(StNet, k-1)
				}
				c.peer.arrive(append([]byte(nil), p[n:n+k]...))
				n += k
				wait = n < len(p)
			}
		})
		if err != nil || n == len(p) {
			ReleaseMerge(&c.peer.hb)
			return
		}
		if wait && dl == 0 && S.Net.Window-len(c.peer.buf)-c.peer.inflight > 0 {
			YS()
			continue
		}
		c.wait(&c.wq, "network write", dl)
	}
}

// arrive delivers a segment after some delay, in order.
func (c *Conn) arrive(seg []byte) {
	at := S.Now
	if S.Net.MaxDelay > 0 {
		if Chance(StNet, 0.5) {
			FaultHit("segment delayed")
			at += int64(S.Net.MaxDelay) * int64(1+Choice(StNet, 16)) / 16
		}
	}
	if at < c.arriveAt {
		at = c.arriveAt
	}
	c.arriveAt = at
	if at == S.Now && c.inflight == 0 {
		c.buf = append(c.buf, seg...)
		c.rq.WakeAll(S)
		return
	}
	c.inflight += len(seg)
	S.AddTimer(time.Duration(at-S.Now), func() {
		if c.reset {
			return
		}
		c.inflight -= len(seg)
		if c.Closed {
			c.doReset() // data for a closed socket is answered with a reset
			return
		}
		c.buf = append(c.buf, seg...)
		c.rq.WakeAll(S)
	})
}

// SetDeadlines sets absolute virtual deadlines (0 none).
func (c *Conn) SetDeadlines(r, w int64, setR, setW bool) {
	if S.cur == nil || S.cur.killed {
		return
	}
	S.OnSched(func() {
		if setR {
			c.rdl = r
			c.rq.WakeAll(S)
		}
		if setW {
			c.wdl = w
			c.wq.WakeAll(S)
		}
	})
}

// Unread returns how many bytes have arrived or are in flight but were not
// read at this end.
func (c *Conn) Unread() int { return len(c.buf) + c.inflight }

// Gone reports whether this end can neither send nor receive any more.
func (c *Conn) Gone() bool { return c.Closed || c.reset }

// SetGone registers fn to run (on the scheduler) when the peer closes or
// resets the connection; it runs at once if that has happened.
func (c *Conn) SetGone(fn func()) {
	S.OnSched(func() {
		c.OnPeerGone = fn
		if fn != nil && (c.eof || c.reset) {
			c.OnPeerGone = nil
			fn()
		}
	})
}

// OpenConns counts the connections the process holds open.
func (n *Net) OpenConns(p *Proc) (k int) {
	for _, c := range n.Conns {
		if c.p == p && !c.Closed {
			k++
		}
	}
	return
}

// OpenListeners counts the listening sockets of the process.
func (n *Net) OpenListeners(p *Proc) (k int) {
	for _, l := range n.lis {
		if l.p == p {
			k++
		}
	}
	return
}

// ---------------------------------------------------------------------------
// signals

type sigHandler struct {
	p    *Proc
	key  uintptr
	sigs []int // empty: all
	send func(sig int)
}

type sigState struct{ hs []*sigHandler }

// SigNotify registers a handler.
func SigNotify(key uintptr, sigs []int, send func(sig int)) {
	YS()
	if S.cur.killed {
		return
	}
	S.OnSched(func() {
		S.Sig.hs = append(S.Sig.hs, &sigHandler{S.cur.P, key, sigs, send})
	})
}

// SigStop removes the handlers of a channel.
func SigStop(key uintptr) {
	YS()
	if S.cur.killed {
		return
	}
	S.OnSched(func() {
		var keep []*sigHandler
		for _, h := range S.Sig.hs {
			if h.key != key {
				keep = append(keep, h)
			}
		}
		S.Sig.hs = keep
	})
}

// Signal delivers a signal to a process. Without a handler the default action
// ends it.
func (s *Sim) Signal(p *Proc, sig int) (handled bool) {
	if p.Dead {
		return false
	}
	s.OnSched(func() {
		for _, h := range s.Sig.hs {
			if h.p != p || h.p.Dead {
				continue
			}
			ok := len(h.sigs) == 0
			for _, x := range h.sigs {
				ok = ok || x == sig
			}
			if ok {
				handled = true
				h.send(sig)
			}
		}
		Tracef("signal %d to %s handled=%v", sig, p.Name, handled)
	})
	if !handled {
		p.ExitCode = 128 + sig
		s.Kill(p)
	}
	return
}

// SigHandled reports whether the process handles the signal.
func (s *Sim) SigHandled(p *Proc, sig int) bool {
	for _, h := range s.Sig.hs {
		if h.p != p {
			continue
		}
		if len(h.sigs) == 0 {
			return true
		}
		for _, x := range h.sigs {
			if x == sig {
				return true
			}
		}
	}
	return false
}
