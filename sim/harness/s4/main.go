// S4: the graphite listener, its connections and the writer behind it.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/harness/lib"
	"github.com/vivint/rothko/internal/zsim/zcontext"
	"github.com/vivint/rothko/listener/graphite"
)

// Chunk is one write of a client.
type Chunk struct {
	Lines []string `json:"lines,omitempty"` // each with its terminator, if any
	Pad   int      `json:"pad,omitempty"`   // lengthen the name of the first line to make it so long (terminator included)
	Bin   []byte   `json:"bin,omitempty"`
	Sleep int64    `json:"sleep,omitempty"` // before
	Split int      `json:"split,omitempty"` // write in pieces of so many bytes
}

type Client struct {
	At     int64    `json:"at"`
	Chunks []*Chunk `json:"chunks"`
	End    string   `json:"end"` // close half reset stay
	Lag    int64    `json:"lag,omitempty"`
}

type Round struct {
	Clients []*Client `json:"clients"`
	Cancel  int64     `json:"cancel"` // 0: when everything has come to rest
	Before  bool      `json:"before,omitempty"`
	NoFD    []int64   `json:"nofd,omitempty"`  // pauses before the next accept lacks a descriptor
	Clash   bool      `json:"clash,omitempty"` // a second listener on the same address
}

type Plan struct {
	Rounds []*Round `json:"rounds"`
	Frag   float64  `json:"frag"`
	Short  float64  `json:"short"`
	Delay  int64    `json:"delay"`
	Window int      `json:"window"`
}

type scen struct{}

func (scen) Name() string     { return "s4" }
func (scen) New() interface{} { return &Plan{} }

func main() {
	lib.Register(scen{})
	lib.Main()
}

var nameParts = []string{"a", "b", "web", "cpu", "héllo", "x/y", "..", "*", "a:b", "\t", "-", "0", "1.5", "\x00", "%"}

func (scen) Gen(r *lib.Rand, prop string, deep bool) interface{} {
	p := &Plan{Frag: []float64{0, 0.3, 0.8}[r.N(3)], Short: []float64{0, 0.2, 0.6}[r.N(3)], Delay: []int64{0, 1000, 2000000}[r.N(3)], Window: []int{16, 256, 65536, 65536}[r.N(4)]}
	maxC, maxL := 5, 8
	if deep {
		maxC, maxL = 10, 30
	}
	n := 0
	val := func() string {
		n++
		switch r.Pick(10, 4, 3, 1, 1) {
		case 0:
			return strconv.Itoa(n)
		case 1:
			return fmt.Sprintf("%d.%d", n, r.N(1000))
		case 2:
			return fmt.Sprintf("-%d", n)
		case 3:
			return fmt.Sprintf("%de%d", n, r.Range(-30, 30))
		}
		return fmt.Sprintf("+%d.", n)
	}
	nm := func() string {
		switch r.Pick(5, 2, 1) {
		case 0:
			return "m" + strconv.Itoa(r.N(4))
		case 1:
			return fmt.Sprintf("web.host%d.cpu", r.N(3))
		}
		var l []string
		for i := r.Range(1, 4); i > 0; i-- {
			l = append(l, nameParts[r.N(len(nameParts))])
		}
		return strings.Join(l, ".")
	}
	pbad := []float64{0, 0.1, 0.4}[r.N(3)]
	line := func() string {
		end := "\n"
		if r.P(0.1) {
			end = "\r\n"
		}
		if r.P(pbad) {
			switch r.N(12) {
			case 0:
				return end
			case 1:
				return nm() + end
			case 2:
				return nm() + " " + val() + end
			case 3:
				return nm() + " " + val() + " 1 2" + end
			case 4:
				return nm() + "  " + val() + " 1" + end
			case 5:
				return nm() + " x" + val() + " 1" + end
			case 6:
				return nm() + " " + val() + "x 1" + end
			case 7:
				return nm() + " 1e999 1" + end
			case 8:
				return nm() + " NaN 1" + end
			case 9:
				return nm() + "\t" + val() + "\t1" + end
			case 10:
				return " " + end
			default:
				return nm() + " " + val() + " 0 " + end
			}
		}
		ts := strconv.Itoa(r.N(2000000000))
		if r.P(0.1) {
			ts = r.OfS("-1", "", "now", "0.5")
		}
		return nm() + " " + val() + " " + ts + end
	}
	for k := r.Pick(3, 1) + 1; k > 0; k-- {
		rd := &Round{Clash: r.P(0.1)}
		if r.P(0.5) {
			rd.Cancel = int64(r.Log(8000000))
		}
		if r.P(0.03) {
			rd.Before = true
		}
		if r.P(0.15) {
			for i := r.Range(1, 5); i > 0; i-- {
				rd.NoFD = append(rd.NoFD, int64(r.Log(3000000))*int64(r.N(2)))
			}
		}
		for c := r.Range(1, maxC); c > 0; c-- {
			cl := &Client{At: int64(r.Log(3000000)), End: r.OfS("close", "half", "half", "reset", "stay", "close")}
			if r.P(0.4) {
				cl.Lag = int64(r.Log(3000000))
				if r.P(0.1) {
					cl.Lag = int64(r.Log(int(2 * time.Hour)))
				}
			}
			for i := r.Range(0, maxL); i > 0; i-- {
				ch := &Chunk{}
				for j := r.Range(1, 3); j > 0; j-- {
					ch.Lines = append(ch.Lines, line())
				}
				if r.P(0.3) {
					ch.Sleep = int64(r.Log(2000000))
					if r.P(0.1) {
						ch.Sleep = int64(r.Log(int(2 * time.Hour)))
					}
				}
				if r.P(0.15) {
					ch.Split = r.Range(1, 9)
				}
				if r.P(0.01) {
					ch.Lines = []string{nm() + " " + val() + " 1\n"}
					ch.Pad = r.Of(4095, 4096, 4097, 65534, 65535, 65536, 66000, 140000, 8192)
					ch.Split = 0
				}
				if r.P(0.02) {
					b := make([]byte, r.Range(1, 40))
					for x := range b {
						b[x] = byte(r.N(256))
						if r.P(0.2) {
							b[x] = " \n.1"[r.N(4)]
						}
					}
					ch.Bin = append(b, '\n')
				}
				cl.Chunks = append(cl.Chunks, ch)
			}
			if len(cl.Chunks) > 0 && r.P(0.3) {
				ch := cl.Chunks[len(cl.Chunks)-1]
				ch.Lines = append(ch.Lines, strings.TrimRight(line(), "\r\n"))
			}
			rd.Clients = append(rd.Clients, cl)
		}
		p.Rounds = append(p.Rounds, rd)
	}
	return p
}

func (scen) Shrink(pl interface{}) (out []interface{}) {
	p := pl.(*Plan)
	cp := func() *Plan {
		q := *p
		q.Rounds = nil
		for _, rd := range p.Rounds {
			c := *rd
			c.Clients = nil
			for _, cl := range rd.Clients {
				x := *cl
				x.Chunks = nil
				for _, ch := range cl.Chunks {
					y := *ch
					y.Lines = append([]string(nil), ch.Lines...)
					x.Chunks = append(x.Chunks, &y)
				}
				c.Clients = append(c.Clients, &x)
			}
			q.Rounds = append(q.Rounds, &c)
		}
		return &q
	}
	for i := range p.Rounds {
		if len(p.Rounds) > 1 {
			q := cp()
			q.Rounds = append(q.Rounds[:i], q.Rounds[i+1:]...)
			out = append(out, q)
		}
	}
	for i, rd := range p.Rounds {
		if len(rd.NoFD) > 0 {
			q := cp()
			q.Rounds[i].NoFD = rd.NoFD[1:]
			out = append(out, q)
		}
		for j := range rd.Clients {
			q := cp()
			q.Rounds[i].Clients = append(q.Rounds[i].Clients[:j], q.Rounds[i].Clients[j+1:]...)
			out = append(out, q)
		}
	}
	for i, rd := range p.Rounds {
		for j, cl := range rd.Clients {
			for k, ch := range cl.Chunks {
				q := cp()
				c := q.Rounds[i].Clients[j]
				c.Chunks = append(c.Chunks[:k], c.Chunks[k+1:]...)
				out = append(out, q)
				for l := range ch.Lines {
					q := cp()
					c := q.Rounds[i].Clients[j].Chunks[k]
					c.Lines = append(c.Lines[:l], c.Lines[l+1:]...)
					out = append(out, q)
				}
			}
		}
	}
	if p.Frag != 0 || p.Short != 0 || p.Delay != 0 {
		q := cp()
		q.Frag, q.Short, q.Delay = 0, 0, 0
		out = append(out, q)
	}
	return
}

// ---- a distribution that keeps every value

type listParams struct{}
type listDist struct{ vals []float64 }

var errNo = errors.New("not supported")

func (listParams) Kind() string                          { return "list" }
func (listParams) New() (dist.Dist, error)               { return &listDist{}, nil }
func (listParams) Unmarshal(b []byte) (dist.Dist, error) { return nil, errNo }
func (d *listDist) Kind() string                         { return "list" }
func (d *listDist) Query(x float64) float64              { return 0 }
func (d *listDist) CDF(x float64) float64                { return 0 }
func (d *listDist) Len() int64                           { return int64(len(d.vals)) }
func (d *listDist) Observe(v float64)                    { d.vals = append(d.vals, v) }
func (d *listDist) Marshal(buf []byte) []byte {
	for _, v := range d.vals {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], math.Float64bits(v))
		buf = append(buf, b[:]...)
	}
	return buf
}

// ---- run

type client struct {
	plan   *Client
	conn   *zsim.Conn // our end
	sent   int
	data   []byte
	failed bool // a write failed
	done   bool
	closed bool // ended in an orderly way
	reset  bool
}

type world struct {
	s       *zsim.Sim
	prop    string
	plan    *Plan
	clients []*client
	wr      *data.Writer
}

func (w *world) fail(kind, f string, args ...interface{}) {
	lib.Fail(w.prop, []string{"C14"}, kind, f, args...)
}

const addr = ":2003"

func (c *Chunk) bytes() []byte {
	var b bytes.Buffer
	for i, l := range c.Lines {
		if i == 0 && len(l) < c.Pad {
			b.WriteString(strings.Repeat("n", c.Pad-len(l)))
		}
		b.WriteString(l)
	}
	b.Write(c.Bin)
	return b.Bytes()
}

func (scen) Run(s *zsim.Sim, prop string, pl interface{}) {
	w := &world{s: s, prop: prop, plan: pl.(*Plan)}
	p := w.plan
	s.Net.PFrag, s.Net.PShort, s.Net.MaxDelay = p.Frag, p.Short, time.Duration(p.Delay)
	if p.Window > 0 {
		s.Net.Window = p.Window
	}
	proc := s.NewProc("server")
	w.wr = data.NewWriter(listParams{})
	s.GoIn(proc, "main", func() {
		l := graphite.New(addr)
		for _, rd := range p.Rounds {
			w.round(proc, l, rd)
		}
		w.check(true)
		zsim.ExitProcess(0)
	})
	if !s.WaitDeath(proc, 2400*time.Hour) {
		w.fail("hang", "the listener is stuck\n%s", s.Blocked())
		return
	}
	if proc.Crashed != "" {
		w.fail("panic", "the process died: %s\n%s", proc.Crashed, proc.Stack)
		return
	}
	h := fnv.New64a()
	for _, c := range w.clients {
		if c.conn != nil {
			h.Write(c.conn.Peer().Delivered)
			fmt.Fprintln(h, c.conn.Peer().ReadErr)
		}
	}
	lib.StateHash = h.Sum64()
}

func (w *world) round(proc *zsim.Proc, l *graphite.Listener, rd *Round) {
	s := w.s
	ctx, cancel := context.WithCancel(context.Background())
	if rd.Before {
		cancel()
	}
	base := proc.LiveTasks()
	var err error
	returned := false
	cancelled := rd.Before
	var wq zsim.WaitQ
	s.GoIn(proc, "listener", func() {
		err = l.Run(ctx, w.wr)
		returned = true
		if !cancelled {
			w.fail("stopped", "the listener returned (%v) although it was not told to stop", err)
		}
		wq.WakeAll(s)
	})
	ext := s.NewProc("clients")
	s.Net.AcceptFails = 0
	if len(rd.NoFD) > 0 {
		s.GoIn(ext, "descriptors", func() {
			for _, d := range rd.NoFD {
				s.Sleep(time.Duration(d))
				s.OnSched(func() { s.Net.AcceptFails++ })
			}
		})
	}
	left := len(rd.Clients)
	var mine []*client
	for i, cp := range rd.Clients {
		c := &client{plan: cp}
		mine = append(mine, c)
		w.clients = append(w.clients, c)
		s.GoIn(ext, fmt.Sprint("client", i), func() {
			w.client(c)
			left--
			wq.WakeAll(s)
		})
	}
	if rd.Cancel > 0 && !rd.Before {
		s.Sleep(time.Duration(rd.Cancel))
	} else {
		for !returned && s.Net.Listener(addr) == nil {
			s.Sleep(time.Microsecond)
		}
		if rd.Clash && !returned {
			zsim.Probe("second listener on the same address")
			if e := graphite.New(addr).Run(ctx, w.wr); e == nil && !cancelled {
				w.fail("no-error", "listening on an address in use reported no error")
			}
		}
		for left > 0 {
			wq.Wait(s, "clients")
		}
		s.Sleep(time.Second + time.Duration(len(rd.NoFD))*10*time.Second)
		s.WaitIdle()
		for i, c := range mine {
			if !rd.Before {
				w.progress(i, c)
			}
		}
		if !rd.Before {
			w.check(false)
		}
	}
	cancelled = true
	cancel()
	for !returned {
		wq.Wait(s, "listener to return")
	}
	w.check(true) // everything delivered is in the writer by now
	if err != nil && s.Net.Listener(addr) == nil && !rd.Before {
		w.fail("error-on-stop", "the listener returned an error after it was told to stop: %v", err)
	}
	if n := s.Net.OpenListeners(proc); n != 0 {
		w.fail("socket-left", "%d listening sockets are open after the listener has returned", n)
	}
	if n := s.Net.OpenConns(proc); n != 0 {
		w.fail("conns-left", "%d connections are open after the listener has returned", n)
	}
	if _, e := s.Net.Dial(addr); e == nil {
		w.fail("socket-left", "a connection was accepted after the listener has returned")
	}
	for n := 0; proc.LiveTasks() > base && n < 20; n++ {
		s.WaitIdle()
	}
	if n := proc.LiveTasks(); n > base {
		w.fail("tasks-left", "%d tasks are left after the listener has returned: %s", n-base, proc.TaskNames())
	}
	w.check(true)
	for left > 0 {
		wq.Wait(s, "clients after the stop")
	}
	s.Kill(ext)
}

func (w *world) client(c *client) {
	s := w.s
	s.Sleep(time.Duration(c.plan.At))
	for n := 0; c.conn == nil && n < 50; n++ {
		conn, err := s.Net.Dial(addr)
		if err == nil {
			c.conn = conn
			conn.Peer().KeepDeliv = true
			break
		}
		s.Sleep(100 * time.Microsecond)
	}
	if c.conn == nil {
		c.done = true
		return
	}
	for _, ch := range c.plan.Chunks {
		s.Sleep(time.Duration(ch.Sleep))
		b := ch.bytes()
		for len(b) > 0 {
			k := len(b)
			if ch.Split > 0 && k > ch.Split {
				k = ch.Split
			}
			n, err := c.conn.Write(b[:k])
			c.sent += n
			c.data = append(c.data, b[:n]...)
			b = b[n:]
			if err != nil {
				c.failed = true
				c.done = true
				return
			}
		}
	}
	s.Sleep(time.Duration(c.plan.Lag))
	switch c.plan.End {
	case "close":
		c.closed = true
		c.conn.Close()
	case "half":
		c.closed = true
		c.conn.CloseWrite()
	case "reset":
		c.reset = true
		c.conn.Reset()
	}
	c.done = true
}

// overlong reports whether the stream contains a line of more than 64 KiB,
// and where the first one starts.
func overlong(b []byte) (at int, ok bool) {
	for {
		i := bytes.IndexByte(b[at:], '\n')
		n := i + 1
		if i < 0 {
			n = len(b) - at + 1
		}
		if n > 65536 {
			return at, true
		}
		if i < 0 {
			return 0, false
		}
		at += n
	}
}

// progress checks that everything a healthy connection sent has been read.
func (w *world) progress(i int, c *client) {
	if c.conn == nil {
		w.fail("refused", "connection %d was refused by a running listener", i)
		return
	}
	if c.reset {
		return
	}
	if _, ok := overlong(c.data); ok {
		return
	}
	if c.failed {
		w.fail("dropped", "connection %d was dropped by the listener after %d bytes", i, c.sent)
		return
	}
	if n := len(c.conn.Peer().Delivered); n != c.sent {
		w.fail("not-read", "connection %d sent %d bytes but only %d were read", i, c.sent, n)
		return
	}
	if c.plan.End == "half" && !c.conn.Peer().Closed {
		w.fail("not-closed", "connection %d has ended but the listener keeps it open", i)
	}
	if c.plan.End == "stay" && c.conn.Peer().Closed {
		w.fail("dropped", "connection %d was closed by the listener although it had not ended", i)
	}
}

type want struct {
	must, may int
}

func parse(line []byte) (name string, v float64, ok bool) {
	line = bytes.TrimSuffix(line, []byte("\r"))
	f := bytes.Split(line, []byte(" "))
	if len(f) != 3 {
		return
	}
	v, err := strconv.ParseFloat(string(f[1]), 64)
	if err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
		return
	}
	return string(f[0]), v, true
}

type key struct {
	name string
	v    float64
}

// check compares what the writer holds with what the connections delivered.
func (w *world) check(final bool) {
	exp := map[key]*want{}
	var order []key
	put := func(line []byte, must bool) {
		n, v, ok := parse(line)
		if !ok {
			return
		}
		k := key{n, v}
		e := exp[k]
		if e == nil {
			e = &want{}
			exp[k] = e
			order = append(order, k)
		}
		e.may++
		if must && n != "" {
			e.must++
		}
	}
	for _, c := range w.clients {
		if c.conn == nil {
			continue
		}
		srv := c.conn.Peer()
		b := srv.Delivered
		limit := len(b)
		if at, ok := overlong(c.data); ok && at < limit {
			limit = at // what follows such a line may be given up
			zsim.Probe("overlong line")
		}
		at := 0
		for at < len(b) {
			i := bytes.IndexByte(b[at:], '\n')
			if i < 0 {
				break
			}
			put(b[at:at+i], at < limit)
			at += i + 1
		}
		if at < len(b) {
			// no terminator: part of a line, or a line that the end of the
			// connection has completed
			whole := srv.ReadErr == zsim.ErrEOF.Error() && len(b) == len(c.data) && at < limit && c.closed
			put(b[at:], whole)
			if whole {
				zsim.Probe("last line without terminator")
			}
		}
	}
	got := map[key]int{}
	bad := ""
	w.wr.Iterate(context.Background(), func(ctx context.Context, name string, rec data.Record) bool {
		for b := rec.Distribution; len(b) >= 8; b = b[8:] {
			k := key{name, math.Float64frombits(binary.BigEndian.Uint64(b))}
			got[k]++
			if exp[k] == nil {
				bad += fmt.Sprintf(" %q %v", short(k.name), k.v)
			}
		}
		return true
	})
	if bad != "" {
		w.fail("invented", "values were added that no connection sent:%s", bad)
		return
	}
	sort.Slice(order, func(i, j int) bool {
		if order[i].name != order[j].name {
			return order[i].name < order[j].name
		}
		return order[i].v < order[j].v
	})
	for _, k := range order {
		e := exp[k]
		switch {
		case got[k] < e.must:
			w.fail("lost", "%q %v was received %d times but added %d times (final=%v)", short(k.name), k.v, e.must, got[k], final)
			return
		case got[k] > e.may:
			w.fail("duplicated", "%q %v was received %d times but added %d times", short(k.name), k.v, e.may, got[k])
			return
		}
	}
}

func short(s string) string {
	if len(s) > 60 {
		return s[:20] + "..." + s[len(s)-20:]
	}
	return s
}
