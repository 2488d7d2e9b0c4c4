// S3: the dumper between a writer and a database that fails, rejects and
// completes late.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dump"
	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/harness/lib"
	"github.com/vivint/rothko/internal/zsim/zcontext"
)

// Beh is how the database treats one value.
type Beh struct {
	K     string `json:"k"` // sync async refuse
	OK    bool   `json:"ok,omitempty"`
	Err   bool   `json:"err,omitempty"`
	Delay int64  `json:"delay,omitempty"` // before the callback
	Block int64  `json:"block,omitempty"` // before Queue returns
}

type Op struct {
	K      string `json:"k"` // add sleep dump start stop
	M      int    `json:"m,omitempty"`
	N      int    `json:"n,omitempty"`
	ID     int    `json:"id,omitempty"`
	D      int64  `json:"d,omitempty"`
	Cancel int64  `json:"cancel,omitempty"` // of a dump: cancel its context after so long, -1 before
}

type Plan struct {
	Period  int64   `json:"period"`
	Bufsize int     `json:"bufsize"`
	Metrics int     `json:"metrics"`
	Beh     []*Beh  `json:"beh"`
	Tasks   [][]*Op `json:"tasks"`
	Hard    bool    `json:"hard,omitempty"` // the runs of the dumper overlap
}

type scen struct{}

func (scen) Name() string     { return "s3" }
func (scen) New() interface{} { return &Plan{} }

func main() {
	lib.Register(scen{})
	lib.Main()
}

func (scen) Gen(r *lib.Rand, prop string, deep bool) interface{} {
	p := &Plan{Period: int64(r.Of(1000, 10000, 10000, 1000000, 1000000, 10000000000, 600000000000)), Bufsize: r.Of(0, 1, 16, 64, 100, 1024, 4096), Metrics: r.Range(1, 5)}
	slow := []int64{0, p.Period / 4, p.Period * 3}[r.N(3)]
	pf := []float64{0, 0.2, 1}[r.Pick(3, 3, 1)]
	for i := r.Range(1, 12); i > 0; i-- {
		b := &Beh{K: r.OfS("sync", "async", "async", "async"), OK: true}
		if slow > 0 && r.P(0.6) {
			b.Delay = int64(r.Log(int(slow)))
		}
		if slow > 0 && r.P(0.2) {
			b.Block = int64(r.Log(int(slow)))
		}
		if r.P(pf) {
			switch r.N(4) {
			case 0:
				b.K, b.OK = "refuse", false
			case 1:
				b.OK = false
			case 2:
				b.OK, b.Err = false, true
			case 3:
				b.Err = true
			}
		}
		p.Beh = append(p.Beh, b)
	}
	max := 20
	if deep {
		max = 60
	}
	n := r.Range(1, 3)
	for t := 0; t < n; t++ {
		var ops []*Op
		for i := r.Range(1, max); i > 0; i-- {
			switch r.Pick(10, 4, 1) {
			case 0:
				ops = append(ops, &Op{K: "add", M: r.N(p.Metrics), N: r.Range(1, 6), ID: r.Of(-1, 0, 5, 40, 200)})
			case 1:
				ops = append(ops, &Op{K: "sleep", D: int64(r.Log(int(p.Period * 2)))})
			case 2:
				o := &Op{K: "dump"}
				if r.P(0.25) {
					o.Cancel = int64(r.Log(int(p.Period)))
					if r.P(0.2) {
						o.Cancel = -1
					}
				}
				if r.P(0.5) {
					ops = append(ops, o)
				}
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	// the periodic dumper
	if r.P(0.85) {
		var ops []*Op
		for k := r.Range(1, 3); k > 0; k-- {
			ops = append(ops, &Op{K: "sleep", D: int64(r.Log(int(p.Period)))}, &Op{K: "start"}, &Op{K: "sleep", D: int64(r.Log(int(p.Period * 8)))}, &Op{K: "stop"})
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

func (scen) Shrink(pl interface{}) (out []interface{}) {
	p := pl.(*Plan)
	cp := func() *Plan {
		q := *p
		q.Tasks = append([][]*Op(nil), p.Tasks...)
		q.Beh = append([]*Beh(nil), p.Beh...)
		return &q
	}
	for i := range p.Tasks {
		q := cp()
		q.Tasks = append(append([][]*Op(nil), p.Tasks[:i]...), p.Tasks[i+1:]...)
		out = append(out, q)
	}
	for i, t := range p.Tasks {
		if len(t) > 0 && t[len(t)-1].K == "stop" {
			if len(t) > 4 {
				q := cp()
				q.Tasks[i] = t[4:]
				out = append(out, q)
				q = cp()
				q.Tasks[i] = t[:len(t)-4]
				out = append(out, q)
			}
			continue
		}
		for n := len(t) / 2; n >= 1; n /= 2 {
			for a := 0; a+n <= len(t); a += n {
				q := cp()
				q.Tasks[i] = append(append([]*Op(nil), t[:a]...), t[a+n:]...)
				out = append(out, q)
			}
		}
	}
	for i := range p.Beh {
		if len(p.Beh) > 1 {
			q := cp()
			q.Beh = append(q.Beh[:i], q.Beh[i+1:]...)
			out = append(out, q)
		}
	}
	return
}

// ---- a distribution that keeps every value

type listParams struct{}
type listDist struct{ vals []float64 }

var errNo = errors.New("not supported")

func (listParams) Kind() string                          { return "list" }
func (listParams) New() (dist.Dist, error)               { return &listDist{}, nil }
func (listParams) Unmarshal(b []byte) (dist.Dist, error) { return nil, errNo }
func (d *listDist) Kind() string                         { return "list" }
func (d *listDist) Query(x float64) float64              { return 0 }
func (d *listDist) CDF(x float64) float64                { return 0 }
func (d *listDist) Len() int64                           { return int64(len(d.vals)) }
func (d *listDist) Observe(v float64)                    { d.vals = append(d.vals, v) }
func (d *listDist) Marshal(buf []byte) []byte {
	for _, v := range d.vals {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], math.Float64bits(v))
		buf = append(buf, b[:]...)
	}
	return buf
}

// ---- the database

type call struct {
	n          int
	metric     string
	start, end int64
	data       []byte // the caller's
	copy       []byte // what it held
	run        *run   // nil: a direct dump
	dump       *direct
	inv, ret   int64
	at         int64 // virtual time
	cb0, cb1   int64 // callback called, returned
	refused    bool
}

func (c *call) done() bool { return c.cb1 != 0 || c.refused && c.ret != 0 }

type run struct {
	start, stop, ret int64
	startT, stopT    int64 // virtual time
	perM             map[string]int
	stopped          bool
	err              error
}

type direct struct {
	inv, ret  int64
	cancelled bool
}

type add struct {
	m        int
	v        float64
	id       string
	inv, ret int64
	at       int64
	clean    bool
	handed   *call
}

type dumpKey struct{}

type world struct {
	s       *zsim.Sim
	prop    string
	plan    *Plan
	proc    *zsim.Proc
	wr      *data.Writer
	d       *dump.Dumper
	calls   []*call
	runs    []*run
	cur     *run
	directs []*direct
	adds    []*add
	byV     map[float64]*add
	maxDump int64
	queuing int // calls of Queue that have not returned
}

func (w *world) fail(kind, f string, args ...interface{}) {
	lib.Fail(w.prop, []string{"C13"}, kind, f, args...)
}

func name(m int) string { return fmt.Sprintf("metric.%d", m) }

type simDB struct {
	database.DB
	w *world
}

var errRefused = errors.New("database: refused")
var errWrite = errors.New("database: write failed")

func (db simDB) Queue(ctx context.Context, metric string, start, end int64, buf []byte, cb func(bool, error)) error {
	w := db.w
	s := w.s
	w.queuing++
	defer func() { w.queuing-- }()
	c := &call{n: len(w.calls), metric: metric, start: start, end: end, data: buf, copy: append([]byte(nil), buf...), inv: s.Seq(), at: s.Now}
	w.calls = append(w.calls, c)
	if d, ok := ctx.Value(dumpKey{}).(*direct); ok {
		c.dump = d
		if d.ret != 0 {
			w.fail("late", "a value of %q was handed over after the dump had returned", metric)
		}
	} else {
		c.run = w.cur
		if w.cur == nil {
			w.fail("late", "a value of %q was handed over although neither a dump nor the dumper is running", metric)
			return nil
		}
	}
	if cb == nil {
		w.fail("no-callback", "a value of %q was handed over without a callback", metric)
		return nil
	}
	w.decode(c)
	if r := c.run; r != nil {
		r.perM[metric]++
		if el := s.Now - r.startT; int64(r.perM[metric]) > el/w.plan.Period {
			w.fail("too-often", "%q was dumped %d times by the dumper within %v, its period is %v", metric, r.perM[metric], time.Duration(el), time.Duration(w.plan.Period))
		}
		if r.stopped {
			// only a dump that was due before the stop
			if int64(r.perM[metric]) > (r.stopT-r.startT)/w.plan.Period {
				w.fail("dump-after-stop", "%q was dumped for a period that ended after the dumper had been stopped", metric)
			}
		}
		for _, x := range w.calls[:c.n] {
			if x.run == r && x.metric == metric && !x.done() {
				w.fail("not-awaited", "a dump began before the callback of %q of the dump before has run", metric)
			}
		}
	}
	for _, x := range w.calls[:c.n] {
		if !x.done() && x.cb0 == 0 && !x.refused {
			w.intact(x)
		}
	}
	b := w.plan.Beh[c.n%len(w.plan.Beh)]
	if b.Err || !b.OK {
		zsim.FaultHit("database " + b.K + " failure")
	}
	var err error
	if b.Err {
		err = errWrite
	}
	fin := func() {
		w.intact(c)
		c.cb0 = s.Seq()
		cb(b.OK, err)
		if zsim.Killed() {
			return
		}
		c.cb1 = s.Seq()
	}
	switch b.K {
	case "sync":
		s.Sleep(time.Duration(b.Delay))
		fin()
	case "async":
		s.GoIn(w.proc, "db", func() {
			s.Sleep(time.Duration(b.Delay))
			fin()
		})
	case "refuse":
		c.refused = true
		err = errRefused
	}
	s.Sleep(time.Duration(b.Block))
	zsim.Yield()
	c.ret = s.Seq()
	if b.K == "refuse" {
		return err
	}
	return nil
}

func (w *world) intact(c *call) {
	if !bytes.Equal(c.data, c.copy) {
		w.fail("overwritten", "the bytes of %q were changed before its callback has run", c.metric)
	}
}

func (w *world) decode(c *call) {
	var rec data.Record
	if err := rec.Unmarshal(c.copy); err != nil {
		w.fail("undecodable", "the bytes of %q do not decode: %v", c.metric, err)
		return
	}
	if rec.StartTime != c.start || rec.EndTime != c.end {
		w.fail("wrong-times", "%q was handed over for %d..%d but its record is for %d..%d", c.metric, c.start, c.end, rec.StartTime, rec.EndTime)
		return
	}
	n := 0
	lo, hi := math.Inf(1), math.Inf(-1)
	for b := rec.Distribution; len(b) >= 8; b = b[8:] {
		v := math.Float64frombits(binary.BigEndian.Uint64(b))
		n++
		lo, hi = math.Min(lo, v), math.Max(hi, v)
		a := w.byV[v]
		if a == nil {
			w.fail("invented", "the record of %q contains %v, which was never added", c.metric, v)
			return
		}
		if name(a.m) != c.metric {
			w.fail("wrong-metric", "%v was added to %q but handed over as %q", v, name(a.m), c.metric)
			return
		}
		if a.handed != nil {
			w.fail("twice", "%v of %q was handed over twice", v, c.metric)
			return
		}
		a.handed = c
	}
	if int64(n) != rec.Observations || n == 0 || rec.Kind != "list" {
		w.fail("wrong-record", "the record of %q holds %d values and says %d (kind %q)", c.metric, n, rec.Observations, rec.Kind)
		return
	}
	if rec.Min != lo || rec.Max != hi || string(rec.MinId) != w.byV[lo].id || string(rec.MaxId) != w.byV[hi].id {
		w.fail("wrong-record", "the record of %q has the extremes %v %q and %v %q instead of %v %q and %v %q", c.metric, rec.Min, rec.MinId, rec.Max, rec.MaxId, lo, w.byV[lo].id, hi, w.byV[hi].id)
	}
}

// ---- run

func (scen) Run(s *zsim.Sim, prop string, pl interface{}) {
	w := &world{s: s, prop: prop, plan: pl.(*Plan), byV: map[float64]*add{}}
	p := w.plan
	for i := 0; i < p.Metrics; i++ {
		var mx int64
		for _, b := range p.Beh {
			if t := b.Delay + b.Block; t > mx {
				mx = t
			}
		}
		w.maxDump += mx
	}
	w.proc = s.NewProc("server")
	w.wr = data.NewWriter(listParams{})
	w.d = dump.New(dump.Options{DB: simDB{w: w}, Period: time.Duration(p.Period), Bufsize: p.Bufsize})
	s.GoIn(w.proc, "main", func() {
		left := len(p.Tasks)
		var wq zsim.WaitQ
		for i, t := range p.Tasks {
			t := t
			s.GoIn(w.proc, fmt.Sprint("t", i), func() {
				for i := 0; i < len(t); i++ {
					if t[i].K == "start" {
						w.periodic(t[i+1].D)
						i += 2
						continue
					}
					w.do(t[i])
				}
				left--
				wq.WakeAll(s)
			})
		}
		for left > 0 {
			wq.Wait(s, "tasks")
		}
		w.do(&Op{K: "add", M: 0, N: 1})
		w.do(&Op{K: "dump"})
		w.do(&Op{K: "dump"})
		for n := 0; w.proc.LiveTasks() > 1 && (n < 10 || w.queuing > 0); n++ {
			s.WaitIdle()
		}
		if n := w.proc.LiveTasks(); n > 1 {
			w.fail("tasks-left", "%d tasks are left when nothing is running: %s", n-1, w.proc.TaskNames())
		}
		zsim.ExitProcess(0)
	})
	if !s.WaitDeath(w.proc, 2400*time.Hour) {
		w.fail("hang", "the dumper is stuck\n%s", s.Blocked())
		return
	}
	if w.proc.Crashed != "" {
		w.fail("panic", "the process died: %s\n%s", w.proc.Crashed, w.proc.Stack)
		return
	}
	h := fnv.New64a()
	for _, c := range w.calls {
		if c.cb1 == 0 && !c.refused {
			w.fail("no-callback", "the callback of %q never returned", c.metric)
			return
		}
		fmt.Fprintln(h, c.metric, c.start, c.end, len(c.copy), c.run != nil)
	}
	for _, a := range w.adds {
		if a.handed != nil {
			continue
		}
		if !a.clean {
			continue
		}
		// the first dump after it must have taken it, unless one that was
		// cancelled did
		excused := false
		for _, d := range w.directs {
			if d.cancelled && d.ret > a.inv {
				excused = true
			}
		}
		if !excused {
			w.fail("lost", "%v, added to %q, was never handed to the database", a.v, name(a.m))
			return
		}
	}
	lib.StateHash = h.Sum64()
}

func (w *world) pending(r *run, d *direct) *call {
	for _, c := range w.calls {
		if c.run == r && c.dump == d && !c.done() {
			return c
		}
	}
	return nil
}

// returned checks that nothing of a dump is under way any more. A callback
// counts as run once it has been entered.
func (w *world) returned(what string, r *run, d *direct) {
	for _, c := range w.calls {
		if c.run == r && c.dump == d && c.cb0 == 0 && !c.refused {
			w.fail("not-awaited", "%s returned before the callback of %q has run", what, c.metric)
			return
		}
	}
}

func (w *world) do(o *Op) {
	s := w.s
	switch o.K {
	case "sleep":
		s.Sleep(time.Duration(o.D))
	case "add":
		for i := 0; i < o.N; i++ {
			n := len(w.adds)
			a := &add{m: o.M, v: float64((n*7919)%1009) + float64(n)/4096}
			var id []byte
			if o.ID >= 0 {
				id = bytes.Repeat([]byte{'a' + byte(n%26)}, o.ID)
				a.id = string(id)
			}
			w.adds = append(w.adds, a)
			w.byV[a.v] = a
			a.inv, a.at = s.Seq(), s.Now
			sw := s.Switches
			w.wr.Add(context.Background(), name(a.m), a.v, id)
			if zsim.Killed() {
				return
			}
			a.clean = s.Switches == sw
			a.ret = s.Seq()
		}
	case "dump":
		d := &direct{inv: s.Seq()}
		w.directs = append(w.directs, d)
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), dumpKey{}, d))
		stop := func() {
			if d.ret == 0 {
				d.cancelled = true
				zsim.Probe("dump cancelled")
				cancel()
			}
		}
		if o.Cancel < 0 {
			stop()
		} else if o.Cancel > 0 {
			s.AddTimer(time.Duration(o.Cancel), func() {
				s.GoIn(w.proc, "canceller", stop)
			})
		}
		from := len(w.adds)
		w.d.Dump(ctx, w.wr)
		if zsim.Killed() {
			return
		}
		d.ret = s.Seq()
		w.returned("a dump", nil, d)
		if !d.cancelled {
			// whatever was added before is with the database
			for _, a := range w.adds[:from] {
				if a.handed == nil && a.clean && a.ret < d.inv && w.alone(d.inv, a.inv) {
					w.fail("lost", "%v, added to %q before a dump, was not handed to the database by it", a.v, name(a.m))
				}
			}
		}
		cancel()
	}
}

// alone reports whether no other dump may have taken values added at t: none
// that was cancelled after it, and none that is still at work.
func (w *world) alone(inv, t int64) bool {
	if w.cur != nil {
		return false
	}
	for _, r := range w.runs {
		if r.ret > inv {
			return false
		}
	}
	for _, d := range w.directs {
		if d.inv != inv && (d.ret == 0 || d.ret > inv || d.cancelled && d.ret > t) {
			return false
		}
	}
	return true
}

// periodic runs the dumper for a while.
func (w *world) periodic(d int64) {
	s := w.s
	ctx, cancel := context.WithCancel(context.Background())
	r := &run{perM: map[string]int{}, start: s.Seq(), startT: s.Now}
	for w.cur != nil {
		s.Sleep(time.Microsecond)
	}
	w.cur = r
	w.runs = append(w.runs, r)
	var wq zsim.WaitQ
	s.GoIn(w.proc, "dumper", func() {
		r.err = w.d.Run(ctx, w.wr)
		if zsim.Killed() {
			return
		}
		r.ret = s.Seq()
		if r.stop == 0 {
			w.fail("stopped", "the dumper returned (%v) although it was not told to stop", r.err)
		}
		w.returned("the dumper", r, nil)
		w.cur = nil
		wq.WakeAll(s)
	})
	s.Sleep(time.Duration(d))
	if s.Strat.PWarp == 0 {
		// everything added so long ago that its period has ended has been
		// handed over
		lim := s.Now - 2*w.plan.Period - 3*w.maxDump
		for _, a := range w.adds {
			if a.clean && a.at < lim && r.startT < lim && a.handed == nil {
				ok := false
				for _, d := range w.directs {
					if d.cancelled && (d.ret == 0 || d.ret > a.inv) {
						ok = true
					}
				}
				if !ok {
					w.fail("not-dumped", "%v, added to %q %v ago, was not dumped by the dumper whose period is %v", a.v, name(a.m), time.Duration(s.Now-a.at), time.Duration(w.plan.Period))
				}
			}
		}
	}
	r.stop = s.Seq()
	cancel()
	r.stopT, r.stopped = s.Now, true
	t0 := s.Now
	for r.ret == 0 {
		wq.Wait(s, "dumper to stop")
	}
	if r.err != nil {
		w.fail("error-on-stop", "the dumper returned an error when stopped: %v", r.err)
	}
	if s.Strat.PWarp == 0 && s.Now-t0 > 3*w.maxDump+int64(time.Microsecond) {
		w.fail("slow-stop", "the dumper took %v to stop", time.Duration(s.Now-t0))
	}
}
