package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/harness/lib"
	"github.com/vivint/rothko/internal/zsim/zcontext"
)

type scen struct{}

func (scen) Name() string { return "s1" }

func main() {
	lib.Register(scen{})
	lib.Main()
}

const inf = int64(1) << 60

// val is one value handed to the database.
type val struct {
	id         int
	m          int
	start, end int64
	n          int
	slots      int
	data       []byte
	phase      *phase
	inv        int64
	qret       int64 // Queue returned
	cb         int64
	cbN        int
	ok         bool
	err        error
	noCB       bool
	sameTask   bool // the callback ran inside Queue
	ctxDone    bool // its context was or may have been cancelled
	errs0      int64
	errs1      int64
	seen       bool
	drained    bool
	waiters    zsim.WaitQ
}

// read is one finished query.
type read struct {
	m        int
	bound    int64
	inv, ret int64
	vals     []*val
	stopped  bool
	phase    *phase
}

type runRec struct {
	start, up, cancel, ret int64
	n                      int
	reading, nreads        int // of the phase, when it was cancelled
}

type phase struct {
	idx      int
	p        *zsim.Proc
	plan     *Phase
	db       *files.DB
	death    int64
	crashed  bool
	runs     []*runRec
	cur      *runRec
	puts     int
	putWq    zsim.WaitQ
	live     int // clients running
	liveWq   zsim.WaitQ
	outst    int
	outWq    zsim.WaitQ
	keep     []kept
	finished bool
	base     int // tasks of the harness in the process
	scanOK   int64
	reruns   int
	reading  int      // queries in progress
	nreads   int      // queries started
	strays   []*stray // overlapping runs that may have started after all
}

type kept struct{ got, want []byte }

type world struct {
	s       *zsim.Sim
	prop    string
	plan    *Plan
	vals    []*val
	byKey   map[string]*val
	reads   []*read
	phases  []*phase
	ph      *phase
	crashed bool // some phase crashed
	faulted bool
	rerun   bool
	flipped bool
	handles int
	fatal   bool
	diskOff bool
	puts    int
	cbs     int
	acked   map[int]bool
	tried   map[int]bool
}

// ctx adds the properties that a failure concerns because of what happened
// before.
func (w *world) props(l ...string) []string {
	if w.crashed {
		l = append(l, "C01")
	}
	if w.faulted {
		l = append(l, "C09")
	}
	if w.rerun {
		l = append(l, "C07")
	}
	return l
}

func (w *world) fail(props []string, kind, f string, args ...interface{}) {
	if w.flipped {
		keep := false
		for _, p := range props {
			if p == "*" || p == "C02" || p == "C10" || p == "C06" {
				keep = true
			}
		}
		if !keep {
			return
		}
		switch kind {
		case "fabricated", "mixed", "buffer-changed", "latest-changed", "panic", "hang", "fds-leak", "maps-leak", "maps-over-handles", "callback-twice", "callback-missing":
		default:
			return
		}
	}
	lib.Fail(w.prop, props, kind, f, args...)
}

const dbDir = "/db"

func (scen) Run(s *zsim.Sim, prop string, plan interface{}) {
	p := plan.(*Plan)
	w := &world{s: s, prop: prop, plan: p, byKey: map[string]*val{}, acked: map[int]bool{}, tried: map[int]bool{}}
	s.FS.Mkdirs(dbDir)
	s.FS.NoFile = 1024
	if p.NoFile != 0 {
		s.FS.NoFile = p.NoFile
	}
	w.handles = p.Handles
	if w.handles == 0 {
		w.handles = int(s.FS.NoFile) - 512
	}
	for i, ph := range p.Phases {
		w.phase(i, ph)
		if s.Viol != nil || s.Unsup != "" {
			return
		}
	}
	h := fnv.New64a()
	s.FS.Walk(dbDir, func(path string, n *zsim.Inode) {
		h.Write([]byte(path))
		h.Write(n.Data())
	})
	for _, r := range w.reads {
		fmt.Fprintln(h, r.m, r.bound, len(r.vals), r.stopped)
	}
	lib.StateHash = h.Sum64()
}

func (w *world) phase(i int, pp *Phase) {
	s := w.s
	ph := &phase{idx: i, plan: pp, death: inf}
	w.ph = ph
	w.phases = append(w.phases, ph)
	w.age(pp)
	w.flip(pp)
	ph.p = s.NewProc(fmt.Sprintf("server%d", i))
	ph.p.OnDeath(func(*zsim.Proc) {
		ph.death = s.Seq()
		ph.crashed = !ph.finished
	})
	s.FS.Faults, s.FS.Cap, s.FS.MaxFD, s.FS.MaxMaps = nil, pp.DiskCap, pp.MaxFD, pp.MaxMaps
	for _, f := range pp.Faults {
		g := *f
		s.FS.Faults = append(s.FS.Faults, &g)
		if f.Op == "unlink" {
			w.diskOff = true
		}
	}
	for _, f := range pp.Stalls {
		g := *f
		s.FS.Faults = append(s.FS.Faults, &g)
	}
	if len(pp.Faults) > 0 || pp.DiskCap > 0 || pp.MaxFD > 0 || pp.MaxMaps > 0 {
		w.faulted = true
	}
	w.armCrash(ph)
	s.GoIn(ph.p, "main", func() { w.serve(ph) })
	if !s.WaitDeath(ph.p, 24*time.Hour) {
		w.fail([]string{"*"}, "hang", "the database made no progress for a simulated day\n%s", s.Blocked())
		return
	}
	s.ClearCrash()
	if ph.p.Crashed != "" {
		w.fail([]string{"*"}, "panic", "the process died: %s\n%s", ph.p.Crashed, ph.p.Stack)
		return
	}
	if ph.crashed {
		w.crashed = true
	}
	w.checkDisk("after the process ended")
	w.check()
}

func (w *world) armCrash(ph *phase) {
	c := ph.plan.Crash
	s := w.s
	n := 0
	s.FS.OnOp = func(op, path string) {
		if zsim.Cur() == nil || zsim.Cur().P != ph.p {
			return
		}
		if op == "create" || op == "rename" || op == "unlink" {
			w.checkDisk("while running")
		}
		if c != nil && c.On == "op" && op == c.Op {
			n++
			if n == c.N {
				s.CrashAt(s.Step()+c.D, ph.p, c.Torn)
			}
		}
	}
	if c != nil && (c.On == "stmt" || c.On == "cb" && c.N == 0) {
		s.CrashAt(s.Step()+1+c.D, ph.p, c.Torn)
	}
	if c != nil && c.On == "store" && c.N == 0 {
		s.CrashOnStore(c.M, c.D, 4000, ph.p, c.Torn)
	}
}

// age makes the metrics look as if many older files had come and gone: the
// data files are numbered, and only the order of the numbers means anything.
func (w *world) age(pp *Phase) {
	if pp.Age == 0 {
		return
	}
	w.s.FS.Walk(dbDir, func(path string, n *zsim.Inode) {
		if !n.IsDir() {
			return
		}
		var nums []int
		for name, c := range n.Dir {
			k, err := strconv.Atoi(strings.TrimSuffix(name, ".data"))
			switch {
			case c.IsDir():
			case err != nil || name != strconv.Itoa(k)+".data":
				return // not what we know
			default:
				nums = append(nums, k)
			}
		}
		for _, k := range nums {
			if c := n.Dir[strconv.Itoa(k+pp.Age)+".data"]; c != nil && c.IsDir() {
				return
			}
		}
		sort.Sort(sort.Reverse(sort.IntSlice(nums)))
		for _, k := range nums {
			n.Rename(strconv.Itoa(k)+".data", strconv.Itoa(k+pp.Age)+".data")
		}
		if len(nums) > 0 {
			zsim.Probe("old metric")
		}
	})
}

func (w *world) flip(pp *Phase) {
	if len(pp.Flips) == 0 {
		return
	}
	var fs []*zsim.Inode
	w.s.FS.Walk(dbDir, func(path string, n *zsim.Inode) {
		if !n.IsDir() && len(n.Data()) > 0 {
			fs = append(fs, n)
		}
	})
	if len(fs) == 0 {
		return
	}
	w.flipped = true
	for _, f := range pp.Flips {
		d := fs[f.File%len(fs)].Data()
		at := f.Off % len(d)
		switch f.Kind {
		case 0:
			d[at] ^= 1 << uint(f.Bit&7)
			zsim.FaultHit("stored bit flipped")
		case 1:
			for k := at; k < len(d) && k < at+f.Len; k++ {
				d[k] = 0
			}
			zsim.FaultHit("stored bytes zeroed")
		case 2:
			for k := at; k < len(d) && k < at+f.Len; k++ {
				d[k] = byte(f.Off>>3) + byte(k*37)
			}
			zsim.FaultHit("stored bytes overwritten with garbage")
		}
		zsim.Tracef("flip file %d byte %d", f.File%len(fs), at)
	}
}

// serve is the main task of one incarnation.
func (w *world) serve(ph *phase) {
	s := w.s
	pp := ph.plan
	size, cap := w.plan.conf(ph.idx)
	if size != w.plan.Size || cap != w.plan.Cap {
		zsim.Probe("configuration changed")
	}
	ph.db = files.New(dbDir, files.Options{Size: size, Cap: cap, Files: w.plan.files(ph.idx),
		Tuning: files.Tuning{Buffer: w.plan.Buffer, Drop: w.plan.Drop, Handles: w.plan.Handles, Workers: w.plan.Workers}})
	if pp.BootRead == 1 {
		w.readAll(ph)
	}
	ph.live = len(pp.Clients)
	startClients := func() {
		for i, c := range pp.Clients {
			c := c
			s.GoIn(ph.p, fmt.Sprintf("client%d", i), func() {
				for _, o := range c.Ops {
					w.op(ph, o)
				}
				ph.live--
				ph.liveWq.WakeAll(s)
				ph.putWq.WakeAll(s)
			})
		}
	}
	waitClients := func() {
		for ph.live > 0 {
			ph.liveWq.Wait(s, "clients")
		}
	}
	if pp.LateRun {
		startClients()
		if w.plan.Drop {
			waitClients()
		} else {
			s.Sleep(time.Millisecond)
		}
	}
	for i, r := range pp.Runs {
		rec, stop := w.startRun(ph)
		if i == 0 {
			if pp.IdleUp {
				e0 := s.Errs
				s.WaitIdle()
				if s.Errs == e0 {
					rec.up = s.Seq()
				}
			}
			if pp.BootRead == 2 {
				w.readAll(ph)
			}
			if !pp.LateRun {
				startClients()
			}
		} else {
			w.rerun = true
		}
		last := i == len(pp.Runs)-1
		if !last {
			for ph.live > 0 && ph.puts < r.After {
				ph.putWq.Wait(s, "puts")
			}
			s.Sleep(time.Duration(r.D))
		} else {
			waitClients()
			w.clearFaults(ph)
			for ph.outst > 0 {
				ph.outWq.Wait(s, "callbacks")
			}
			s.Sleep(time.Minute)
			s.WaitIdle()
			rec.up = s.Seq()
			w.idleChecks(ph, "while the database runs idle", w.handles)
			w.list(ph, &Op{})
			w.readAll(ph)
			w.probe(ph)
			w.readAll(ph)
			w.list(ph, &Op{})
			s.WaitIdle()
			w.idleChecks(ph, "while the database runs idle", w.handles)
		}
		w.stopRun(ph, rec, stop)
		if !last {
			s.Sleep(time.Duration(r.Gap))
			continue
		}
		w.afterRun(ph)
	}
	if pp.Post {
		// the instance stays usable
		w.readAll(ph)
		w.rerun = true
		rec, stop := w.startRun(ph)
		s.WaitIdle()
		rec.up = s.Seq()
		w.probe(ph)
		w.readAll(ph)
		w.list(ph, &Op{})
		w.stopRun(ph, rec, stop)
		w.afterRun(ph)
	}
	for _, k := range ph.keep {
		if !bytes.Equal(k.got, k.want) {
			w.fail([]string{"C02"}, "latest-changed", "the data returned by a latest-value query changed after it returned")
		}
	}
	ph.finished = true
	zsim.ExitProcess(0)
}

func (w *world) clearFaults(ph *phase) {
	s := w.s
	s.FS.Faults, s.FS.Cap, s.FS.MaxFD, s.FS.MaxMaps = nil, 0, 0, 0
}

func (w *world) startRun(ph *phase) (*runRec, func()) {
	s := w.s
	rec := &runRec{cancel: inf, ret: inf, up: inf, n: len(ph.runs)}
	ctx, cancel := context.WithCancel(context.Background())
	ph.runs = append(ph.runs, rec)
	ph.cur = rec
	rec.start = s.Seq()
	s.GoIn(ph.p, "run", func() {
		err := ph.db.Run(ctx)
		if zsim.Killed() {
			return
		}
		rec.ret = s.Seq()
		zsim.Tracef("run %d returned %v", rec.n, err)
		// nothing else used files while it ended
		alone := rec.cancel != inf && rec.reading == 0 && rec.nreads == ph.nreads
		for _, r := range ph.strays {
			alone = alone && r.ret != inf
		}
		if alone {
			w.idleChecks(ph, "when the run returned", 0)
		}
		if rec.cancel == inf {
			w.fail([]string{"C07"}, "run-ended", "a run of the database returned by itself: %v", err)
		} else if err != nil && err != context.Canceled {
			w.fail([]string{"C07"}, "run-error", "a run of the database failed: %v", err)
		}
		ph.outWq.WakeAll(s)
		ph.liveWq.WakeAll(s)
	})
	return rec, cancel
}

func (w *world) stopRun(ph *phase, rec *runRec, cancel func()) {
	s := w.s
	for ph.reruns > 0 {
		ph.liveWq.Wait(s, "overlapping run")
	}
	rec.cancel = s.Seq()
	rec.reading, rec.nreads = ph.reading, ph.nreads
	zsim.Tracef("stop run %d", rec.n)
	cancel()
	for i := 0; rec.ret == inf; i++ {
		s.Sleep(time.Second)
		s.WaitIdle()
		if rec.ret == inf && i > 600 {
			w.fail([]string{"C07"}, "run-hang", "a run of the database did not return after its context was cancelled\n%s", s.Blocked())
			return
		}
	}
	// values whose hand-off was complete before the stop must be settled
	for _, v := range w.vals {
		if v.phase == ph && v.qret != 0 && v.qret < rec.cancel && v.cbN == 0 && !v.noCB {
			w.fail([]string{"C06", "C07"}, "callback-missing", "the run returned but %s was never reported", w.vs(v))
		}
	}
}

// afterRun checks what a finished run leaves behind.
func (w *world) afterRun(ph *phase) {
	s := w.s
	s.WaitIdle()
	for _, v := range w.vals {
		if v.phase == ph && v.cbN == 0 && !v.noCB {
			w.fail([]string{"C06", "C07"}, "callback-missing", "the last run returned but %s was never reported", w.vs(v))
		}
	}
	w.idleChecks(ph, "after the run returned", 0)
	if n := ph.p.LiveTasks(); n > 1 {
		w.fail([]string{"C07"}, "leftover-task", "goroutines are left after the run returned: %s", ph.p.TaskNames())
	}
}

func (w *world) idleChecks(ph *phase, when string, maps int) {
	o := ph.p.OS()
	if n := len(o.LiveMaps()); n > maps {
		kind := "maps-over-handles"
		if maps == 0 {
			kind = "maps-leak"
		}
		var l []string
		for _, m := range o.LiveMaps() {
			l = append(l, m.Path)
		}
		w.fail([]string{"C10"}, kind, "%d files are mapped %s, at most %d allowed: %v", n, when, maps, l)
	}
	if n := o.NumFDs(); n > 0 {
		w.fail([]string{"C10"}, "fds-leak", "%d descriptors are open %s: %v", n, when, o.FDPaths())
	}
}

// checkDisk verifies the bound on disk use.
func (w *world) checkDisk(when string) {
	if w.diskOff || w.flipped || w.plan.Files == 0 {
		return
	}
	max, files := int64(0), 0
	for i := range w.phases {
		if n := w.plan.files(i); n > files {
			files = n
		}
		if size, cap := w.plan.conf(i); int64(size*(cap+1)) > max {
			max = int64(size * (cap + 1))
		}
	}
	n := map[string]int{}
	w.s.FS.Walk(dbDir, func(path string, in *zsim.Inode) {
		if in.IsDir() || !strings.HasSuffix(path, ".data") {
			return
		}
		dir := path[:strings.LastIndexByte(path, '/')]
		n[dir]++
		if n[dir] > files+1 {
			w.fail([]string{"C05"}, "too-many-files", "%s holds %d data files %s, at most %d allowed", dir, n[dir], when, files+1)
		}
		if in.Size() > max {
			w.fail([]string{"C05"}, "file-too-big", "%s has %d bytes, at most %d allowed", path, in.Size(), max)
		}
	})
}

// probe: every metric accepts a later value.
func (w *world) probe(ph *phase) {
	w.diskOff2()
	for m := range w.plan.Metrics {
		var top int64
		for _, v := range w.vals {
			if v.m == m && v.end > top {
				top = v.end
			}
		}
		for k := 0; k < 2; k++ {
			w.put(ph, &Op{K: "put", M: m, End: top + int64(k) + 1, N: 3 + k*w.plan.Size, Sync: true})
		}
	}
}

func (w *world) diskOff2() {}

func (w *world) readAll(ph *phase) {
	for m := range w.plan.Metrics {
		w.query(ph, &Op{M: m, End: 1<<63 - 1})
		w.latest(ph, &Op{M: m})
		// a bound in the middle
		var ends []int64
		for _, v := range w.vals {
			if v.m == m && v.ok {
				ends = append(ends, v.end)
			}
		}
		if len(ends) > 1 {
			sort.Slice(ends, func(i, j int) bool { return ends[i] < ends[j] })
			w.query(ph, &Op{M: m, End: ends[len(ends)/2]})
			w.query(ph, &Op{M: m, End: ends[len(ends)-1]})
			w.query(ph, &Op{M: m, End: ends[len(ends)/3] + 1})
		}
	}
}

func (w *world) op(ph *phase, o *Op) {
	s := w.s
	switch o.K {
	case "put":
		w.put(ph, o)
	case "query":
		w.query(ph, o)
	case "latest":
		w.latest(ph, o)
	case "list":
		w.list(ph, o)
	case "scan":
		ctx, cancel := context.WithCancel(context.Background())
		if o.Ctx == 1 {
			cancel()
		} else if o.Ctx == 2 {
			s.GoIn(ph.p, "canceller", func() { s.Sleep(time.Duration(o.D)); cancel() })
		}
		e0 := s.Errs
		ph.reading++
		ph.nreads++
		err := ph.db.PopulateMetrics(ctx)
		ph.reading--
		cancel()
		if err != nil && s.Errs == e0 && o.Ctx == 0 {
			w.fail(w.props("C08"), "scan-error", "scanning the directory failed: %v", err)
		}
		if err == nil && o.Ctx == 0 {
			ph.scanOK = s.Seq()
		}
	case "sleep":
		s.Sleep(time.Duration(o.D))
	case "idle":
		s.WaitIdle()
	case "rerun":
		cur := ph.cur
		if cur == nil || cur.up == inf || cur.cancel != inf {
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		done := false
		ph.reruns++
		st := &stray{cancel: inf, ret: inf}
		ph.strays = append(ph.strays, st)
		s.GoIn(ph.p, "rerun", func() {
			err := ph.db.Run(ctx)
			done = true
			st.ret = s.Seq()
			if zsim.Killed() {
				return
			}
			ph.reruns--
			ph.liveWq.WakeAll(s)
			if err == nil && cur.cancel == inf {
				w.fail([]string{"C07"}, "run-overlap", "a second run started while the first was active")
			}
		})
		s.WaitIdle()
		if !done && !zsim.Killed() && cur.cancel == inf {
			w.fail([]string{"C07"}, "run-overlap", "an overlapping second run did not fail at once")
		}
		st.cancel = s.Seq()
		cancel()
	}
}

func (w *world) vs(v *val) string {
	st := "pending"
	switch {
	case v.cbN > 0 && v.ok:
		st = "acknowledged"
	case v.cbN > 0 && v.err != nil:
		st = "failed: " + v.err.Error()
	case v.cbN > 0:
		st = "reported not written"
	}
	return fmt.Sprintf("v%d[metric %q end %d, %d bytes, %s]", v.id, w.plan.Metrics[v.m], v.end, v.n, st)
}

func key(m int, start, end int64) string { return fmt.Sprint(m, " ", start, " ", end) }

func (w *world) put(ph *phase, o *Op) *val {
	s := w.s
	v := &val{id: len(w.vals), m: o.M, end: o.End, n: o.N, phase: ph, noCB: o.NoCB}
	v.start = v.end - 1 - int64(v.id)
	v.slots = w.plan.slots(v.n)
	v.data = fill(v.id, v.n)
	w.vals = append(w.vals, v)
	w.byKey[key(v.m, v.start, v.end)] = v
	buf := append(make([]byte, 0, v.n+8), v.data...)
	ctx, cancel := context.WithCancel(context.Background())
	switch o.Ctx {
	case 1:
		v.ctxDone = true
		cancel()
	case 2:
		v.ctxDone = true
		s.GoIn(ph.p, "canceller", func() { s.Sleep(time.Duration(o.D)); cancel() })
	}
	w.tried[v.m] = true
	v.errs0 = s.Errs
	self := zsim.Cur()
	cb := func(ok bool, err error) {
		if zsim.Killed() {
			return
		}
		v.cbN++
		if v.cbN > 1 {
			w.fail([]string{"C06"}, "callback-twice", "the callback of %s ran twice", w.vs(v))
			return
		}
		v.cb = s.Seq()
		v.ok, v.err = ok, err
		v.errs1 = s.Errs
		v.sameTask = zsim.Cur() == self && v.qret == 0
		for _, r := range ph.runs {
			if r.cancel < v.cb && v.cb < r.ret {
				v.drained = true
			}
		}
		for _, r := range ph.strays {
			if r.cancel < v.cb && v.cb < r.ret {
				v.drained = true
			}
		}
		if o.Nest && zsim.Cur() != self {
			w.nest(ph)
		}
		if ok {
			w.acked[v.m] = true
		}
		zsim.Tracef("callback %s", w.vs(v))
		ph.outst--
		w.cbs++
		if c := ph.plan.Crash; c != nil && c.On == "cb" && w.cbs == c.N {
			s.CrashAt(s.Step()+1+c.D, ph.p, c.Torn)
		} else if c != nil && c.On == "store" && w.cbs == c.N && c.N > 0 {
			s.CrashOnStore(c.M, c.D, 4000, ph.p, c.Torn)
		}
		ph.outWq.WakeAll(s)
		v.waiters.WakeAll(s)
	}
	if o.NoCB {
		cb = nil
	} else {
		ph.outst++
	}
	v.inv = s.Seq()
	zsim.Tracef("queue %s", w.vs(v))
	ph.puts++
	ph.putWq.WakeAll(s)
	adv := s.IdleAdv
	var err error
	if cb == nil {
		err = ph.db.Queue(ctx, w.plan.Metrics[v.m], v.start, v.end, buf, nil)
	} else {
		err = ph.db.Queue(ctx, w.plan.Metrics[v.m], v.start, v.end, buf, cb)
	}
	if zsim.Killed() {
		return v
	}
	if w.plan.Drop && s.IdleAdv != adv {
		w.fail([]string{"C06"}, "queue-waits", "in drop mode, Queue of %s waited until nothing else could run", w.vs(v))
	}
	v.qret = s.Seq()
	// the caller owns its buffer again
	for i := range buf {
		buf[i] = 0xEE
	}
	if err != nil && v.cbN > 0 && v.ok {
		w.fail(w.props("C06"), "queue-error", "Queue of %s returned the error %v", w.vs(v), err)
	}
	if o.Sync && !v.noCB {
		for v.cbN == 0 {
			v.waiters.Wait(s, "sync put")
		}
	}
	if o.Ctx != 2 {
		cancel()
	}
	return v
}

var errStop = errors.New("stop")

// deliver checks one value handed out by the database.
func (w *world) deliver(m int, start, end int64, data []byte) *val {
	v := w.byKey[key(m, start, end)]
	if v == nil {
		for i := range w.plan.Metrics {
			if x := w.byKey[key(i, start, end)]; x != nil {
				w.fail([]string{"C02"}, "fabricated", "a query of %q delivered a value of another metric: %s", w.plan.Metrics[m], w.vs(x))
				return nil
			}
		}
		w.fail([]string{"C02"}, "fabricated", "a query of %q delivered start %d end %d (%d bytes), which was never queued", w.plan.Metrics[m], start, end, len(data))
		return nil
	}
	if !bytes.Equal(data, v.data) {
		w.fail(w.props("C02"), "mixed", "a query delivered %d bytes for %s that differ from what was queued at byte %d", len(data), w.vs(v), diffAt(data, v.data))
		return nil
	}
	v.seen = true
	return v
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// ackedBefore reports whether a put to the metric was acknowledged before.
func (w *world) ackedBefore(m int, seq int64) bool {
	for _, v := range w.vals {
		if v.m == m && v.ok && v.cb < seq {
			return true
		}
	}
	return false
}

func (w *world) query(ph *phase, o *Op) {
	s := w.s
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if o.Ctx == 1 {
		cancel()
	}
	var buf []byte
	if o.N > 0 {
		buf = make([]byte, o.N)
	}
	r := &read{m: o.M, bound: o.End, phase: ph}
	r.inv = s.Seq()
	e0 := s.Errs
	over := 0
	var lastEnd int64
	ph.reading++
	ph.nreads++
	err := ph.db.Query(ctx, w.plan.Metrics[o.M], o.End, buf, func(_ context.Context, start, end int64, data []byte) (bool, error) {
		if zsim.Killed() {
			return false, nil
		}
		if over > 0 {
			// a cancelled context may be noticed one value later
			if over++; o.How != 2 || over > 2 {
				w.fail([]string{"C03"}, "not-stopped", "a query of %q went on after its callback stopped it (how %d)", w.plan.Metrics[o.M], o.How)
			}
			return o.How == 2, nil
		}
		if end >= o.End {
			w.fail([]string{"C03"}, "bound", "a query of %q below %d delivered a value ending at %d", w.plan.Metrics[o.M], o.End, end)
		}
		if len(r.vals) > 0 && end >= lastEnd {
			kind := "order"
			if end == lastEnd {
				kind = "duplicate"
			}
			w.fail([]string{"C03"}, kind, "a query of %q delivered end %d after %d", w.plan.Metrics[o.M], end, lastEnd)
		}
		lastEnd = end
		v := w.deliver(o.M, start, end, data)
		if v == nil {
			return false, nil
		}
		if o.Dirty {
			zsim.Yield()
			if !bytes.Equal(data, v.data) {
				w.fail([]string{"C02"}, "buffer-changed", "the data handed to a query callback changed while it ran: %s", w.vs(v))
			}
		}
		r.vals = append(r.vals, v)
		if o.Ctx == 1 && len(r.vals) > 2 {
			w.fail([]string{"C03"}, "not-stopped", "a query of %q went on although its context was cancelled", w.plan.Metrics[o.M])
		}
		if o.Lim > 0 && len(r.vals) == o.Lim {
			over = 1
			r.stopped = true
			switch o.How {
			case 0:
				return false, nil
			case 1:
				return o.Lim%2 == 0, errStop
			case 2:
				cancel()
			}
		}
		return true, nil
	})
	ph.reading--
	if zsim.Killed() {
		return
	}
	r.ret = s.Seq()
	var ends []string
	for _, v := range r.vals {
		ends = append(ends, fmt.Sprint(v.id))
	}
	zsim.Tracef("query %q < %d: [%s] %v", w.plan.Metrics[o.M], o.End, strings.Join(ends, " "), err)
	if err != nil {
		ok := s.Errs != e0 || !w.ackedBefore(o.M, r.inv)
		if o.Ctx == 1 {
			ok = true
		}
		if r.stopped && (o.How == 1 || o.How == 2) {
			ok = true
		}
		if !ok {
			w.fail(w.props("C03"), "read-error", "a query of %q failed although no operation of it was made to fail: %v", w.plan.Metrics[o.M], err)
		}
		if r.stopped && o.How == 1 && !strings.Contains(err.Error(), errStop.Error()) {
			w.fail([]string{"C03"}, "error-lost", "a query returned %v instead of the error of its callback", err)
		}
		r.stopped = true
	} else {
		if r.stopped && o.How == 1 {
			w.fail([]string{"C03"}, "error-lost", "a query returned no error although its callback failed")
		}
		if o.Ctx == 1 {
			r.stopped = true
		}
	}
	w.reads = append(w.reads, r)
	for i := range buf {
		buf[i] = 0xDD
	}
}

func (w *world) latest(ph *phase, o *Op) {
	s := w.s
	var buf []byte
	if o.N > 0 {
		buf = make([]byte, o.N)
	}
	r := &read{m: o.M, bound: 1<<63 - 1, phase: ph}
	r.inv = s.Seq()
	e0 := s.Errs
	ph.reading++
	ph.nreads++
	start, end, data, err := ph.db.QueryLatest(context.Background(), w.plan.Metrics[o.M], buf)
	ph.reading--
	if zsim.Killed() {
		return
	}
	r.ret = s.Seq()
	zsim.Tracef("latest %q: %d %d %v", w.plan.Metrics[o.M], start, end, err)
	switch {
	case err != nil:
		if s.Errs == e0 && w.ackedBefore(o.M, r.inv) {
			w.fail(w.props("C03"), "read-error", "a latest-value query of %q failed although no operation of it was made to fail: %v", w.plan.Metrics[o.M], err)
		}
		return
	case start == 0 && end == 0 && data == nil:
	default:
		v := w.deliver(o.M, start, end, data)
		if v == nil {
			return
		}
		r.vals = []*val{v}
		r.stopped = true
		ph.keep = append(ph.keep, kept{data, v.data})
	}
	w.reads = append(w.reads, r)
}

func (w *world) list(ph *phase, o *Op) {
	s := w.s
	inv := s.Seq()
	// what must be listed
	must := map[string]bool{}
	up := ph.scanOK != 0
	for _, r := range ph.runs {
		if r.up < inv {
			up = true
		}
	}
	for _, v := range w.vals {
		if !v.ok || v.cb >= inv {
			continue
		}
		if v.phase == ph || up {
			must[w.plan.Metrics[v.m]] = true
		}
	}
	over := 0
	var names []string
	err := ph.db.Metrics(context.Background(), func(name string) (bool, error) {
		if zsim.Killed() {
			return false, nil
		}
		if over > 0 {
			w.fail([]string{"C08"}, "list-not-stopped", "a listing went on after its callback stopped it")
			return false, nil
		}
		names = append(names, name)
		if o.Lim > 0 && len(names) == o.Lim {
			over = 1
			if o.How == 1 {
				return o.Lim%2 == 0, errStop
			}
			return false, nil
		}
		return true, nil
	})
	if zsim.Killed() {
		return
	}
	zsim.Tracef("list: %q %v", names, err)
	if over == 1 && o.How == 1 {
		if err == nil || !strings.Contains(err.Error(), errStop.Error()) {
			w.fail([]string{"C08"}, "list-error", "a listing returned %v instead of the error of its callback", err)
		}
	} else if err != nil {
		w.fail([]string{"C08"}, "list-error", "a listing failed: %v", err)
		return
	}
	for i, n := range names {
		if i > 0 && n <= names[i-1] {
			w.fail([]string{"C08"}, "list-order", "a listing named %q after %q", n, names[i-1])
		}
		known := false
		for m, x := range w.plan.Metrics {
			if x == n && w.tried[m] {
				known = true
			}
		}
		if !known {
			w.fail([]string{"C08", "C02"}, "list-phantom", "a listing named %q, which nobody wrote to", n)
		}
		delete(must, n)
	}
	if over == 0 {
		for n := range must {
			props := []string{"C08"}
			if w.faulted {
				props = append(props, "C09")
			}
			if w.rerun {
				props = append(props, "C07")
			}
			if w.crashed {
				props = append(props, "C16")
			}
			w.fail(props, "list-missing", "a listing does not name %q, which has acknowledged values; it named %q", n, names)
		}
	}
}

var _ = os.Stderr

// nest runs the database from a completion callback that was called by its
// active run, which can not be over, however it is being stopped.
func (w *world) nest(ph *phase) {
	cur := ph.cur
	active := func() bool {
		for _, r := range ph.strays {
			if r.ret == inf {
				return false
			}
		}
		return ph.cur == cur && cur != nil && cur.up != inf && cur.ret == inf
	}
	if !active() {
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	err := ph.db.Run(ctx)
	if zsim.Killed() || !active() {
		return
	}
	zsim.Probe("run from a callback")
	if cur.cancel != inf {
		zsim.Probe("run from a callback of a stopping run")
	}
	if err == nil {
		w.fail([]string{"C07"}, "run-overlap", "a second run started while the first had not called back all values (it was being stopped: %v)", cur.cancel != inf)
	}
}

// stray is a run meant to overlap another one. When that one is being stopped
// at the time it may become the active run.
type stray struct{ cancel, ret int64 }
