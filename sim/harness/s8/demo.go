package main

import (
	realctx "context"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"sort"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/vivint/rothko"
	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/harness/lib"
	"github.com/vivint/rothko/internal/zsim/zcontext"
	"github.com/vivint/rothko/internal/zsim/zos"
	"github.com/vivint/rothko/registry"
)

// DemoRun is one start of the demo command.
type DemoRun struct {
	Kill   string         `json:"kill,omitempty"` // stmt cb int
	N      int            `json:"n,omitempty"`
	D      int64          `json:"d,omitempty"`
	Torn   bool           `json:"torn,omitempty"`
	Faults []zsim.FSFault `json:"faults,omitempty"`
	Fail   string         `json:"fail,omitempty"` // run queue queuecb cb new kind dist config args
	At     int            `json:"at,omitempty"`   // the record at which it fails
	Jump   int64          `json:"jump,omitempty"` // clock jump afterwards
	Cap    int64          `json:"cap,omitempty"`  // size of the disk
}

type DemoPlan struct {
	Size    int        `json:"size"`
	Cap     int        `json:"cap"`
	Files   int        `json:"files"`
	Buffer  int        `json:"buffer"`
	Workers int        `json:"workers"`
	Handles int        `json:"handles"`
	Drop    bool       `json:"drop,omitempty"`
	Runs    []*DemoRun `json:"runs"`
}

func genDemo(r *lib.Rand, deep bool) *DemoPlan {
	p := &DemoPlan{Size: r.Of(128, 256, 256, 512, 1024), Cap: r.Of(150, 400), Files: 20, Buffer: r.Of(0, 1, 100), Workers: r.Of(1, 1, 2, 3), Handles: r.Of(1, 10)}
	n := r.Of(1, 1, 2)
	if deep {
		n = r.Range(1, 4)
	}
	for i := 0; i < n; i++ {
		x := &DemoRun{}
		switch r.Pick(20, 25, 35, 30) {
		case 1:
			x.Kill = r.OfS("stmt", "cb", "cb", "int")
			x.N = r.Range(1, 640)
			x.D = int64(r.Log(3000))
			if x.Kill == "stmt" {
				x.D = int64(r.Log(3000000))
			}
			x.Torn = r.P(0.5)
		case 2:
			x.Fail = r.OfS("run", "run", "run", "queue", "queuecb", "cb", "cb", "new", "kind", "dist", "config", "args", "noconf", "confio", "plugin", "dbconf", "distconf", "manyargs")
			x.At = r.Of(1, r.Range(1, 100), r.Range(1, 640))
			x.D = int64(r.Log(10000000))
		case 3:
			for k := r.Range(1, 2); k > 0; k-- {
				f := zsim.FSFault{Op: r.OfS("open", "create", "mkdir", "fallocate", "mmap", "readdir", "unlink", "rename", "read"), Prefix: "/data", Skip: r.Log(60) - 1, Count: r.Of(1, 1, 3, 1000000)}
				f.Errno = int([]syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EMFILE, syscall.ENOMEM, syscall.EACCES}[r.N(5)])
				if r.P(0.25) {
					f.Stall = int64(r.Log(int(100 * time.Second)))
				}
				x.Faults = append(x.Faults, f)
			}
			if r.P(0.2) {
				x.Cap = int64(p.Size) * int64(p.Cap) * int64(r.Range(1, 12)) / 2
			}
		}
		x.Jump = int64(r.Of(0, 1, int(time.Hour), int(30*time.Hour)))
		p.Runs = append(p.Runs, x)
	}
	return p
}

func (p *DemoPlan) shrink() (out []*DemoPlan) {
	for i, x := range p.Runs {
		if len(p.Runs) > 1 {
			q := *p
			q.Runs = append(append([]*DemoRun(nil), p.Runs[:i]...), p.Runs[i+1:]...)
			out = append(out, &q)
		}
		with := func(f func(x *DemoRun)) {
			q := *p
			q.Runs = append([]*DemoRun(nil), p.Runs...)
			c := *x
			f(&c)
			q.Runs[i] = &c
			out = append(out, &q)
		}
		if x.Kill != "" {
			with(func(x *DemoRun) { x.Kill = "" })
		}
		if x.Fail != "" {
			with(func(x *DemoRun) { x.Fail = "" })
		}
		if x.Cap != 0 {
			with(func(x *DemoRun) { x.Cap = 0 })
		}
		if x.At > 1 {
			with(func(x *DemoRun) { x.At = 1 })
		}
		for k := range x.Faults {
			k := k
			with(func(x *DemoRun) {
				x.Faults = append(append([]zsim.FSFault(nil), x.Faults[:k]...), x.Faults[k+1:]...)
			})
		}
	}
	return
}

type demoRec struct {
	metric     string
	start, end int64
	data       string
	ok         bool // acknowledged
	done       bool
	err        error
	run        *demoRun
}

type made_ struct {
	db        database.DB
	dbErr     error
	params    dist.Params
	paramsErr error
}

type demoRun struct {
	plan    *DemoRun
	i       int
	p       *zsim.Proc
	recs    []*demoRec
	begin   int64  // wall
	bad     string // why the program must report a failure
	created int
	dbEnded bool
	acks    int
}

type demoWorld struct {
	s    *zsim.Sim
	prop string
	plan *DemoPlan
	made made_
	run  *demoRun
	all  []*demoRec
}

// D is the current world of the demo command.
var D *demoWorld

func (w *demoWorld) fail(kind, f string, args ...interface{}) {
	lib.Fail(w.prop, []string{"C22"}, kind, f, args...)
}

type demoDB struct {
	database.DB
	r *demoRun
}

func (d demoDB) Run(ctx realctx.Context) error {
	r := d.r
	defer func() {
		if !zsim.Killed() {
			r.dbEnded = true
		}
	}()
	if r.plan.Fail != "run" {
		return d.DB.Run(ctx)
	}
	// it runs for a while, and ends before the demo does
	inner, cancel := context.WithTimeout(ctx, time.Duration(r.plan.D))
	defer cancel()
	err := d.DB.Run(inner)
	if ctx.Err() != nil || zsim.Killed() {
		return err
	}
	zsim.FaultHit("database service failed")
	r.bad = "the database failed"
	return errors.New("the database failed")
}

func (d demoDB) Queue(ctx realctx.Context, metric string, start, end int64, b []byte, cb func(bool, error)) error {
	if zsim.Killed() {
		return nil
	}
	r, w := d.r, D
	x := &demoRec{metric: metric, start: start, end: end, data: string(b), run: r}
	r.recs = append(r.recs, x)
	w.all = append(w.all, x)
	w.checkRec(x)
	if len(r.recs) == r.plan.At {
		e := errors.New("refused")
		switch r.plan.Fail {
		case "queue":
			zsim.FaultHit("database refused a record")
			r.bad = "the database refused a record"
			return e
		case "queuecb":
			zsim.FaultHit("database refused a record, and called back")
			r.bad = "the database refused a record"
			cb(false, e)
			return e
		case "cb":
			zsim.FaultHit("database failed to write a record")
			r.bad = "a record could not be written"
			w.s.GoIn(r.p, "failing", func() { cb(false, e) })
			return nil
		}
	}
	err := d.DB.Queue(ctx, metric, start, end, b, func(ok bool, err error) {
		if !zsim.Killed() {
			x.done, x.ok, x.err = true, ok, err
			zsim.Tracef("%q %d..%d ok=%v err=%v", metric, start, end, ok, err)
			if err != nil {
				r.bad = "a record could not be written"
			}
			if !ok && err == nil && r.plan.Fail != "run" {
				later := false
				for _, o := range w.all {
					later = later || o.metric == metric && o != x && o.end >= end
				}
				if !later {
					w.fail("not-stored", "the record of %q that ends at %d was refused although nothing later was ever handed over", metric, end)
				}
			}
			r.acks++
			if r.plan.Kill == "cb" && r.acks == r.plan.N {
				w.s.CrashAt(w.s.Step()+1+r.plan.D, r.p, r.plan.Torn)
			}
		}
		cb(ok, err)
	})
	if err != nil && !zsim.Killed() {
		r.bad = "a record was not taken"
	}
	return err
}

// checkRec looks at one record of the demo.
func (w *demoWorld) checkRec(x *demoRec) {
	var rec data.Record
	if err := rec.Unmarshal([]byte(x.data)); err != nil {
		w.fail("bad-record", "the record of %q from %d to %d does not decode: %v", x.metric, x.start, x.end, err)
		return
	}
	if rec.StartTime != x.start || rec.EndTime != x.end || x.start >= x.end {
		w.fail("bad-record", "the record of %q from %d to %d says %d to %d", x.metric, x.start, x.end, rec.StartTime, rec.EndTime)
	}
	ds, err := load.Load(realctx.Background(), rec)
	if err != nil {
		w.fail("bad-record", "the distribution of %q from %d to %d can not be loaded: %v", x.metric, x.start, x.end, err)
		return
	}
	if rec.Observations <= 0 || ds.Len() != rec.Observations {
		w.fail("bad-record", "the record of %q from %d to %d says it has %d observations, its distribution %d", x.metric, x.start, x.end, rec.Observations, ds.Len())
	}
	if q0, q1 := ds.Query(0), ds.Query(1); !(rec.Min <= rec.Max) || math.Abs(q0-rec.Min) > 1e-9*(1+math.Abs(rec.Min)) || math.Abs(q1-rec.Max) > 1e-9*(1+math.Abs(rec.Max)) {
		w.fail("bad-record", "the record of %q from %d to %d says its values are from %v to %v, its distribution is from %v to %v", x.metric, x.start, x.end, rec.Min, rec.Max, q0, q1)
	}
}

type demoParams struct {
	dist.Params
	r *demoRun
}

func (p demoParams) New() (dist.Dist, error) {
	p.r.created++
	if p.r.plan.Fail == "new" && p.r.created == p.r.plan.At {
		zsim.FaultHit("distribution could not be created")
		p.r.bad = "a distribution could not be created"
		return nil, errors.New("no distribution")
	}
	return p.Params.New()
}

const (
	demoConf = "/etc/demo.toml"
	demoData = "/data"
)

func (w *demoWorld) config(x *DemoRun) string {
	p := w.plan
	db, ds := "traced", "traced"
	plugins, size, comp := "", fmt.Sprint(p.Size), "5.0"
	switch x.Fail {
	case "plugin":
		plugins = "plugins = [ \"/plugin.so\" ]\n"
	case "dbconf":
		size = "\"large\""
	case "distconf":
		comp = "\"much\""
	case "kind":
		db = "nothing"
	case "dist":
		ds = "nothing"
	}
	c := fmt.Sprintf("[main]\nduration = \"10m\"\n%s[[listeners.graphite]]\naddress = \":1111\"\n[database.%s]\ndirectory = %q\nsize = %s\ncap = %d\nfiles = %d\n[database.%s.tuning]\nbuffer = %d\nworkers = %d\nhandles = %d\n[dist.%s]\ncompression = %s\n[api]\naddress = \":8080\"\n",
		plugins, db, demoData, size, p.Cap, p.Files, db, p.Buffer, p.Workers, p.Handles, ds, comp)
	if x.Fail == "config" {
		return c[:len(c)/3] + "= ="
	}
	return c
}

func runDemo(s *zsim.Sim, prop string, p *DemoPlan) {
	w := &demoWorld{s: s, prop: prop, plan: p}
	D = w
	s.FS.Mkdirs("/etc")
	s.FS.Mkdirs(demoData)
	for i, x := range p.Runs {
		w.start(i, x)
		if x.Jump > 0 {
			zsim.FaultHit("wall clock jump")
			s.JumpWall(time.Duration(x.Jump))
		}
		s.Sleep(time.Millisecond)
	}
	w.inspect()
}

func (w *demoWorld) start(i int, x *DemoRun) {
	s := w.s
	r := &demoRun{plan: x, i: i, begin: s.WallNow()}
	w.run = r
	r.p = s.NewProc(fmt.Sprint("demo", i))
	s.FS.WriteFile(demoConf, []byte(w.config(x)))
	s.FS.Faults = nil
	for _, f := range x.Faults {
		f := f
		s.FS.Faults = append(s.FS.Faults, &f)
	}
	s.FS.Cap = x.Cap
	switch x.Fail {
	case "confio":
		s.FS.Faults = append(s.FS.Faults, &zsim.FSFault{Op: []string{"open", "read"}[x.At%2], Prefix: demoConf, Errno: int(syscall.EIO), Count: 1})
		r.bad = "broken " + x.Fail
	case "kind", "dist", "config", "args", "noconf", "plugin", "dbconf", "distconf", "manyargs":
		r.bad = "broken " + x.Fail
	}
	if x.Kill == "stmt" {
		s.CrashAt(s.Step()+1+x.D, r.p, x.Torn)
	}
	ext := s.NewProc(fmt.Sprint("user", i))
	if x.Kill == "int" {
		s.GoIn(ext, "user", func() {
			for k := 0; k < x.N*1000 && len(r.recs) < x.N && !r.p.Dead; k++ {
				s.Sleep(time.Millisecond)
			}
			s.Signal(r.p, int(syscall.SIGINT))
		})
	}
	s.GoIn(r.p, "main", func() {
		os.Args = []string{"rothko", "demo", demoConf}
		if x.Fail == "args" {
			os.Args = os.Args[:2]
		}
		switch x.Fail {
		case "noconf":
			os.Args[2] = "/etc/missing.toml"
		case "manyargs":
			os.Args = append(os.Args, demoConf)
		}
		c := *x
		if c.Fail != "dbconf" && c.Fail != "distconf" {
			c.Fail = ""
		}
		if conf, err := config.Load([]byte(w.config(&c))); err == nil {
			db, err := registry.Default.NewDatabase(realctx.Background(), "files", conf.Database.Config)
			w.made.db, w.made.dbErr = demoDB{db, r}, err
			w.made.params = demoParams{simpleParams{}, r}
			_, w.made.paramsErr = registry.Default.NewDistribution(realctx.Background(), "tdigest", conf.Dist.Config)
		} else {
			w.fail("config", "the configuration can not be loaded: %v", err)
		}
		rothko.Main()
	})
	if !s.WaitDeath(r.p, 48*time.Hour) {
		w.fail("hang", "the demo command did not end (%s)\n%s", r.bad, s.Blocked())
		return
	}
	s.ClearCrash()
	s.FS.Faults, s.FS.Cap = nil, 0
	s.Kill(ext)
	if r.p.Crashed != "" {
		w.fail("panic", "the process died: %s\n%s", r.p.Crashed, r.p.Stack)
		return
	}
	if !r.p.Exited {
		zsim.Probe("demo killed")
		return
	}
	zsim.Probe(fmt.Sprint("exit status ", r.p.ExitCode))
	if r.p.ExitCode == 0 {
		if r.bad != "" {
			w.fail("exit-status", "the demo command ended with status 0 although %s", r.bad)
		}
		w.complete(r)
	} else if r.bad == "" && len(x.Faults) == 0 && x.Cap == 0 {
		w.fail("exit-status", "the demo command ended with status %d although nothing failed", r.p.ExitCode)
	}
}

// complete checks the records of a demo that says it has done everything.
func (w *demoWorld) complete(r *demoRun) {
	by := map[string][]*demoRec{}
	var names []string
	for _, x := range r.recs {
		if by[x.metric] == nil {
			names = append(names, x.metric)
		}
		by[x.metric] = append(by[x.metric], x)
		if !x.done {
			w.fail("not-awaited", "the demo command ended with status 0 before it was known what became of the record of %q that ends at %d", x.metric, x.end)
		}
	}
	sort.Strings(names)
	if len(names) < 2 {
		w.fail("nothing-stored", "the demo command ended with status 0 and has stored data for %d metrics", len(names))
	}
	for _, m := range names {
		l := by[m]
		for i := 1; i < len(l); i++ {
			if l[i].start != l[i-1].end {
				w.fail("gap", "in the demo data of %q, a record ends at %d and the next one starts at %d", m, l[i-1].end, l[i].start)
			}
		}
		if l[0].start > r.begin-int64(23*time.Hour) || l[len(l)-1].end < r.begin {
			w.fail("gap", "the demo data of %q covers %d to %d, the command was started at %d", m, l[0].start, l[len(l)-1].end, r.begin)
		}
	}
	zsim.Probe("a complete demo")
}

// inspect reads everything back.
func (w *demoWorld) inspect() {
	s, p := w.s, w.plan
	proc := s.NewProc("inspect")
	s.GoIn(proc, "main", func() {
		db := files.New(demoData, files.Options{Size: p.Size, Cap: p.Cap, Files: p.Files, Tuning: files.Tuning{Buffer: 10, Workers: 1, Handles: 10}})
		ctx, cancel := context.WithCancel(realctx.Background())
		var done int32
		var wq zsim.WaitQ
		s.GoIn(proc, "db", func() {
			db.Run(ctx)
			atomic.StoreInt32(&done, 1)
			wq.WakeAll(s)
		})
		if err := db.PopulateMetrics(ctx); err != nil {
			w.fail("unreadable", "the database can not be read: %v", err)
		}
		listed := map[string]bool{}
		var ms []string
		db.Metrics(ctx, func(m string) (bool, error) {
			listed[m] = true
			ms = append(ms, m)
			return true, nil
		})
		type key struct {
			m   string
			end int64
		}
		queued := map[key][]*demoRec{}
		for _, x := range w.all {
			queued[key{x.metric, x.end}] = append(queued[key{x.metric, x.end}], x)
		}
		got := map[key]bool{}
		h := fnv.New64a()
		sort.Strings(ms)
		for _, m := range ms {
			err := db.Query(ctx, m, math.MaxInt64, nil, func(ctx realctx.Context, start, end int64, b []byte) (bool, error) {
				k := key{m, end}
				fmt.Fprintln(h, m, start, end, len(b))
				found := false
				for _, x := range queued[k] {
					found = found || x.start == start && x.data == string(b)
				}
				if !found {
					w.fail("fabricated", "the stored record of %q from %d to %d was never handed to the database", m, start, end)
				}
				got[k] = true
				return true, nil
			})
			if err != nil {
				w.fail("unreadable", "%q can not be read: %v", m, err)
			}
		}
		for _, x := range w.all {
			if x.ok && !listed[x.metric] {
				w.fail("lost", "the metric %q was acknowledged as stored and is not listed", x.metric)
			} else if x.ok && !got[key{x.metric, x.end}] {
				w.fail("lost", "the record of %q from %d to %d was acknowledged as stored and is not there", x.metric, x.start, x.end)
			}
		}
		lib.StateHash = h.Sum64()
		cancel()
		for atomic.LoadInt32(&done) == 0 {
			wq.Wait(s, "database")
		}
		zsim.ExitProcess(0)
	})
	if !s.WaitDeath(proc, 24*time.Hour) {
		w.fail("hang", "the database can not be read back\n%s", s.Blocked())
		return
	}
	if proc.Crashed != "" {
		w.fail("panic", "reading back died: %s\n%s", proc.Crashed, proc.Stack)
	}
}
