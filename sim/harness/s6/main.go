// S6: the launcher that supervises the server's tasks.
package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"time"

	"github.com/vivint/rothko/internal/junk"
	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/harness/lib"
	"github.com/vivint/rothko/internal/zsim/zcontext"
)

// Task of the launcher.
type Task struct {
	Wait string `json:"wait"` // now sleep ctx either idle
	D    int64  `json:"d,omitempty"`
	Fail bool   `json:"fail,omitempty"`
	Lag  int64  `json:"lag,omitempty"`  // time to stop after the context is done
	Idle bool   `json:"idle,omitempty"` // returns only when everybody else has come to rest
}

type Step struct {
	K    string  `json:"k"` // queue run sleep
	Task []*Task `json:"task,omitempty"`
	D    int64   `json:"d,omitempty"` // cancel the context after D (0: never, -1: before)
}

type Plan struct {
	Direct bool      `json:"direct"` // junk.Launch instead of a Launcher
	Actors [][]*Step `json:"actors"`
}

type scen struct{}

func (scen) Name() string     { return "s6" }
func (scen) New() interface{} { return &Plan{} }

func main() {
	lib.Register(scen{})
	lib.Main()
}

func genTasks(r *lib.Rand, n int) (out []*Task) {
	pf := []float64{0, 0.3, 0.6, 1}[r.N(4)]
	for i := 0; i < n; i++ {
		t := &Task{Wait: r.OfS("now", "sleep", "ctx", "ctx", "ctx", "either", "either"), Fail: r.P(pf), Idle: r.P(0.2)}
		t.D = int64(r.Log(5000))
		if r.P(0.3) {
			t.Lag = int64(r.Log(1000))
		}
		out = append(out, t)
	}
	return
}

func (scen) Gen(r *lib.Rand, prop string, deep bool) interface{} {
	p := &Plan{Direct: r.P(0.4)}
	max := 6
	if deep {
		max = 16
	}
	cancel := func() int64 {
		switch r.Pick(5, 1, 4) {
		case 0:
			return 0
		case 1:
			return -1
		}
		return int64(r.Log(8000))
	}
	if p.Direct {
		p.Actors = [][]*Step{{{K: "run", Task: genTasks(r, r.Range(0, max)), D: cancel()}}}
	} else {
		for a := r.Range(1, 3); a > 0; a-- {
			var st []*Step
			for i := r.Range(1, 6); i > 0; i-- {
				switch r.Pick(5, 3, 2) {
				case 0:
					st = append(st, &Step{K: "queue", Task: genTasks(r, r.Range(1, 3))})
				case 1:
					st = append(st, &Step{K: "run", D: cancel()})
				case 2:
					st = append(st, &Step{K: "sleep", D: int64(r.Log(3000))})
				}
			}
			p.Actors = append(p.Actors, st)
		}
	}
	if r.P(0.2) {
		// some take their time
		by := int64(r.Of(1000000, 1000000000))
		for _, a := range p.Actors {
			for _, s := range a {
				if s.D > 0 {
					s.D *= by
				}
				for _, t := range s.Task {
					t.D *= by
					t.Lag *= by
				}
			}
		}
	}
	// something must end every run
	fix := false
	for _, a := range p.Actors {
		for _, s := range a {
			if s.K == "run" && s.D == 0 {
				fix = true
			}
		}
	}
	if fix {
		for _, a := range p.Actors {
			for _, s := range a {
				if len(s.Task) == 0 {
					continue
				}
				if !p.Direct {
					// any run may get any single task
					for _, t := range s.Task {
						if t.Wait == "ctx" {
							t.Wait = "either"
						}
					}
				} else {
					ok := false
					for _, t := range s.Task {
						ok = ok || t.Wait != "ctx"
					}
					if !ok {
						s.Task[r.N(len(s.Task))].Wait = r.OfS("sleep", "now", "either")
					}
				}
			}
		}
	}
	return p
}

func (scen) Shrink(pl interface{}) (out []interface{}) {
	p := pl.(*Plan)
	cp := func() *Plan {
		q := &Plan{Direct: p.Direct}
		for _, a := range p.Actors {
			var st []*Step
			for _, s := range a {
				c := *s
				c.Task = append([]*Task(nil), s.Task...)
				st = append(st, &c)
			}
			q.Actors = append(q.Actors, st)
		}
		return q
	}
	for i := range p.Actors {
		q := cp()
		q.Actors = append(q.Actors[:i], q.Actors[i+1:]...)
		out = append(out, q)
	}
	for i, a := range p.Actors {
		for j, s := range a {
			q := cp()
			q.Actors[i] = append(q.Actors[i][:j], q.Actors[i][j+1:]...)
			out = append(out, q)
			for k := range s.Task {
				q := cp()
				t := q.Actors[i][j].Task
				q.Actors[i][j].Task = append(append([]*Task(nil), t[:k]...), t[k+1:]...)
				out = append(out, q)
			}
		}
	}
	return
}

type task struct {
	plan       *Task
	id         int
	err        error
	queued     int64
	started    int // times
	startAt    int64
	sawDone    int64
	r0         int64 // about to return
	idleAt     int64 // when it began to wait for everybody else to come to rest
	r1         int64
	doneAtRet  bool
	parentDone bool
	run        *runRec
}

type runRec struct {
	inv, ret    int64
	ctx         context.Context
	cancelAt    int64
	tasks       []*task
	direct      []*task
	err         error
	firstReturn int64
}

type world struct {
	s     *zsim.Sim
	prop  string
	plan  *Plan
	tasks []*task
	runs  []*runRec
	ext   *zsim.Proc
}

type runKey struct{}

func (w *world) fail(kind, f string, args ...interface{}) {
	lib.Fail(w.prop, []string{"C17"}, kind, f, args...)
}

func (w *world) fn(t *task) func(ctx context.Context) error {
	s := w.s
	return func(ctx context.Context) error {
		t.started++
		if t.started > 1 {
			w.fail("started-twice", "task %d was started twice", t.id)
		}
		t.startAt = s.Seq()
		rr, _ := ctx.Value(runKey{}).(*runRec)
		if rr == nil {
			w.fail("foreign-context", "task %d got a context that does not descend from the one given to the run", t.id)
			return nil
		}
		t.run = rr
		rr.tasks = append(rr.tasks, t)
		if rr.ret != 0 {
			w.fail("started-late", "task %d started after its run had returned", t.id)
		}
		checkDone := func() {
			t.sawDone = s.Seq()
			if rr.cancelAt == 0 && rr.firstReturn == 0 {
				w.fail("cancelled-early", "the context of task %d was cancelled although no task had returned and the run's context was not cancelled", t.id)
			}
		}
		switch t.plan.Wait {
		case "sleep":
			s.Sleep(time.Duration(t.plan.D))
		case "ctx":
			zsim.Recv(ctx.Done())
			checkDone()
			s.Sleep(time.Duration(t.plan.Lag))
		case "either":
			end := s.Now + t.plan.D
			for s.Now < end && ctx.Err() == nil {
				s.Sleep(time.Duration(t.plan.D/8 + 1))
			}
			if ctx.Err() != nil {
				checkDone()
				s.Sleep(time.Duration(t.plan.Lag))
			}
		}
		if t.plan.Idle {
			t.idleAt = s.Seq()
			s.WaitIdle()
		}
		if rr.ret != 0 {
			w.fail("returned-early", "the run returned while task %d was still running", t.id)
		}
		t.r0 = s.Seq()
		t.doneAtRet = ctx.Err() != nil
		t.parentDone = rr.cancelAt != 0
		t.r1 = s.Seq()
		if rr.firstReturn == 0 {
			rr.firstReturn = t.r0
		}
		if t.plan.Fail {
			t.err = fmt.Errorf("task %d failed", t.id)
		}
		return t.err
	}
}

func (scen) Run(s *zsim.Sim, prop string, pl interface{}) {
	w := &world{s: s, prop: prop, plan: pl.(*Plan)}
	p := w.plan
	proc := s.NewProc("server")
	w.ext = s.NewProc("caller")
	var l junk.Launcher
	s.GoIn(proc, "main", func() {
		left := len(p.Actors)
		var wq zsim.WaitQ
		for i, a := range p.Actors {
			a := a
			s.GoIn(proc, fmt.Sprint("actor", i), func() {
				for _, st := range a {
					w.step(&l, st)
				}
				left--
				wq.WakeAll(s)
			})
		}
		for left > 0 {
			wq.Wait(s, "actors")
		}
		// whatever is still queued runs now
		if !p.Direct {
			w.step(&l, &Step{K: "run", D: 1})
		}
		s.WaitIdle()
		if n := proc.LiveTasks(); n > 1 {
			w.fail("tasks-left", "%d tasks are left after every run has returned: %s", n-1, proc.TaskNames())
		}
		zsim.ExitProcess(0)
	})
	if !s.WaitDeath(proc, 2400*time.Hour) {
		w.fail("hang", "the launcher is stuck\n%s", s.Blocked())
		return
	}
	if proc.Crashed != "" {
		w.fail("panic", "the process died: %s\n%s", proc.Crashed, proc.Stack)
		return
	}
	for _, t := range w.tasks {
		if t.started == 0 {
			w.fail("never-started", "task %d was never started", t.id)
			return
		}
	}
	h := fnv.New64a()
	for _, rr := range w.runs {
		fmt.Fprintln(h, len(rr.tasks), rr.err)
		for _, t := range rr.tasks {
			fmt.Fprintln(h, t.id, t.doneAtRet)
		}
	}
	lib.StateHash = h.Sum64()
}

func (w *world) mk(t *Task) *task {
	x := &task{plan: t, id: len(w.tasks), queued: w.s.Seq()}
	w.tasks = append(w.tasks, x)
	return x
}

func (w *world) step(l *junk.Launcher, st *Step) {
	s := w.s
	switch st.K {
	case "sleep":
		s.Sleep(time.Duration(st.D))
	case "queue":
		for _, t := range st.Task {
			l.Queue(w.fn(w.mk(t)))
		}
	case "run":
		rr := &runRec{}
		w.runs = append(w.runs, rr)
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), runKey{}, rr))
		rr.ctx = ctx
		stop := func() {
			if rr.cancelAt == 0 {
				rr.cancelAt = s.Seq()
				zsim.Probe("run cancelled by its caller")
				cancel()
			}
		}
		if st.D < 0 {
			stop()
		} else if st.D > 0 {
			s.GoIn(w.ext, "canceller", func() {
				s.Sleep(time.Duration(st.D))
				if rr.ret == 0 {
					stop()
				}
			})
		}
		rr.inv = s.Seq()
		if w.plan.Direct {
			var fns []func(context.Context) error
			for _, t := range st.Task {
				x := w.mk(t)
				rr.direct = append(rr.direct, x)
				fns = append(fns, w.fn(x))
			}
			rr.err = junk.Launch(ctx, fns...)
		} else {
			rr.err = l.Run(ctx)
		}
		rr.ret = s.Seq()
		w.checkRun(rr)
		cancel()
	}
}

func (w *world) checkRun(rr *runRec) {
	if w.plan.Direct && len(rr.tasks) != len(rr.direct) {
		w.fail("never-started", "%d of %d tasks were started when the launch returned", len(rr.tasks), len(rr.direct))
		return
	}
	failing := 0
	for _, t := range rr.tasks {
		if t.r0 == 0 {
			w.fail("returned-early", "the run returned while task %d was still running", t.id)
			return
		}
		if t.err != nil {
			failing++
		}
	}
	if failing == 0 {
		if rr.err != nil {
			w.fail("spurious-error", "no task failed but the run returned %v", rr.err)
		}
		return
	}
	if rr.err == nil {
		w.fail("error-lost", "%d tasks failed but the run returned no error", failing)
		return
	}
	var who *task
	for _, t := range rr.tasks {
		if t.err != nil && (t.err == rr.err || errors.Is(rr.err, t.err)) {
			who = t
		}
	}
	if who == nil {
		w.fail("foreign-error", "the run returned %v, which no task of it returned", rr.err)
		return
	}
	before, clean := 0, 0
	for _, t := range rr.tasks {
		if t == who || t.r0 > who.r1 {
			continue
		}
		if t.err != nil && t.r0 < who.r0 {
			before++
			if who.idleAt > t.r0 {
				w.fail("wrong-error", "task %d failed long before task %d, whose error the run returned", t.id, who.id)
				return
			}
		} else if t.err == nil {
			clean++
		}
	}
	if who.doneAtRet && !who.parentDone && before > 0 && clean == 0 {
		w.fail("wrong-error", "the run returned the error of task %d, which failed only after the failure of another one had cancelled it", who.id)
		return
	}
	if failing > 1 {
		zsim.Probe("several tasks failed")
	}
}
