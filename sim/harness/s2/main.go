// S2: the aggregating writer under concurrent adds, iterations and captures.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"sort"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/harness/lib"
	"github.com/vivint/rothko/internal/zsim/zcontext"
)

type Op struct {
	K    string  `json:"k"` // add iter cap sleep jump
	M    int     `json:"m,omitempty"`
	V    float64 `json:"v,omitempty"`
	Bad  int     `json:"bad,omitempty"` // 1 NaN 2 +Inf 3 -Inf
	ID   int     `json:"id,omitempty"`  // length of the id, -1 nil
	D    int64   `json:"d,omitempty"`
	Lim  int     `json:"lim,omitempty"` // stop after so many callbacks
	Pace int     `json:"pace,omitempty"`
}

type Plan struct {
	Dist    string  `json:"dist"` // list tdigest
	FailNew int     `json:"failNew,omitempty"`
	FailAll bool    `json:"failAll,omitempty"`
	Huge    bool    `json:"huge,omitempty"`
	Metrics int     `json:"metrics"`
	Uniq    bool    `json:"uniq"`
	Tasks   [][]*Op `json:"tasks"`
}

type scen struct{}

func (scen) Name() string     { return "s2" }
func (scen) New() interface{} { return &Plan{} }

func main() {
	lib.Register(scen{})
	lib.Main()
}

func (scen) Gen(r *lib.Rand, prop string, deep bool) interface{} {
	p := &Plan{Dist: "list", Metrics: r.Range(1, 3), Uniq: r.P(0.8)}
	if r.P(0.25) {
		p.Dist = "tdigest"
	}
	p.Huge = r.P(0.03)
	if prop == "C12" && r.P(0.2) {
		p.FailNew = r.Range(1, 4)
		p.FailAll = r.P(0.3)
	}
	nt := r.Range(2, 5)
	max := 14
	if deep {
		max = 40
	}
	n := 0
	pc, pi := 0.1, 0.2
	if prop == "C11" {
		pc, pi = 0.2, 0.05
	}
	if r.P(0.2) {
		pc = 0
	}
	roles := r.P(0.5)
	for t := 0; t < nt; t++ {
		var ops []*Op
		k := r.Range(1, max)
		qc, qi := pc, pi
		if roles {
			switch t % 3 {
			case 0:
				qc, qi = 0, 0
			case 1:
				qc, qi = pc*3, 0
			case 2:
				qc, qi = 0, pi*3
			}
		}
		for i := 0; i < k; i++ {
			switch {
			case r.P(qc):
				ops = append(ops, &Op{K: "cap", Pace: r.N(3)})
			case r.P(qi):
				o := &Op{K: "iter", Pace: r.N(4)}
				if r.P(0.15) {
					o.Lim = r.Range(1, 2)
				}
				ops = append(ops, o)
			case r.P(0.08):
				ops = append(ops, &Op{K: "sleep", D: int64(r.Log(1000000))})
			case r.P(0.04):
				ops = append(ops, &Op{K: "jump", D: int64(r.Range(-2000000, 2000000))})
			default:
				o := &Op{K: "add", M: r.N(p.Metrics), ID: r.Of(-1, 0, 1, 3, 8, 40, 8, 8)}
				n++
				switch {
				case r.P(0.04):
					o.Bad = r.Range(1, 3)
				case !p.Uniq:
					o.V = float64(r.Of(-3, -1, 0, 0, 1, 2, 7))
				case r.P(0.1):
					o.V = []float64{1e300, -1e300, 5e-324, -5e-324, 1e-9, math.MaxFloat64 / 4}[r.N(6)] * float64(n)
					if p.Dist == "tdigest" && !p.Huge && math.Abs(o.V) > 1e30 {
						o.V = 1e30 * float64(n) // see the known finding
					}
					if math.IsInf(o.V, 0) {
						o.V = float64(n)
					}
				default:
					o.V = float64(r.Range(-50, 50)) + float64(n)/1024
				}
				ops = append(ops, o)
			}
		}
		p.Tasks = append(p.Tasks, ops)
	}
	return p
}

func (scen) Shrink(pl interface{}) (out []interface{}) {
	p := pl.(*Plan)
	cp := func() *Plan {
		q := *p
		q.Tasks = append([][]*Op(nil), p.Tasks...)
		return &q
	}
	for i := range p.Tasks {
		q := cp()
		q.Tasks = append(append([][]*Op(nil), p.Tasks[:i]...), p.Tasks[i+1:]...)
		out = append(out, q)
	}
	for i, t := range p.Tasks {
		for n := len(t) / 2; n >= 1; n /= 2 {
			for a := 0; a+n <= len(t); a += n {
				q := cp()
				q.Tasks[i] = append(append([]*Op(nil), t[:a]...), t[a+n:]...)
				out = append(out, q)
			}
		}
	}
	return
}

// ---- the distribution the harness plugs in: it keeps every value

type listParams struct{ w *world }

type listDist struct {
	w         *world
	vals      []float64
	busy      int
	observing bool
}

var errNew = errors.New("no distribution for you")

func (p listParams) Kind() string { return "list" }
func (p listParams) New() (dist.Dist, error) {
	w := p.w
	zsim.Yield()
	w.news++
	if w.plan.FailNew > 0 && (w.plan.FailAll || w.news <= w.plan.FailNew) {
		zsim.FaultHit("distribution refused")
		w.refused = true
		return nil, errNew
	}
	return &listDist{w: w}, nil
}
func (p listParams) Unmarshal(b []byte) (dist.Dist, error) { return nil, errNew }

func (d *listDist) enter(what string) {
	// any number of readers, or one writer
	if d.busy > 0 && what == "Observe" || d.observing {
		d.w.fail([]string{"C12", "C19"}, "distribution-shared", "%s while another call on the same distribution is in progress", what)
	}
	d.busy++
	d.observing = what == "Observe"
	zsim.Yield()
}
func (d *listDist) Kind() string            { return "list" }
func (d *listDist) Query(x float64) float64 { return 0 }
func (d *listDist) CDF(x float64) float64   { return 0 }
func (d *listDist) Len() int64              { return int64(len(d.vals)) }
func (d *listDist) Observe(v float64) {
	d.enter("Observe")
	d.vals = append(d.vals, v)
	zsim.Yield()
	d.busy--
	d.observing = false
}
func (d *listDist) Marshal(buf []byte) []byte {
	d.enter("Marshal")
	for _, v := range d.vals {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], math.Float64bits(v))
		buf = append(buf, b[:]...)
		zsim.Yield()
	}
	d.busy--
	return buf
}

// ---- run

type add struct {
	m        int
	v        float64
	id       string
	nilID    bool
	bad      bool
	inv, ret int64
	task     int
}

type rec struct {
	metric     string
	start, end int64
	obs        int64
	min, max   float64
	minID      string
	maxID      string
	kind       string
	merged     int64
	dist       []byte
	at         int64
	vals       []float64
}

type pass struct {
	capture    bool
	inv, ret   int64
	w0, w1     int64 // wall clock around it
	recs       []*rec
	stopped    bool
	completed  bool
	jumpDuring bool
}

type world struct {
	s       *zsim.Sim
	prop    string
	plan    *Plan
	adds    []*add
	passes  []*pass
	news    int
	refused bool
	jumps   int
	params  dist.Params
}

func (w *world) fail(props []string, kind, f string, args ...interface{}) {
	lib.Fail(w.prop, props, kind, f, args...)
}

func name(m int) string { return fmt.Sprintf("metric.%d", m) }

func (scen) Run(s *zsim.Sim, prop string, pl interface{}) {
	w := &world{s: s, prop: prop, plan: pl.(*Plan)}
	p := w.plan
	if p.Dist == "tdigest" {
		w.params = tdigest.Params{Compression: 5}
		if p.FailNew > 0 {
			w.params = tdigest.Params{}
			w.refused = true
		}
	} else {
		w.params = listParams{w}
	}
	proc := s.NewProc("server")
	wr := data.NewWriter(w.params)
	s.GoIn(proc, "main", func() {
		left := len(p.Tasks)
		var wq zsim.WaitQ
		for i, t := range p.Tasks {
			i, t := i, t
			s.GoIn(proc, fmt.Sprint("t", i), func() {
				for _, o := range t {
					w.do(wr, i, o)
				}
				left--
				wq.WakeAll(s)
			})
		}
		for left > 0 {
			wq.Wait(s, "tasks")
		}
		// nothing overlaps the last ones
		w.do(wr, -1, &Op{K: "iter"})
		w.do(wr, -1, &Op{K: "cap"})
		w.do(wr, -1, &Op{K: "iter"})
		w.do(wr, -1, &Op{K: "cap"})
		zsim.ExitProcess(0)
	})
	if !s.WaitDeath(proc, 24*time.Hour) {
		w.fail([]string{"*"}, "hang", "adds, iterations or captures are stuck\n%s", s.Blocked())
		return
	}
	if proc.Crashed != "" {
		w.fail([]string{"*"}, "panic", "the process died: %s\n%s", proc.Crashed, proc.Stack)
		return
	}
	w.check()
	h := fnv.New64a()
	for _, q := range w.passes {
		for _, r := range q.recs {
			fmt.Fprintln(h, q.capture, r.metric, r.obs, r.min, r.max, r.minID, r.maxID, r.vals)
		}
	}
	lib.StateHash = h.Sum64()
}

func (w *world) do(wr *data.Writer, task int, o *Op) {
	s := w.s
	ctx := context.Background()
	switch o.K {
	case "sleep":
		s.Sleep(time.Duration(o.D))
	case "jump":
		w.jumps++
		zsim.FaultHit("wall clock jump")
		for _, q := range w.passes {
			if q.ret == 0 {
				q.jumpDuring = true
			}
		}
		s.JumpWall(time.Duration(o.D))
	case "add":
		a := &add{m: o.M, v: o.V, task: task}
		switch o.Bad {
		case 1:
			a.v, a.bad = math.NaN(), true
		case 2:
			a.v, a.bad = math.Inf(1), true
		case 3:
			a.v, a.bad = math.Inf(-1), true
		}
		var id []byte
		if o.ID < 0 {
			a.nilID = true
		} else {
			id = []byte(fmt.Sprintf("%d:", len(w.adds)))
			for len(id) < o.ID {
				id = append(id, 'x')
			}
			if o.ID == 0 {
				id = id[:0]
			}
		}
		a.id = string(id)
		w.adds = append(w.adds, a)
		a.inv = s.Seq()
		wr.Add(ctx, name(a.m), a.v, id)
		a.ret = s.Seq()
		// the caller reuses its buffer
		for i := range id {
			id[i] = '#'
		}
	case "iter", "cap":
		q := &pass{capture: o.K == "cap", inv: s.Seq(), w0: s.WallNow()}
		w.passes = append(w.passes, q)
		n := 0
		fn := func(cb context.Context, metric string, rc data.Record) bool {
			r := &rec{metric: metric, start: rc.StartTime, end: rc.EndTime, obs: rc.Observations, min: rc.Min, max: rc.Max,
				minID: string(rc.MinId), maxID: string(rc.MaxId), kind: rc.Kind, merged: rc.Merged,
				dist: append([]byte(nil), rc.Distribution...), at: s.Seq()}
			q.recs = append(q.recs, r)
			for i := 0; i < o.Pace*3; i++ {
				zsim.Yield()
			}
			if o.Pace == 3 {
				s.Sleep(time.Microsecond)
			}
			if !bytes.Equal(r.dist, rc.Distribution) || r.minID != string(rc.MinId) || r.maxID != string(rc.MaxId) {
				w.fail([]string{"C12", "C11", "C13"}, "record-changed", "the record of %s changed while its callback was running", metric)
			}
			r.at = s.Seq()
			n++
			if o.Lim > 0 && n >= o.Lim {
				q.stopped = true
				return false
			}
			return true
		}
		if q.capture {
			wr.Capture(ctx, fn)
		} else {
			wr.Iterate(ctx, fn)
		}
		q.ret, q.w1, q.completed = s.Seq(), s.WallNow(), true
		if o.Lim > 0 && n > o.Lim {
			w.fail([]string{"C12"}, "not-stopped", "an iteration went on after its callback returned false")
		}
	}
}

func (q *pass) overlaps(inv, ret int64) bool { return q.inv < ret && inv < q.ret }

func (w *world) str(a *add) string { return fmt.Sprintf("add(%s, %v, id %q)", name(a.m), a.v, a.id) }

func (w *world) check() {
	p := w.plan
	good := []*add{}
	byVal := map[float64]*add{}
	names := map[string]int{}
	for i := 0; i < p.Metrics; i++ {
		names[name(i)] = i
	}
	for _, a := range w.adds {
		if !a.bad {
			good = append(good, a)
			if p.Uniq {
				byVal[a.v] = a
			}
		}
	}
	// each record by itself
	for _, q := range w.passes {
		what := "iteration"
		if q.capture {
			what = "capture"
		}
		seen := map[string]bool{}
		for _, r := range q.recs {
			m, ok := names[r.metric]
			if !ok {
				w.fail([]string{"C11", "C12"}, "unknown-metric", "a record for %q, which was never added", r.metric)
				return
			}
			if seen[r.metric] {
				w.fail([]string{"C11", "C12"}, "metric-twice", "one %s delivered two records of %s", what, r.metric)
				return
			}
			seen[r.metric] = true
			if p.Dist == "list" {
				if len(r.dist)%8 != 0 {
					w.fail([]string{"C12"}, "bad-distribution", "the distribution of %s has %d bytes", r.metric, len(r.dist))
					return
				}
				for i := 0; i < len(r.dist); i += 8 {
					r.vals = append(r.vals, math.Float64frombits(binary.BigEndian.Uint64(r.dist[i:])))
				}
				if int64(len(r.vals)) != r.obs {
					w.fail([]string{"C12", "C11"}, "count-mismatch", "a record of %s delivered by a %s counts %d values but its distribution has %d", r.metric, what, r.obs, len(r.vals))
					return
				}
			} else {
				d, err := tdigest.Params{}.Unmarshal(r.dist)
				if math.Abs(r.min) > math.MaxFloat32 || math.Abs(r.max) > math.MaxFloat32 {
					if err != nil || d.Len() != r.obs {
						w.fail([]string{"C12", "C11"}, "huge-value-distribution", "a tdigest of values beyond the float32 range (min %v max %v) cannot be read back: %v", r.min, r.max, err)
						return
					}
				}
				if err != nil {
					w.fail([]string{"C12", "C11"}, "bad-distribution", "the distribution of %s cannot be read: %v", r.metric, err)
					return
				}
				if d.Len() != r.obs {
					w.fail([]string{"C12", "C11"}, "count-mismatch", "a record of %s delivered by a %s counts %d values but its distribution has %d", r.metric, what, r.obs, d.Len())
					return
				}
			}
			if r.kind != w.params.Kind() || r.merged != 1 {
				w.fail([]string{"C11", "C12"}, "bad-record", "a record of %s has kind %q merged %d", r.metric, r.kind, r.merged)
				return
			}
			if r.obs < 1 {
				w.fail([]string{"C11", "C12"}, "empty-record", "a record of %s without observations", r.metric)
				return
			}
			// extremes
			if p.Dist == "list" {
				lo, hi := math.Inf(1), math.Inf(-1)
				for _, v := range r.vals {
					lo, hi = math.Min(lo, v), math.Max(hi, v)
				}
				if r.min != lo || r.max != hi {
					w.fail([]string{"C12", "C11"}, "wrong-extremes", "a record of %s of a %s has min %v max %v but its values are %v", r.metric, what, r.min, r.max, r.vals)
					return
				}
				for _, v := range r.vals {
					if p.Uniq {
						a := byVal[v]
						if a == nil || a.m != m {
							w.fail([]string{"C11", "C12"}, "foreign-value", "a record of %s contains %v, which was not added to it", r.metric, v)
							return
						}
						if a.inv > r.at {
							w.fail([]string{"C12"}, "from-the-future", "a record of %s contains %s, which began later", r.metric, w.str(a))
							return
						}
					}
				}
			}
			okMin, okMax := false, false
			for _, a := range good {
				if a.m == m && a.inv < r.at {
					okMin = okMin || a.v == r.min && a.id == r.minID
					okMax = okMax || a.v == r.max && a.id == r.maxID
				}
			}
			if !okMin || !okMax {
				w.fail([]string{"C12", "C11"}, "wrong-id", "a record of %s of a %s has min %v with id %q, max %v with id %q: not what they were added under", r.metric, what, r.min, r.minID, r.max, r.maxID)
				return
			}
			// the window ends when the pass looked at the clock
			if !q.jumpDuring && (r.end < q.w0 || r.end > q.w1) {
				w.fail([]string{"C11", "C12"}, "wrong-end", "a record of %s ends at %d but the %s ran from %d to %d", r.metric, r.end, what, q.w0, q.w1)
				return
			}
			if r0 := q.recs[0]; r0.start != r.start || r0.end != r.end {
				w.fail([]string{"C11", "C12"}, "windows-differ", "one %s delivered records [%d,%d] and [%d,%d]", what, r0.start, r0.end, r.start, r.end)
				return
			}
		}
	}
	if w.refused {
		return
	}
	caps := []*pass{}
	for _, q := range w.passes {
		if q.capture {
			caps = append(caps, q)
		}
	}
	w.checkCaptures(caps, good, byVal)
	w.checkIters(caps, good, byVal)
}

// overlapped reports whether a capture ran at some point of the interval.
func overlapped(caps []*pass, inv, ret int64) bool {
	for _, q := range caps {
		if q.overlaps(inv, ret) {
			return true
		}
	}
	return false
}

func (w *world) checkCaptures(caps []*pass, good []*add, byVal map[float64]*add) {
	p := w.plan
	// accounting
	if p.Uniq && p.Dist == "list" {
		in := map[*add]int{}
		for _, q := range caps {
			for _, r := range q.recs {
				for _, v := range r.vals {
					a := byVal[v]
					in[a]++
					if in[a] > 1 {
						w.fail([]string{"C11"}, "counted-twice", "%s is counted in more than one captured record", w.str(a))
						return
					}
					// a window that was closed before the add began cannot have it
					if a.ret < q.inv {
						for _, q2 := range caps {
							if q2 != q && q2.inv > a.ret && q2.ret < q.inv && len(q2.recs) > 0 {
								w.fail([]string{"C11"}, "wrong-window", "%s was captured by a later capture than the first one after it", w.str(a))
								return
							}
						}
					}
				}
			}
		}
		for _, a := range good {
			if in[a] == 0 && !overlapped(caps, a.inv, a.ret) {
				w.fail([]string{"C11"}, "lost", "%s overlaps no capture but is in no captured record", w.str(a))
				return
			}
		}
	} else {
		for m := 0; m < p.Metrics; m++ {
			var must, may, got int64
			for _, a := range good {
				if a.m == m {
					may++
					if !overlapped(caps, a.inv, a.ret) {
						must++
					}
				}
			}
			for _, q := range caps {
				for _, r := range q.recs {
					if r.metric == name(m) {
						got += r.obs
					}
				}
			}
			if got < must {
				w.fail([]string{"C11"}, "lost", "%d values were added to %s without overlapping a capture but only %d are in captured records", must, name(m), got)
				return
			}
			if got > may {
				w.fail([]string{"C11"}, "counted-twice", "%d values were added to %s but %d are in captured records", may, name(m), got)
				return
			}
		}
	}
	// exact content of windows: captures that overlap nothing
	for i, q := range caps {
		alone := true
		for _, o := range caps {
			if o != q && o.overlaps(q.inv, q.ret) {
				alone = false
			}
		}
		for _, a := range good {
			if a.inv < q.ret && q.inv < a.ret {
				alone = false
			}
		}
		if !alone {
			continue
		}
		zsim.Probe("capture without overlap")
		prev := int64(-1)
		for _, o := range caps {
			if o.ret < q.inv && o.ret > prev {
				prev = o.ret
			}
		}
		_ = i
		cnt := map[string]int64{}
		lo, hi := map[string]float64{}, map[string]float64{}
		fuzzy := map[string]bool{}
		for _, a := range good {
			if a.ret > q.inv {
				continue
			}
			n := name(a.m)
			if a.inv < prev && a.ret > prev {
				fuzzy[n] = true
			}
			if overlapped(caps, a.inv, a.ret) {
				fuzzy[n] = true
				continue
			}
			if a.inv < prev {
				continue
			}
			if cnt[n] == 0 || a.v < lo[n] {
				lo[n] = a.v
			}
			if cnt[n] == 0 || a.v > hi[n] {
				hi[n] = a.v
			}
			cnt[n]++
		}
		got := map[string]*rec{}
		for _, r := range q.recs {
			got[r.metric] = r
		}
		for n, c := range cnt {
			if fuzzy[n] {
				continue
			}
			r := got[n]
			if r == nil || r.obs != c || r.min != lo[n] || r.max != hi[n] {
				o := int64(0)
				var a, b float64
				if r != nil {
					o, a, b = r.obs, r.min, r.max
				}
				w.fail([]string{"C11"}, "wrong-record", "%d values in [%v, %v] were added to %s in a window whose record has %d values in [%v, %v]", c, lo[n], hi[n], n, o, a, b)
				return
			}
		}
	}
	// windows tile time: order captures by when they can have taken effect
	win := []*pass{}
	for _, q := range caps {
		if len(q.recs) > 0 {
			win = append(win, q)
		}
	}
	sort.SliceStable(win, func(i, j int) bool { return win[i].ret < win[j].ret })
	ends := map[int64]bool{}
	for _, q := range caps {
		for _, r := range q.recs {
			ends[r.end] = true
		}
	}
	for _, q := range win {
		st := q.recs[0].start
		// the latest capture that surely came before
		var before *pass
		gap := false
		for _, o := range caps {
			if o == q {
				continue
			}
			if o.ret < q.inv && len(o.recs) > 0 && (before == nil || o.inv > before.ret) {
				before = o
			}
		}
		// captures that may have closed a window in between, without records or with
		for _, o := range caps {
			if o != q && o != before && (before == nil || o.ret > before.inv) && o.inv < q.ret {
				gap = true
			}
		}
		if before == nil && !gap {
			// the first window: starts when the first value was added
			continue
		}
		if before != nil && !gap {
			zsim.Probe("successive windows")
			if st != before.recs[0].end {
				w.fail([]string{"C11"}, "windows-do-not-tile", "a capture ended at %d, the next one's records start at %d", before.recs[0].end, st)
				return
			}
			continue
		}
		// otherwise it starts where one of them ended
		ok := ends[st]
		for _, o := range caps {
			if o != q && len(o.recs) == 0 && (o.jumpDuring || st >= o.w0 && st <= o.w1) {
				ok = true
			}
		}
		if before == nil {
			ok = true
		}
		if !ok {
			w.fail([]string{"C11"}, "windows-do-not-tile", "a record starts at %d, where no capture ended", st)
			return
		}
	}
}

func (w *world) checkIters(caps []*pass, good []*add, byVal map[float64]*add) {
	p := w.plan
	for qi, q := range w.passes {
		if q.capture || overlapped(caps, q.inv, q.ret) {
			continue
		}
		// the last capture before it
		prev, last := int64(-1), int64(-1)
		for _, o := range caps {
			if o.ret < q.inv && o.ret > prev {
				prev = o.ret
			}
			if o.ret < q.inv && o.inv > last {
				last = o.inv
			}
		}
		got := map[string]*rec{}
		for _, r := range q.recs {
			got[r.metric] = r
		}
		for m := 0; m < p.Metrics; m++ {
			n := name(m)
			r := got[n]
			if r == nil && q.stopped {
				continue
			}
			var must, may int64
			set := map[float64]bool{}
			if r != nil {
				for _, v := range r.vals {
					set[v] = true
				}
			}
			for _, a := range good {
				if a.m != m {
					continue
				}
				if a.inv > prev && a.ret < q.inv && !overlapped(caps, a.inv, a.ret) {
					must++
					if p.Uniq && p.Dist == "list" && !set[a.v] {
						w.fail([]string{"C12", "C11"}, "missing", "%s completed before an iteration that does not contain it", w.str(a))
						return
					}
				}
				if (r == nil || a.inv < r.at) && a.ret > last {
					may++
				} else if p.Uniq && p.Dist == "list" && set[a.v] {
					w.fail([]string{"C12", "C11"}, "stale", "an iteration contains %s, which an earlier capture took", w.str(a))
					return
				}
			}
			obs := int64(0)
			if r != nil {
				obs = r.obs
			}
			if obs < must || obs > may {
				w.fail([]string{"C12", "C11"}, "wrong-count", "an iteration delivered %d values of %s: at least %d and at most %d were added", obs, n, must, may)
				return
			}
			// monotone
			for _, o := range w.passes[:qi] {
				if o.capture || o.ret > q.inv || overlapped(caps, o.inv, q.ret) {
					continue
				}
				for _, x := range o.recs {
					if x.metric != n {
						continue
					}
					zsim.Probe("successive iterations")
					if x.obs > obs || r != nil && (x.min < r.min || x.max > r.max || x.start != r.start) {
						w.fail([]string{"C12"}, "backwards", "an iteration had %d values of %s in [%v,%v], a later one %d", x.obs, n, x.min, x.max, obs)
						return
					}
					if p.Uniq && p.Dist == "list" {
						for _, v := range x.vals {
							if !set[v] {
								w.fail([]string{"C12"}, "backwards", "an iteration contained %v of %s, a later one did not", v, n)
								return
							}
						}
					}
				}
			}
		}
	}
}
