package main

import (
	realctx "context"
	"errors"
	"fmt"
	"hash/fnv"
	"time"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/harness/lib"
	"github.com/vivint/rothko/listener"
	"github.com/vivint/rothko/registry"
)

// RegOp registers or builds a component.
type RegOp struct {
	K    string `json:"k"`    // register build sleep
	Kind int    `json:"kind"` // 0 listener, 1 database, 2 distribution
	Name int    `json:"name"`
	D    int64  `json:"d,omitempty"`
	// of a registration: what its maker does
	Sleep int64  `json:"sleep,omitempty"`
	Fail  bool   `json:"fail,omitempty"`
	Func  bool   `json:"func,omitempty"` // registered as a function
	Inner *RegOp `json:"inner,omitempty"`
}

type RegPlan struct {
	Default bool       `json:"default"` // the package's functions instead of those of a Registry
	Actors  [][]*RegOp `json:"actors"`
}

func genReg(r *lib.Rand, deep bool) *RegPlan {
	p := &RegPlan{Default: r.P(0.4)}
	names := r.Range(1, 3)
	kinds := r.Range(1, 3)
	n := r.Range(2, 8)
	if deep {
		n = r.Range(2, 24)
	}
	var op func(depth int) *RegOp
	op = func(depth int) *RegOp {
		o := &RegOp{Kind: r.N(kinds), Name: r.N(names)}
		switch r.Pick(5, 7, 1) {
		case 0:
			o.K = "register"
			o.Func = r.P(0.5)
			o.Fail = r.P(0.15)
			if r.P(0.3) {
				o.Sleep = int64(r.Log(1000000))
			}
			if depth < 2 && r.P(0.25) {
				o.Inner = op(depth + 1)
				if o.Inner.K == "build" {
					// never build the same again, and again
					o.Inner.Kind = (o.Kind + 1) % 3
					if o.Inner.Kind <= o.Kind {
						o.Inner.K = "sleep"
					}
				}
			}
		case 1:
			o.K = "build"
		case 2:
			o.K = "sleep"
			o.D = int64(r.Log(1000000))
		}
		return o
	}
	for a := r.Range(1, 4); a > 0; a-- {
		var l []*RegOp
		for i := 0; i < n; i++ {
			l = append(l, op(0))
		}
		p.Actors = append(p.Actors, l)
	}
	return p
}

func (p *RegPlan) shrink() (out []*RegPlan) {
	cp := func() *RegPlan {
		q := &RegPlan{Default: p.Default}
		for _, a := range p.Actors {
			q.Actors = append(q.Actors, append([]*RegOp(nil), a...))
		}
		return q
	}
	for i := range p.Actors {
		q := cp()
		q.Actors = append(q.Actors[:i], q.Actors[i+1:]...)
		out = append(out, q)
	}
	for i, a := range p.Actors {
		for j, o := range a {
			q := cp()
			q.Actors[i] = append(q.Actors[i][:j], q.Actors[i][j+1:]...)
			out = append(out, q)
			if o.Inner != nil || o.Sleep != 0 || o.Fail || o.Func {
				q := cp()
				c := *o
				c.Inner, c.Sleep, c.Fail, c.Func = nil, 0, false, false
				q.Actors[i][j] = &c
				out = append(out, q)
			}
		}
	}
	return
}

// a registration and what its maker makes.
type regRec struct {
	plan     *RegOp
	id       int
	inv, ret int64
	err      error
}

type buildRec struct {
	plan     *RegOp
	inv, ret int64
	token    *int
	made     []*regRec // the makers that were called for it
}

// made implements all kinds of components.
type made struct {
	database.DB
	dist.Params
	listener.Listener
	by   *regRec
	for_ *buildRec
}

func (m *made) Run(ctx realctx.Context) error { return nil }
func (m *made) New() (dist.Dist, error)       { return nil, nil }
func (m *made) Kind() string                  { return "made" }

type madeListener struct{ *made }

func (m madeListener) Run(ctx realctx.Context, w *data.Writer) error { return nil }

type regWorld struct {
	s    *zsim.Sim
	prop string
	plan *RegPlan
	reg  *registry.Registry
	recs []*regRec
	blds []*buildRec
	pref string
}

type buildKey struct{}

func (w *regWorld) fail(kind, f string, args ...interface{}) {
	lib.Fail(w.prop, []string{"C21"}, kind, f, args...)
}

var kinds = []string{"listener", "database", "distribution"}

func (w *regWorld) name(o *RegOp) string { return fmt.Sprint(w.pref, "n", o.Name) }

func (r *regRec) String() string {
	return fmt.Sprintf("registration %d (%s n%d, from %d to %d)", r.id, kinds[r.plan.Kind], r.plan.Name, r.inv, r.ret)
}

// mk is the maker of a registration.
func (w *regWorld) mk(r *regRec, ctx realctx.Context, conf interface{}) (*made, error) {
	b, _ := ctx.Value(buildKey{}).(*buildRec)
	if b == nil {
		w.fail("foreign-context", "the maker of %v got a context that does not descend from the one given to the registry", r)
		return nil, r.err
	}
	if conf != interface{}(b.token) {
		w.fail("wrong-config", "the maker of %v got another configuration than the one given to the registry", r)
	}
	b.made = append(b.made, r)
	w.s.Sleep(time.Duration(r.plan.Sleep))
	if r.plan.Inner != nil {
		zsim.Probe("a maker used the registry")
		w.op(r.plan.Inner)
	}
	if r.plan.Fail {
		return nil, r.err
	}
	return &made{by: r, for_: b}, nil
}

type lmaker struct {
	w *regWorld
	r *regRec
}

func (m lmaker) New(ctx realctx.Context, conf interface{}) (listener.Listener, error) {
	x, err := m.w.mk(m.r, ctx, conf)
	if x == nil {
		return nil, err
	}
	return madeListener{x}, err
}

type dmaker struct {
	w *regWorld
	r *regRec
}

func (m dmaker) New(ctx realctx.Context, conf interface{}) (database.DB, error) {
	x, err := m.w.mk(m.r, ctx, conf)
	if x == nil {
		return nil, err
	}
	return x, err
}

type pmaker struct {
	w *regWorld
	r *regRec
}

func (m pmaker) New(ctx realctx.Context, conf interface{}) (dist.Params, error) {
	x, err := m.w.mk(m.r, ctx, conf)
	if x == nil {
		return nil, err
	}
	return x, err
}

func (w *regWorld) op(o *RegOp) {
	s := w.s
	switch o.K {
	case "sleep":
		s.Sleep(time.Duration(o.D))
	case "register":
		r := &regRec{plan: o, id: len(w.recs)}
		r.err = fmt.Errorf("maker %d failed", r.id)
		w.recs = append(w.recs, r)
		r.inv = s.Seq()
		r.ret = 1 << 62
		l, d, p := listener.Listener(nil), dmaker{w, r}, pmaker{w, r}
		_ = l
		var lm registry.ListenerMaker = lmaker{w, r}
		var dm registry.DatabaseMaker = d
		var pm registry.DistributionMaker = p
		if o.Func {
			lm, dm, pm = registry.ListenerMakerFunc(lm.New), registry.DatabaseMakerFunc(dm.New), registry.DistributionMakerFunc(pm.New)
		}
		switch {
		case o.Kind == 0 && w.reg == nil:
			registry.RegisterListener(w.name(o), lm)
		case o.Kind == 0:
			w.reg.RegisterListener(w.name(o), lm)
		case o.Kind == 1 && w.reg == nil:
			registry.RegisterDatabase(w.name(o), dm)
		case o.Kind == 1:
			w.reg.RegisterDatabase(w.name(o), dm)
		case w.reg == nil:
			registry.RegisterDistribution(w.name(o), pm)
		default:
			w.reg.RegisterDistribution(w.name(o), pm)
		}
		r.ret = s.Seq()
	case "build":
		b := &buildRec{plan: o, token: new(int)}
		w.blds = append(w.blds, b)
		ctx := realctx.WithValue(realctx.Background(), buildKey{}, b)
		b.inv = s.Seq()
		var x interface{}
		var err error
		switch {
		case o.Kind == 0 && w.reg == nil:
			x, err = registry.NewListener(ctx, w.name(o), b.token)
		case o.Kind == 0:
			x, err = w.reg.NewListener(ctx, w.name(o), b.token)
		case o.Kind == 1 && w.reg == nil:
			x, err = registry.NewDatabase(ctx, w.name(o), b.token)
		case o.Kind == 1:
			x, err = w.reg.NewDatabase(ctx, w.name(o), b.token)
		case w.reg == nil:
			x, err = registry.NewDistribution(ctx, w.name(o), b.token)
		default:
			x, err = w.reg.NewDistribution(ctx, w.name(o), b.token)
		}
		b.ret = s.Seq()
		w.built(b, x, err)
	}
}

// built checks what a call to the registry returned.
func (w *regWorld) built(b *buildRec, x interface{}, err error) {
	what := fmt.Sprintf("building the %s n%d (from %d to %d)", kinds[b.plan.Kind], b.plan.Name, b.inv, b.ret)
	var same []*regRec
	for _, r := range w.recs {
		if r.plan.Kind == b.plan.Kind && r.plan.Name == b.plan.Name {
			same = append(same, r)
		}
	}
	if len(b.made) > 1 {
		w.fail("made-twice", "%s called %d makers", what, len(b.made))
		return
	}
	if len(b.made) == 0 {
		if err == nil {
			w.fail("not-made", "%s succeeded without calling a maker", what)
		}
		for _, r := range same {
			if r.ret < b.inv {
				w.fail("not-found", "%s failed without calling a maker after %v: %v", what, r, err)
				return
			}
		}
		zsim.Probe("nothing registered")
		return
	}
	r := b.made[0]
	if r.plan.Kind != b.plan.Kind || r.plan.Name != b.plan.Name {
		w.fail("wrong-maker", "%s called the maker of %v", what, r)
		return
	}
	for _, o := range same {
		if r.ret < o.inv && o.ret < b.inv {
			w.fail("stale-maker", "%s called the maker of %v although %v came later and before it", what, r, o)
			return
		}
	}
	if r.plan.Fail {
		if !errors.Is(err, r.err) {
			w.fail("error-lost", "%s returned %v although its maker failed with %v", what, err, r.err)
		}
		return
	}
	if err != nil {
		w.fail("error", "%s failed although its maker succeeded: %v", what, err)
		return
	}
	var m *made
	switch x := x.(type) {
	case *made:
		m = x
	case madeListener:
		m = x.made
	}
	if m == nil || m.by != r || m.for_ != b {
		w.fail("wrong-component", "%s returned something else than what its maker made", what)
	}
	zsim.Probe("a component was built")
}

func runReg(s *zsim.Sim, prop string, p *RegPlan) {
	w := &regWorld{s: s, prop: prop, plan: p}
	proc := s.NewProc("program")
	if p.Default {
		w.pref = "p."
	} else {
		w.reg = new(registry.Registry)
	}
	s.GoIn(proc, "main", func() {
		left := len(p.Actors)
		var wq zsim.WaitQ
		for i, a := range p.Actors {
			a := a
			s.GoIn(proc, fmt.Sprint("actor", i), func() {
				for _, o := range a {
					w.op(o)
				}
				left--
				wq.WakeAll(s)
			})
		}
		for left > 0 {
			wq.Wait(s, "actors")
		}
		// everything is there in the end
		for k := range kinds {
			for n := 0; n < 3; n++ {
				w.op(&RegOp{K: "build", Kind: k, Name: n})
			}
		}
		zsim.ExitProcess(0)
	})
	if !s.WaitDeath(proc, 24*time.Hour) {
		w.fail("hang", "the registry is stuck\n%s", s.Blocked())
		return
	}
	if proc.Crashed != "" {
		w.fail("panic", "the process died: %s\n%s", proc.Crashed, proc.Stack)
		return
	}
	h := fnv.New64a()
	for _, b := range w.blds {
		id := -1
		if len(b.made) > 0 {
			id = b.made[0].id
		}
		fmt.Fprintln(h, b.plan.Kind, b.plan.Name, id)
	}
	lib.StateHash = h.Sum64()
}
