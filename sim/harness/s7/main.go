// S7: the HTTP API over a files database, with concurrent writes, slow and
// failing database calls and clients that go away.
package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"image"
	"image/png"
	"io"
	"math"
	real "net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/draw"
	"github.com/vivint/rothko/draw/colors"
	"github.com/vivint/rothko/draw/graph"
	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/harness/lib"
	"github.com/vivint/rothko/internal/zsim/zcontext"
	"github.com/vivint/rothko/internal/zsim/znet"
	"github.com/vivint/rothko/internal/zsim/znet_http"
)

// Rec is a record to be stored: From and To are offsets in ns.
type Rec struct {
	M      int   `json:"m"`
	From   int64 `json:"from"`
	To     int64 `json:"to"`
	Obs    int64 `json:"obs"`
	V      int   `json:"v"`
	Merged int64 `json:"merged,omitempty"`
	Sleep  int64 `json:"sleep,omitempty"`
	Sync   bool  `json:"sync,omitempty"`
}

// Req is one request.
type Req struct {
	K       string            `json:"k"` // render query nonce other post
	M       int               `json:"m,omitempty"`
	Query   string            `json:"query,omitempty"`
	Results *int64            `json:"results,omitempty"`
	Now     int64             `json:"now,omitempty"` // offset
	NoNow   bool              `json:"noNow,omitempty"`
	Dur     int64             `json:"dur,omitempty"`
	W       int               `json:"w,omitempty"`
	H       int               `json:"h,omitempty"`
	Samples int               `json:"samples,omitempty"`
	PNG     bool              `json:"png,omitempty"`
	Omit    bool              `json:"omit,omitempty"`
	Odd     map[string]string `json:"odd,omitempty"`  // parameters that replace the ones above
	Cred    int               `json:"cred,omitempty"` // 0 right, others wrong, see auth

	Fault string `json:"fault,omitempty"` // err corrupt slow hang
	After int    `json:"after,omitempty"`
	Delay int64  `json:"delay,omitempty"`
	Abort string `json:"abort,omitempty"` // sent partial reading
	Wait  int64  `json:"wait,omitempty"`  // before it, and before an abort
}

type Plan struct {
	Metrics []string `json:"metrics"`
	Pre     []*Rec   `json:"pre"`
	Writers [][]*Rec `json:"writers"`
	Clients [][]*Req `json:"clients"`
	Auth    bool     `json:"auth,omitempty"`
	Pass    string   `json:"pass,omitempty"`
	Rescans []int64  `json:"rescans,omitempty"`
	Handles int      `json:"handles"`
	Workers int      `json:"workers"`
	Window  int      `json:"window"`
	Pairs   []*Req   `json:"pairs,omitempty"` // asked for as JSON and as an image when everything is quiet
}

type scen struct{}

func (scen) Name() string     { return "s7" }
func (scen) New() interface{} { return &Plan{} }

func main() {
	lib.Register(scen{})
	lib.Main()
}

const unit = int64(1000000000)

// giant holds sizes that nothing can be allocated for, not even tried to.
var giant = []string{"1125899906842624", "1152921504606846976", "2305843009213693951", "4611686018427387904", "9223372036854775807"}

var names = []string{"web.a", "web.b", "db.cpu", "x.y.z", "Web.C", "solo", "db.cpu.0", "a/b.c", "Q[0].Z@", "A.ZedA"}

func (scen) Gen(r *lib.Rand, prop string, deep bool) interface{} {
	p := &Plan{Auth: r.P(0.15), Handles: r.Range(1, 10), Workers: r.Range(1, 3), Window: r.Of(512, 65536, 65536)}
	if prop == "C35" {
		p.Auth = r.P(0.9)
	}
	p.Pass = r.OfS("s3cret", "s3cret", "", "a:b", "é ü", "x")
	if r.P(0.3) {
		for i := r.Range(1, 3); i > 0; i-- {
			p.Rescans = append(p.Rescans, int64(r.Log(5000000)))
		}
	}
	nm := r.Range(1, 4)
	off := r.N(len(names))
	for i := 0; i < nm; i++ {
		p.Metrics = append(p.Metrics, names[(off+i)%len(names)])
	}
	tiny := r.P(0.08) // everything happens within microseconds, a pixel is some nanoseconds
	clock := make([]int64, nm)
	total := int64(1)
	next := func(m int) *Rec {
		c := &Rec{M: m}
		step := int64(r.Range(1, 100)) * unit / 10
		if r.P(0.05) {
			step = 1 + int64(r.N(5))
		}
		if tiny {
			step = 1 + int64(r.N(r.Of(3, 20, 400)))
		}
		end := clock[m] + step
		c.To = end
		c.From = clock[m]
		switch r.Pick(6, 2, 2) {
		case 1: // gap
			c.From = clock[m] + r64(r, step)
		case 2: // overlap
			c.From = clock[m] - r64(r, 30*unit)
			if tiny {
				c.From = clock[m] - r64(r, 300)
			}
			if c.From < 0 {
				c.From = 0
			}
		}
		if c.From >= c.To {
			c.From = c.To - 1
		}
		if r.P(0.03) { // captured within one tick of the clock
			c.From = c.To
		}
		clock[m] = end
		if end > total {
			total = end
		}
		c.Obs = int64(r.Range(1, 60))
		if r.P(0.3) {
			c.Merged = int64(r.Range(1, 5))
			if c.Merged == 1 {
				c.Merged = -1 // a record from before there was such a field
			}
		}
		return c
	}
	for m := 0; m < nm; m++ {
		if r.P(0.8) {
			for i := r.Range(0, 12); i > 0; i-- {
				p.Pre = append(p.Pre, next(m))
			}
		}
	}
	for m := 0; m < nm; m++ {
		if r.P(0.6) {
			var l []*Rec
			for i := r.Range(1, 6); i > 0; i-- {
				c := next(m)
				c.Sync = r.P(0.5)
				if r.P(0.4) {
					c.Sleep = int64(r.Log(3000000))
				}
				l = append(l, c)
			}
			p.Writers = append(p.Writers, l)
		}
	}
	// distinct values, all exact in the rendered precision
	vals := map[int]bool{}
	give := func(c *Rec) {
		for {
			v := r.Range(-1000, 1000)
			if !vals[v] {
				vals[v] = true
				c.V = v
				return
			}
		}
	}
	for _, c := range p.Pre {
		give(c)
	}
	for _, l := range p.Writers {
		for _, c := range l {
			give(c)
		}
	}
	nc, max := r.Range(1, 4), 4
	if deep {
		nc, max = r.Range(1, 8), 10
	}
	for c := 0; c < nc; c++ {
		var l []*Req
		for i := r.Range(1, max); i > 0; i-- {
			q := &Req{M: r.N(nm + 1)}
			if q.M == nm && r.P(0.7) {
				q.M = r.N(nm)
			}
			q.K = r.OfS("render", "render", "render", "render", "query", "query", "query", "nonce", "other", "post")
			if r.P(0.5) {
				q.Wait = int64(r.Log(5000000))
			}
			q.Now = r64(r, total+unit)
			if r.P(0.4) {
				q.Now = total + 1 + r64(r, unit*10)
			}
			q.Dur = 1 + r64(r, total)
			if r.P(0.5) {
				q.Dur = int64(r.Range(1, 100)) * unit
			}
			q.NoNow = r.P(0.05)
			q.Omit = r.P(0.05)
			q.W, q.H, q.Samples = r.Range(250, 1200), r.Range(100, 400), r.Range(1, 30)
			if tiny {
				q.Now, q.Dur = total+1+int64(r.N(r.Of(1, 20, 2000))), int64(q.W*r.Range(1, 8)+r.N(q.W))
				if r.P(0.3) {
					q.Now = r64(r, total+unit)
				}
			}
			if q.K == "render" && r.P(0.05) {
				q.PNG = true
				q.W, q.H = r.Range(250, 300), r.Range(100, 120)
			}
			if q.K == "render" && r.P(0.12) {
				q.Odd = map[string]string{}
				for i := r.Range(1, 3); i > 0; i-- {
					switch r.N(8) {
					case 0:
						q.Odd["width"] = fmt.Sprint(r.Range(-10, 260))
						if r.P(0.1) {
							q.Odd["width"] = r.OfS(giant...)
							q.Odd["duration"] = "2562047h"
						}
					case 1:
						q.Odd["height"] = fmt.Sprint(r.Of(r.Range(-10, 90), r.Range(-10, 90), r.Range(48, 56)))
						if r.P(0.1) {
							q.Odd["height"] = r.OfS(giant...)
						}
					case 2:
						q.Odd["duration"] = r.OfS("0s", "1ns", "7ns", "-1s", "600ns", "1us", "-1ns", "87600h", "2562047h")
					case 3:
						q.Odd["samples"] = fmt.Sprint(r.Range(-2, 2))
						if r.P(0.1) {
							q.Odd["samples"] = r.OfS(giant...)
						}
					case 4:
						q.Odd["padding"] = r.OfS("-1", "-5", "-1000", "1", "20", "-60", "100", "4611686018427387904", "4611686018427387903", "9223372036854775807")
					case 5:
						q.Odd["compression"] = r.OfS("0", "-1", "0.001", "1000", "NaN", "+Inf", "1e300")
					case 6:
						q.Odd["now"] = r.OfS("0", "-1", "1", "9223372036854775807", "-9223372036854775808")
					case 7:
						q.Odd["metric"] = r.OfS("", "..", "/", "a//b", "%00", "\x00", strings.Repeat("a.", 200))
					}
				}
				q.PNG = r.P(0.3)
			}
			if q.K == "query" && r.P(0.05) {
				q.Odd = map[string]string{"results": r.OfS("0", "-1", "-9223372036854775808", "1000000000000", "9223372036854775807")}
			}
			if q.K == "query" {
				q.Query = r.OfS("", "", "web", "db", "web.a", "cpu", "w*", "z", "db cpu", "W.", "a?b", "nothing", "y.z", "c?u", "*b", "WEB", "d*.c*", "a.b c", "b*.a", "cpu.0", ".b", "x.z", "x*z", "?", "e*b.a")
				if r.P(0.2) {
					q.Query = r.OfS("q{", "q[", "z`", "Z@", "[0]", "{0}", "a.z", "Z.A", "n*d", "A", "Z")
				}
				if r.P(0.3) {
					b := []byte(q.Query)
					for i, c := range b {
						if 'a' <= c|0x20 && c|0x20 <= 'z' && r.P(0.5) {
							b[i] = c ^ 0x20
						}
					}
					q.Query = string(b)
				}
				if r.P(0.6) {
					n := int64(r.Range(1, 6))
					q.Results = &n
				}
			}
			if p.Auth && r.P(0.4) {
				q.Cred = r.Range(1, 14)
			}
			if q.K == "render" || q.K == "query" {
				switch r.Pick(60, 12, 5, 8, 3) {
				case 1:
					q.Fault, q.After = "err", r.N(5)
				case 2:
					q.Fault, q.After = "corrupt", r.N(5)
				case 3:
					q.Fault, q.After, q.Delay = "slow", r.N(5), int64(r.Log(8000000))
					if r.P(0.2) {
						q.Delay = int64(r.Log(int(10 * time.Minute)))
					}
				case 4:
					q.Fault, q.After = "hang", r.N(3)
					q.Abort = "sent"
				}
			}
			if q.Abort == "" && r.P(0.08) {
				q.Abort = r.OfS("sent", "partial", "reading")
			}
			l = append(l, q)
		}
		p.Clients = append(p.Clients, l)
	}
	if r.P(0.12) {
		for i := r.Range(1, 2); i > 0; i-- {
			q := &Req{K: "render", M: r.N(nm), W: r.Range(250, 320), H: r.Range(100, 130), Samples: r.Range(1, 30)}
			q.Now = total + 1 + r64(r, unit)
			if r.P(0.3) {
				q.Now = r64(r, total+unit)
			}
			q.Dur = int64(r.Range(1, 100)) * unit
			p.Pairs = append(p.Pairs, q)
		}
	}
	return p
}

func r64(r *lib.Rand, n int64) int64 {
	if n <= 0 {
		return 0
	}
	return int64(r.Next() % uint64(n))
}

func (scen) Shrink(pl interface{}) (out []interface{}) {
	p := pl.(*Plan)
	cp := func() *Plan {
		q := *p
		q.Pre = append([]*Rec(nil), p.Pre...)
		q.Writers = append([][]*Rec(nil), p.Writers...)
		q.Clients = append([][]*Req(nil), p.Clients...)
		return &q
	}
	for i := range p.Pairs {
		q := cp()
		q.Pairs = append(append([]*Req(nil), p.Pairs[:i]...), p.Pairs[i+1:]...)
		out = append(out, q)
	}
	for i := range p.Clients {
		q := cp()
		q.Clients = append(q.Clients[:i], q.Clients[i+1:]...)
		out = append(out, q)
	}
	for i := range p.Writers {
		q := cp()
		q.Writers = append(q.Writers[:i], q.Writers[i+1:]...)
		out = append(out, q)
	}
	for i, l := range p.Clients {
		for j := range l {
			q := cp()
			q.Clients[i] = append(append([]*Req(nil), l[:j]...), l[j+1:]...)
			out = append(out, q)
		}
	}
	for i, l := range p.Writers {
		for j := range l {
			q := cp()
			q.Writers[i] = append(append([]*Rec(nil), l[:j]...), l[j+1:]...)
			out = append(out, q)
		}
	}
	for i := range p.Pre {
		q := cp()
		q.Pre = append(q.Pre[:i], q.Pre[i+1:]...)
		out = append(out, q)
	}
	return
}

// ---- the database in between

type rec struct {
	plan       *Rec
	start, end int64
	obs        int64
	data       []byte
	queued     int64
	acked      int64
	ok         bool
	err        error
}

type req struct {
	plan     *Req
	id       int
	now      int64
	inv, ret int64
	wall0    int64
	wall1    int64
	dbErr    error
	cbErr    error // what the server told the database
	badRec   bool
	handled  bool
	faulted  bool
	inDB     int
	allowed  bool
}

type world struct {
	s     *zsim.Sim
	prop  string
	plan  *Plan
	proc  *zsim.Proc
	base  int64
	recs  []*rec
	db    *files.DB
	reqs  []*req
	panic string
	pair  *pair
	slow  int // calls of the database that are taking their time
	wq    zsim.WaitQ
	h     uint64
}

func (w *world) fail(kind, f string, args ...interface{}) {
	lib.Fail(w.prop, []string{"C18"}, kind, f, args...)
}

func (w *world) fail35(kind, f string, args ...interface{}) {
	lib.Fail(w.prop, []string{"C35"}, kind, f, args...)
}

type reqKey struct{}

type wrapDB struct {
	database.DB
	w *world
}

var errInjected = errors.New("injected database failure")

func (d wrapDB) enter(ctx context.Context) *req {
	q, _ := ctx.Value(reqKey{}).(*req)
	if q == nil {
		q = &req{plan: &Req{}}
	}
	q.inDB++
	return q
}

// fault applies the planned fault of the request at the k-th callback.
func (d wrapDB) fault(ctx context.Context, q *req, k int) error {
	s := d.w.s
	if q.faulted || q.plan.Fault == "" || k < q.plan.After {
		return nil
	}
	switch q.plan.Fault {
	case "err":
		q.faulted = true
		zsim.FaultHit("database error")
		return errInjected
	case "slow":
		q.faulted = true
		zsim.FaultHit("slow database")
		d.w.slow++
		s.Sleep(time.Duration(q.plan.Delay))
		d.w.slow--
	case "hang":
		q.faulted = true
		zsim.FaultHit("hanging database")
		zsim.Recv(ctx.Done())
		return ctx.Err()
	}
	return nil
}

func (d wrapDB) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	q := d.enter(ctx)
	k := 0
	var inj error
	if q.plan.After == 0 {
		if err := d.fault(ctx, q, 0); err != nil {
			q.dbErr = err
			return err
		}
	}
	err := d.DB.Query(ctx, metric, end, buf, func(ctx context.Context, start, end int64, b []byte) (bool, error) {
		if zsim.Killed() {
			return false, nil
		}
		if err := d.fault(ctx, q, k); err != nil {
			inj = err
			return false, nil
		}
		if q.plan.Fault == "corrupt" && k == q.plan.After {
			zsim.FaultHit("undecodable record")
			q.badRec = true
			b = []byte{0xff, 0xff, 0xff}
		}
		k++
		ok, err := cb(ctx, start, end, b)
		q.cbErr = err
		return ok, err
	})
	if inj != nil {
		err = inj
	}
	if q.cbErr == nil || inj != nil {
		q.dbErr = err
	}
	return err
}

func (d wrapDB) Metrics(ctx context.Context, cb func(string) (bool, error)) error {
	q := d.enter(ctx)
	k := 0
	var inj error
	if q.plan.After == 0 {
		if err := d.fault(ctx, q, 0); err != nil {
			q.dbErr = err
			return err
		}
	}
	err := d.DB.Metrics(ctx, func(name string) (bool, error) {
		if zsim.Killed() {
			return false, nil
		}
		if err := d.fault(ctx, q, k); err != nil {
			inj = err
			return false, nil
		}
		k++
		ok, err := cb(name)
		q.cbErr = err
		return ok, err
	})
	if inj != nil {
		err = inj
	}
	if q.cbErr == nil || inj != nil {
		q.dbErr = err
	}
	return err
}

// ---- run

const addr = ":8080"
const user = "someone"

func (scen) Run(s *zsim.Sim, prop string, pl interface{}) {
	w := &world{s: s, prop: prop, plan: pl.(*Plan)}
	p := w.plan
	if p.Window > 0 {
		s.Net.Window = p.Window
	}
	s.Net.MaxDelay = 20 * time.Microsecond
	w.base = s.WallNow()
	s.FS.Mkdirs("/db")
	w.proc = s.NewProc("server")
	http.HandlerPanic = func(v interface{}) { w.panic = fmt.Sprint(v) }
	s.GoIn(w.proc, "main", func() { w.main() })
	if !s.WaitDeath(w.proc, 48*time.Hour) {
		w.fail("hang", "requests are stuck\n%s", s.Blocked())
		return
	}
	if w.proc.Crashed != "" {
		w.fail("panic", "the process died: %s\n%s", w.proc.Crashed, w.proc.Stack)
		return
	}
	lib.StateHash = w.h
}

func (w *world) put(c *Rec) *rec {
	s := w.s
	x := &rec{plan: c, start: w.base + c.From, end: w.base + c.To, obs: c.Obs}
	d, err := tdigest.Params{Compression: 5}.New()
	if err != nil {
		panic(err)
	}
	for i := int64(0); i < c.Obs && i < 20; i++ {
		d.Observe(float64(c.V))
	}
	r := data.Record{StartTime: x.start, EndTime: x.end, Observations: c.Obs, Distribution: d.Marshal(nil), Kind: d.Kind(),
		Min: float64(c.V), Max: float64(c.V), Merged: merged(c)}
	if c.Merged < 0 {
		r.Merged = 0
	}
	x.data, err = r.Marshal()
	if err != nil {
		panic(err)
	}
	w.recs = append(w.recs, x)
	var wq zsim.WaitQ
	done := false
	x.queued = s.Seq()
	w.db.Queue(context.Background(), w.plan.Metrics[c.M], x.start, x.end, x.data, func(ok bool, err error) {
		if zsim.Killed() {
			return
		}
		x.acked, x.ok, x.err = s.Seq(), ok, err
		done = true
		wq.WakeAll(s)
		w.wq.WakeAll(s)
	})
	if c.Sync || w.plan.Workers > 1 { // several workers may swap values
		for !done && !zsim.Killed() {
			wq.Wait(s, "write")
		}
	}
	return x
}

func merged(c *Rec) int64 {
	if c.Merged > 0 {
		return c.Merged
	}
	return 1
}

func (w *world) main() {
	s, p := w.s, w.plan
	w.db = files.New("/db", files.Options{Size: 512, Cap: 64, Files: 10, Tuning: files.Tuning{Buffer: 10, Handles: p.Handles, Workers: p.Workers}})
	ctx, cancel := context.WithCancel(context.Background())
	dbDone, srvDone := false, false
	s.GoIn(w.proc, "db", func() {
		w.db.Run(ctx)
		if zsim.Killed() {
			return
		}
		dbDone = true
		w.wq.WakeAll(s)
	})
	for _, c := range p.Pre {
		x := *c
		x.Sync = true
		w.put(&x)
	}
	opts := api.Options{}
	if p.Auth {
		opts.Username, opts.Password = user, p.Pass
	}
	h := api.New(wrapDB{w.db, w}, nil, opts)
	srv := &http.Server{Addr: addr, Handler: real.HandlerFunc(func(rw real.ResponseWriter, r *real.Request) {
		var id int
		fmt.Sscan(r.Header.Get("X-Id"), &id)
		if id < len(w.reqs) {
			r = r.WithContext(context.WithValue(r.Context(), reqKey{}, w.reqs[id]))
		}
		h.ServeHTTP(rw, r)
	})}
	s.GoIn(w.proc, "http", func() {
		srv.ListenAndServe()
		if zsim.Killed() {
			return
		}
		srvDone = true
		w.wq.WakeAll(s)
	})
	for s.Net.Listener(addr) == nil {
		s.Sleep(time.Microsecond)
	}
	left := len(p.Writers) + len(p.Clients)
	for i, l := range p.Writers {
		l := l
		s.GoIn(w.proc, fmt.Sprint("writer", i), func() {
			for _, c := range l {
				s.Sleep(time.Duration(c.Sleep))
				w.put(c)
			}
			left--
			w.wq.WakeAll(s)
		})
	}
	if len(p.Rescans) > 0 {
		left++
		s.GoIn(w.proc, "rescans", func() {
			for _, d := range p.Rescans {
				s.Sleep(time.Duration(d))
				if err := w.db.PopulateMetrics(ctx); err != nil {
					w.fail("rescan", "a re-scan failed: %v", err)
				}
			}
			left--
			w.wq.WakeAll(s)
		})
	}
	ext := s.NewProc("clients")
	for i, l := range p.Clients {
		l := l
		s.GoIn(ext, fmt.Sprint("client", i), func() {
			var cn *conn
			for _, q := range l {
				cn = w.request(cn, q)
			}
			if cn != nil {
				cn.c.Close()
			}
			left--
			w.wq.WakeAll(s)
		})
	}
	for left > 0 {
		w.wq.Wait(s, "clients and writers")
	}
	for _, x := range w.recs {
		for x.acked == 0 {
			w.wq.Wait(s, "write callback")
		}
		if !x.ok {
			// increasing ends, room for everything: nothing may refuse it
			w.fail("write-refused", "a record was not stored (%v)", x.err)
		}
	}
	// connections drain, then everything stops
	drain := func() {
		for n := 0; n < 20; n++ {
			s.Sleep(50 * time.Millisecond)
			s.WaitIdle()
			if s.Net.OpenConns(w.proc) == 0 {
				break
			}
			for w.slow > 0 {
				// the database takes its time whether or not the client is there
				s.Sleep(time.Second)
			}
		}
	}
	drain()
	left = 1
	s.GoIn(ext, "pairs", func() {
		var cn *conn
		for _, q := range p.Pairs {
			a, b := *q, *q
			a.PNG, b.PNG = false, true
			w.pair = &pair{}
			// merging digests is randomised
			s.SeedEntropy(1)
			if cn = w.request(cn, &a); w.pair.ok {
				w.pair.entropy = s.Entropy()
				s.SeedEntropy(1)
				cn = w.request(cn, &b)
			}
			w.pair = nil
		}
		if cn != nil {
			cn.c.Close()
		}
		left--
		w.wq.WakeAll(s)
	})
	for left > 0 {
		w.wq.Wait(s, "pairs")
	}
	drain()
	if n := s.Net.OpenConns(w.proc); n > 0 {
		w.fail("handler-left", "%d connections are still being served although their clients have gone: %s", n, w.proc.TaskNames())
	}
	srv.Close()
	for !srvDone {
		w.wq.Wait(s, "http server")
	}
	cancel()
	for !dbDone {
		w.wq.Wait(s, "database")
	}
	zsim.ExitProcess(0)
}

// auth puts the planned credentials on the request and returns whether they
// are the right ones.
func (w *world) auth(hr *real.Request, cred int) bool {
	pass := w.plan.Pass
	if !w.plan.Auth {
		if cred == 1 {
			hr.SetBasicAuth("any", "thing")
		}
		return true
	}
	u, p := user, pass
	switch cred {
	case 1:
		return false
	case 2:
		u += "x"
	case 3:
		p += "x"
	case 4:
		u, p = p, u
	case 5:
		u = strings.ToUpper(u)
	case 6:
		p = strings.ToUpper(p)
	case 7:
		u = ""
	case 8:
		p = ""
	case 9:
		u = u[:len(u)-1]
	case 10:
		p = p[:len(p)/2]
	case 11:
		p += " "
	case 12:
		hr.Header.Set("Authorization", "Basic !!!")
		return false
	case 13:
		hr.Header.Set("Authorization", "Bearer "+base64.StdEncoding.EncodeToString([]byte(u+":"+p)))
		return false
	case 14:
		u, p = "", ""
	}
	hr.SetBasicAuth(u, p)
	// the first colon ends the user name
	full := u + ":" + p
	return full == user+":"+pass
}

type conn struct {
	c  *net.TCPConn
	br *bufio.Reader
}

func (w *world) request(cn *conn, q *Req) *conn {
	s := w.s
	if q.Abort != "reading" {
		s.Sleep(time.Duration(q.Wait))
	}
	if cn == nil {
		c, err := net.Dial("tcp", "localhost"+addr)
		if err != nil {
			w.fail("refused", "the running server refused a connection: %v", err)
			return nil
		}
		cn = &conn{c: c.(*net.TCPConn)}
		cn.br = bufio.NewReader(c)
	}
	x := &req{plan: q, id: len(w.reqs), now: w.base + q.Now}
	w.reqs = append(w.reqs, x)
	v := url.Values{}
	path := "/api/nonce"
	switch q.K {
	case "render":
		path = "/api/render"
		v.Set("metric", w.metric(q.M))
		if !q.NoNow {
			v.Set("now", fmt.Sprint(x.now))
		}
		if !q.Omit || q.PNG {
			v.Set("width", fmt.Sprint(q.W))
			v.Set("height", fmt.Sprint(q.H))
		}
		if !q.Omit {
			v.Set("duration", time.Duration(q.Dur).String())
			v.Set("samples", fmt.Sprint(q.Samples))
		}
	case "query":
		path = "/api/query"
		v.Set("query", q.Query)
		if q.Results != nil {
			v.Set("results", fmt.Sprint(*q.Results))
		}
	case "other":
		path = "/nowhere"
	}
	for k, o := range q.Odd {
		zsim.Probe("odd " + k)
		v.Set(k, o)
	}
	method := "GET"
	if q.K == "post" {
		method = "POST"
	}
	u := &url.URL{Scheme: "http", Host: "localhost", Path: path, RawQuery: v.Encode()}
	hr := &real.Request{Method: method, URL: u, Host: "localhost", Header: real.Header{"X-Id": {fmt.Sprint(x.id)}}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if !q.PNG {
		hr.Header.Set("Accept", "application/json")
	}
	x.allowed = w.auth(hr, q.Cred)
	var b bytes.Buffer
	hr.Write(&b)
	out := b.Bytes()
	x.inv, x.wall0 = s.Seq(), s.WallNow()
	if q.Abort == "partial" {
		out = out[:len(out)/2]
	}
	_, err := cn.c.Write(out)
	if err != nil {
		w.fail("dropped", "request %d: the server dropped the connection: %v", x.id, err)
		return nil
	}
	if q.Abort != "" {
		zsim.FaultHit("request aborted by its client")
		s.Sleep(time.Duration(q.Wait))
		if q.Abort == "reading" {
			cn.br.Peek(20)
		}
		cn.c.C.Reset()
		return nil
	}
	resp, err := real.ReadResponse(cn.br, hr)
	if err != nil {
		w.fail("no-response", "request %d (%s %s) got no response: %v %s", x.id, method, u, err, w.panic)
		return nil
	}
	body, err := io.ReadAll(resp.Body)
	x.ret, x.wall1 = s.Seq(), s.WallNow()
	if err != nil {
		w.fail("truncated", "the response to request %d (%s %s) was cut: %v %s", x.id, method, u, err, w.panic)
		return nil
	}
	w.check(x, u.String(), resp, body)
	if resp.Close {
		cn.c.Close()
		return nil
	}
	return cn
}

func (w *world) metric(m int) string {
	if m < len(w.plan.Metrics) {
		return w.plan.Metrics[m]
	}
	return "never.written"
}

func (w *world) check(x *req, u string, resp *real.Response, body []byte) {
	q := x.plan
	code := resp.StatusCode
	zsim.Tracef("response %d %s: %d, %d bytes", x.id, u, code, len(body))
	h := fnv.New64a()
	fmt.Fprintln(h, u, code, len(body), w.h)
	w.h = h.Sum64()
	if !x.allowed {
		zsim.Probe("refused credentials")
		if code != 401 {
			w.fail35("no-auth", "request %d (%s) without the credentials got status %d", x.id, u, code)
		}
		if x.inDB > 0 {
			w.fail35("no-auth", "the database was read for request %d (%s), which has wrong credentials", x.id, u)
		}
		for _, m := range w.plan.Metrics {
			if bytes.Contains(body, []byte(m)) {
				w.fail35("no-auth", "the answer to request %d (%s), which has wrong credentials, names %q", x.id, u, m)
			}
		}
		return
	}
	if code == 401 {
		w.fail35("refused", "request %d (%s) with the right credentials got status %d", x.id, u, code)
		return
	}
	switch q.K {
	case "post":
		if code < 400 {
			w.fail("bad-status", "a POST request got status %d", code)
		}
		return
	case "other":
		if code != 404 {
			w.fail("bad-status", "a request for nothing got status %d", code)
		}
		return
	case "nonce":
		if code != 200 || len(body) == 0 {
			w.fail("bad-status", "a nonce request got status %d", code)
		}
		return
	}
	if q.Odd != nil {
		if code < 200 || code > 599 {
			w.fail("bad-status", "request %d (%s) got status %d", x.id, u, code)
		}
		if code == 200 && x.dbErr == nil && !x.badRec {
			w.checkOdd(x, u, resp, body)
		}
		return // otherwise an answer is all that it asks for
	}
	if x.dbErr != nil || x.badRec {
		if code < 400 {
			w.fail("error-hidden", "the database failed (%v) while serving request %d (%s) but its status is %d", x.dbErr, x.id, u, code)
		}
		return
	}
	if q.K == "query" {
		w.checkQuery(x, u, code, body)
		return
	}
	w.checkRender(x, u, code, body)
}

// checkOdd checks that a success carries something.
func (w *world) checkOdd(x *req, u string, resp *real.Response, body []byte) {
	q := x.plan
	var err error
	switch {
	case q.K == "query":
		var l []string
		err = json.Unmarshal(body, &l)
	case q.PNG:
		_, err = png.Decode(bytes.NewReader(body))
	default:
		var out struct {
			Metric *string
			Now    *int64
		}
		err = json.Unmarshal(body, &out)
		if err == nil && (out.Metric == nil || out.Now == nil) {
			err = errors.New("no metric or time")
		}
	}
	if err != nil {
		w.fail("bad-body", "request %d (%s) got status 200 and a body that is none: %v %q", x.id, u, err, short(body))
	}
	if m, ok := q.Odd["metric"]; ok && m == "" {
		w.fail("bad-status", "request %d (%s) names no metric and got status 200", x.id, u)
	}
}

func (w *world) checkQuery(x *req, u string, code int, body []byte) {
	q := x.plan
	if code != 200 {
		w.fail("bad-status", "request %d (%s) got status %d although the database did not fail: %s", x.id, u, code, body)
		return
	}
	var got []string
	if err := json.Unmarshal(body, &got); err != nil {
		w.fail("bad-body", "the response to request %d (%s) does not parse: %v", x.id, u, err)
		return
	}
	n := 10
	if q.Results != nil {
		n = int(*q.Results)
	}
	must, may := map[string]bool{}, map[string]bool{}
	for _, c := range w.recs {
		m := w.metric(c.plan.M)
		if !matches(q.Query, m, false) {
			continue
		}
		if matches(q.Query, m, true) && c.acked != 0 && c.acked < x.inv && c.ok {
			must[m] = true
		}
		may[m] = true
	}
	seen := map[string]bool{}
	for _, m := range got {
		if seen[m] {
			w.fail("query-twice", "request %d (%s) lists %q twice", x.id, u, m)
			return
		}
		seen[m] = true
		if !may[m] {
			w.fail("query-wrong", "request %d (%s) lists %q, which is not stored or does not match", x.id, u, m)
			return
		}
	}
	if len(got) > n {
		w.fail("query-many", "request %d (%s) lists %d names", x.id, u, len(got))
		return
	}
	if len(got) < n {
		for m := range must {
			if !seen[m] {
				w.fail("query-missing", "request %d (%s) does not list %q, which was stored before it: %q", x.id, u, m, got)
				return
			}
		}
	}
}

// matches is the meaning of a query: every word of it matches the name; a word
// matches consecutive components of a name, each by a glob that may occur
// anywhere in the component, in any case. Whether a star at the end needs
// something to match is left open: strict needs it.
func matches(q, name string, strict bool) bool {
	for _, word := range strings.Fields(q) {
		pats, comps := strings.Split(strings.ToLower(word), "."), strings.Split(strings.ToLower(name), ".")
		hit := false
		for i := range comps {
			ok := true
			for j, p := range pats {
				c := ""
				if i+j < len(comps) {
					c = comps[i+j]
				}
				ok = ok && globs("*"+p, c, strict)
			}
			hit = hit || ok
		}
		if !hit {
			return false
		}
	}
	return true
}

func globs(p, n string, strict bool) bool {
	switch {
	case p == "":
		return true
	case p[0] == '*':
		if n == "" {
			return !strict && globs(p[1:], n, strict)
		}
		return globs(p[1:], n, strict) || globs(p, n[1:], strict)
	case n == "":
		return false
	}
	return (p[0] == '?' || p[0] == n[0]) && globs(p[1:], n[1:], strict)
}

type column = draw.Column

// pair holds what a JSON request got while nothing changes, for the request of
// the same as an image.
type pair struct {
	ok       bool
	columns  []column
	earliest dist.Dist
	entropy  uint64
}

func (w *world) checkPair(x *req, u string, im image.Image) {
	q := x.plan
	opts := graph.MeasureOptions{Now: x.now, Duration: time.Duration(q.Dur), Width: q.W, Height: q.H, Earliest: w.pair.earliest}
	meas, ok := graph.Measure(context.Background(), opts)
	if !ok || meas.Height < 2 || zsim.S.Entropy() != w.pair.entropy {
		// something else, such as the handler of an aborted request, used
		// some of the entropy
		return
	}
	want := meas.Draw(context.Background(), graph.DrawOptions{Columns: w.pair.columns, Colors: colors.Viridis}).AsImage()
	for i := 0; i < q.W; i++ {
		for j := 0; j < q.H; j++ {
			r1, g1, b1, _ := im.At(i, j).RGBA()
			r2, g2, b2, _ := want.At(i, j).RGBA()
			if r1 != r2 || g1 != g2 || b1 != b2 {
				w.fail("image-differs", "the image in the response to request %d (%s) differs at %d,%d from what its data draw", x.id, u, i, j)
				return
			}
		}
	}
	// the heatmap has the colors of the data
	for _, c := range w.pair.columns {
		for y := 0; y < meas.Height; y++ {
			v := c.Data[int(float64(y)*(float64(len(c.Data)-1)/float64(meas.Height-1)))]
			k := colors.Viridis[int(w.pair.earliest.CDF(v)*float64(len(colors.Viridis)-1))]
			for i := c.X; i < c.X+c.W && i < meas.Width; i++ {
				r, g, b, _ := im.At(meas.X+i, meas.Y+meas.Height-1-y).RGBA()
				if byte(r>>8) != k.R || byte(g>>8) != k.G || byte(b>>8) != k.B {
					w.fail("image-differs", "the image in the response to request %d (%s) has the wrong color for the value %v at column %d, row %d", x.id, u, v, i, y)
					return
				}
			}
		}
	}
	zsim.Probe("image compared")
}

func (w *world) checkRender(x *req, u string, code int, body []byte) {
	q := x.plan
	if q.Dur < int64(q.W) && code != 200 {
		return // less than a nanosecond for a pixel
	}
	var mine []*rec
	for _, c := range w.recs {
		if c.plan.M == q.M {
			mine = append(mine, c)
		}
	}
	sort.SliceStable(mine, func(i, j int) bool { return mine[i].end < mine[j].end })
	now := x.now
	if q.NoNow {
		now = 0 // unknown yet
	}
	// the newest record that the response must know about
	newest := -1
	for i, c := range mine {
		lim := now
		if q.NoNow {
			lim = x.wall0
		}
		if c.end < lim && c.acked != 0 && c.acked < x.inv && c.ok {
			newest = i
		}
	}
	if q.PNG {
		if newest < 0 && code != 200 {
			return
		}
		if code != 200 {
			w.fail("bad-status", "request %d (%s) got status %d although the database did not fail: %s", x.id, u, code, short(body))
			return
		}
		im, err := png.Decode(bytes.NewReader(body))
		if err != nil || im.Bounds().Dx() != q.W || im.Bounds().Dy() != q.H {
			w.fail("bad-body", "the image in the response to request %d (%s) is wrong: %v", x.id, u, err)
		} else if w.pair != nil && w.pair.ok {
			w.checkPair(x, u, im)
		}
		return
	}
	if code != 200 {
		if newest >= 0 {
			w.fail("bad-status", "request %d (%s) got status %d although the database did not fail and holds data: %s", x.id, u, code, short(body))
		}
		return
	}
	var out struct {
		Metric   string   `json:"metric"`
		Columns  []column `json:"columns"`
		Earliest []byte   `json:"earliest"`
		Now      int64    `json:"now"`
		Duration int64    `json:"duration"`
		Width    int      `json:"width"`
		Height   int      `json:"height"`
	}
	if err := json.Unmarshal(body, &out); err != nil {
		w.fail("bad-body", "the response to request %d (%s) does not parse: %v", x.id, u, err)
		return
	}
	if q.NoNow {
		now = out.Now
		if now < x.wall0 || now > x.wall1 {
			w.fail("bad-body", "the response to request %d (%s) is for the time %d", x.id, u, out.Now)
			return
		}
	}
	if q.Omit {
		c := *q
		q = &c
		q.Dur, q.W, q.H = out.Duration, out.Width, out.Height
		if len(out.Columns) > 0 {
			q.Samples = len(out.Columns[0].Data) - 1
		}
	}
	if out.Metric != w.metric(q.M) || out.Now != now || out.Duration != q.Dur || out.Width != q.W || out.Height != q.H {
		w.fail("bad-body", "the response to request %d (%s) echoes other parameters: %+v", x.id, u, out)
		return
	}
	e := -1
	for i, c := range mine {
		if bytes.Equal(c.data, out.Earliest) {
			e = i
		}
	}
	if e < 0 {
		w.fail("render-wrong", "the newest record in the response to request %d (%s) is not one of that metric", x.id, u)
		return
	}
	if mine[e].end >= now || mine[e].queued > x.ret {
		w.fail("render-wrong", "the newest record in the response to request %d (%s) ends at %d, not before %d", x.id, u, mine[e].end, now)
		return
	}
	if e < newest {
		w.fail("render-stale", "the response to request %d (%s) does not know the record that ends at %d, which was stored before it", x.id, u, mine[newest].end)
		return
	}
	// how wide the drawing is
	var er data.Record
	if err := er.Unmarshal(out.Earliest); err != nil {
		panic(err)
	}
	dist, err := load.Load(context.Background(), er)
	if err != nil {
		panic(err)
	}
	meas, ok := graph.Measure(context.Background(), graph.MeasureOptions{Now: now, Duration: time.Duration(q.Dur), Width: q.W, Height: q.H, Earliest: dist})
	if !ok {
		return
	}
	if w.pair != nil {
		*w.pair = pair{ok: true, columns: out.Columns, earliest: dist}
	}
	width := int64(meas.Width)
	ps := q.Dur / width
	if ps == 0 {
		return
	}
	px := func(t int64) int64 {
		d := now - t
		k := d / ps
		if d%ps != 0 {
			k++
		}
		if k > width {
			return 0
		}
		return width - k
	}
	type span struct {
		c      *rec
		lo, hi int64
	}
	var set []span
	for i := e; i >= 0; i-- {
		c := mine[i]
		set = append(set, span{c, px(c.start), px(c.end)})
		if c.end < now-q.Dur {
			zsim.Probe("record before the window")
			break
		}
	}
	at := func(p int64) (l []*rec) {
		for _, sp := range set {
			if sp.lo <= p && p <= sp.hi {
				l = append(l, sp.c)
			}
		}
		return
	}
	owner := make([]int, width)
	for i, c := range out.Columns {
		if c.W <= 0 || c.X < 0 || int64(c.X+c.W) > width {
			w.fail("render-wrong", "request %d (%s): column %d covers the pixels %d+%d of %d", x.id, u, i, c.X, c.W, width)
			return
		}
		for p := c.X; p < c.X+c.W; p++ {
			if owner[p] != 0 {
				w.fail("render-wrong", "request %d (%s): two columns cover pixel %d", x.id, u, p)
				return
			}
			owner[p] = i + 1
		}
	}
	for p := int64(0); p < width; p++ {
		l := at(p)
		early := false // whether the newest record before the window counts is left open
		for _, r := range l {
			early = early || r.end < now-q.Dur
		}
		if early {
			continue
		}
		if len(l) == 0 {
			if owner[p] != 0 {
				w.fail("render-wrong", "request %d (%s): a column covers pixel %d of %d where no record is", x.id, u, p, width)
				return
			}
			continue
		}
		if owner[p] == 0 {
			w.fail("render-missing", "request %d (%s): no column covers pixel %d of %d, where %d records are", x.id, u, p, width, len(l))
			return
		}
		c := out.Columns[owner[p]-1]
		if p > int64(c.X) && same(l, at(p-1)) {
			continue
		}
		lo, hi, rate, norate := math.Inf(1), math.Inf(-1), 0.0, false
		for _, r := range l {
			lo, hi = math.Min(lo, float64(r.plan.V)), math.Max(hi, float64(r.plan.V))
			if r.end == r.start {
				norate = true
				continue
			}
			rate += float64(r.obs) / float64(merged(r.plan)) / time.Duration(r.end-r.start).Seconds()
		}
		rate /= float64(len(l))
		if !norate && math.Abs(c.ObsSec-rate) > 1e-6*rate {
			w.fail("render-wrong", "request %d (%s): the rate at pixel %d of %d is %v instead of %v (%d records)", x.id, u, p, width, c.ObsSec, rate, len(l))
			return
		}
		if len(c.Data) != q.Samples+1 {
			w.fail("render-wrong", "request %d (%s): the column at pixel %d has %d samples", x.id, u, p, len(c.Data))
			return
		}
		// every record has its share in the distribution
		if tol := 0.001 * math.Max(math.Abs(lo), math.Abs(hi)); len(l) > 1 && hi > lo && q.Odd["compression"] == "" {
			if first, last := c.Data[0], c.Data[len(c.Data)-1]; last < hi-0.2*(hi-lo)-tol || first > lo+0.95*(hi-lo)+tol {
				w.fail("render-wrong", "request %d (%s): the column at pixel %d of %d has values from %v to %v, its %d records from %v to %v", x.id, u, p, width, first, last, len(l), lo, hi)
				return
			}
		}
		// (quantiles near the ends are extrapolated between digests)
		for _, v := range c.Data {
			if tol := 0.5*(hi-lo) + 0.001*math.Max(math.Abs(lo), math.Abs(hi)); v < lo-tol || v > hi+tol {
				w.fail("render-wrong", "request %d (%s): the column at pixel %d of %d holds the value %v, its %d records have values from %v to %v", x.id, u, p, width, v, len(l), lo, hi)
				return
			}
		}
	}
}

func same(a, b []*rec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func short(b []byte) string {
	return strings.TrimSpace(string(b[:min(len(b), 200)]))
}
