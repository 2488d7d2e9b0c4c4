// S5: the whole program, from its command line to its exit, started, fed,
// interrupted, killed and started again over one data directory.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	real "net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	realctx "context"
	realnet "net"

	"github.com/vivint/rothko"
	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/database/files"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/harness/lib"
	"github.com/vivint/rothko/internal/zsim/zcontext"
	"github.com/vivint/rothko/internal/zsim/znet"
	"github.com/vivint/rothko/internal/zsim/znet_http"
	"github.com/vivint/rothko/internal/zsim/zos"
	"github.com/vivint/rothko/registry"
	"github.com/zeebo/tdigest"
)

type Line struct {
	M   int    `json:"m"`
	V   int    `json:"v"`
	Bad string `json:"bad,omitempty"` // sent instead
}

type Chunk struct {
	Lines  []*Line `json:"lines"`
	Sleep  int64   `json:"sleep,omitempty"`
	Settle bool    `json:"settle,omitempty"` // wait until everything was read and dealt with
	Split  int     `json:"split,omitempty"`
}

type Client struct {
	At     int64    `json:"at"`
	Chunks []*Chunk `json:"chunks"`
	End    string   `json:"end"` // close reset stay
}

// Inc is one start of the program.
type Inc struct {
	Clients []*Client      `json:"clients,omitempty"`
	Reqs    []int64        `json:"reqs,omitempty"` // pauses before requests
	End     string         `json:"end"`            // int kill time fail
	At      int64          `json:"at,omitempty"`   // int: 0 when all clients are done
	On      string         `json:"on,omitempty"`   // kill: stmt op cb store
	Op      string         `json:"op,omitempty"`
	N       int            `json:"n,omitempty"`
	D       int64          `json:"d,omitempty"`
	M       int            `json:"m,omitempty"` // store: its number after the N-th callback or the first mapping
	Torn    bool           `json:"torn,omitempty"`
	Again   int64          `json:"again,omitempty"` // a second interrupt so long after the first
	Jump    int64          `json:"jump,omitempty"`  // wall clock jump afterwards
	Fail    string         `json:"fail,omitempty"`
	Probe   bool           `json:"probe,omitempty"` // check that it serves everywhere
	Faults  []zsim.FSFault `json:"faults,omitempty"`
	Disk    *Disk          `json:"disk,omitempty"`
	Wedge   bool           `json:"wedge,omitempty"` // the database accepts nothing more when interrupted
	Flights []*Flight      `json:"flights,omitempty"`
	SlowDB  int64          `json:"slowdb,omitempty"` // how long the database takes for each request
}

// Flight is a request that is slow to be answered or read.
type Flight struct {
	At    int64  `json:"at"`
	Kind  string `json:"kind"` // render query nonce none idle
	Read  int    `json:"read,omitempty"`
	Pause int64  `json:"pause,omitempty"` // between reads of so many bytes
	Hang  bool   `json:"hang,omitempty"`  // never read
	Leave bool   `json:"leave,omitempty"` // disconnect instead of reading
}

// Disk is a time during which the storage fails.
type Disk struct {
	At     int64          `json:"at"`
	Heal   int64          `json:"heal"` // so long after
	Faults []zsim.FSFault `json:"faults,omitempty"`
	Cap    int64          `json:"cap,omitempty"`
	FDs    int            `json:"fds,omitempty"`
	Maps   int            `json:"maps,omitempty"`
}

type Plan struct {
	Metrics   []string `json:"metrics"`
	Period    int64    `json:"period"`
	Size      int      `json:"size"`
	Cap       int      `json:"cap"`
	Files     int      `json:"files"`
	Buffer    int      `json:"buffer"`
	Workers   int      `json:"workers"`
	Handles   int      `json:"handles"`
	Listeners int      `json:"listeners"`
	Auth      bool     `json:"auth,omitempty"`
	TLS       bool     `json:"tls,omitempty"`
	Incs      []*Inc   `json:"incs"`
	Delay     int64    `json:"delay"`
	Frag      float64  `json:"frag"`
	Short     float64  `json:"short"`
	Window    int      `json:"window"`
}

type scen struct{}

func (scen) Name() string     { return "s5" }
func (scen) New() interface{} { return &Plan{} }

func main() {
	registry.RegisterDatabase("traced", registry.DatabaseMakerFunc(func(ctx realctx.Context, conf interface{}) (database.DB, error) {
		return W.inc.db, W.inc.dbErr
	}))
	registry.RegisterDistribution("traced", registry.DistributionMakerFunc(func(ctx realctx.Context, conf interface{}) (dist.Params, error) {
		return tracedParams{W.inc.params}, W.inc.paramsErr
	}))
	lib.Register(scen{})
	lib.Main()
}

// unfit are names that no file system can hold.
var unfit = []string{"web.\x00", "web." + strings.Repeat("n", 300), strings.Repeat("long.", 1000)}

func isUnfit(m string) bool { return m == unfit[0] || m == unfit[1] || m == unfit[2] }

var names = []string{"web.a", "web.b", "db.cpu", "x.y.z", "Web.C", "solo", "db.cpu.0", "a/b.c"}

func (scen) Gen(r *lib.Rand, prop string, deep bool) interface{} {
	p := &Plan{Period: int64(r.Of(1, 2, 10, 600)) * int64(time.Second), Size: r.Of(128, 256, 512), Cap: 64, Files: 8,
		Buffer: r.Of(1, 2, 10, 1000), Workers: r.Range(1, 3), Handles: r.Range(1, 10), Listeners: r.Of(1, 1, 1, 2),
		Auth: r.P(0.1), Delay: int64(r.Of(0, 1000, 200000, 5000000)), Window: r.Of(512, 65536, 65536)}
	p.TLS = r.P(0.05) || prop == "C26" && r.P(0.4)
	if r.P(0.5) {
		p.Frag, p.Short = r.F()*0.5, r.F()*0.5
	}
	if r.P(0.1) {
		p.Period = int64(r.Of(1000000, 20000000)) // 1ms, 20ms
	}
	nm := r.Range(1, 4)
	off := r.N(len(names))
	for i := 0; i < nm; i++ {
		p.Metrics = append(p.Metrics, names[(off+i)%len(names)])
	}
	ni := r.Range(1, 3)
	if deep {
		ni = r.Range(1, 6)
	}
	used := map[int]bool{}
	value := func() int {
		for {
			v := r.Range(-100000, 100000)
			if !used[v] {
				used[v] = true
				return v
			}
		}
	}
	pick := func() int64 { // a time that matters
		switch r.Pick(3, 3, 2) {
		case 0:
			return int64(r.Log(int(p.Period * 3)))
		case 1:
			d := p.Period*int64(r.Range(1, 2)) + int64(r.Range(-3000, 3000))
			if d < 1 {
				d = 1
			}
			return d
		}
		return int64(r.Log(20000000))
	}
	for i := 0; i < ni; i++ {
		inc := &Inc{}
		budget := 24
		for c := r.Range(0, 3); c > 0; c-- {
			cl := &Client{At: int64(r.Log(1000000)), End: r.OfS("close", "close", "stay", "reset")}
			for k := r.Range(1, 4); k > 0; k-- {
				ch := &Chunk{Settle: r.P(0.6)}
				if r.P(0.5) {
					ch.Sleep = pick()
				}
				if r.P(0.3) {
					ch.Split = r.Range(1, 20)
				}
				for n := r.Range(1, 4); n > 0 && budget > 0; n-- {
					l := &Line{M: r.N(nm), V: value()}
					if r.P(0.07) {
						l.Bad = r.OfS(unfit[0]+" 200001 1", unfit[1]+" 200001 1", unfit[2]+" 200002 1", "bad", "a b c d", "x 1", "m nan 0", "m +Inf 1", "", " ", "m 1e999 0")
					}
					ch.Lines = append(ch.Lines, l)
					budget--
				}
				cl.Chunks = append(cl.Chunks, ch)
			}
			inc.Clients = append(inc.Clients, cl)
		}
		for k := r.Of(0, 0, 1, 3); k > 0; k-- {
			inc.Reqs = append(inc.Reqs, pick())
		}
		kinds := []int{5, 3, 1, 1}
		if prop == "C16" {
			kinds = []int{2, 6, 2, 0}
		}
		switch r.Pick(kinds...) {
		case 0:
			inc.End = "int"
			if r.P(0.6) {
				inc.At = pick()
			}
			if r.P(0.1) {
				inc.Again = 1 + int64(r.Log(3000000))
			}
		case 1:
			inc.End = "kill"
			inc.Torn = r.P(0.5)
			switch r.Pick(4, 4, 2, 3) {
			case 3:
				inc.On, inc.N, inc.M = "store", r.N(6), r.Range(1, r.Of(8, 40))
				if r.P(0.3) {
					inc.D = int64(r.Log(8))
				}
			case 0:
				inc.On, inc.D = "stmt", int64(r.Log(60000))
			case 1:
				inc.On, inc.Op, inc.N, inc.D = "op", r.OfS("create", "rename", "unlink", "mkdir", "open", "mmap", "truncate", "close", "readdir"), r.Range(1, 6), int64(r.Log(300))
			case 2:
				inc.On, inc.N, inc.D = "cb", r.Range(1, 6), int64(r.Log(300))
			}
		case 2:
			inc.End, inc.At = "time", pick()
		case 3:
			inc.End = "fail"
			inc.Fail = r.OfS("db", "dist", "graphite", "api", "config", "kind", "accept-graphite", "accept-api")
			inc.At = pick()
		}
		if prop == "C26" || r.P(0.03) {
			inc.Probe = true
			if r.P(0.6) {
				inc.End, inc.On, inc.Again = "fail", "", 0
				inc.Fail = startFails[r.N(len(startFails))]
			}
		}
		if prop == "C25" || r.P(0.08) {
			genFlights(r, inc, prop == "C25")
		}
		if r.P(0.1) {
			inc.Jump = int64(r.Log(int(time.Hour)))
		}
		if prop == "C20" && r.P(0.8) || r.P(0.1) {
			inc.Disk = genDisk(r, p, pick)
		}
		if inc.End == "int" && inc.Disk == nil {
			inc.Wedge = r.P(0.08)
		}
		if prop != "C20" && r.P(0.06) {
			inc.Faults = append(inc.Faults, zsim.FSFault{Op: r.OfS("open", "mmap", "create", "rename", "truncate", "mkdir"), Errno: int(syscall.EIO), Skip: r.N(4), Count: r.Range(1, 4)})
		}
		if inc.Fail == "confio" {
			inc.Disk = nil
			inc.Faults = []zsim.FSFault{{Op: r.OfS("open", "read"), Prefix: confP, Errno: int(syscall.EIO), Count: 1}}
		}
		if inc.Disk != nil && inc.Disk.FDs > 0 || len(inc.Faults) > 0 && inc.End != "fail" {
			p.TLS = false // the certificate could not be read either
		}
		p.Incs = append(p.Incs, inc)
	}
	return p
}

// startFails are the ways in which a start cannot succeed.
var startFails = []string{"db", "dist", "graphite", "api", "config", "kind", "accept-graphite", "accept-api",
	"plugin", "noconf", "confio", "args", "manyargs", "nocert", "nokey", "keyonly", "badcert", "liskind", "lisaddr", "badaddr",
	"dupaddr", "dbconf", "tuneconf", "apiconf", "distconf", "twodb", "nodb", "nodist", "duration", "badapi"}

func genFlights(r *lib.Rand, inc *Inc, only bool) {
	for k := r.Range(1, 4); k > 0; k-- {
		f := &Flight{At: int64(r.Log(2000000)), Kind: r.OfS("render", "render", "query", "query", "nonce", "idle", "none")}
		if r.P(0.5) {
			f.At = inc.At - int64(r.Log(1000000)) + 1000
		}
		if f.At < 0 {
			f.At = 0
		}
		if r.P(0.6) {
			f.Read, f.Pause = r.Range(1, 600), int64(r.Log(1000000000))
		}
		f.Hang = r.P(0.07)
		f.Leave = r.P(0.07)
		inc.Flights = append(inc.Flights, f)
	}
	if r.P(0.6) {
		inc.SlowDB = int64(r.Log(20000000)) * int64(r.Of(1, 1, 1000))
	}
	if only && r.P(0.9) {
		inc.End = "int"
		inc.On, inc.Fail, inc.Again = "", "", 0
		if inc.At == 0 && r.P(0.8) {
			inc.At = int64(r.Log(3000000))
		}
	}
}

func (d *Disk) stalls() (n int64) {
	for _, f := range d.Faults {
		n += f.Stall * int64(f.Count)
	}
	return
}

func genDisk(r *lib.Rand, p *Plan, pick func() int64) *Disk {
	d := &Disk{Heal: 1 + pick()}
	if r.P(0.6) {
		d.At = pick()
	}
	for k := r.Range(1, 3); k > 0; k-- {
		switch r.Pick(60, 20, 8, 6, 6) {
		case 0:
			f := zsim.FSFault{Prefix: dataDir}
			f.Op = r.OfS("open", "create", "mkdir", "fallocate", "mmap", "readdir", "unlink", "rename", "fstat", "write", "stat", "ftruncate")
			es := map[string][]syscall.Errno{
				"open":      {syscall.EMFILE, syscall.ENFILE, syscall.EIO, syscall.EACCES, syscall.ENOMEM},
				"create":    {syscall.ENOSPC, syscall.EMFILE, syscall.EIO, syscall.EROFS},
				"mkdir":     {syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EROFS},
				"fallocate": {syscall.ENOSPC, syscall.EIO, syscall.ENOSPC, syscall.EINTR},
				"mmap":      {syscall.ENOMEM},
				"rename":    {syscall.EIO, syscall.ENOSPC},
				"write":     {syscall.EIO, syscall.ENOSPC},
			}[f.Op]
			if es == nil {
				es = []syscall.Errno{syscall.EIO}
			}
			f.Errno = int(es[r.N(len(es))])
			f.Skip = r.Log(12) - 1
			f.Count = r.Of(1, 2, 5, 1000)
			d.Faults = append(d.Faults, f)
		case 1:
			f := zsim.FSFault{Prefix: dataDir}
			f.Op = r.OfS("open", "create", "mkdir", "fallocate", "mmap", "readdir", "munmap", "rename")
			f.Stall = int64(r.Log(int(p.Period * 2)))
			f.Skip = r.Log(12) - 1
			f.Count = r.Of(1, 2, 5)
			d.Faults = append(d.Faults, f)
		case 2:
			d.Cap = int64(p.Size*(p.Cap+1)*r.Range(1, 4) + r.N(100))
		case 3:
			d.FDs = r.Range(1, 2)
		case 4:
			d.Maps = r.Range(1, 3)
		}
	}
	return d
}

func (scen) Shrink(pl interface{}) (out []interface{}) {
	p := pl.(*Plan)
	cp := func(i int) (*Plan, *Inc) {
		q := *p
		q.Incs = append([]*Inc(nil), p.Incs...)
		if i < 0 {
			return &q, nil
		}
		x := *p.Incs[i]
		x.Clients = append([]*Client(nil), x.Clients...)
		q.Incs[i] = &x
		return &q, &x
	}
	for i := range p.Incs {
		q, _ := cp(-1)
		q.Incs = append(q.Incs[:i], q.Incs[i+1:]...)
		out = append(out, q)
	}
	for i, inc := range p.Incs {
		for j := range inc.Clients {
			q, x := cp(i)
			x.Clients = append(x.Clients[:j], x.Clients[j+1:]...)
			out = append(out, q)
		}
		if len(inc.Reqs) > 0 {
			q, x := cp(i)
			x.Reqs = x.Reqs[1:]
			out = append(out, q)
		}
		if len(inc.Faults) > 0 {
			q, x := cp(i)
			x.Faults = nil
			out = append(out, q)
		}
		if d := inc.Disk; d != nil {
			q, x := cp(i)
			x.Disk = nil
			out = append(out, q)
			for j := range d.Faults {
				q, x := cp(i)
				e := *d
				e.Faults = append(append([]zsim.FSFault(nil), d.Faults[:j]...), d.Faults[j+1:]...)
				x.Disk = &e
				out = append(out, q)
			}
			if d.Cap+int64(d.FDs)+int64(d.Maps) > 0 {
				q, x := cp(i)
				e := *d
				e.Cap, e.FDs, e.Maps = 0, 0, 0
				x.Disk = &e
				out = append(out, q)
			}
		}
		if inc.Jump != 0 || inc.Again != 0 {
			q, x := cp(i)
			x.Jump, x.Again = 0, 0
			out = append(out, q)
		}
		if inc.End != "int" {
			q, x := cp(i)
			x.End, x.At, x.Fail = "int", 0, ""
			out = append(out, q)
		}
		for j := range inc.Flights {
			q, x := cp(i)
			x.Flights = append(append([]*Flight(nil), inc.Flights[:j]...), inc.Flights[j+1:]...)
			out = append(out, q)
		}
		if inc.SlowDB != 0 {
			q, x := cp(i)
			x.SlowDB = 0
			out = append(out, q)
		}
		if inc.Wedge {
			q, x := cp(i)
			x.Wedge = false
			out = append(out, q)
		}
		if inc.Torn {
			q, x := cp(i)
			x.Torn = false
			out = append(out, q)
		}
	}
	for i, inc := range p.Incs {
		for j, c := range inc.Clients {
			for k, ch := range c.Chunks {
				q, x := cp(i)
				d := *c
				d.Chunks = append(append([]*Chunk(nil), c.Chunks[:k]...), c.Chunks[k+1:]...)
				x.Clients[j] = &d
				out = append(out, q)
				for l := range ch.Lines {
					q, x := cp(i)
					d := *c
					d.Chunks = append([]*Chunk(nil), c.Chunks...)
					e := *ch
					e.Lines = append(append([]*Line(nil), ch.Lines[:l]...), ch.Lines[l+1:]...)
					d.Chunks[k] = &e
					x.Clients[j] = &d
					out = append(out, q)
				}
				if ch.Sleep != 0 || ch.Split != 0 {
					q, x := cp(i)
					d := *c
					d.Chunks = append([]*Chunk(nil), c.Chunks...)
					e := *ch
					e.Sleep, e.Split = 0, 0
					d.Chunks[k] = &e
					x.Clients[j] = &d
					out = append(out, q)
				}
			}
		}
	}
	if p.Delay != 0 || p.Frag != 0 || p.Short != 0 {
		q := *p
		q.Delay, q.Frag, q.Short = 0, 0, 0
		out = append(out, &q)
	}
	if p.Listeners > 1 || p.Auth || p.TLS {
		q := *p
		q.Listeners, q.Auth, q.TLS = 1, false, false
		out = append(out, &q)
	}
	return
}

// ---- what is known

type val struct {
	m    int
	v    int
	inc  *inc
	firm bool  // received and dealt with well before anything else happened
	seen int64 // when the distribution saw it (wall)
	must bool
	got  int
	sent int   // records queued that contain it
	mono int64 // when the distribution saw it
}

type inc struct {
	mono   int64
	plan   *Inc
	i      int
	p      *zsim.Proc
	db     database.DB
	dbErr  error
	params dist.Params

	paramsErr error
	start     int64 // wall
	end       int64
	intSeq    int64
	intNow    int64
	intTicks  int64
	left      int
	wq        zsim.WaitQ
	acks      int
	clean     bool
	checked   bool
	served    bool
	flights   []*flight
	flying    int
	broken    bool  // the storage fails now
	breaks    int   // how often it began to
	healed    int64 // when it stopped failing (virtual)
}

type world struct {
	s     *zsim.Sim
	prop  string
	plan  *Plan
	inc   *inc
	vals  map[int]*val
	acked map[string]int64 // metric to the newest end that was acknowledged
	panic string
	h     uint64
	fault bool
}

// W is the current world.
var W *world

func (w *world) fail(props []string, kind, f string, args ...interface{}) {
	lib.Fail(w.prop, props, kind, f, args...)
}

var both = []string{"C15", "C16", "C20"}

// flight is what became of a Flight.
type flight struct {
	plan  *Flight
	path  string
	begun bool // was being answered before the interrupt
	over  bool
	code  int
	n     int // bytes of the answer that were read
	err   error
}

// fly sends a request and reads the answer as planned.
func (w *world) fly(in *inc, f *flight) {
	s, x := w.s, f.plan
	s.Sleep(time.Duration(x.At))
	if !w.up(in, aaddr) {
		return
	}
	nc, err := w.dial()
	if err != nil {
		return
	}
	defer nc.Close()
	cn := nc.(*net.TCPConn).C
	send := func(path string, v url.Values) *real.Request {
		u := &url.URL{Scheme: "http", Host: "localhost", Path: path, RawQuery: v.Encode()}
		hr := &real.Request{Method: "GET", URL: u, Host: "localhost", Header: real.Header{"Accept": {"application/json"}}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
		if w.plan.Auth {
			hr.SetBasicAuth(user, pass)
		}
		var b bytes.Buffer
		hr.Write(&b)
		nc.Write(b.Bytes())
		return hr
	}
	var hr *real.Request
	switch x.Kind {
	case "none":
		// a connection without a request
		s.WaitDeath(in.p, time.Hour)
		return
	case "render":
		f.path = "/api/render"
		hr = send(f.path, url.Values{"metric": {w.plan.Metrics[0]}, "now": {fmt.Sprint(int64(math.MaxInt64))}})
	case "query", "idle":
		f.path = "/api/query"
		hr = send(f.path, url.Values{"query": {""}, "results": {"1000"}})
	case "nonce":
		f.path = "/api/nonce"
		hr = send(f.path, nil)
	}
	// it is being answered when it was read and nothing else can happen
	idle := 0
	for try := 0; try < 50 && idle < 2; try++ {
		s.WaitIdle()
		if cn.Gone() || in.p.Dead || in.intSeq != 0 {
			break
		}
		if cn.Peer().Unread() == 0 {
			idle++
			continue
		}
		idle = 0
		s.Sleep(time.Duration(w.plan.Delay)/10 + 1)
	}
	f.begun = idle == 2 && in.intSeq == 0 && !in.p.Dead
	if x.Hang {
		s.WaitDeath(in.p, time.Hour)
		return
	}
	if x.Leave {
		s.Sleep(time.Duration(x.Pause))
		return
	}
	resp, err := real.ReadResponse(bufio.NewReaderSize(&slowReader{w, f, nc, 0}, 16), hr)
	if err == nil {
		f.code = resp.StatusCode
		var body []byte
		body, err = io.ReadAll(resp.Body)
		if err == nil && f.code == 200 && x.Kind != "nonce" && !json.Valid(body) {
			err = fmt.Errorf("the body is not valid: %q", body)
		}
	}
	f.over, f.err = true, err
	if x.Kind == "idle" && err == nil {
		s.WaitDeath(in.p, time.Hour)
	}
}

// slowReader reads a few bytes at a time, with pauses, but not for too long.
type slowReader struct {
	w     *world
	f     *flight
	c     io.Reader
	slept int64
}

func (r *slowReader) Read(p []byte) (int, error) {
	if x := r.f.plan; x.Pause > 0 && r.slept < int64(20*time.Second) && r.f.n > 0 {
		r.slept += x.Pause
		r.w.s.Sleep(time.Duration(x.Pause))
	}
	if n := r.f.plan.Read; n > 0 && len(p) > n && r.slept < int64(20*time.Second) {
		p = p[:n]
	}
	n, err := r.c.Read(p)
	r.f.n += n
	return n, err
}

// landed judges the requests that were in flight when the program was
// interrupted, once it has exited.
func (w *world) landed(in *inc, took time.Duration) {
	hung := false
	for _, f := range in.flights {
		hung = hung || f.plan.Hang
	}
	if took >= 59*time.Second {
		// the time to clean up may have passed
		if hung {
			zsim.Probe("exit despite a client that does not read")
		}
		return
	}
	for _, f := range in.flights {
		if !f.begun || f.plan.Hang || f.plan.Leave {
			continue
		}
		if !f.over {
			w.fail([]string{"C25"}, "unanswered", "the request %s, which was being answered when start %d was interrupted, is still not answered although the program has exited after %v", f.path, in.i, took)
			return
		}
		if f.err != nil {
			w.fail([]string{"C25"}, "cut-off", "the request %s, which was being answered when start %d was interrupted, got %d bytes of an answer (status %d): %v; the program exited %v after the interrupt", f.path, in.i, f.n, f.code, f.err, took)
			return
		}
		zsim.Probe(fmt.Sprint("request in flight answered with ", f.code))
	}
}

// ---- seams: a distribution and a database that tell what they see

type tracedParams struct{ dist.Params }

func (t tracedParams) New() (dist.Dist, error) {
	d, err := t.Params.New()
	if err != nil {
		return nil, err
	}
	return tracedDist{d}, nil
}

type tracedDist struct{ dist.Dist }

func (t tracedDist) Observe(v float64) {
	if !zsim.Killed() {
		if x := W.vals[int(v)]; x != nil {
			x.seen, x.mono = W.s.WallNow(), W.s.Now
		}
	}
	t.Dist.Observe(v)
}

type tracedDB struct {
	database.DB
	in *inc
}

// Run fails when it is planned to.
func (t tracedDB) Run(ctx realctx.Context) error {
	if t.in.plan.Fail != "db" {
		return t.DB.Run(ctx)
	}
	// its workers stay, so that everything queued is answered
	W.s.GoIn(t.in.p, "workers", func() { t.DB.Run(context.Background()) })
	ctx, cancel := context.WithTimeout(ctx, time.Duration(t.in.plan.At))
	defer cancel()
	zsim.Recv(ctx.Done())
	zsim.FaultHit("database service failed")
	return errors.New("the database failed")
}

// Query takes as long as planned.
func (t tracedDB) Query(ctx realctx.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	W.s.Sleep(time.Duration(t.in.plan.SlowDB))
	return t.DB.Query(ctx, metric, end, buf, cb)
}

// Metrics takes as long as planned.
func (t tracedDB) Metrics(ctx realctx.Context, cb func(name string) (bool, error)) error {
	W.s.Sleep(time.Duration(t.in.plan.SlowDB))
	return t.DB.Metrics(ctx, cb)
}

func (t tracedDB) Queue(ctx realctx.Context, metric string, start, end int64, d []byte, cb func(bool, error)) error {
	if zsim.Killed() {
		return nil
	}
	w, in := W, t.in
	var vs []*val
	rec, cs, err := decode(d)
	if err != nil {
		w.fail(both, "bad-record", "the record queued for %q does not decode: %v", metric, err)
	}
	if rec.StartTime != start || rec.EndTime != end {
		w.fail(both, "bad-record", "the record queued for %q from %d to %d says %d to %d", metric, start, end, rec.StartTime, rec.EndTime)
	}
	for _, c := range cs {
		if v := w.vals[c]; v != nil {
			vs = append(vs, v)
			v.sent++
			if v.sent > 1 {
				w.fail(both, "duplicated", "the value %d of %q was handed to the database more than once", c, metric)
			}
		}
	}
	if in.plan.Wedge && in.intSeq != 0 && w.s.Ticks == in.intTicks {
		// only the final dump can be running
		zsim.FaultHit("database wedged during the final dump")
		zsim.Recv(ctx.Done())
		return ctx.Err()
	}
	sound, breaks := !in.broken, in.breaks
	return t.DB.Queue(ctx, metric, start, end, d, func(ok bool, err error) {
		if !zsim.Killed() {
			zsim.Tracef("stored %q %d..%d ok=%v err=%v", metric, start, end, ok, err)
			if ok {
				for _, v := range vs {
					v.must = true
				}
				if end > w.acked[metric] {
					w.acked[metric] = end
				}
			}
			storable := !isUnfit(metric)
			if !storable {
				zsim.Probe("a name that can not be stored")
			}
			if !ok && storable && sound && breaks == in.breaks && in.plan.Fail == "" && len(in.plan.Faults) == 0 && ctx.Err() == nil {
				w.fail([]string{"C20", "C15"}, "not-stored", "the record of %q from %d to %d was not stored although the storage did not fail: %v", metric, start, end, err)
			}
			in.acks++
			if c := in.plan; c.End == "kill" && c.On == "cb" && in.acks == c.N {
				w.s.CrashAt(w.s.Step()+1+c.D, in.p, c.Torn)
			} else if c.End == "kill" && c.On == "store" && in.acks == c.N {
				w.s.CrashOnStore(c.M, c.D, 8000, in.p, c.Torn)
			}
		}
		cb(ok, err)
	})
}

func decode(d []byte) (rec data.Record, vals []int, err error) {
	if err = rec.Unmarshal(d); err != nil {
		return
	}
	if rec.Kind != "tdigest" {
		return rec, nil, errors.New("kind " + strconv.Quote(rec.Kind))
	}
	td, err := tdigest.FromBytes(rec.Distribution)
	if err != nil {
		return rec, nil, err
	}
	td.ForEachCentroid(func(m float64, n uint32) bool {
		if n != 1 || m != math.Trunc(m) {
			err = fmt.Errorf("a centroid of %d values at %v", n, m)
			return false
		}
		vals = append(vals, int(m))
		return true
	})
	if err == nil && int64(len(vals)) != rec.Observations {
		err = fmt.Errorf("%d observations, %d values", rec.Observations, len(vals))
	}
	if err == nil && len(vals) > 0 {
		s := append([]int(nil), vals...)
		sort.Ints(s)
		if rec.Min != float64(s[0]) || rec.Max != float64(s[len(s)-1]) {
			err = fmt.Errorf("extremes %v and %v of the values %v", rec.Min, rec.Max, s)
		}
	}
	return
}

// ---- run

const (
	dataDir = "/data"
	confP   = "/etc/rothko.toml"
	user    = "admin"
	pass    = "pw"
)

func gaddr(i int) string { return fmt.Sprintf(":%d", 1111*(i+1)) }

const aaddr = ":8080"

func (w *world) config(in *inc) string {
	p, fail := w.plan, in.plan.Fail
	db := "traced"
	if fail == "kind" {
		db = "nothing"
	}
	var b strings.Builder
	dur := time.Duration(p.Period).String()
	if fail == "duration" {
		dur = "soon"
	}
	fmt.Fprintf(&b, "[main]\nduration = %q\n", dur)
	if fail == "plugin" {
		fmt.Fprintf(&b, "plugins = [ \"/plugin.so\" ]\n")
	}
	for i := 0; i < p.Listeners; i++ {
		fmt.Fprintf(&b, "[[listeners.graphite]]\naddress = %q\n", gaddr(i))
	}
	switch fail {
	case "liskind":
		fmt.Fprintf(&b, "[[listeners.nothing]]\naddress = \":3\"\n")
	case "lisaddr":
		fmt.Fprintf(&b, "[[listeners.graphite]]\naddress = 3\n")
	case "badaddr":
		fmt.Fprintf(&b, "[[listeners.graphite]]\naddress = \"nonsense\"\n")
	case "dupaddr":
		fmt.Fprintf(&b, "[[listeners.graphite]]\naddress = %q\n", gaddr(0))
	}
	size := fmt.Sprint(p.Size)
	buffer := fmt.Sprint(p.Buffer)
	switch fail {
	case "dbconf":
		size = "\"large\""
	case "tuneconf":
		buffer = "0.5"
	}
	if fail != "nodb" {
		fmt.Fprintf(&b, "[database.%s]\ndirectory = %q\nsize = %s\ncap = %d\nfiles = %d\n[database.%s.tuning]\nbuffer = %s\nworkers = %d\nhandles = %d\n",
			db, dataDir, size, p.Cap, p.Files, db, buffer, p.Workers, p.Handles)
	}
	if fail == "twodb" {
		fmt.Fprintf(&b, "[database.files]\ndirectory = \"/other\"\nsize = 256\ncap = 10\nfiles = 2\n")
	}
	kind, comp := "traced", "1000.0"
	switch fail {
	case "dist":
		kind = "nothing"
	case "distconf":
		comp = "\"much\""
	}
	if fail != "nodist" {
		fmt.Fprintf(&b, "[dist.%s]\ncompression = %s\n", kind, comp)
	}
	api := aaddr
	if fail == "badapi" {
		api = "nonsense"
	}
	if fail == "apiconf" {
		fmt.Fprintf(&b, "[api]\naddress = 8080\n")
	} else {
		fmt.Fprintf(&b, "[api]\naddress = %q\n", api)
	}
	cert, key := "", ""
	if p.TLS {
		cert, key = certP, keyP
	}
	switch fail {
	case "nocert":
		cert, key = "/etc/missing.pem", keyP
	case "nokey":
		cert, key = certP, ""
	case "keyonly":
		cert, key = "", keyP
	case "badcert":
		cert, key = keyP, certP
	}
	if cert != "" || key != "" {
		fmt.Fprintf(&b, "[api.tls]\ncert = %q\nkey = %q\n", cert, key)
	}
	if p.Auth {
		fmt.Fprintf(&b, "[api.security]\nusername = %q\npassword = %q\n", user, pass)
	}
	if fail == "config" {
		return b.String()[:b.Len()/3] + "= ="
	}
	return b.String()
}

func (scen) Run(s *zsim.Sim, prop string, pl interface{}) {
	w := &world{s: s, prop: prop, plan: pl.(*Plan), vals: map[int]*val{}, acked: map[string]int64{}}
	W = w
	p := w.plan
	s.Net.PFrag, s.Net.PShort, s.Net.MaxDelay = p.Frag, p.Short, time.Duration(p.Delay)
	if p.Window > 0 {
		s.Net.Window = p.Window
	}
	http.HandlerPanic = func(v interface{}) { w.panic = fmt.Sprint(v) }
	s.FS.Mkdirs("/etc")
	s.FS.Mkdirs(dataDir)
	for i, x := range p.Incs {
		w.run(i, x)
		if x.Jump > 0 {
			zsim.FaultHit("wall clock jump")
			s.JumpWall(time.Duration(x.Jump))
		}
		s.Sleep(time.Millisecond)
	}
	// a last start to see what is there
	w.run(len(p.Incs), &Inc{End: "int"})
	w.inspect()
	lib.StateHash = w.h
}

func (w *world) run(i int, x *Inc) {
	s, p := w.s, w.plan
	in := &inc{plan: x, i: i, start: s.WallNow(), mono: s.Now}
	w.inc = in
	in.p = s.NewProc(fmt.Sprint("server", i))
	s.FS.WriteFile(confP, []byte(w.config(in)))
	s.FS.WriteFile(certP, []byte(certPEM))
	s.FS.WriteFile(keyP, []byte(keyPEM))
	s.FS.Faults = nil
	for _, f := range x.Faults {
		g := f
		s.FS.Faults = append(s.FS.Faults, &g)
	}
	ext := s.NewProc(fmt.Sprint("clients", i))
	if d := x.Disk; d != nil {
		if d.At == 0 {
			w.disk(in, d)
		} else {
			in.healed = -1
		}
		s.GoIn(ext, "disk", func() {
			if d.At > 0 {
				s.Sleep(time.Duration(d.At))
				w.disk(in, d)
			}
			s.Sleep(time.Duration(d.Heal))
			w.disk(in, nil)
		})
	}
	n := 0
	s.FS.OnOp = func(op, path string) {
		if zsim.Cur() == nil || zsim.Cur().P != in.p || x.End != "kill" {
			return
		}
		if x.On == "store" && x.N == 0 && op == "mmap" {
			if n++; n == 1 {
				s.CrashOnStore(x.M, x.D, 8000, in.p, x.Torn)
			}
		}
		if x.On != "op" || op != x.Op {
			return
		}
		if n++; n == x.N {
			s.CrashAt(s.Step()+x.D, in.p, x.Torn)
		}
	}
	if x.End == "kill" && x.On == "stmt" {
		s.CrashAt(s.Step()+1+x.D, in.p, x.Torn)
	}
	switch x.Fail {
	case "graphite", "api":
		a := gaddr(0)
		if x.Fail == "api" {
			a = aaddr
		}
		s.GoIn(ext, "squatter", func() {
			net.Listen("tcp", a)
			in.served = true
			in.wq.WakeAll(s)
		})
		for !in.served {
			in.wq.Wait(s, "squatter")
		}
	}
	in.served = false
	s.GoIn(in.p, "main", func() {
		os.Args = []string{"rothko", "run", confP}
		switch x.Fail {
		case "noconf":
			os.Args[2] = "/etc/missing.toml"
		case "args":
			os.Args = os.Args[:2]
		case "manyargs":
			os.Args = append(os.Args, confP)
		}
		if conf, err := config.Load([]byte(w.config(in))); err == nil {
			db, err := registry.Default.NewDatabase(context.Background(), "files", conf.Database.Config)
			in.db, in.dbErr = tracedDB{db, in}, err
			in.params, in.paramsErr = registry.Default.NewDistribution(context.Background(), "tdigest", conf.Dist.Config)
		}
		rothko.Main()
	})
	in.left = len(x.Clients)
	for k, c := range x.Clients {
		k, c := k, c
		s.GoIn(ext, fmt.Sprint("client", k), func() {
			w.client(in, k, c)
			in.left--
			in.wq.WakeAll(s)
		})
	}
	if len(x.Reqs) > 0 {
		in.left++
		s.GoIn(ext, "browser", func() {
			ask := func(path string, v url.Values) {
				code, _, err := w.get(in, path, v)
				if in.p.Dead || in.intSeq != 0 || x.End == "fail" {
					return
				}
				if err != nil {
					w.fail(both, "unanswered", "the request %s was not answered: %v %s", path, err, w.panic)
					return
				}
				zsim.Probe(fmt.Sprint("request answered with ", code))
			}
			for _, d := range x.Reqs {
				s.Sleep(time.Duration(d))
				if w.up(in, aaddr) {
					ask("/api/query", url.Values{"query": {""}})
					ask("/api/render", url.Values{"metric": {p.Metrics[0]}})
				}
			}
			in.left--
			in.wq.WakeAll(s)
		})
	}
	if x.Probe && x.End != "fail" {
		in.left++
		s.GoIn(ext, "prober", func() {
			w.probe(in)
			in.left--
			in.wq.WakeAll(s)
		})
	}
	for k, f := range x.Flights {
		fl := &flight{plan: f}
		in.flights = append(in.flights, fl)
		in.flying++
		s.GoIn(ext, fmt.Sprint("flight", k), func() {
			w.fly(in, fl)
			in.flying--
			in.wq.WakeAll(s)
		})
	}
	if x.End != "fail" && len(x.Faults) == 0 {
		known := map[string]int64{}
		for m, e := range w.acked {
			known[m] = e
		}
		in.left++
		s.GoIn(ext, "checker", func() {
			if x.Disk != nil {
				for in.healed <= 0 && !in.p.Dead && in.intSeq == 0 {
					s.Sleep(time.Duration(x.Disk.At+x.Disk.Heal)/8 + 1)
				}
				for m, e := range w.acked {
					known[m] = e
				}
			}
			w.api(in, known)
			in.left--
			in.wq.WakeAll(s)
		})
	}
	if x.End != "fail" && len(x.Faults) == 0 && x.Disk == nil {
		s.GoIn(ext, "monitor", func() { w.monitor(in) })
	}
	s.GoIn(ext, "ender", func() { w.ender(in) })
	if !s.WaitDeath(in.p, 48*time.Hour) {
		w.fail(append([]string{"C25", "C26"}, both...), "hang", "start %d of the program did not end (interrupted %v, %s)\n%s", i, in.intSeq != 0, x.End+x.Fail, s.Blocked())
		return
	}
	s.ClearCrash()
	died := s.Now
	in.end = s.WallNow()
	for n := 0; in.flying > 0 && n < 200; n++ {
		// what was sent is still delivered and read
		s.WaitIdle()
		s.Sleep(time.Second / 2)
	}
	s.Net.AcceptFails = 0
	s.FS.Cap, s.FS.MaxFD, s.FS.MaxMaps, s.FS.Faults = 0, 0, 0, nil
	s.Kill(ext)
	zsim.Tracef("start %d ended: exited=%v status %d", i, in.p.Exited, in.p.ExitCode)
	if in.p.Crashed != "" {
		w.fail([]string{"*"}, "panic", "the process died: %s\n%s", in.p.Crashed, in.p.Stack)
		return
	}
	w.ended(in, died)
}

// disk makes the storage fail as planned, or work again.
func (w *world) disk(in *inc, d *Disk) {
	s := w.s
	s.OnSched(func() {
		s.FS.Cap, s.FS.MaxFD, s.FS.MaxMaps, s.FS.Faults = 0, 0, 0, nil
		s.Net.AcceptFails = 0
		for _, f := range in.plan.Faults {
			g := f
			s.FS.Faults = append(s.FS.Faults, &g)
		}
		if d != nil {
			s.FS.Cap, s.FS.MaxFD, s.FS.MaxMaps = d.Cap, d.FDs, d.Maps
			if d.FDs > 0 {
				s.Net.AcceptFails = -1
			}
			for _, f := range d.Faults {
				g := f
				s.FS.Faults = append(s.FS.Faults, &g)
			}
		}
	})
	in.broken = d != nil
	if d != nil {
		in.breaks++
	} else {
		in.healed = s.Now
		zsim.Tracef("the storage works again")
	}
}

// ender ends the program as planned.
func (w *world) ender(in *inc) {
	s, x := w.s, in.plan
	switch x.End {
	case "kill":
		// in case the place is never reached
		for in.left > 0 {
			in.wq.Wait(s, "clients")
		}
		s.Sleep(time.Duration(w.plan.Period))
		w.signal(in)
	case "time":
		s.Sleep(time.Duration(x.At))
		zsim.FaultHit("process killed")
		s.Kill(in.p)
	case "fail":
		if l := strings.TrimPrefix(x.Fail, "accept-"); l != x.Fail {
			a := aaddr
			if l == "graphite" {
				a = gaddr(0)
			}
			if w.up(in, a) {
				s.Sleep(time.Duration(x.At))
				if lis := s.Net.Listener(a); lis != nil {
					lis.FailAccept(errors.New("accept failed"))
				}
			}
		}
	case "int":
		if x.At == 0 {
			for in.left > 0 {
				in.wq.Wait(s, "clients")
			}
		} else {
			s.Sleep(time.Duration(x.At))
		}
		w.signal(in)
	}
}

func (w *world) signal(in *inc) {
	s := w.s
	for n := 0; !s.SigHandled(in.p, int(syscall.SIGINT)); n++ {
		if in.p.Dead {
			return
		}
		if n > 100000 {
			w.fail([]string{"C15", "C20"}, "no-handler", "the program does not handle the interrupt")
			return
		}
		s.Sleep(10 * time.Microsecond)
	}
	if in.plan.Wedge {
		ticks := s.Ticks - 1
		for n := 0; n < 100 && ticks != s.Ticks; n++ {
			ticks = s.Ticks
			s.WaitIdle()
		}
		if in.p.Dead {
			return
		}
		in.intTicks = ticks
	}
	in.intSeq, in.intNow = s.Seq(), s.Now
	zsim.FaultHit("interrupt")
	s.Signal(in.p, int(syscall.SIGINT))
	if a := in.plan.Again; a > 0 {
		s.Sleep(time.Duration(a))
		if !in.p.Dead {
			zsim.FaultHit("second interrupt")
			s.Signal(in.p, int(syscall.SIGINT))
		}
	}
}

// monitor checks that what was received is dumped every period.
func (w *world) monitor(in *inc) {
	s, p := w.s, w.plan
	for n := 0; n < 50; n++ {
		s.Sleep(time.Duration(p.Period))
		t0 := s.Now
		s.WaitIdle()
		if in.p.Dead || in.intSeq != 0 {
			return
		}
		var l []int
		for k := range w.vals {
			l = append(l, k)
		}
		sort.Ints(l)
		for _, k := range l {
			if v := w.vals[k]; v.inc == in && v.firm && v.mono != 0 && v.mono+2*p.Period+int64(10*time.Millisecond) < t0 {
				if v.sent == 0 {
					w.fail([]string{"C16"}, "not-dumped", "the value %d of %q was received %v ago and not handed to the database, the period is %v", k, p.Metrics[v.m], time.Duration(t0-v.mono), time.Duration(p.Period))
				} else if v.inc.i == in.i {
					zsim.Probe("a value was dumped in time")
				}
			}
		}
	}
}

// up waits until the address accepts connections.
func (w *world) up(in *inc, a string) bool {
	s := w.s
	for n := 0; s.Net.Listener(a) == nil; n++ {
		if in.p.Dead || in.intSeq != 0 {
			return false
		}
		if n > 100000 {
			if in.plan.End != "fail" && len(in.plan.Faults) == 0 {
				w.fail([]string{"C16", "C20", "C26"}, "not-serving", "start %d of the program does not listen on %s", in.i, a)
			}
			return false
		}
		s.Sleep(20 * time.Microsecond)
	}
	return true
}

// client sends lines. Lines are firm if they were sent, read and dealt with
// while nothing else but the connection handlers can have been at work.
func (w *world) client(in *inc, k int, c *Client) {
	s, p := w.s, w.plan
	s.Sleep(time.Duration(c.At))
	a := gaddr(k % p.Listeners)
	if !w.up(in, a) {
		return
	}
	nc, err := net.Dial("tcp", "localhost"+a)
	if err != nil {
		return
	}
	cn := nc.(*net.TCPConn)
	for _, ch := range c.Chunks {
		s.Sleep(time.Duration(ch.Sleep))
		var b bytes.Buffer
		var vs []*val
		for _, l := range ch.Lines {
			if l.Bad != "" {
				fmt.Fprintf(&b, "%s\n", l.Bad)
				continue
			}
			v := &val{m: l.M, v: l.V, inc: in}
			if w.vals[l.V] != nil {
				continue // only in shrunk plans
			}
			w.vals[l.V] = v
			vs = append(vs, v)
			fmt.Fprintf(&b, "%s %d %d\n", p.Metrics[l.M], l.V, s.WallNow()/1e9)
		}
		// a tick may come between everything being idle and this task
		// running again: no dump has begun if there was none since before.
		ticks := s.Ticks
		for ch.Settle {
			s.WaitIdle()
			if s.Ticks == ticks {
				break
			}
			ticks = s.Ticks
		}
		out := b.Bytes()
		for len(out) > 0 {
			n := len(out)
			if ch.Split > 0 && ch.Split < n {
				n = ch.Split
			}
			if _, err := cn.Write(out[:n]); err != nil {
				return
			}
			out = out[n:]
		}
		if !ch.Settle {
			continue
		}
		idle := 0
		for try := 0; try < 50 && idle < 2; try++ {
			s.WaitIdle()
			if cn.C.Gone() || in.p.Dead || in.intSeq != 0 {
				return
			}
			if cn.C.Peer().Unread() == 0 {
				idle++
				continue
			}
			idle = 0
			s.Sleep(time.Duration(p.Delay)/10 + 1)
		}
		if idle == 2 && s.Ticks == ticks && !in.p.Dead && in.intSeq == 0 && !cn.C.Gone() {
			for _, v := range vs {
				v.firm = true
				zsim.Probe("value firmly received")
			}
		}
	}
	switch c.End {
	case "close":
		cn.Close()
	case "reset":
		cn.C.Reset()
	}
}

// dial opens a connection to the API.
func (w *world) dial() (realnet.Conn, error) {
	c, err := net.Dial("tcp", "localhost"+aaddr)
	if err == nil && w.plan.TLS {
		io.WriteString(c, http.TLSHello)
	}
	return c, err
}

// probe checks that the program listens everywhere, and gives nothing away on
// an unencrypted connection if it is told to encrypt.
func (w *world) probe(in *inc) {
	p := w.plan
	for i := 0; i < p.Listeners; i++ {
		if !w.up(in, gaddr(i)) {
			return
		}
	}
	if !w.up(in, aaddr) {
		return
	}
	zsim.Probe("serves everywhere")
	if !p.TLS {
		return
	}
	c, err := net.Dial("tcp", "localhost"+aaddr)
	if err != nil {
		return
	}
	defer c.Close()
	req, _ := real.NewRequest("GET", "http://localhost/api/nonce", nil)
	if p.Auth {
		req.SetBasicAuth(user, pass)
	}
	req.Write(c)
	resp, err := real.ReadResponse(bufio.NewReader(c), req)
	if err != nil {
		return
	}
	zsim.Probe("plain request to the encrypted API")
	if resp.StatusCode != 400 {
		w.fail([]string{"C26"}, "unencrypted", "the program is configured to encrypt its API, and answers an unencrypted request with status %d", resp.StatusCode)
	}
}

func (w *world) get(in *inc, path string, v url.Values) (code int, body []byte, err error) {
	c, err := w.dial()
	if err != nil {
		return 0, nil, err
	}
	defer c.Close()
	u := &url.URL{Scheme: "http", Host: "localhost", Path: path, RawQuery: v.Encode()}
	hr := &real.Request{Method: "GET", URL: u, Host: "localhost", Header: real.Header{"Accept": {"application/json"}}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if w.plan.Auth {
		hr.SetBasicAuth(user, pass)
	}
	var b bytes.Buffer
	hr.Write(&b)
	if _, err := c.Write(b.Bytes()); err != nil {
		return 0, nil, err
	}
	resp, err := real.ReadResponse(bufio.NewReader(c), hr)
	if err != nil {
		return 0, nil, err
	}
	body, err = io.ReadAll(resp.Body)
	return resp.StatusCode, body, err
}

// api checks that everything that was acknowledged before is served. known
// maps each metric to the end of its newest acknowledged record.
func (w *world) api(in *inc, known map[string]int64) {
	s := w.s
	if len(known) == 0 || !w.up(in, aaddr) {
		return
	}
	began, limit := s.Now, int64(time.Second/2)
	if d := in.plan.Disk; d != nil {
		limit = int64(3*time.Second) + d.stalls()
	}
	gone := func() bool { return in.p.Dead || in.intSeq != 0 }
	var miss string
	for n := 0; ; n++ {
		code, body, err := w.get(in, "/api/query", url.Values{"query": {""}, "results": {"1000"}})
		if gone() {
			return
		}
		if err != nil || code != 200 {
			w.fail([]string{"C16", "C20"}, "not-serving", "the query after start %d failed: %v %d %s %s", in.i, err, code, body, w.panic)
			return
		}
		var l []string
		if err := json.Unmarshal(body, &l); err != nil {
			w.fail([]string{"C16", "C20"}, "not-serving", "the query after start %d returned %q", in.i, body)
			return
		}
		have := map[string]bool{}
		for _, m := range l {
			have[m] = true
		}
		miss = ""
		for m := range known {
			if !have[m] && (miss == "" || m < miss) {
				miss = m
			}
		}
		if miss == "" {
			break
		}
		if n > 1000 && s.Now-began > limit {
			w.fail(both, "not-listed", "after start %d the API does not list %q, which was stored before: %q", in.i, miss, l)
			return
		}
		if in.plan.Disk != nil {
			s.Sleep(time.Microsecond << uint(min(n, 20)))
			continue
		}
		s.Sleep(time.Duration(n) * time.Microsecond)
	}
	var ms []string
	for m := range known {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		code, body, err := w.get(in, "/api/render", url.Values{"metric": {m}, "now": {fmt.Sprint(int64(math.MaxInt64))}})
		if gone() {
			return
		}
		if err != nil || code != 200 {
			w.fail(both, "not-served", "the render of %q after start %d failed: %v %d %s %s", m, in.i, err, code, body, w.panic)
			return
		}
		var out struct {
			Earliest []byte `json:"earliest"`
		}
		if err := json.Unmarshal(body, &out); err != nil {
			w.fail(both, "not-served", "the render of %q after start %d returned %q", m, in.i, body)
			return
		}
		rec, _, err := decode(out.Earliest)
		if err != nil {
			w.fail(both, "bad-record", "the newest record of %q does not decode: %v", m, err)
			return
		}
		if rec.EndTime < known[m] {
			w.fail(both, "not-served", "the render of %q after start %d knows records until %d, %d was stored before", m, in.i, rec.EndTime, known[m])
			return
		}
	}
	in.checked = true
	zsim.Probe("checked through the API")
}

// ended judges how the program ended and marks what has to be stored.
func (w *world) ended(in *inc, died int64) {
	x := in.plan
	faulty := len(x.Faults) > 0
	c15 := []string{"C15"}
	if x.End == "fail" {
		c15 = []string{"C15", "C26"}
	}
	if x.Disk != nil {
		c15 = append(c15, "C20")
		zsim.Probe("a start with failing storage")
	}
	if in.p.Exited {
		zsim.Probe(fmt.Sprint("exit status ", min(in.p.ExitCode, 1)))
	}
	switch {
	case x.End == "fail" && in.p.Exited && in.p.ExitCode == 0:
		w.fail(c15, "exit-status", "a service failed (%s) but the program exited with status 0", x.Fail)
	case x.End == "fail" && !in.p.Exited:
		w.fail(c15, "exit-status", "a service failed (%s) but the program did not exit", x.Fail)
	case x.End == "fail" && !strings.HasPrefix(x.Fail, "accept-") && x.Fail != "db" && died-in.mono > int64(10*time.Minute) && (x.Disk == nil || x.Disk.stalls() == 0):
		w.fail(c15, "slow-exit", "a service could not be started (%s), and the program needed %v to exit", x.Fail, time.Duration(died-in.mono))
	case in.p.Exited && in.p.ExitCode != 0 && x.End != "fail" && !faulty:
		w.fail(c15, "exit-status", "start %d of the program exited with status %d (interrupted %v)", in.i, in.p.ExitCode, in.intSeq != 0)
	case in.p.Exited && in.intSeq == 0 && x.End != "fail" && !faulty:
		w.fail(c15, "exit-status", "start %d of the program exited although nobody asked it to", in.i)
	}
	if in.p.Exited && in.p.ExitCode == 0 && in.intSeq != 0 && !faulty {
		took := time.Duration(died - in.intNow)
		if x.Again == 0 && x.Disk == nil {
			w.landed(in, took)
		}
		if took > 10*time.Minute && (x.Disk == nil || x.Disk.stalls() == 0) {
			w.fail(append([]string{"C25"}, c15...), "slow-exit", "the program needed %v to exit after the interrupt", took)
		}
		if took < 59*time.Second && !x.Wedge {
			in.clean = true
			n := 0
			var l []int
			for k := range w.vals {
				l = append(l, k)
			}
			sort.Ints(l)
			for _, k := range l {
				if v := w.vals[k]; v.inc == in && v.firm {
					v.must = v.must || x.Disk == nil
					n++
					if v.sent == 0 {
						w.fail(both, "lost", "the value %d of %q was received by start %d, which was interrupted and exited with status 0, and was never handed to the database", v.v, w.plan.Metrics[v.m], in.i)
					}
				}
			}
			if n > 0 {
				zsim.Probe("clean exit with data")
			}
		}
	}
}

// inspect reads everything back.
func (w *world) inspect() {
	s, p := w.s, w.plan
	proc := s.NewProc("inspect")
	s.GoIn(proc, "main", func() {
		db := files.New(dataDir, files.Options{Size: p.Size, Cap: p.Cap, Files: p.Files, Tuning: files.Tuning{Buffer: 10, Workers: 1, Handles: 10}})
		ctx, cancel := context.WithCancel(context.Background())
		var done int32
		var wq zsim.WaitQ
		s.GoIn(proc, "db", func() {
			db.Run(ctx)
			atomic.StoreInt32(&done, 1)
			wq.WakeAll(s)
		})
		var ms []string
		if err := db.PopulateMetrics(ctx); err != nil {
			w.fail(both, "unreadable", "the database can not be read: %v", err)
		}
		db.Metrics(ctx, func(m string) (bool, error) {
			ms = append(ms, m)
			return true, nil
		})
		sort.Strings(ms)
		h := fnv.New64a()
		for _, m := range ms {
			mi := -1
			for i, x := range p.Metrics {
				if x == m {
					mi = i
				}
			}
			if isUnfit(m) {
				continue
			}
			if mi < 0 {
				w.fail(both, "wrong-metric", "the metric %q was never sent", m)
				continue
			}
			last := int64(math.MaxInt64)
			err := db.Query(ctx, m, math.MaxInt64, nil, func(ctx realctx.Context, start, end int64, b []byte) (bool, error) {
				rec, vs, err := decode(b)
				if err != nil {
					w.fail(both, "bad-record", "a record of %q does not decode: %v", m, err)
					return true, nil
				}
				fmt.Fprintln(h, m, start, end, vs)
				if rec.StartTime != start || rec.EndTime != end || end < start || end >= last {
					w.fail(both, "bad-record", "the record of %q from %d to %d says %d to %d, the next one ends at %d", m, start, end, rec.StartTime, rec.EndTime, last)
				}
				last = end
				for _, x := range vs {
					v := w.vals[x]
					if v == nil {
						w.fail(both, "fabricated", "the value %d of %q was never sent", x, m)
						continue
					}
					v.got++
					if v.m != mi {
						w.fail(both, "wrong-metric", "the value %d was sent for %q and is stored in %q", x, p.Metrics[v.m], m)
					}
					if v.got > 1 {
						w.fail(both, "duplicated", "the value %d of %q is stored more than once", x, m)
					}
					if start < v.inc.start || end > v.inc.end {
						w.fail(both, "wrong-period", "the value %d of %q was sent to start %d (%d to %d) and is in the record from %d to %d", x, m, v.inc.i, v.inc.start, v.inc.end, start, end)
					}
					if v.firm && v.seen != 0 && (v.seen < start || v.seen > end) {
						w.fail(both, "wrong-period", "the value %d of %q was observed at %d and is in the record from %d to %d", x, m, v.seen, start, end)
					}
				}
				return true, nil
			})
			if err != nil {
				w.fail(both, "unreadable", "%q can not be read: %v", m, err)
			}
		}
		w.h = h.Sum64()
		var l []int
		for x := range w.vals {
			l = append(l, x)
		}
		sort.Ints(l)
		for _, x := range l {
			v := w.vals[x]
			if v.must && v.got == 0 {
				if v.inc.clean {
					w.fail(both, "lost", "the value %d of %q was received by start %d, which was interrupted and exited with status 0, and is not stored (firm %v)", x, p.Metrics[v.m], v.inc.i, v.firm)
				} else {
					w.fail(both, "lost", "the value %d of %q was acknowledged as stored by start %d, which was killed, and is not there", x, p.Metrics[v.m], v.inc.i)
				}
			}
		}
		cancel()
		for atomic.LoadInt32(&done) == 0 {
			wq.Wait(s, "database")
		}
		zsim.ExitProcess(0)
	})
	if !s.WaitDeath(proc, 24*time.Hour) {
		w.fail(both, "hang", "the database can not be read back\n%s", s.Blocked())
		return
	}
	if proc.Crashed != "" {
		w.fail([]string{"*"}, "panic", "reading back died: %s\n%s", proc.Crashed, proc.Stack)
	}
}
