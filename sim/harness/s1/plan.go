// S1: the files database under concurrent clients, crashes, faults, restarts.
package main

import (
	"fmt"
	"syscall"
	"time"

	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/harness/lib"
)

// Op of a client.
type Op struct {
	K     string `json:"k"` // put query latest list scan sleep rerun idle
	M     int    `json:"m,omitempty"`
	End   int64  `json:"end,omitempty"`
	N     int    `json:"n,omitempty"`
	Lim   int    `json:"lim,omitempty"` // stop after this many callbacks
	How   int    `json:"how,omitempty"` // how to stop: 0 false, 1 error, 2 cancel the context
	Sync  bool   `json:"sync,omitempty"`
	NoCB  bool   `json:"nocb,omitempty"`
	Nest  bool   `json:"nest,omitempty"` // the callback tries to run the database
	Ctx   int    `json:"ctx,omitempty"`  // 0 none, 1 already cancelled, 2 cancelled after D
	D     int64  `json:"d,omitempty"`
	Dirty bool   `json:"dirty,omitempty"`
}

type Client struct {
	Ops []*Op `json:"ops"`
}

// Run of the database inside one process.
type Run struct {
	After int   `json:"after"` // stop once this many puts were started in the phase (0: when the clients are done)
	D     int64 `json:"d,omitempty"`
	Gap   int64 `json:"gap,omitempty"` // pause until the next run
}

type Crash struct {
	On   string `json:"on"` // "stmt", "op", "cb", "store"
	N    int    `json:"n"`
	D    int64  `json:"d"`
	Torn bool   `json:"torn,omitempty"`
	Op   string `json:"op,omitempty"`
	M    int    `json:"m,omitempty"` // "store": the number of the store after the N-th callback
}

type Flip struct {
	File int `json:"file"`
	Off  int `json:"off"`
	Bit  int `json:"bit"`
	Kind int `json:"kind"` // 0 one bit, 1 a zeroed run, 2 a garbage run, 3 truncated file
	Len  int `json:"len"`
}

// Phase is one incarnation of the process.
type Phase struct {
	Clients  []*Client       `json:"clients"`
	Runs     []*Run          `json:"runs"`
	LateRun  bool            `json:"lateRun,omitempty"` // the first run starts when the clients are done
	BootRead int             `json:"bootRead"`          // 0 no, 1 before the run, 2 after it started
	IdleUp   bool            `json:"idleUp"`            // wait until the start-up has settled
	Crash    *Crash          `json:"crash,omitempty"`
	Faults   []*zsim.FSFault `json:"faults,omitempty"`
	Stalls   []*zsim.FSFault `json:"stalls,omitempty"` // operations that take long
	DiskCap  int64           `json:"diskCap,omitempty"`
	MaxFD    int             `json:"maxFD,omitempty"`
	MaxMaps  int             `json:"maxMaps,omitempty"`
	Flips    []*Flip         `json:"flips,omitempty"` // applied to the files before the phase
	Post     bool            `json:"post,omitempty"`  // reads after the run returned, then another run
	Size     int             `json:"size,omitempty"`  // the process is started with another record size
	Cap      int             `json:"cap,omitempty"`   // the process is started with another capacity
	Files    int             `json:"files,omitempty"` // the process is started with another number of files
	Age      int             `json:"age,omitempty"`   // that many older files of every metric have come and gone before the phase
}

type Plan struct {
	Size    int      `json:"size"`
	Cap     int      `json:"cap"`
	Files   int      `json:"files"`
	Buffer  int      `json:"buffer"`
	Drop    bool     `json:"drop,omitempty"`
	Handles int      `json:"handles"`
	NoFile  uint64   `json:"nofile,omitempty"`
	Workers int      `json:"workers"`
	Metrics []string `json:"metrics"`
	Phases  []*Phase `json:"phases"`
}

var nameSets = [][]string{
	{"a"},
	{"a", "b"},
	{"a", "a.b"},
	{"a.b", "a", "a.b.c"},
	{"x.y.z", "x.y", "x.w", "x"},
	{".lead", "trail.", "two..dots", "sl/ash", "per%cent"},
	{"a.b", "a/b", "a%2eb", "a..b", ".a.b"},
	{"1.data", "a.1.data", "1"},
	{"svc.host1.cpu", "svc.host2.cpu", "svc.host1.mem", "svc.host1", "svc.h"},
	{".", "..", "..."},
	{"m0", "m1", "m2", "m3", "m4", "m5", "m6", "m7"},
	{"a", "a.", "a..", ".a"},
	{"b.a", "b.c", "a.z", "a", "c", "c.c.c.c.c.c", "b", "a.z.1", "zz", "aa", "d.e", "d.f"},
	{"A", "a", "B.b", "b.B", "b.b"},
	{"long.long.long.long.long.long.long.long.long.long.long.long.long.name.of.a.metric.with.very.many.components.of.which.each.is.a.directory", "long"},
	{"", "a", "."},
	{"ünï.cödé", "空", "tab\tbed", "new\nline", "sp ace"},
}

const sec = int64(1e9)

func (scen) Gen(r *lib.Rand, prop string, deep bool) interface{} {
	p := &Plan{}
	p.Size = r.Of(80, 80, 96, 128, 200)
	p.Cap = r.Of(1, 2, 3, 3, 4, 5, 8)
	p.Files = r.Of(1, 1, 2, 2, 3, 5)
	p.Buffer = r.Of(0, 0, 1, 2, 5, 50)
	p.Workers = r.Of(1, 1, 2, 3)
	p.Handles = r.Of(1, 1, 2, 3, 5, 100)
	if r.P(0.1) {
		p.Handles = 0
		p.NoFile = uint64(512 + r.Of(1, 2, 4, 50))
	}
	p.Drop = r.P(0.15)
	p.Metrics = append([]string(nil), nameSets[r.N(len(nameSets))]...)
	if r.P(0.5) && len(p.Metrics) > 2 {
		p.Metrics = p.Metrics[:2]
	}
	if r.P(0.06) {
		p.Size = r.Of(256, 512, 1000, 1024, 4095, 4096, 4097, 5000)
	}
	if r.P(0.04) {
		p.Cap = r.Of(12, 16, 40)
	}
	if r.P(0.02) {
		// positions in a file that need more bytes to store
		p.Cap = r.Of(128, 129, 130, 255, 257, 300)
		if r.P(0.25) {
			p.Cap = r.Of(16384, 16386, 32769, 65537)
		}
		if p.Size > 256 {
			p.Size = 80
		}
	}
	if r.P(0.04) {
		p.Workers = r.Of(4, 8)
	}
	if prop != "C05" && r.P(0.04) {
		p.Files = 0
	}
	crash, faults, flips, reruns, late := 0.0, 0.0, 0.0, 0.0, 0.0
	nph := 1
	wput, wquery, wlatest, wlist, wscan, wsleep, wrerun, widle := 60, 15, 6, 3, 1, 6, 0, 3
	nclients := r.Range(1, 3)
	nops := r.Range(3, 14)
	if deep {
		nops = r.Range(3, 40)
	}
	wstore := 25
	badPut := 0.15
	cctx := 0.05
	switch prop {
	case "C01":
		crash = 0.95
		wstore = 45
		nph = r.Range(2, 4)
		p.Drop = false
		if r.P(0.2) {
			faults = 0.3
		}
		reruns = 0.1
	case "C02":
		nph = r.Range(1, 4)
		crash = 0.5
		faults = 0.2
		if r.P(0.5) {
			flips = 0.8
			nph = r.Range(2, 4)
		}
		wquery = 30
	case "C03":
		nclients = r.Range(2, 4)
		wquery = 50
		wlatest = 12
		wlist = 0
		reruns = 0.1
		if r.P(0.2) {
			nph = 2
			crash = 0.3
		}
	case "C04":
		nph = r.Of(1, 2, 2, 2, 3)
		crash = 0.7
		wstore = 60
		badPut = 0.4
		wquery = 10
		if r.P(0.5) {
			p.Metrics = p.Metrics[:1]
		}
		if r.P(0.6) {
			p.Cap = r.Of(3, 4, 5, 8)
		}
	case "C05":
		nph = r.Of(1, 1, 2, 3)
		crash = 0.4
		nops = r.Range(10, 30)
		p.Cap = r.Of(1, 1, 2, 3, 4)
		p.Files = r.Of(1, 1, 2, 3)
		p.Metrics = p.Metrics[:1]
		if r.P(0.15) {
			faults = 0.5
		}
		badPut = 0.1
	case "C06":
		reruns = 0.6
		p.Drop = r.P(0.35)
		cctx = 0.25
		late = 0.2
		faults = 0.2
		wput = 90
		nclients = r.Range(1, 4)
	case "C07":
		reruns = 0.9
		wrerun = 8
		late = 0.15
		nclients = r.Range(1, 3)
	case "C08":
		p.Metrics = append([]string(nil), nameSets[r.N(len(nameSets))]...)
		wlist, wscan, wquery, wlatest = 30, 20, 3, 1
		nph = r.Of(1, 1, 2, 2, 3)
		crash = 0.3
		if r.P(0.15) {
			faults = 0.4
		}
		reruns = 0.2
		nclients = r.Range(2, 4)
	case "C09":
		faults = 0.95
		nph = r.Of(1, 1, 2, 3)
		crash = 0.15
		reruns = 0.15
	case "C10":
		p.Handles = r.Of(1, 1, 2, 3)
		if r.P(0.1) {
			p.Handles = 0
			p.NoFile = uint64(512 + r.Of(1, 2, 4))
		}
		faults = 0.4
		reruns = 0.5
		nclients = r.Range(2, 4)
		wscan = 5
		if r.P(0.3) {
			nph = 2
			flips = 0.5
		}
	case "C19":
		nclients = r.Range(2, 4)
		reruns = 0.4
		wrerun = 3
		wlist, wscan = 15, 10
	}
	if flips > 0 {
		p.Files = r.Of(1, 2, 3)
	}
	if r.P(0.04) {
		// many small files
		p.Cap = r.Of(1, 1, 2)
		p.Files = r.Of(8, 9, 10, 11, 12)
		p.Metrics = p.Metrics[:1]
		if nops < 12 {
			nops = 12
		}
		nph = r.Range(1, 3)
	}
	aged := 0.05
	if prop == "C05" {
		aged = 0.2
	}
	pNest := 0.0
	if prop == "C07" {
		pNest = float64(r.Of(0, 1, 3)) / 10
	}
	// one client stores values of one to three records in one metric, a kill
	// comes in the middle of storing one, and more follow after a restart
	focus := false
	switch prop {
	case "C01", "C03", "C04", "C05":
		if r.P(map[string]float64{"C04": 0.35, "C01": 0.2}[prop] + 0.05) {
			focus = true
			p.Metrics = p.Metrics[:1]
			p.Size = r.Of(80, 96)
			p.Cap = r.Of(3, 4, 5, 6, 8)
			p.Files = r.Of(1, 2, 3)
			nclients = 1
			nph = r.Range(2, 3)
			crash, wstore = 1, 1000
			faults, flips = 0, 0
		}
	}
	// the configuration changes between starts. metadata damaged by a crash
	// can only be repaired with the same record size, so there are no crashes
	// then.
	resize, recap := false, false
	switch prop {
	case "C01", "C02", "C03", "C04", "C05", "C09":
		if flips == 0 && !focus && r.P(0.1) {
			recap = true
			nph = r.Range(2, 4)
			if prop != "C01" && r.P(0.6) {
				resize = true
				crash = 0
			}
		}
	}
	next := make([]int64, len(p.Metrics))
	base := int64(r.Of(1, 1000, 1500000000))
	if base > 1000000 {
		base *= 1000000000
	}
	for i := range next {
		next[i] = base + int64(r.N(50))
	}
	for ph := 0; ph < nph; ph++ {
		x := &Phase{}
		if recap && ph > 0 && r.P(0.7) {
			x.Cap = r.Of(1, 2, 3, 5, 8)
		}
		if recap && ph > 0 && p.Files > 0 && r.P(0.4) {
			x.Files = r.Of(1, 1, 2, 3, 5)
		}
		if resize && ph > 0 && r.P(0.7) {
			x.Size = r.Of(80, 96, 128, 200)
		}
		if ph > 0 && r.P(aged) {
			x.Age = r.Of(4, 5, 6, 7, 8, 90, 95, 97, 993, 9994, 65533, 99996, 999995, 9999993)
		}
		x.BootRead = r.N(3)
		x.IdleUp = r.P(0.7)
		x.Post = r.P(0.3)
		puts := 0
		for c := 0; c < nclients; c++ {
			cl := &Client{}
			for o := 0; o < nops; o++ {
				op := &Op{M: r.N(len(p.Metrics))}
				switch r.Pick(wput, wquery, wlatest, wlist, wscan, wsleep, wrerun, widle) {
				case 0:
					op.K = "put"
					puts++
					switch {
					case r.P(badPut):
						op.End = next[op.M] - int64(r.N(12))
						if op.End < base {
							op.End = base
						}
					default:
						next[op.M] += int64(r.Of(1, 1, 2, 5, 40))
						op.End = next[op.M]
					}
					op.N = genLen(r, p)
					op.Sync = r.P(0.4)
					if focus {
						op.N = (p.Size-24)*r.Of(1, 1, 1, 2, 2, 3, 3) - r.N(6)
						op.Sync = r.P(0.8)
					}
					op.NoCB = r.P(0.02)
					op.Nest = r.P(pNest)
					if r.P(cctx) {
						op.Ctx = r.Range(1, 2)
						op.D = int64(r.Of(0, 1, 1000))
					}
				case 1:
					op.K = "query"
					op.End = 1<<63 - 1
					if r.P(0.5) {
						op.End = base + int64(r.N(int(next[op.M]-base)+6)) - 1
					}
					if r.P(0.04) {
						op.End = []int64{0, 1, -1, -1 << 63, 1<<63 - 2}[r.N(5)]
					}
					if r.P(0.3) {
						op.Lim = r.Range(1, 4)
						op.How = r.N(3)
					}
					if r.P(0.05) {
						op.Ctx = 1
					}
					op.Dirty = r.P(0.5)
					op.N = r.Of(0, 1, 10, 300)
				case 2:
					op.K = "latest"
					op.N = r.Of(0, 1, 10, 300)
				case 3:
					op.K = "list"
					if r.P(0.25) {
						op.Lim = r.Range(1, 3)
						op.How = r.N(2)
					}
				case 4:
					op.K = "scan"
					if r.P(0.1) {
						op.Ctx = r.Range(1, 2)
					}
				case 5:
					op.K = "sleep"
					op.D = int64(r.Of(0, 1, 1000, 1000000))
				case 6:
					op.K = "rerun"
				case 7:
					op.K = "idle"
				}
				cl.Ops = append(cl.Ops, op)
			}
			x.Clients = append(x.Clients, cl)
		}
		nr := 1
		if r.P(reruns) {
			nr = r.Range(2, 3)
		}
		if r.P(late) {
			x.LateRun = true
			if !p.Drop {
				// handing over blocks until the database runs
				for _, c := range x.Clients {
					for _, o := range c.Ops {
						o.Sync = false
					}
				}
				if p.Buffer < puts {
					p.Buffer = 200
				}
			}
			for _, c := range x.Clients {
				for _, o := range c.Ops {
					o.Sync = false
				}
			}
		}
		for i := 0; i < nr; i++ {
			run := &Run{Gap: int64(r.Of(0, 0, 1, 1000))}
			if i < nr-1 {
				run.After = r.Range(1, puts+1)
				run.D = int64(r.Of(0, 0, 0, 500))
			}
			x.Runs = append(x.Runs, run)
		}
		if r.P(crash) && (ph < nph-1 || nph == 1 && r.P(0.3)) {
			c := &Crash{Torn: r.P(0.5)}
			switch r.Pick(20, 25, 30, wstore) {
			case 3:
				c.On = "store"
				c.N = r.N(puts + 1)
				c.M = r.Range(1, r.Of(8, 40))
				if r.P(0.3) {
					c.D = int64(r.Log(8))
				}
			case 0:
				c.On = "stmt"
				c.D = int64(r.Range(1, 1<<uint(r.Range(5, 15))))
			case 1:
				c.On = "op"
				c.Op = r.OfS("create", "open", "mmap", "fallocate", "rename", "unlink", "mkdir", "readdir", "write")
				c.N = r.Log(10)
				c.D = int64(r.Log(400))
			case 2:
				c.On = "cb"
				c.N = r.N(puts + 1)
				c.D = int64(r.Log(3000))
			}
			x.Crash = c
		}
		if r.P(faults) {
			for k := r.Range(1, 3); k > 0; k-- {
				switch r.Pick(70, 10, 10, 10) {
				case 0:
					f := &zsim.FSFault{}
					f.Op = r.OfS("open", "create", "mkdir", "fallocate", "mmap", "readdir", "unlink", "rename", "fstat", "write", "stat", "ftruncate")
					es := map[string][]syscall.Errno{
						"open":      {syscall.EMFILE, syscall.ENFILE, syscall.EIO, syscall.EACCES, syscall.ENOMEM},
						"create":    {syscall.ENOSPC, syscall.EMFILE, syscall.EIO, syscall.EROFS},
						"mkdir":     {syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EROFS},
						"fallocate": {syscall.ENOSPC, syscall.EIO, syscall.ENOSPC, syscall.EINTR},
						"mmap":      {syscall.ENOMEM},
						"readdir":   {syscall.EIO},
						"unlink":    {syscall.EIO, syscall.EACCES},
						"rename":    {syscall.EIO, syscall.ENOSPC},
						"fstat":     {syscall.EIO},
						"write":     {syscall.EIO, syscall.ENOSPC},
						"stat":      {syscall.EIO},
						"ftruncate": {syscall.EIO},
					}[f.Op]
					f.Errno = int(es[r.N(len(es))])
					f.Skip = r.Log(12) - 1
					f.Count = r.Of(1, 1, 2, 5, 1000)
					x.Faults = append(x.Faults, f)
				case 1:
					x.DiskCap = int64(p.Size*(p.Cap+1)*r.Range(1, 6) + r.N(100))
				case 2:
					x.MaxFD = r.Range(1, 2)
				case 3:
					x.MaxMaps = r.Range(1, 4)
				}
			}
		}
		if prop != "C19" && r.P(0.12) {
			for k := r.Range(1, 2); k > 0; k-- {
				x.Stalls = append(x.Stalls, &zsim.FSFault{Op: r.OfS("open", "create", "mkdir", "fallocate", "mmap", "readdir", "unlink", "rename", "munmap", "close"), Skip: r.Log(12) - 1, Count: r.Range(1, 3), Stall: int64(r.Log(int(50 * time.Second)))})
			}
		}
		if ph > 0 && r.P(flips) {
			for k := r.Range(1, 4); k > 0; k-- {
				x.Flips = append(x.Flips, &Flip{File: r.N(1000), Off: r.N(1 << 20), Bit: r.N(8), Kind: r.Pick(70, 15, 15), Len: r.Range(1, 4)})
			}
		}
		p.Phases = append(p.Phases, x)
	}
	return p
}

func genLen(r *lib.Rand, p *Plan) int {
	chunk, cap := p.Size-24, p.Cap
	if cap > 40 && r.P(0.95) {
		cap = 6
	}
	if cap > 300 {
		cap = 300
	}
	switch r.Pick(40, 20, 15, 15, 10) {
	case 0:
		return r.N(chunk + 1)
	case 1:
		return chunk*r.Range(1, cap) - r.Of(0, 1, 5)
	case 2:
		return chunk*r.Range(1, cap) + r.Of(0, 1)
	case 3:
		return r.N(chunk*cap + 1)
	}
	return chunk*cap + r.Of(0, 0, 1, 1, 2, chunk)
}

func (scen) New() interface{} { return &Plan{} }

func clonePlan(p *Plan) *Plan {
	q := *p
	q.Metrics = append([]string(nil), p.Metrics...)
	q.Phases = nil
	for _, ph := range p.Phases {
		x := *ph
		x.Clients = nil
		for _, c := range ph.Clients {
			x.Clients = append(x.Clients, &Client{append([]*Op(nil), c.Ops...)})
		}
		x.Runs = append([]*Run(nil), ph.Runs...)
		x.Faults = nil
		for _, f := range ph.Faults {
			g := *f
			x.Faults = append(x.Faults, &g)
		}
		x.Flips = append([]*Flip(nil), ph.Flips...)
		q.Phases = append(q.Phases, &x)
	}
	return &q
}

func (scen) Shrink(plan interface{}) (out []interface{}) {
	p := plan.(*Plan)
	add := func(fn func(q *Plan)) {
		q := clonePlan(p)
		fn(q)
		out = append(out, q)
	}
	for i := range p.Phases {
		i := i
		if len(p.Phases) > 1 {
			add(func(q *Plan) { q.Phases = append(q.Phases[:i:i], q.Phases[i+1:]...) })
		}
	}
	for i, ph := range p.Phases {
		i := i
		for j := range ph.Clients {
			j := j
			if len(ph.Clients) > 1 {
				add(func(q *Plan) {
					c := q.Phases[i].Clients
					q.Phases[i].Clients = append(c[:j:j], c[j+1:]...)
				})
			}
		}
		if ph.Crash != nil {
			add(func(q *Plan) { q.Phases[i].Crash = nil })
		}
		if len(ph.Stalls) > 0 {
			add(func(q *Plan) { q.Phases[i].Stalls = nil })
		}
		for j := range ph.Faults {
			j := j
			add(func(q *Plan) {
				f := q.Phases[i].Faults
				q.Phases[i].Faults = append(f[:j:j], f[j+1:]...)
			})
		}
		if ph.Size != 0 {
			add(func(q *Plan) { q.Phases[i].Size = 0 })
		}
		if ph.Files != 0 {
			add(func(q *Plan) { q.Phases[i].Files = 0 })
		}
		if ph.Cap != 0 {
			add(func(q *Plan) { q.Phases[i].Cap = 0 })
		}
		if ph.DiskCap != 0 {
			add(func(q *Plan) { q.Phases[i].DiskCap = 0 })
		}
		if ph.MaxFD != 0 {
			add(func(q *Plan) { q.Phases[i].MaxFD = 0 })
		}
		if ph.MaxMaps != 0 {
			add(func(q *Plan) { q.Phases[i].MaxMaps = 0 })
		}
		if len(ph.Runs) > 1 {
			add(func(q *Plan) { q.Phases[i].Runs = q.Phases[i].Runs[1:] })
		}
		if ph.Age != 0 {
			add(func(q *Plan) { q.Phases[i].Age = 0 })
		}
		if ph.Post {
			add(func(q *Plan) { q.Phases[i].Post = false })
		}
		for j := range ph.Flips {
			j := j
			add(func(q *Plan) {
				f := q.Phases[i].Flips
				q.Phases[i].Flips = append(f[:j:j], f[j+1:]...)
			})
		}
	}
	for i, ph := range p.Phases {
		i := i
		for j, c := range ph.Clients {
			j := j
			for n := len(c.Ops) / 2; n >= 1; n /= 2 {
				for k := 0; k+n <= len(c.Ops); k += n {
					k, n := k, n
					add(func(q *Plan) {
						o := q.Phases[i].Clients[j].Ops
						q.Phases[i].Clients[j].Ops = append(o[:k:k], o[k+n:]...)
					})
				}
			}
		}
	}
	if p.Workers > 1 {
		add(func(q *Plan) { q.Workers = 1 })
	}
	if len(p.Metrics) > 1 {
		add(func(q *Plan) {
			q.Metrics = q.Metrics[:len(q.Metrics)-1]
			for _, ph := range q.Phases {
				for _, c := range ph.Clients {
					for i, o := range c.Ops {
						if o.M >= len(q.Metrics) {
							x := *o
							x.M = 0
							c.Ops[i] = &x
						}
					}
				}
			}
		})
	}
	return out
}

// conf returns the record size and capacity that the phase runs with.
func (p *Plan) conf(ph int) (size, cap int) {
	size, cap = p.Size, p.Cap
	if x := p.Phases[ph]; x.Size != 0 {
		size = x.Size
	}
	if x := p.Phases[ph]; x.Cap != 0 {
		cap = x.Cap
	}
	return size, cap
}

// minSize and minCap are over all phases.
func (p *Plan) minSize() int {
	n := p.Size
	for _, x := range p.Phases {
		if x.Size != 0 && x.Size < n {
			n = x.Size
		}
	}
	return n
}

func (p *Plan) minCap() int {
	n := p.Cap
	for _, x := range p.Phases {
		if x.Cap != 0 && x.Cap < n {
			n = x.Cap
		}
	}
	return n
}

// files returns the number of files that the phase runs with.
func (p *Plan) files(ph int) int {
	if n := p.Phases[ph].Files; n != 0 && p.Files != 0 {
		return n
	}
	return p.Files
}

func (p *Plan) minFiles() int {
	n := p.Files
	for i := range p.Phases {
		if f := p.files(i); f < n {
			n = f
		}
	}
	return n
}

// changed reports whether the configuration changes between phases.
func (p *Plan) changed() bool {
	for i := range p.Phases {
		if s, c := p.conf(i); s != p.Size || c != p.Cap || p.files(i) != p.Files {
			return true
		}
	}
	return false
}

// fits reports whether the value fits in an empty file as the phase makes it,
// fitted whether it fits in one that any phase so far may have made.
func (p *Plan) fits(ph, n int) bool {
	size, cap := p.conf(ph)
	return slotsFor(n, size) <= cap
}

func (p *Plan) fitted(ph, n int) bool {
	for ; ph >= 0; ph-- {
		if p.fits(ph, n) {
			return true
		}
	}
	return false
}

// slots is the largest number of records that the value may take.
func (p *Plan) slots(n int) int { return slotsFor(n, p.minSize()) }

func slotsFor(n, size int) int {
	chunk := size - 24
	if n <= chunk {
		return 1
	}
	return (n + chunk - 1) / chunk
}

func fill(id int, n int) []byte {
	r := lib.NewRand(uint64(id)*7 + 3)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Next() >> 56)
		if i%7 == 3 {
			b[i] = 0
		}
	}
	return b
}

func vname(id int) string { return fmt.Sprintf("v%d", id) }
