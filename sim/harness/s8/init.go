package main

import (
	"fmt"
	"hash/fnv"
	realos "os"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko"
	"github.com/vivint/rothko/config"
	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/harness/lib"
	"github.com/vivint/rothko/internal/zsim/znet"
	"github.com/vivint/rothko/internal/zsim/zos"
	"github.com/vivint/rothko/ui"
)

// InitRun is one start of the init command.
type InitRun struct {
	At   int64 `json:"at,omitempty"`
	Kill int64 `json:"kill,omitempty"` // so many statements after it began
	Torn bool  `json:"torn,omitempty"`
	Args bool  `json:"args,omitempty"` // with an argument it does not take
}

type InitPlan struct {
	Pre    string         `json:"pre,omitempty"` // file empty dir
	Runs   []*InitRun     `json:"runs"`
	User   []int64        `json:"user,omitempty"` // times at which a user tries to create the file
	Faults []zsim.FSFault `json:"faults,omitempty"`
	Cap    int64          `json:"cap,omitempty"`
	Run    bool           `json:"run,omitempty"` // start the program with the result
}

func genInit(r *lib.Rand, deep bool) *InitPlan {
	p := &InitPlan{}
	if r.P(0.15) {
		p.Pre = r.OfS("file", "file", "empty", "dir")
	}
	n := r.Of(1, 1, 1, 2, 2, 3)
	if deep {
		n = r.Of(1, 1, 2, 3, 4, 6)
	}
	for i := 0; i < n; i++ {
		x := &InitRun{At: int64(r.Of(0, 0, 0, r.Log(1000)-1))}
		if r.P(0.15) {
			x.Kill = int64(r.Log(3000))
			x.Torn = r.P(0.5)
		}
		x.Args = n == 1 && r.P(0.03) // the simulated programs share os.Args
		p.Runs = append(p.Runs, x)
	}
	if r.P(0.3) {
		for k := r.Range(1, 3); k > 0; k-- {
			p.User = append(p.User, int64(r.Of(0, 0, r.Log(1000)-1)))
		}
	}
	if r.P(0.45) {
		f := zsim.FSFault{Op: r.OfS("write", "write", "create", "open", "close", "stat", "fstat"), Prefix: "", Sub: "rothko.toml", Skip: r.Of(0, 0, 1, 2), Count: r.Of(1, 1, 2, 1000)}
		f.Errno = int([]syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EMFILE, syscall.EACCES, syscall.EROFS}[r.N(5)])
		if r.P(0.25) {
			f.Stall = int64(r.Log(int(time.Second)))
		}
		p.Faults = append(p.Faults, f)
	}
	if r.P(0.1) {
		p.Cap = int64(r.Range(1, 6000))
	}
	p.Run = r.P(0.1)
	return p
}

func (p *InitPlan) shrink() (out []*InitPlan) {
	with := func(f func(q *InitPlan)) {
		q := *p
		q.Runs = append([]*InitRun(nil), p.Runs...)
		f(&q)
		out = append(out, &q)
	}
	for i, x := range p.Runs {
		i, x := i, x
		if len(p.Runs) > 1 {
			with(func(q *InitPlan) { q.Runs = append(q.Runs[:i], q.Runs[i+1:]...) })
		}
		if x.At != 0 || x.Args {
			with(func(q *InitPlan) { c := *x; c.At, c.Args = 0, false; q.Runs[i] = &c })
		}
		if x.Kill != 0 {
			with(func(q *InitPlan) { c := *x; c.Kill = 0; q.Runs[i] = &c })
		}
	}
	for i := range p.User {
		i := i
		with(func(q *InitPlan) { q.User = append(append([]int64(nil), p.User[:i]...), p.User[i+1:]...) })
	}
	if len(p.Faults) > 0 {
		with(func(q *InitPlan) { q.Faults = nil })
	}
	if p.Cap > 0 {
		with(func(q *InitPlan) { q.Cap = 0 })
	}
	if p.Pre != "" {
		with(func(q *InitPlan) { q.Pre = "" })
	}
	if p.Run {
		with(func(q *InitPlan) { q.Run = false })
	}
	return
}

const (
	initPath = "/rothko.toml"
	userText = "# written by the user\n"
)

type initWorld struct {
	s    *zsim.Sim
	prop string
	plan *InitPlan
}

func (w *initWorld) fail(kind, f string, args ...interface{}) {
	lib.Fail(w.prop, []string{"C23"}, kind, f, args...)
}

// content is what is at the place of the configuration.
func (w *initWorld) content() (c string, there bool) {
	n := w.s.FS.Find(initPath)
	switch {
	case n == nil:
		return "", false
	case n.IsDir():
		return "(a directory)", true
	}
	return string(n.Data()), true
}

func brief(c string) string {
	if len(c) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", c[:60], len(c))
	}
	return fmt.Sprintf("%q", c)
}

// start begins an init command.
func (w *initWorld) start(name string, x *InitRun) *zsim.Proc {
	s := w.s
	p := s.NewProc(name)
	s.GoIn(p, "main", func() {
		if x.Kill > 0 {
			s.CrashAt(s.Step()+1+x.Kill, p, x.Torn)
		}
		os.Args = []string{"rothko", "init"}
		if x.Args {
			os.Args = append(os.Args, "something")
		}
		rothko.Main()
	})
	return p
}

func runInit(s *zsim.Sim, prop string, p *InitPlan) {
	w := &initWorld{s: s, prop: prop, plan: p}
	pre := ""
	switch p.Pre {
	case "file":
		pre = "[main]\nduration = \"1m\"\n"
		s.FS.WriteFile(initPath, []byte(pre))
	case "empty":
		s.FS.WriteFile(initPath, nil)
	case "dir":
		s.FS.Mkdirs(initPath)
		pre = "(a directory)"
	}
	for _, f := range p.Faults {
		f := f
		f.Prefix = ""
		s.FS.Faults = append(s.FS.Faults, &f)
	}
	s.FS.Cap = p.Cap
	created, left := false, 1
	var wq zsim.WaitQ
	user := s.NewProc("user")
	var procs []*zsim.Proc
	s.GoIn(user, "user", func() {
		defer func() { left--; wq.WakeAll(s) }()
		for _, d := range p.User {
			s.Sleep(time.Duration(d))
			f, err := os.OpenFile(initPath, realos.O_WRONLY|realos.O_CREATE|realos.O_EXCL, 0644)
			if err != nil {
				continue
			}
			zsim.Probe("the user created the file")
			created = true
			// with an editor, that writes it later
			if n := s.FS.Find(initPath); n == nil || n.IsDir() {
				w.fail("gone", "the file the user created is gone")
				return
			}
			f.Close()
			return
		}
	})
	killed := 0
	for i, x := range p.Runs {
		i, x := i, x
		left++
		procs = append(procs, nil)
		s.GoIn(s.World, "starter", func() {
			s.Sleep(time.Duration(x.At))
			pr := w.start(fmt.Sprint("init", i), x)
			procs[i] = pr
			if !s.WaitDeath(pr, time.Hour) {
				w.fail("hang", "the init command did not end\n%s", s.Blocked())
			} else if pr.Crashed != "" {
				w.fail("panic", "the process died: %s\n%s", pr.Crashed, pr.Stack)
			} else if !pr.Exited {
				killed++
			}
			left--
			wq.WakeAll(s)
		})
	}
	for left > 0 {
		wq.Wait(s, "commands")
	}
	s.ClearCrash()
	s.FS.Faults, s.FS.Cap = nil, 0
	c, there := w.content()
	zsim.Tracef("%v %s", there, brief(c))
	won := 0
	for i, pr := range procs {
		if !pr.Exited {
			continue
		}
		zsim.Probe(fmt.Sprint("init exit status ", pr.ExitCode))
		if pr.ExitCode == 0 {
			won++
			if p.Runs[i].Args {
				w.fail("exit-status", "the init command accepted an argument")
			}
		}
	}
	what := "before"
	if created {
		what = "while the command ran"
	}
	switch {
	case p.Pre != "" || created:
		// the file is of somebody else
		if won > 0 {
			w.fail("exit-status", "the init command ended with status 0 although the file was created by somebody else %s", what)
		}
		if c != pre || !there {
			w.fail("overwritten", "the file created by somebody else %s was changed from %s to %s (there: %v)", what, brief(pre), brief(c), there)
		}
	case won > 1:
		w.fail("written-twice", "%d init commands have ended with status 0", won)
	case won == 1:
		if c != config.InitialConfig {
			w.fail("incomplete", "the init command ended with status 0 and the configuration is %s", brief(c))
		}
	case killed == 0:
		if there {
			w.fail("left-behind", "no init command ended with status 0, and there is a configuration: %s", brief(c))
		}
		if len(p.Faults) == 0 && p.Cap == 0 && !p.Runs[0].Args && len(p.Runs) == 1 {
			w.fail("exit-status", "the init command failed although nothing else did")
		}
	default:
		if !strings.HasPrefix(config.InitialConfig, c) {
			w.fail("incomplete", "after a kill, the configuration is %s", brief(c))
		}
	}
	h := fnv.New64a()
	fmt.Fprintln(h, won, killed, created, there, len(c))
	lib.StateHash = h.Sum64()
	if !there {
		// and again
		pr := w.start("retry", &InitRun{})
		if !s.WaitDeath(pr, time.Hour) {
			w.fail("hang", "the init command did not end\n%s", s.Blocked())
			return
		}
		if c, _ := w.content(); !pr.Exited || pr.ExitCode != 0 || c != config.InitialConfig {
			w.fail("retry", "a later init command ended with status %d (%s), the configuration is %s", pr.ExitCode, pr.Crashed, brief(c))
			return
		}
		zsim.Probe("init succeeded later")
	}
	if c, _ := w.content(); c == config.InitialConfig && p.Run {
		w.serve()
	}
}

// serve starts the program with the initial configuration.
func (w *initWorld) serve() {
	s := w.s
	ui.Tarball = nil
	p := s.NewProc("server")
	s.GoIn(p, "main", func() {
		os.Args = []string{"rothko", "run", "rothko.toml"}
		rothko.Main()
	})
	for n := 0; s.Net.Listener(":1111") == nil || s.Net.Listener(":8080") == nil || !s.SigHandled(p, int(syscall.SIGINT)); n++ {
		if n > 100000 || p.Dead {
			w.fail("not-serving", "the program does not serve with the initial configuration (dead %v, status %d, %s)", p.Dead, p.ExitCode, p.Crashed)
			return
		}
		s.Sleep(20 * time.Microsecond)
	}
	c, err := net.Dial("tcp", "localhost:1111")
	if err != nil {
		w.fail("not-serving", "with the initial configuration, connections are not accepted: %v", err)
		return
	}
	fmt.Fprintf(c, "some.metric 5 %d\n", s.WallNow()/1e9)
	for n := 0; n < 100 && c.(*net.TCPConn).C.Peer() == nil; n++ {
		s.Sleep(time.Millisecond)
	}
	for n := 0; n < 10000 && c.(*net.TCPConn).C.Peer().Unread() > 0; n++ {
		s.Sleep(time.Millisecond)
	}
	s.WaitIdle()
	s.Signal(p, int(syscall.SIGINT))
	if !s.WaitDeath(p, time.Hour) {
		w.fail("hang", "with the initial configuration, the program does not end\n%s", s.Blocked())
		return
	}
	if p.Crashed != "" || !p.Exited || p.ExitCode != 0 {
		w.fail("exit-status", "with the initial configuration, the program ended with status %d %s\n%s", p.ExitCode, p.Crashed, p.Stack)
		return
	}
	if n := s.FS.Find("/data"); n == nil || !n.IsDir() {
		w.fail("nothing-stored", "with the initial configuration, nothing was stored in \"data\"")
		return
	}
	zsim.Probe("the program ran with the initial configuration")
}
