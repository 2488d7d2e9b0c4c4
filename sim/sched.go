// Package zsim is the deterministic simulator: one scheduler goroutine runs
// every simulated goroutine as a coroutine, one at a time, and one seeded
// generator decides every interleaving, delay and fault.
package zsim

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/vivint/rothko/internal/zroot"
)

type coro struct{}

//go:linkname newcoro runtime.newcoro
func newcoro(func(*coro)) *coro

//go:linkname coroswitch runtime.coroswitch
func coroswitch(*coro)

// ---------------------------------------------------------------------------
// processes and tasks

// Proc is one simulated operating system process. Proc 0 is the world outside
// (the harness); it never crashes.
type Proc struct {
	ID       int
	Name     string
	Dead     bool
	born     byte
	Exited   bool
	ExitCode int
	Crashed  string // non empty if it died from a panic
	Stack    string
	tasks    []*Task
	Data     interface{} // used by the operating system layer
	hooks    []func(p *Proc)
	deathWq  WaitQ
}

type Task struct {
	ID     int
	Name   string
	P      *Proc
	co     *coro
	state  uint8
	killed bool

	stalled bool // in a system call that takes its time
	prio    uint64
	wait    string // what it is blocked on
	wake    int    // result handed over by whoever woke it
	seq     uint64 // park sequence number, guards stale timers
	fn      func()
	sync    byte // address used for happens-before of creation and wake-up
	last    int64
}

const (
	tsNew = iota
	tsRunnable
	tsRunning
	tsBlocked
	tsDead
)

// Violation is a property violation found while a run proceeds.
type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

// Strategy of the scheduler, chosen per run.
type Strategy struct {
	Mode     int     // 0 random walk, 1 priorities (PCT), 2 run to block
	PY       float64 // preemption probability per statement
	PS       float64 // preemption probability per synchronisation operation
	Changes  int     // number of priority change points (PCT)
	Horizon  int64   // statements over which change points are spread
	PWarp    float64 // probability that time passes although tasks are runnable
	PMapPerm bool
}

// WaitIdle blocks the current task until nothing else can run at the present
// instant of virtual time.
func (s *Sim) WaitIdle() { s.idleQ.Wait(s, "idle") }

// Sim is the state of the current run.
type Sim struct {
	Seed  uint64
	Strat Strategy

	rng rng
	ent rng

	// replay
	replay  bool
	forced  map[choiceKey]uint32
	Choices []ChoiceRec // the non default decisions of this run
	counts  [numStreams]uint64
	ysteps  []int64 // replay: statement numbers of preemptions, ascending

	cur      *Task
	run      []*Task
	nextID   int
	procs    []*Proc
	World    *Proc
	Now      int64 // virtual nanoseconds since the start of the run
	Wall     int64 // wall clock offset (may jump)
	Fine     int64 // how far clock readings are ahead of the timers' clock
	timers   timerHeap
	timerSeq uint64
	seq      int64 // global event sequence number

	base     int64 // statement counter at the time countdown was loaded
	loaded   int64
	nextPre  int64
	crashAt  int64
	crashFn  func(phase int)
	changeAt []int64
	MaxSteps int64
	MaxTime  int64

	done      bool
	mainDone  bool
	Viol      *Violation
	Deadlock  bool
	OverSteps bool
	OverTime  bool
	Unsup     string // unsupported operation: the run is not a verdict

	Switches  int64
	Preempts  int64
	schedHash uint64
	Trace     []string
	TraceOn   bool
	Probes    map[string]int64
	Faults    map[string]int64

	schedCo     *coro
	onSched     func()
	inKill      bool
	unwindSteps int64
	FS          *FS
	Net         *Net
	Sig         sigState
	idleQ       WaitQ
	Ticks       int64 // how often a ticker fired
	IdleAdv     int64 // how often time advanced because nothing could run
	g0sync      byte
	inSched     bool
	Errs        int64 // operations that failed because of an injected fault
}

var countdown int64 = 1 << 62

// S is the current run.
var S *Sim

// Streams of decisions.
type Stream uint8

const (
	StSched Stream = iota // which runnable task continues
	StSync                // preempt at a synchronisation operation
	StY                   // preempt at a statement
	StSel                 // which ready select case
	StMap                 // map iteration order
	StWarp                // time passes early
	StFS                  // file system faults
	StNet                 // network fragmentation, delays, resets
	StPool                // sync.Pool behaviour
	StMisc
	StTick
	numStreams
)

var streamNames = [...]string{"sched", "sync", "stmt", "select", "map", "warp", "fs", "net", "pool", "misc", "tick"}

type choiceKey struct {
	s Stream
	i uint64
}

// ChoiceRec is one recorded non default decision.
type ChoiceRec struct {
	S Stream `json:"s"`
	I uint64 `json:"i"`
	V uint32 `json:"v"`
}

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) float() float64 { return float64(r.next()>>11) / (1 << 53) }
func (r *rng) intn(n int) int { return int(r.next() % uint64(n)) }

// Choice decides between n alternatives; 0 is the benign default.
func Choice(st Stream, n int) int {
	if S == nil || n <= 1 {
		return 0
	}
	return S.choice(st, func(r *rng) int { return r.intn(n) }, n)
}

// Chance decides whether something with probability p happens; the default is no.
func Chance(st Stream, p float64) bool {
	if S == nil || p <= 0 {
		return false
	}
	return S.choice(st, func(r *rng) int {
		if r.float() < p {
			return 1
		}
		return 0
	}, 2) == 1
}

func (s *Sim) choice(st Stream, draw func(r *rng) int, n int) int {
	i := s.counts[st]
	s.counts[st]++
	v := 0
	if s.replay {
		v = int(s.forced[choiceKey{st, i}])
		if v >= n {
			v = n - 1
		}
	} else {
		v = draw(&s.rng)
	}
	if v != 0 {
		s.Choices = append(s.Choices, ChoiceRec{st, i, uint32(v)})
	}
	return v
}

// ---------------------------------------------------------------------------
// interleaving points

// YS is called before every synchronisation operation.
func YS() {
	countdown--
	if countdown < 0 {
		ySlow()
	}
	if s := S; s != nil && s.cur != nil && !s.cur.killed && (s.Strat.PS > 0 || s.replay) {
		if Chance(StSync, s.Strat.PS+boolf(s.replay)) {
			s.preempt()
		}
	}
}

func boolf(b bool) float64 {
	if b {
		return 1e-9
	}
	return 0
}

// Step returns the number of statements executed so far.
func (s *Sim) Step() int64 { return s.base + (s.loaded - countdown) }

func (s *Sim) reload() {
	step := s.Step()
	s.base = step
	next := s.nextPre
	if s.crashFn != nil {
		if s.crashAt-1 < next && s.crashAt-1 > step {
			next = s.crashAt - 1
		}
		if s.crashAt < next && s.crashAt > step {
			next = s.crashAt
		}
	}
	for len(s.changeAt) > 0 && s.changeAt[0] <= step {
		s.changeAt = s.changeAt[1:]
	}
	if len(s.changeAt) > 0 && s.changeAt[0] < next {
		next = s.changeAt[0]
	}
	if s.MaxSteps < next {
		next = s.MaxSteps
	}
	if next <= step {
		next = step + 1
	}
	s.loaded = next - step - 1
	countdown = s.loaded
}

func (s *Sim) drawPre() {
	step := s.Step()
	if s.replay {
		for len(s.ysteps) > 0 && s.ysteps[0] <= step {
			s.ysteps = s.ysteps[1:]
		}
		if len(s.ysteps) > 0 {
			s.nextPre = s.ysteps[0]
		} else {
			s.nextPre = 1 << 60
		}
		return
	}
	if s.Strat.PY <= 0 {
		s.nextPre = 1 << 60
		return
	}
	// geometric
	n := int64(1)
	u := s.rng.float()
	q := 1 - s.Strat.PY
	p := q
	for u < p && n < 5000 {
		p *= q
		n++
	}
	s.nextPre = step + n
}

func ySlow() {
	s := S
	if s == nil || s.cur == nil || s.cur.killed {
		// not inside the simulation: init functions, or unwinding tasks
		if s != nil && s.cur != nil {
			if s.unwindSteps++; s.unwindSteps > 200000 {
				s.unwindSteps = 0
				goexit()
			}
		}
		if s != nil {
			countdown++ // does not count
			if countdown < 0 {
				countdown = 0
			}
			return
		}
		countdown = 1 << 62
		return
	}
	step := s.Step()
	if step >= s.MaxSteps {
		s.OverSteps = true
		s.finish()
		s.toSched()
		return
	}
	pre := false
	if s.crashFn != nil && step >= s.crashAt-1 {
		if step >= s.crashAt {
			fn := s.crashFn
			s.crashFn = nil
			s.reload()
			s.OnSched(func() { fn(1) })
			if s.cur.killed {
				s.toSched()
				return
			}
			if s.crashFn == nil {
				return
			}
		} else {
			fn := s.crashFn
			s.reload()
			s.OnSched(func() { fn(0) })
			return
		}
	}
	if len(s.changeAt) > 0 && s.changeAt[0] <= step {
		// PCT: the running task drops below everybody else
		s.cur.prio = uint64(len(s.changeAt))
		s.changeAt = s.changeAt[1:]
		pre = true
		if !s.replay {
			s.Choices = append(s.Choices, ChoiceRec{StY, uint64(step), 1})
		}
	}
	if step >= s.nextPre {
		pre = true
		s.Choices = append(s.Choices, ChoiceRec{StY, uint64(step), 1})
		s.drawPre()
	}
	s.reload()
	if pre {
		s.preempt()
	}
}

// preempt gives up the processor but stays runnable.
func (s *Sim) preempt() {
	t := s.cur
	if t == nil || t.killed || s.inKill {
		return
	}
	if len(s.run) == 0 && s.timers.len() == 0 {
		return
	}
	s.Preempts++
	t.state = tsRunnable
	s.run = append(s.run, t)
	s.toSched()
}

// Yield is an explicit scheduling point.
func Yield() {
	if S != nil {
		S.preempt()
	}
}

// toSched switches from the current task to the scheduler.
func (s *Sim) toSched() {
	t := s.cur
	coroswitch(t.co)
	// resumed
	if t.killed {
		goexit()
	}
}

// OnSched runs fn on the scheduler's goroutine and resumes the task. Shared
// simulator state that must stay invisible to the race detector is only
// touched there.
func (s *Sim) OnSched(fn func()) {
	t := s.cur
	if t == nil || t.killed {
		fn()
		return
	}
	if !RaceEnabled || s.inSched {
		fn()
		return
	}
	s.onSched = fn
	coroswitch(t.co)
	// what the scheduler's goroutine wrote for this task is visible to it
	// (and nothing else becomes visible: that goroutine acquires nothing)
	raceAcquire(unsafe.Pointer(&s.g0sync))
}

// Park blocks the current task until Unpark. It reports the wake value.
func (s *Sim) Park(why string) int {
	t := s.cur
	if t == nil {
		panic("zsim: blocking operation outside of a simulated task: " + why)
	}
	if t.killed {
		return -1
	}
	t.state = tsBlocked
	t.wait = why
	t.seq++
	s.toSched()
	raceAcquire(unsafe.Pointer(&t.sync))
	return t.wake
}

// Unpark makes a blocked task runnable.
func (s *Sim) Unpark(t *Task, v int) {
	if t.state != tsBlocked || t.P.Dead {
		return
	}
	t.wake = v
	t.wait = ""
	t.state = tsRunnable
	s.run = append(s.run, t)
}

// Go starts a new task in the process of the current one.
func Go(fn func()) {
	s := S
	if s == nil || s.cur == nil {
		panic("zsim: go statement outside of the simulation")
	}
	if s.cur.killed {
		return
	}
	YS()
	s.spawn(s.cur.P, "go", fn)
}

// GoIn starts a task in process p.
func (s *Sim) GoIn(p *Proc, name string, fn func()) *Task { return s.spawn(p, name, fn) }

func (s *Sim) spawn(p *Proc, name string, fn func()) *Task {
	s.nextID++
	t := &Task{ID: s.nextID, Name: name, P: p, fn: fn, state: tsRunnable}
	if s.Strat.Mode == 1 {
		t.prio = 1000 + s.rng.next()%1000000
	}
	if p.Dead {
		t.state = tsDead
		return t
	}
	raceRelease(unsafe.Pointer(&t.sync))
	t.co = newcoro(func(c *coro) { taskMain(t) })
	p.tasks = append(p.tasks, t)
	s.run = append(s.run, t)
	return t
}

func taskMain(t *Task) {
	s := S
	raceAcquire(unsafe.Pointer(&t.sync))
	raceAcquire(unsafe.Pointer(&t.P.born))
	debug.SetPanicOnFault(true)
	normal := false
	defer raceTaskEnd() // the runtime does not do it for coroutines
	defer func() {
		r := recover()
		raceReleaseMerge(unsafe.Pointer(&endSync))
		if t.killed {
			t.state = tsDead
			return
		}
		t.state = tsDead
		if !normal && r == nil {
			// runtime.Goexit called by the code itself
			normal = true
		}
		if r != nil {
			st := string(debug.Stack())
			if t.P.Crashed == "" {
				t.P.Crashed = fmt.Sprint(r)
				t.P.Stack = st
			}
			s.procDied(t.P, t)
		}
		s.removeTask(t)
	}()
	if t.killed {
		return
	}
	zroot.Call(t.fn)
	normal = true
}

func (s *Sim) removeTask(t *Task) {
	ts := t.P.tasks
	for i, x := range ts {
		if x == t {
			t.P.tasks = append(ts[:i:i], ts[i+1:]...)
			return
		}
	}
}

// endSync orders ended tasks before the processes created later.
var endSync byte

// NewProc starts a new simulated process (no task yet).
func (s *Sim) NewProc(name string) *Proc {
	p := &Proc{ID: len(s.procs), Name: name}
	// package variables outlive simulated processes: a new process starts
	// after everything that processes did before
	raceAcquire(unsafe.Pointer(&endSync))
	raceRelease(unsafe.Pointer(&p.born))
	s.procs = append(s.procs, p)
	return p
}

// OnDeath registers a hook that runs when the process dies.
func (p *Proc) OnDeath(fn func(p *Proc)) { p.hooks = append(p.hooks, fn) }

// procDied marks the process dead; its other tasks are unwound by the scheduler.
func (s *Sim) procDied(p *Proc, self *Task) {
	if p.Dead {
		return
	}
	p.Dead = true
	for _, t := range p.tasks {
		t.killed = true
	}
	var keep []*Task
	for _, t := range s.run {
		if t.P != p {
			keep = append(keep, t)
		}
	}
	s.run = keep
	for _, h := range p.hooks {
		h(p)
	}
	p.deathWq.WakeAll(s)
}

// Kill kills the process at this instant (SIGKILL).
func (s *Sim) Kill(p *Proc) {
	s.procDied(p, nil)
}

// WaitDeath blocks until the process is dead or the timeout passes.
func (s *Sim) WaitDeath(p *Proc, d time.Duration) bool {
	if p.Dead {
		return true
	}
	return p.deathWq.WaitTimeout(s, "process death", d) && p.Dead
}

// ExitProcess is os.Exit.
func ExitProcess(code int) {
	s := S
	t := s.cur
	if t.killed {
		return
	}
	t.P.Exited = true
	t.P.ExitCode = code
	s.procDied(t.P, t)
	t.killed = true
	s.toSched()
}

// Killed reports whether the current task belongs to a dead process and is
// only being unwound: nothing it does has an effect any more.
func Killed() bool { return S == nil || S.cur == nil || S.cur.killed }

// Cur returns the current task.
func Cur() *Task {
	if S == nil {
		return nil
	}
	return S.cur
}

// reap unwinds the tasks of dead processes.
func (s *Sim) reap() {
	for _, p := range s.procs {
		if !p.Dead || len(p.tasks) == 0 {
			continue
		}
		tasks := p.tasks
		p.tasks = nil
		for _, t := range tasks {
			if t.state == tsDead {
				continue
			}
			s.unwind(t)
		}
	}
}

func (s *Sim) unwind(t *Task) {
	t.killed = true
	s.inKill = true
	old := s.cur
	s.cur = t
	for i := 0; t.state != tsDead && i < 1000; i++ {
		coroswitch(t.co)
		if s.onSched != nil {
			fn := s.onSched
			s.onSched = nil
			s.inSched = true
			fn()
			s.inSched = false
			raceRelease(unsafe.Pointer(&s.g0sync))
		}
	}
	s.cur = old
	s.inKill = false
}

// ---------------------------------------------------------------------------
// scheduler

func (s *Sim) finish() { s.done = true }

// Fail records a violation and ends the run.
func (s *Sim) Fail(kind, format string, args ...interface{}) {
	if s.Viol == nil {
		s.Viol = &Violation{Kind: kind, Detail: fmt.Sprintf(format, args...)}
	}
	s.done = true
}

// Fail records a violation on the current run. Calls from tasks of dead
// processes are ignored.
func Fail(kind, format string, args ...interface{}) {
	if S == nil || (S.cur != nil && S.cur.killed) {
		return
	}
	S.Fail(kind, format, args...)
}

// Unsupported marks the run as no verdict.
func Unsupported(format string, args ...interface{}) {
	if S != nil && (S.cur == nil || !S.cur.killed) {
		if S.Unsup == "" {
			S.Unsup = fmt.Sprintf(format, args...)
		}
		S.done = true
	}
}

// Seq returns the next global event number.
func (s *Sim) Seq() int64 { s.seq++; return s.seq }

// Config of a run.
type Config struct {
	Seed     uint64
	Strat    Strategy
	Replay   bool
	Choices  []ChoiceRec
	MaxSteps int64
	MaxTime  time.Duration
	Trace    bool
}

// Exec executes main as the first task of the world process and returns the
// finished run.
func Exec(cfg Config, main func(s *Sim)) *Sim {
	s := &Sim{Seed: cfg.Seed, Strat: cfg.Strat, MaxSteps: cfg.MaxSteps, MaxTime: int64(cfg.MaxTime),
		TraceOn: cfg.Trace, Probes: map[string]int64{}, Faults: map[string]int64{}}
	if s.MaxSteps == 0 {
		s.MaxSteps = 20000000
	}
	if s.MaxTime == 0 {
		s.MaxTime = int64(10000 * time.Hour)
	}
	s.rng.s = cfg.Seed*0x9e3779b97f4a7c15 + 0x1234567
	s.ent.s = cfg.Seed ^ 0xabcdef
	s.Wall = 1500000000 * 1e9
	s.replay = cfg.Replay
	if cfg.Replay {
		s.forced = map[choiceKey]uint32{}
		for _, c := range cfg.Choices {
			if c.S == StY {
				s.ysteps = append(s.ysteps, int64(c.I))
			} else {
				s.forced[choiceKey{c.S, c.I}] = c.V
			}
		}
		sort.Slice(s.ysteps, func(i, j int) bool { return s.ysteps[i] < s.ysteps[j] })
	} else if s.Strat.Mode == 1 {
		for i := 0; i < s.Strat.Changes; i++ {
			s.changeAt = append(s.changeAt, 1+int64(s.rng.next()%uint64(s.Strat.Horizon)))
		}
		sort.Slice(s.changeAt, func(i, j int) bool { return s.changeAt[i] < s.changeAt[j] })
	}
	S = s
	resetTables()
	s.FS = newFS()
	s.Net = newNet()
	s.World = s.NewProc("world")
	s.loaded, countdown = 0, 0
	s.drawPre()
	s.reload()
	s.spawn(s.World, "main", func() {
		main(s)
		s.mainDone = true
		s.finish()
	})
	s.loop()
	// unwind whatever is left
	for _, p := range s.procs {
		p.Dead = true
		for _, t := range p.tasks {
			t.killed = true
		}
	}
	steps := s.Step()
	s.reap()
	s.base, s.loaded, countdown = steps, 0, 0
	s.cur = nil
	if s.World.Crashed != "" && s.Viol == nil {
		s.Unsup = "harness panic: " + s.World.Crashed + "\n" + s.World.Stack
	}
	s.FS.cleanup()
	S = nil
	countdown = 1 << 62
	return s
}

// Steps returns the number of statements the finished run executed.
func (s *Sim) Steps() int64 { return s.base }

func (s *Sim) loop() {
	for !s.done {
		s.reap()
		if s.done {
			return
		}
		if len(s.run) == 0 {
			if !s.stalled() && s.idleQ.WakeOne(s) {
				continue
			}
			s.IdleAdv++
			if !s.advance() {
				if !s.mainDone {
					s.Deadlock = true
				}
				return
			}
			continue
		}
		if (s.Strat.PWarp > 0 || s.replay) && s.soon() && Chance(StWarp, s.Strat.PWarp+boolf(s.replay)) {
			s.Faults["stall: time passed while tasks were runnable"]++
			s.advance()
		}
		i := s.pick()
		t := s.run[i]
		for j := i + 1; j < len(s.run); j++ { // no copy: the race detector sees it
			s.run[j-1] = s.run[j]
		}
		s.run = s.run[:len(s.run)-1]
		s.Switches++
		s.schedHash = (s.schedHash ^ uint64(t.ID)) * 0x100000001b3
		s.cur = t
		t.state = tsRunning
		for {
			coroswitch(t.co)
			if s.onSched != nil {
				fn := s.onSched
				s.onSched = nil
				s.inSched = true
				fn()
				s.inSched = false
				raceRelease(unsafe.Pointer(&s.g0sync))
				continue
			}
			break
		}
		s.cur = nil
	}
}

// stalled reports whether a task is in a system call that takes its time:
// then nothing is idle although nothing can run.
func (s *Sim) stalled() bool {
	for _, p := range s.procs {
		if p.Dead {
			continue
		}
		for _, t := range p.tasks {
			if t.stalled && !t.killed {
				return true
			}
		}
	}
	return false
}

func (s *Sim) pick() int {
	n := len(s.run)
	if n == 1 {
		return 0
	}
	if s.replay || s.Strat.Mode == 0 {
		return Choice(StSched, n)
	}
	best := 0
	if s.Strat.Mode == 1 {
		for i := 1; i < n; i++ {
			if s.run[i].prio > s.run[best].prio {
				best = i
			}
		}
	}
	// record the decision so that it can be replayed
	i := s.counts[StSched]
	s.counts[StSched]++
	if best != 0 {
		s.Choices = append(s.Choices, ChoiceRec{StSched, i, uint32(best)})
	}
	return best
}

// warpMax bounds how long a runnable task may be stalled at a time: watchdogs
// of the harness wait much longer.
const warpMax = int64(15 * time.Second)

// soon reports whether a timer is due soon.
func (s *Sim) soon() bool {
	for s.timers.len() > 0 && s.timers.a[0].dead {
		s.timers.pop()
	}
	return s.timers.len() > 0 && s.timers.a[0].at-s.Now <= warpMax
}

// advance moves virtual time to the next event.
func (s *Sim) advance() bool {
	for s.timers.len() > 0 {
		tm := s.timers.pop()
		if tm.dead {
			continue
		}
		if tm.at > s.Now {
			s.Now = tm.at
		}
		if s.Now > s.MaxTime {
			s.OverTime = true
			s.done = true
			return true
		}
		tm.dead = true
		tm.fired = true
		tm.fn()
		return true
	}
	return false
}

// SchedHash identifies the interleaving of the run.
func (s *Sim) SchedHash() uint64 { return s.schedHash ^ uint64(s.Switches)<<40 }

// Blocked describes all tasks that are blocked, for deadlock reports.
func (s *Sim) Blocked() string {
	var b strings.Builder
	for _, p := range s.procs {
		if p.Dead {
			continue
		}
		for _, t := range p.tasks {
			fmt.Fprintf(&b, "  %s/%s#%d: %s\n", p.Name, t.Name, t.ID, t.wait)
		}
	}
	return b.String()
}

// LiveTasks returns the number of live tasks of the process.
func (p *Proc) LiveTasks() int { return len(p.tasks) }

// TaskNames lists live tasks and what they wait for.
func (p *Proc) TaskNames() string {
	var l []string
	for _, t := range p.tasks {
		l = append(l, fmt.Sprintf("%s#%d(%s)", t.Name, t.ID, t.wait))
	}
	return strings.Join(l, ", ")
}

// SetCrash arranges for fn(0) one statement before and fn(1) at statement at.
func (s *Sim) SetCrash(at int64, fn func(phase int)) {
	s.crashAt = at
	s.crashFn = fn
	s.reload()
}

// CrashPending reports whether an armed crash has not happened yet.
func (s *Sim) CrashPending() bool { return s.crashFn != nil }

// ClearCrash disarms the crash.
func (s *Sim) ClearCrash() { s.crashFn = nil; s.reload() }

// Tracef appends to the run's event log.
func Tracef(format string, args ...interface{}) {
	if S != nil && S.TraceOn && len(S.Trace) < 4000 {
		S.Trace = append(S.Trace, fmt.Sprintf("[%d t=%v] ", S.Step(), time.Duration(S.Now))+fmt.Sprintf(format, args...))
	}
}

// Probe counts that a rare condition was reached.
func Probe(name string) {
	if S != nil && !Killed() {
		S.OnSched(func() { S.Probes[name]++ })
	}
}

// FaultHit counts an injected fault that really took effect.
func FaultHit(name string) {
	if S != nil {
		S.OnSched(func() { S.Faults[name]++ })
	}
}

var randState rng

// Rand63 is the simulated machine's entropy: a function of the seed only.
func Rand63() int64 {
	if S == nil {
		return int64(randState.next() >> 1)
	}
	return int64(S.ent.next() >> 1)
}

// SeedEntropy makes the simulated machine's entropy start over from x, so that
// two computations that depend on it can be compared.
func (s *Sim) SeedEntropy(x uint64) { s.ent.s = x }

// Entropy returns the state of the entropy source.
func (s *Sim) Entropy() uint64 { return s.ent.s }
