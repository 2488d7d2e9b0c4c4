package lib

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/vivint/rothko/internal/zroot"
	"github.com/vivint/rothko/internal/zsim"
)

// Scenario is one kind of simulated system.
type Scenario interface {
	Name() string
	// Gen makes the plan of a run for a property.
	Gen(r *Rand, prop string, deep bool) interface{}
	// New returns an empty plan to decode into.
	New() interface{}
	// Run executes the plan; it is the world's main task.
	Run(s *zsim.Sim, prop string, plan interface{})
	// Shrink proposes simpler plans.
	Shrink(plan interface{}) []interface{}
}

// Input is everything a run depends on besides the code.
type Input struct {
	Scenario  string           `json:"scenario"`
	Prop      string           `json:"property"`
	Seed      uint64           `json:"seed"`
	Strat     zsim.Strategy    `json:"strategy"`
	Plan      json.RawMessage  `json:"plan"`
	Replay    bool             `json:"replay"`
	Choices   []zsim.ChoiceRec `json:"choices"`
	Violation *zsim.Violation  `json:"violation,omitempty"`
	Trace     []string         `json:"trace,omitempty"`
	Note      string           `json:"note,omitempty"`
}

// Report of a worker.
type Report struct {
	Runs       int64             `json:"runs"`
	Steps      int64             `json:"steps"`
	Switches   int64             `json:"switches"`
	Preempts   int64             `json:"preempts"`
	SimNS      int64             `json:"sim_ns"`
	WallNS     int64             `json:"wall_ns"`
	Faults     map[string]int64  `json:"faults"`
	Probes     map[string]int64  `json:"probes"`
	Distinct   int64             `json:"distinct"`
	States     int64             `json:"states"`
	Unsup      int64             `json:"unsupported"`
	UnsupWhy   string            `json:"unsupported_why,omitempty"`
	Inconcl    int64             `json:"inconclusive"`
	Other      int64             `json:"other_property_violations"`
	OtherKinds map[string]int64  `json:"other_kinds"`
	Known      map[string]int64  `json:"known"`
	Found      *Input            `json:"found,omitempty"`
	LastSeed   uint64            `json:"last_seed"`
	Recycle    bool              `json:"recycle,omitempty"` // ended because of its memory
	MaxSteps   int64             `json:"max_steps"`
	Nontrivial int64             `json:"nontrivial"`
	Samples    []interface{}     `json:"samples"`
	Scenarios  map[string]int64  `json:"scenarios"`
	Digests    map[string]string `json:"digests,omitempty"`
	PeakMem    uint64            `json:"peak_mem"`
	ShrinkRuns int64             `json:"shrink_runs"`
}

var scenarios = map[string]Scenario{}

// Register adds a scenario to the binary.
func Register(s Scenario) { scenarios[s.Name()] = s }

// GenStrat draws a scheduling strategy.
func GenStrat(r *Rand) zsim.Strategy {
	var st zsim.Strategy
	switch r.Pick(45, 30, 25) {
	case 0:
		st.Mode = 0
		st.PY = []float64{0, 0.0005, 0.002, 0.01, 0.05}[r.N(5)]
		st.PS = []float64{0.02, 0.1, 0.3, 0.6}[r.N(4)]
	case 1:
		st.Mode = 1
		st.Changes = r.Range(1, 6)
		st.Horizon = int64(1) << uint(r.Range(8, 16))
		st.PS = 0
	case 2:
		st.Mode = 2
		st.PY = []float64{0, 0, 0.0002, 0.001}[r.N(4)]
		st.PS = []float64{0, 0.01, 0.05}[r.N(3)]
	}
	st.PWarp = []float64{0, 0, 0.001, 0.01}[r.N(4)]
	return st
}

// Current run's bookkeeping for scenarios.
var (
	// Known maps known finding signatures to descriptions.
	Known map[string]string
	// otherKind is set when a run ended because of another property.
	otherKind string
	knownHit  map[string]bool
	StateHash uint64
	Deep      bool
)

// Fail reports a violation that counts for the given properties. If the run
// is about another property the run just ends.
func Fail(prop string, props []string, kind, format string, args ...interface{}) {
	if zsim.S == nil || zsim.Cur() != nil && zsim.Killed() {
		return
	}
	for _, p := range props {
		if p == prop || p == "*" || prop == "C19" && kind == "hang" {
			if zsim.S.TraceOn {
				zsim.Tracef("VIOLATION %s: %s", kind, fmt.Sprintf(format, args...))
			}
			zsim.S.Fail(kind, format, args...)
			return
		}
	}
	if otherKind == "" && zsim.S.Viol == nil {
		otherKind = kind + " (" + strings.Join(props, ",") + ")"
	}
	zsim.S.Fail("other", "%s: "+format, append([]interface{}{kind}, args...)...)
}

// MaxSteps bounds a run: a run that is still going after so many statements
// makes no progress.
const MaxSteps = 30000000

var stopFile, progressFile, hashFile string

func writeHashes(path string, m map[uint64]bool) {
	b := make([]byte, 0, 8*len(m))
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	os.WriteFile(path, b, 0644)
}

// Outcome of one run.
type Outcome struct {
	Sim   *zsim.Sim
	Viol  *zsim.Violation
	Other string
	State uint64
}

func execute(sc Scenario, in *Input, plan interface{}, trace bool) *Outcome {
	otherKind = ""
	StateHash = 0
	cfg := zsim.Config{Seed: in.Seed, Strat: in.Strat, Replay: in.Replay, Choices: in.Choices, Trace: trace, MaxSteps: MaxSteps}
	if in.Strat.Horizon == 0 {
		cfg.Strat.Horizon = 1
	}
	s := zsim.Exec(cfg, func(s *zsim.Sim) { sc.Run(s, in.Prop, plan) })
	o := &Outcome{Sim: s, Viol: s.Viol, State: StateHash}
	race := raceReports()
	if race != "" && s.Unsup == "" {
		o.Viol = &zsim.Violation{Kind: "data-race", Detail: race}
		return o
	}
	if s.Viol != nil && s.Viol.Kind == "other" {
		o.Other = otherKind
		o.Viol = nil
	}
	if s.Unsup != "" {
		o.Viol = nil
		return o
	}
	if o.Viol == nil && o.Other == "" && s.OverSteps {
		o.Viol = &zsim.Violation{Kind: "no-progress", Detail: fmt.Sprintf("the run did not end within %d statements (runs of this kind need a small fraction of that)", int64(MaxSteps))}
	}
	if o.Viol == nil && o.Other == "" && s.Deadlock {
		o.Viol = &zsim.Violation{Kind: "deadlock", Detail: "no task can run and no timer is pending:\n" + s.Blocked()}
	}
	return o
}

// digest of everything observable about a run.
func digest(o *Outcome) string {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %d %d %x %d\n", o.Sim.Steps(), o.Sim.Switches, o.Sim.Now, o.Sim.SchedHash(), len(o.Sim.Choices))
	for _, l := range o.Sim.Trace {
		fmt.Fprintln(h, l)
	}
	if o.Viol != nil {
		fmt.Fprintln(h, o.Viol.Kind, o.Viol.Detail)
	}
	fmt.Fprintln(h, o.Other, o.Sim.Unsup)
	return fmt.Sprintf("%016x", h.Sum64())
}

func seedOf(base uint64, i uint64) uint64 { return base*1000003 + i }

func inputFor(scs []Scenario, prop string, seed uint64) (*Input, Scenario, interface{}) {
	r := NewRand(seed)
	sc := scs[r.N(len(scs))]
	in := &Input{Scenario: sc.Name(), Prop: prop, Seed: seed}
	in.Strat = GenStrat(r)
	plan := sc.Gen(r, prop, Deep)
	if st, ok := plan.(interface{ Strategy() *zsim.Strategy }); ok {
		if x := st.Strategy(); x != nil {
			in.Strat = *x
		}
	}
	in.Plan, _ = json.Marshal(plan)
	return in, sc, plan
}

// Main is the entry point of a harness binary.
func Main() { zroot.Call(main) }

func main() {
	raceSetup()
	defer raceCleanup()
	mode := flag.String("mode", "search", "search, replay or digest")
	prop := flag.String("prop", "", "property")
	scen := flag.String("scenario", "", "comma separated scenarios")
	base := flag.Uint64("seed", 1, "base seed")
	worker := flag.Int("worker", 0, "")
	workers := flag.Int("workers", 1, "")
	dur := flag.Duration("time", 10*time.Second, "")
	maxRuns := flag.Int64("runs", 0, "")
	file := flag.String("file", "", "replay file")
	out := flag.String("out", "", "report file")
	deep := flag.Bool("deep", false, "")
	known := flag.String("known", "", "known findings file")
	shrink := flag.Duration("shrink", 25*time.Second, "")
	verbose := flag.Bool("v", false, "")
	flag.StringVar(&stopFile, "stop", "", "stop searching when this file exists, create it on a violation")
	flag.StringVar(&progressFile, "progress", "", "file that always holds the seed being run")
	flag.StringVar(&hashFile, "hashes", "", "files to write the hashes of schedules and states to")
	skip := flag.Uint64("skip", 0, "start after this many seeds")
	flag.Int64Var(&maxRSS, "maxrss", 0, "end the search early when the process has grown beyond this many MB")
	oneSeed := flag.Uint64("one", 0, "with -mode one: the seed to run")
	flag.Parse()
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(1500 << 20)
	Deep = *deep
	loadKnown(*known, *prop)

	switch *mode {
	case "replay":
		os.Exit(replay(*file, *verbose))
	case "digest":
		rep := &Report{Digests: map[string]string{}}
		scs := pick(*scen)
		for i := int64(0); i < *maxRuns; i++ {
			seed := seedOf(*base, uint64(i))
			in, sc, plan := inputFor(scs, *prop, seed)
			o := execute(sc, in, plan, true)
			rep.Digests[fmt.Sprint(seed)] = digest(o)
			if *verbose {
				fmt.Printf("%s seed %d %s steps %d viol %v\n", sc.Name(), seed, digest(o), o.Sim.Steps(), o.Viol)
				for _, l := range o.Sim.Trace {
					fmt.Println("   ", l)
				}
			}
		}
		write(*out, rep)
	case "one":
		// a single run from its seed, without recording a schedule
		in, sc, plan := inputFor(pick(*scen), *prop, *oneSeed)
		o := execute(sc, in, plan, *verbose)
		if o.Viol != nil {
			fmt.Printf("violation %s: %s\n", o.Viol.Kind, o.Viol.Detail)
			os.Exit(1)
		}
		os.Exit(0)
	case "input":
		// write the input of a seed without running it
		in, _, _ := inputFor(pick(*scen), *prop, *oneSeed)
		in.Violation = &zsim.Violation{Kind: "process-crash", Detail: "the whole process dies while running this seed"}
		b, _ := json.MarshalIndent(in, "", " ")
		if err := os.WriteFile(*file, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(5)
		}
	case "search":
		rep := search(pick(*scen), *prop, *base, *worker, *workers, *dur, *maxRuns, *shrink, *verbose, *skip)
		write(*out, rep)
	}
}

func pick(l string) (out []Scenario) {
	for _, n := range strings.Split(l, ",") {
		sc := scenarios[n]
		if sc == nil {
			fmt.Fprintln(os.Stderr, "no scenario", n)
			os.Exit(2)
		}
		out = append(out, sc)
	}
	return
}

func write(path string, rep *Report) {
	b, err := json.MarshalIndent(rep, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if path == "" {
		os.Stderr.Write(append(b, '\n'))
		return
	}
	if err := os.WriteFile(path, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

var maxRSS int64

// rss returns the resident memory of the process in MB.
func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 3 {
		return 0
	}
	var n, sh int64
	fmt.Sscan(f[1], &n)
	fmt.Sscan(f[2], &sh)
	return (n - sh) * int64(os.Getpagesize()) >> 20
}

func search(scs []Scenario, prop string, base uint64, worker, workers int, dur time.Duration, maxRuns int64, shrinkT time.Duration, verbose bool, skip uint64) *Report {
	rep := &Report{Faults: map[string]int64{}, Probes: map[string]int64{}, OtherKinds: map[string]int64{}, Known: map[string]int64{}, Scenarios: map[string]int64{}}
	start := time.Now()
	var prog *os.File
	if progressFile != "" {
		prog, _ = os.Create(progressFile)
	}
	seen := map[uint64]bool{}
	states := map[uint64]bool{}
	idx := uint64(worker) + skip*uint64(workers)
	for {
		if maxRSS > 0 && rep.Runs%64 == 63 && rss() > maxRSS {
			rep.Recycle = true
			break
		}
		if time.Since(start) > dur || maxRuns > 0 && rep.Runs >= maxRuns {
			break
		}
		if stopFile != "" && rep.Runs%8 == 0 {
			if _, err := os.Stat(stopFile); err == nil {
				break
			}
		}
		seed := seedOf(base, idx)
		idx += uint64(workers)
		rep.LastSeed = seed
		if prog != nil {
			prog.WriteAt([]byte(fmt.Sprintf("%020d", seed)), 0)
		}
		in, sc, plan := inputFor(scs, prop, seed)
		o := execute(sc, in, plan, false)
		rep.Runs++
		rep.Steps += o.Sim.Steps()
		rep.Switches += o.Sim.Switches
		rep.Preempts += o.Sim.Preempts
		rep.SimNS += o.Sim.Now
		if o.Sim.Steps() > rep.MaxSteps {
			rep.MaxSteps = o.Sim.Steps()
		}
		for k, v := range o.Sim.Faults {
			rep.Faults[k] += v
		}
		for k, v := range o.Sim.Probes {
			rep.Probes[k] += v
		}
		rep.Scenarios[sc.Name()]++
		if o.Sim.Switches >= 10 {
			rep.Nontrivial++
			if len(seen) < 8000000 {
				seen[o.Sim.SchedHash()] = true
			}
			if len(rep.Samples) < 2 && rep.Runs > 3 && len(in.Plan) < 6000 {
				rep.Samples = append(rep.Samples, map[string]interface{}{"seed": seed, "scenario": sc.Name(), "plan": in.Plan, "strategy": in.Strat,
					"statements": o.Sim.Steps(), "task_switches": o.Sim.Switches, "preemptions": o.Sim.Preempts,
					"faults": o.Sim.Faults, "simulated_s": float64(o.Sim.Now) / 1e9})
			}
		}
		if o.State != 0 {
			states[o.State] = true
		}
		if o.Sim.Unsup != "" {
			rep.Unsup++
			rep.UnsupWhy = fmt.Sprintf("seed %d: %s", seed, o.Sim.Unsup)
			if verbose {
				fmt.Println("unsupported:", rep.UnsupWhy)
			}
			continue
		}
		if o.Other != "" {
			rep.Other++
			rep.OtherKinds[o.Other]++
			if verbose {
				fmt.Printf("other: seed %d %s: %s\n", seed, o.Other, o.Sim.Viol.Detail)
			}
			continue
		}
		if o.Viol == nil {
			if o.Sim.OverSteps || o.Sim.OverTime {
				rep.Inconcl++
				if verbose {
					fmt.Println("inconclusive: seed", seed)
				}
			}
			continue
		}
		if k := KnownMatch(prop, o.Viol); k != "" {
			rep.Known[k]++
			continue
		}
		if verbose {
			fmt.Printf("violation: seed %d %s: %s\n", seed, o.Viol.Kind, o.Viol.Detail)
		}
		if stopFile != "" {
			os.WriteFile(stopFile, nil, 0644)
		}
		in.Violation = o.Viol
		in.Choices = o.Sim.Choices
		found := minimise(sc, in, plan, shrinkT, rep)
		rep.Found = found
		break
	}
	rep.Distinct = int64(len(seen))
	if hashFile != "" {
		writeHashes(hashFile+".sched", seen)
		writeHashes(hashFile+".state", states)
	}
	rep.States = int64(len(states))
	rep.WallNS = int64(time.Since(start))
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	rep.PeakMem = ms.Sys
	return rep
}

func replay(path string, verbose bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 5
	}
	in := &Input{}
	if err := json.Unmarshal(b, in); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 5
	}
	sc := scenarios[in.Scenario]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "no scenario", in.Scenario)
		return 5
	}
	plan := sc.New()
	if err := json.Unmarshal(in.Plan, plan); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 5
	}
	in.Replay = in.Violation == nil || in.Violation.Kind != "process-crash"
	o := execute(sc, in, plan, true)
	// which earlier accesses the race detector remembers is not ours to decide
	for i := 0; i < 4 && zsim.RaceEnabled && o.Viol == nil; i++ {
		o = execute(sc, in, plan, true)
	}
	if verbose {
		for _, l := range o.Sim.Trace {
			fmt.Println(l)
		}
	}
	if o.Sim.Unsup != "" {
		fmt.Println("unsupported:", o.Sim.Unsup)
		return 3
	}
	if o.Viol == nil {
		fmt.Println("no violation", o.Other)
		return 0
	}
	fmt.Printf("violation %s: %s\n", o.Viol.Kind, o.Viol.Detail)
	if in.Violation != nil && in.Violation.Kind != o.Viol.Kind {
		return 4
	}
	return 1
}

// sortedKeys for stable output.
func sortedKeys(m map[string]int64) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
