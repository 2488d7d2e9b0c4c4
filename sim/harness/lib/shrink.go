package lib

import (
	"encoding/json"
	"time"

	"github.com/vivint/rothko/internal/zsim"
)

// minimise simplifies the plan and then the schedule of a failing run while
// the same class of violation persists. The result replays exactly.
func minimise(sc Scenario, in *Input, plan interface{}, budget time.Duration, rep *Report) *Input {
	end := time.Now().Add(budget)
	kind := in.Violation.Kind
	best := *in
	best.Replay = true

	try := func(c *Input, p interface{}) bool {
		rep.ShrinkRuns++
		o := execute(sc, c, p, false)
		if o.Viol == nil || o.Viol.Kind != kind || KnownMatch(c.Prop, o.Viol) != "" {
			return false
		}
		c.Violation = o.Viol
		c.Choices = o.Sim.Choices
		return true
	}

	// the recorded choices must reproduce the run
	first := best
	if !try(&first, plan) {
		first.Note = "the recorded schedule did not reproduce the violation"
		in.Note = first.Note
		in.Replay = false
		return finish(sc, in, plan)
	}

	// plan: try every proposed simplification under a few schedules
	half := time.Now().Add(budget * 6 / 10)
	for progress := true; progress && time.Now().Before(half); {
		progress = false
		for _, cand := range sc.Shrink(plan) {
			if !time.Now().Before(half) {
				break
			}
			ok := false
			// same decisions first, then other seeds
			c := best
			c.Plan, _ = json.Marshal(cand)
			if try(&c, cand) {
				ok = true
			}
			for k := uint64(0); !ok && k < 12 && time.Now().Before(half); k++ {
				c = best
				c.Replay = false
				c.Choices = nil
				if k > 0 {
					c.Seed = best.Seed + k*7919
				}
				c.Plan, _ = json.Marshal(cand)
				if try(&c, cand) {
					c.Replay = true
					// must replay
					d := c
					if try(&d, cand) {
						ok = true
					}
				}
			}
			if ok {
				best = c
				best.Replay = true
				plan = cand
				progress = true
				break
			}
		}
	}

	// schedule: drop decisions, largest chunks first
	choices := best.Choices
	for n := len(choices) / 2; n >= 1 && time.Now().Before(end); {
		removed := false
		for i := 0; i < len(choices) && time.Now().Before(end); {
			j := i + n
			if j > len(choices) {
				j = len(choices)
			}
			c := best
			c.Choices = append(append([]zsim.ChoiceRec(nil), choices[:i]...), choices[j:]...)
			if try(&c, plan) && len(c.Choices) < len(choices) {
				choices = c.Choices
				best = c
				removed = true
			} else {
				i = j
			}
		}
		if n == 1 && !removed {
			break
		}
		if n > 1 {
			n /= 2
		}
	}
	best.Replay = true
	return finish(sc, &best, plan)
}

// finish attaches the event log of the final run.
func finish(sc Scenario, in *Input, plan interface{}) *Input {
	o := execute(sc, in, plan, true)
	in.Trace = o.Sim.Trace
	if n := len(in.Trace); n > 400 {
		in.Trace = append(append([]string{}, in.Trace[:100]...), in.Trace[n-300:]...)
	}
	if o.Viol != nil {
		in.Violation = o.Viol
		in.Choices = o.Sim.Choices
		in.Replay = true
	}
	return in
}
