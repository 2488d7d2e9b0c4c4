package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/vivint/rothko/internal/zsim"
)

// check verifies the history of every metric recorded so far against the
// sequential model: one list of accepted values ordered by end, of which a
// contiguous run of the newest is stored.
func (w *world) check() {
	for m := range w.plan.Metrics {
		w.checkPuts(m)
		if !w.flipped {
			w.checkMetric(m)
		}
		if w.s.Viol != nil {
			return
		}
	}
}

// checkPuts judges the outcomes of single puts.
func (w *world) checkPuts(m int) {
	p := w.plan
	for _, v := range w.vals {
		if v.m != m || v.cbN == 0 {
			continue
		}
		large := !p.fitted(v.phase.idx, v.n)
		switch {
		case v.ok && v.err != nil:
			w.fail([]string{"C06"}, "ok-and-error", "%s was reported written with the error %v", w.vs(v), v.err)
		case v.ok && large:
			w.fail([]string{"C04"}, "oversize-accepted", "%s needs %d slots but a file has %d", w.vs(v), v.slots, p.Cap)
		case v.err != nil && p.fits(v.phase.idx, v.n) && v.errs0 == v.errs1:
			w.fail(w.props("C04"), "put-error", "%s failed although no operation of it was made to fail", w.vs(v))
		case !v.ok && v.err == nil && v.sameTask:
			// the hand-off was given up
			stop := false
			for _, r := range v.phase.runs {
				if r.cancel < v.qret && v.inv < r.ret {
					stop = true
				}
			}
			for _, r := range v.phase.strays {
				if r.cancel < v.qret && v.inv < r.ret {
					stop = true
				}
			}
			switch {
			case v.ctxDone || stop:
			case p.Drop && w.outstanding(v) >= p.Buffer:
				zsim.Probe("dropped on full buffer")
			default:
				w.fail(w.props("C06"), "handoff-refused", "%s was given up without a reason", w.vs(v))
			}
		}
	}
}

// outstanding counts the other values that may have been in the queue at some
// instant while v was handed over.
func (w *world) outstanding(v *val) int {
	n := 0
	for _, x := range w.vals {
		if x != v && x.phase == v.phase && x.inv < v.qret && (x.cbN == 0 || x.cb > v.inv) {
			n++
		}
	}
	return n
}

type bnd struct {
	l, u       int64
	lsrc, usrc string
	lr, ur     string
}

func (w *world) checkMetric(m int) {
	p := w.plan
	name := p.Metrics[m]
	var acc, maybe []*val
	maxSlots := 1
	for _, v := range w.vals {
		if v.m != m {
			continue
		}
		if p.fitted(v.phase.idx, v.n) && v.slots > maxSlots {
			maxSlots = v.slots
		}
		switch {
		case v.cbN > 0 && !v.ok && v.err == nil && v.seen:
			w.fail([]string{"C04", "C06"}, "unwritten-visible", "%s is delivered by queries", w.vs(v))
			return
		case v.ok || v.seen:
			acc = append(acc, v)
		case v.cbN == 0 || v.err != nil:
			maybe = append(maybe, v)
		}
	}
	sort.SliceStable(acc, func(i, j int) bool { return acc[i].end < acc[j].end })
	idx := map[*val]int{}
	b := make([]bnd, len(acc))
	for i, v := range acc {
		idx[v] = i
		if i > 0 && acc[i-1].end == v.end {
			w.fail(w.props("C04"), "accept-out-of-order", "%s and %s were both accepted", w.vs(acc[i-1]), w.vs(v))
			return
		}
		b[i] = bnd{l: v.inv, lsrc: "inv", lr: "it was queued", u: inf, usrc: "none"}
		switch {
		case v.ok:
			b[i].u, b[i].usrc, b[i].ur = v.cb, "cb", "it was acknowledged"
		case v.phase.death != inf:
			b[i].u, b[i].usrc, b[i].ur = v.phase.death, "death", "its process died"
		}
	}
	var reads []*read
	for _, r := range w.reads {
		if r.m == m {
			reads = append(reads, r)
		}
	}

	// maybe values that a later incarnation did not find are gone for good
	var live []*val
	total := 0
	for _, v := range append(append([]*val(nil), acc...), maybe...) {
		total += v.slots
	}
	evicting := p.Files > 0 && total+w.crashes()*maxSlots > p.minFiles()*(p.minCap()-(maxSlots-1))
	for _, v := range maybe {
		dead := !p.fitted(v.phase.idx, v.n)
		for _, r := range reads {
			if r.inv < v.phase.death || v.phase.death == inf || r.bound <= v.end || r.stopped && len(r.vals) == 0 {
				continue
			}
			// the read went below the position of v
			if len(r.vals) > 0 && r.vals[len(r.vals)-1].end < v.end {
				dead = true
			}
			if !r.stopped && !evicting {
				dead = true // nothing can have been evicted
			}
		}
		if !dead {
			live = append(live, v)
		}
	}

	// reads: contiguity, and bounds on when writes took effect
	for _, r := range reads {
		k := -1
		for j, v := range r.vals {
			i := idx[v]
			if j == 0 {
				k = i
				continue
			}
			if want := k - j; i != want {
				w.fail(w.props("C03", "C05"), "read-gap", "a query of %q below %d delivered %s followed by %s but not %s", name, r.bound, w.vs(r.vals[j-1]), w.vs(v), w.vs(acc[want]))
				return
			}
		}
		if k >= 0 {
			if r.ret < b[k].u {
				b[k].u, b[k].usrc, b[k].ur = r.ret, "read", "a query had delivered it"
			}
			if k+1 < len(acc) && acc[k+1].end < r.bound && r.inv > b[k+1].l {
				b[k+1].l, b[k+1].lsrc, b[k+1].lr = r.inv, "read", "a query had started that did not deliver it"
			}
		}
	}

	// retention
	budget := p.minFiles() * (p.minCap() - (maxSlots - 1))
	waste := w.crashes() * maxSlots
	for _, v := range live {
		waste += v.slots
	}
	// without crashes and failures the position of every value is known
	exact := w.crashes() == 0 && len(maybe) == 0 && !p.changed()
	start := make([]int, len(acc))
	pos := 0
	for i, v := range acc {
		if left := p.Cap - pos%p.Cap; v.slots > left {
			pos += left
		}
		start[i] = pos
		pos += v.slots
	}
	floorAt := func(r *read) int { // first index that must be visible
		if exact {
			n := len(acc)
			for n > 0 && acc[n-1].inv >= r.ret {
				n--
			}
			if n == 0 {
				return 0
			}
			i := n - 1
			for i > 0 && start[i-1] >= start[n-1]+acc[n-1].slots-p.Files*p.Cap {
				i--
			}
			return i
		}
		sum := waste
		i := len(acc)
		for i > 0 {
			v := acc[i-1]
			if v.inv < r.ret {
				sum += v.slots
			}
			if sum > budget {
				// the newest value is always kept
				break
			}
			i--
		}
		return i
	}
	if p.Files > 0 {
		for _, r := range reads {
			if r.stopped {
				continue
			}
			must := floorAt(r)
			lo := len(acc)
			if len(r.vals) > 0 {
				lo = idx[r.vals[len(r.vals)-1]]
			}
			top := -1 // newest index surely stored when the read began
			for i := len(acc) - 1; i >= 0; i-- {
				if b[i].u <= r.inv || len(r.vals) > 0 && i <= idx[r.vals[0]] {
					top = i
					break
				}
			}
			if top >= 0 && must > top {
				newer := false
				for _, v := range acc[top+1:] {
					newer = newer || v.inv < r.ret
				}
				for _, v := range live {
					newer = newer || v.inv < r.ret && v.end > acc[top].end
				}
				if !newer {
					must = top // the newest value is never evicted
				}
			}
			for i := must; i < lo && i < len(acc); i++ {
				if i <= top && acc[i].end < r.bound {
					if len(r.vals) == 0 || i > idx[r.vals[0]] {
						w.fail(w.props("C03", "C05", "C06"), "lost", "a query of %q below %d did not deliver %s; it delivered %s", name, r.bound, w.vs(acc[i]), w.list2(r.vals))
					} else {
						w.fail(w.props("C05", "C03"), "evicted-early", "a query of %q below %d did not deliver %s, which is among the newest %d slots that are kept; it delivered %s", name, r.bound, w.vs(acc[i]), budget, w.list2(r.vals))
					}
					return
				}
			}
		}
	}
	// evicted values never come back
	sort.SliceStable(reads, func(i, j int) bool { return reads[i].ret < reads[j].ret })
	for i, r := range reads {
		if len(r.vals) == 0 {
			continue
		}
		low := idx[r.vals[len(r.vals)-1]]
		for _, q := range reads[:i] {
			if q.ret < r.inv && !q.stopped && len(q.vals) > 0 && idx[q.vals[len(q.vals)-1]] > low {
				w.fail(w.props("C05", "C03"), "reappeared", "a query of %q delivered %s, which an earlier query did not deliver any more", name, w.vs(acc[low]))
				return
			}
		}
	}

	// rejections
	for _, v := range w.vals {
		if v.m != m || v.cbN == 0 || v.ok || v.err != nil || v.sameTask || v.drained || !p.fits(v.phase.idx, v.n) {
			continue
		}
		just := false
		for _, x := range live {
			if x.end >= v.end && x.inv < v.cb {
				just = true
			}
		}
		if just {
			continue
		}
		i := sort.Search(len(acc), func(i int) bool { return acc[i].end >= v.end })
		if i == len(acc) {
			w.fail(w.props("C04"), "reject-unjustified", "%s was rejected although no stored value ends as late", w.vs(v))
			return
		}
		if v.cb < b[i].u {
			b[i].u, b[i].usrc, b[i].ur = v.cb, "reject", w.vs(v)+" was rejected because of it"
		}
	}

	// is there one order that explains everything?
	l, src := int64(-1), -1
	for i := range acc {
		if b[i].l > l {
			l, src = b[i].l, i
		}
		if l < b[i].u {
			continue
		}
		x, y := acc[src], acc[i]
		detail := fmt.Sprintf("%s cannot have been stored before [%d] %s, yet %s must have been stored before [%d] %s",
			w.vs(x), b[src].l, b[src].lr, w.vs(y), b[i].u, b[i].ur)
		switch {
		case b[i].usrc == "reject":
			w.fail(w.props("C04"), "reject-unjustified", "%s", detail)
		case b[src].lsrc == "read" && (b[i].usrc == "cb" || b[i].usrc == "read"):
			w.fail(w.props("C03", "C06", "C05"), "lost", "%s", detail)
		case b[src].lsrc == "read":
			w.fail(w.props("C02", "C03"), "resurrected", "%s", detail)
		default:
			w.fail(w.props("C04"), "accept-out-of-order", "%s", detail)
		}
		return
	}
}

func (w *world) crashes() (n int) {
	for _, ph := range w.phases {
		if ph.crashed {
			n++
		}
	}
	return
}

func (w *world) list2(l []*val) string {
	var out []string
	for _, v := range l {
		out = append(out, fmt.Sprintf("v%d(end %d)", v.id, v.end))
	}
	if len(out) == 0 {
		return "nothing"
	}
	return strings.Join(out, " ")
}
