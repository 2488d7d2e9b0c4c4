// Package lib is shared by the harnesses: plans, searching, shrinking,
// replaying and reporting.
package lib

// Rand derives plans from seeds. It is independent of the scheduler's stream.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed*0x9e3779b97f4a7c15 ^ 0x5bd1e995deadbeef} }

func (r *Rand) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Range returns a number in [lo, hi].
func (r *Rand) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.N(hi-lo+1)
}

func (r *Rand) F() float64 { return float64(r.Next()>>11) / (1 << 53) }

// P is true with probability p.
func (r *Rand) P(p float64) bool { return r.F() < p }

// Pick chooses by weight.
func (r *Rand) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	n := r.N(t)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return 0
}

func (r *Rand) Of(l ...int) int { return l[r.N(len(l))] }

func (r *Rand) OfS(l ...string) string { return l[r.N(len(l))] }

// Log returns a number in [1, max], small ones more likely.
func (r *Rand) Log(max int) int {
	if max <= 1 {
		return 1
	}
	bits := 0
	for m := max; m > 0; m >>= 1 {
		bits++
	}
	b := 1 + r.N(bits)
	v := 1 + r.N(1<<uint(b)-1)
	if v > max {
		v = max
	}
	return v
}
