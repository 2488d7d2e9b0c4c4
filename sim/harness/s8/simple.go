package main

import (
	"encoding/binary"
	"errors"
	"math"

	"github.com/vivint/rothko/dist"
)

// simple is a distribution that keeps the number of observations and the
// smallest and the greatest. It keeps the demo command fast: with a t-digest,
// a demo is tens of millions of statements.
type simple struct {
	n        int64
	min, max float64
}

func (d *simple) Kind() string { return "simple" }
func (d *simple) Len() int64   { return d.n }

func (d *simple) Query(x float64) float64 { return d.min + (d.max-d.min)*x }

func (d *simple) CDF(x float64) float64 {
	return math.Max(0, math.Min(1, (x-d.min)/(d.max-d.min)))
}

func (d *simple) Observe(x float64) {
	if d.n == 0 || x < d.min {
		d.min = x
	}
	if d.n == 0 || x > d.max {
		d.max = x
	}
	d.n++
}

func (d *simple) Marshal(b []byte) []byte {
	var t [28]byte
	binary.BigEndian.PutUint64(t[:], uint64(d.n))
	binary.BigEndian.PutUint64(t[8:], math.Float64bits(d.min))
	binary.BigEndian.PutUint64(t[16:], math.Float64bits(d.max))
	copy(t[24:], "dist")
	return append(b, t[:]...)
}

type simpleParams struct{}

func (simpleParams) Kind() string            { return "simple" }
func (simpleParams) New() (dist.Dist, error) { return &simple{}, nil }

func (simpleParams) Unmarshal(b []byte) (dist.Dist, error) {
	if len(b) != 28 || string(b[24:]) != "dist" {
		return nil, errors.New("not a distribution")
	}
	return &simple{
		n:   int64(binary.BigEndian.Uint64(b)),
		min: math.Float64frombits(binary.BigEndian.Uint64(b[8:])),
		max: math.Float64frombits(binary.BigEndian.Uint64(b[16:])),
	}, nil
}
