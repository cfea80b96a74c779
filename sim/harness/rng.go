package main

import "github.com/octarinesec/MAPL/verifsim/rt"

// Rng is the only source of choice in generators and schedulers.
type Rng struct{ s uint64 }

func newRng(seed uint64) *Rng { return &Rng{rt.Mix(seed, 3)} }

func (r *Rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) n(k int) int {
	if k <= 1 {
		return 0
	}
	return int((r.u64() >> 11) % uint64(k))
}

// in returns a number from lo..hi.
func (r *Rng) in(lo, hi int) int { return lo + r.n(hi-lo+1) }

// p is true with probability pct percent.
func (r *Rng) p(pct int) bool { return r.n(100) < pct }

func (r *Rng) pick(xs ...string) string { return xs[r.n(len(xs))] }
