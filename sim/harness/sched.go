package main

import "github.com/octarinesec/MAPL/verifsim/rt"

type chooser struct {
	spec SchedSpec
	r    *Rng
	prio []uint64
	left int
	on   func(t int)
}

func newChooser(s SchedSpec) *chooser {
	return &chooser{spec: s, r: newRng(s.Seed), left: s.Depth}
}

// Fair: generated schedules let every task make progress; recorded ones are
// followed as they are.
func (c *chooser) Fair() bool { return true }

const forever = 1 << 30

func (c *chooser) geo() int {
	// geometric with the given mean, capped
	n := 0
	for c.r.n(c.spec.Mean+1) != 0 && n < 50*c.spec.Mean {
		n++
	}
	return n
}

func (c *chooser) Next(ready []int, last int) (int, int, bool) {
	i, q, hot := c.next(ready, last)
	if c.on != nil {
		c.on(ready[i])
	}
	return i, q, hot
}

func (c *chooser) next(ready []int, last int) (int, int, bool) {
	switch c.spec.Kind {
	case "geo":
		return c.r.n(len(ready)), c.geo(), false
	case "hot":
		return c.r.n(len(ready)), c.geo(), true
	case "pct":
		for len(c.prio) <= ready[len(ready)-1] {
			c.prio = append(c.prio, c.r.u64()|1<<62)
		}
		for _, t := range ready {
			if t == last && c.left > 0 { // its quantum ran out: a change point
				c.left--
				c.prio[last] = uint64(c.left)
			}
		}
		best := 0
		for i, t := range ready {
			if c.prio[t] > c.prio[ready[best]] {
				best = i
			}
		}
		q := forever
		if c.left > 0 {
			q = c.r.n([]int{20, 200, 1500, 8000}[c.r.n(4)])
		}
		return best, q, false
	}
	return 0, forever, false
}

// replayer follows a recorded trace, then runs what is left to completion.
type replayer struct {
	trace []rt.Slice
	i     int
	on    func(t int)
}

func (p *replayer) Next(ready []int, last int) (int, int, bool) {
	for p.i < len(p.trace) {
		s := p.trace[p.i]
		p.i++
		for k, t := range ready {
			if t == s.T {
				if p.on != nil {
					p.on(t)
				}
				return k, s.N, false
			}
		}
	}
	if p.on != nil {
		p.on(ready[0])
	}
	return 0, forever, false
}
