// Package core is the simulator: the scheduler, the choices, the faults, the
// simulated network and the nodes' life cycle.
package core

import "fmt"

type prng struct{ x uint64 }

func (p *prng) next() uint64 {
	p.x += 0x9e3779b97f4a7c15
	z := p.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Choices is every decision of a run: named streams of small integers, of which
// zero is always the simplest (first in line, no fault). A replay gives the
// non-zero ones by position.
type Choices struct {
	Seed   uint64
	replay map[string]map[int]int
	st     map[string]*stream
	Trace  map[string][][2]int
	Count  map[string]int
}
type stream struct {
	r prng
	n int
}

func NewChoices(seed uint64, replay map[string][][2]int) *Choices {
	c := &Choices{Seed: seed, st: map[string]*stream{}, Trace: map[string][][2]int{}, Count: map[string]int{}}
	if replay != nil {
		c.replay = map[string]map[int]int{}
		for k, l := range replay {
			c.replay[k] = map[int]int{}
			for _, e := range l {
				c.replay[k][e[0]] = e[1]
			}
		}
	}
	return c
}

func (c *Choices) Replaying() bool { return c.replay != nil }

func (c *Choices) stream(name string) *stream {
	s := c.st[name]
	if s == nil {
		h := c.Seed*0x9e3779b97f4a7c15 + 1
		for i := 0; i < len(name); i++ {
			h = (h ^ uint64(name[i])) * 0x100000001b3
		}
		s = &stream{r: prng{h}}
		c.st[name] = s
	}
	return s
}

// pick draws the next choice of a stream: gen decides it when not replaying.
func (c *Choices) pick(name string, n int, gen func(r *prng) int) int {
	s := c.stream(name)
	i := s.n
	s.n++
	v := 0
	if c.replay != nil {
		v = c.replay[name][i]
		if v >= n {
			v = n - 1
		}
		if v < 0 {
			v = 0
		}
	} else {
		v = gen(&s.r)
	}
	if v != 0 {
		c.Trace[name] = append(c.Trace[name], [2]int{i, v})
	}
	c.Count[name] = s.n
	return v
}

// N draws uniformly from 0..n-1.
func (c *Choices) N(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return c.pick(name, n, func(r *prng) int { return int(r.next() % uint64(n)) })
}

// Chance is true with probability per million.
func (c *Choices) Chance(name string, ppm int) bool {
	if ppm <= 0 {
		return false
	}
	return c.pick(name, 2, func(r *prng) int {
		if int(r.next()%1000000) < ppm {
			return 1
		}
		return 0
	}) == 1
}

// W draws an index with the given weights.
func (c *Choices) W(name string, w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t <= 0 {
		panic(fmt.Sprintf("no weights for %s", name))
	}
	return c.pick(name, len(w), func(r *prng) int {
		k := int(r.next() % uint64(t))
		for i, x := range w {
			if k < x {
				return i
			}
			k -= x
		}
		return 0
	})
}
