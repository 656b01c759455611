// Package pbt is a small property-based-testing engine: choice-sequence
// generators (so that every generator shrinks), deterministic parallel
// execution in supervised worker processes, replay files and evidence.
package pbt

// Src is a source of choices. In generation mode choices come from a seeded
// PRNG and are recorded; in replay mode they come from a recorded sequence
// (missing choices read as 0, the simplest choice).
type Src struct {
	state  uint64
	rec    []uint64
	replay []uint64
	pos    int
	fixed  bool

	Aux any // a generator's own state
}

func NewSrc(seed uint64) *Src         { return &Src{state: seed} }
func ReplaySrc(choices []uint64) *Src { return &Src{replay: choices, fixed: true} }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (s *Src) raw() uint64 {
	if s.fixed {
		if s.pos < len(s.replay) {
			v := s.replay[s.pos]
			s.pos++
			return v
		}
		return 0
	}
	s.state += 0x9e3779b97f4a7c15
	return mix(s.state)
}

// U64 returns any uint64.
func (s *Src) U64() uint64 {
	v := s.raw()
	s.rec = append(s.rec, v)
	return v
}

// N returns a value in [0, n).
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	v := s.raw() % uint64(n)
	s.rec = append(s.rec, v)
	return int(v)
}

// Range returns a value in [lo, hi], simplest lo.
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// Sym returns a value in [-n, n], simplest 0.
func (s *Src) Sym(n int) int {
	v := s.N(2*n + 1)
	if v&1 == 1 {
		return -(v + 1) / 2
	}
	return v / 2
}

// In reports true with probability k/n; the simplest choice is false.
func (s *Src) In(k, n int) bool { return s.N(n) >= n-k }

// Bool is a fair coin, simplest false.
func (s *Src) Bool() bool { return s.N(2) == 1 }

// Pick returns one of xs, simplest the first.
func Pick[T any](s *Src, xs ...T) T { return xs[s.N(len(xs))] }

// Weighted returns an index with the given weights.
func (s *Src) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := s.N(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Choices returns the choices made so far.
func (s *Src) Choices() []uint64 { return append([]uint64(nil), s.rec...) }

// Hash64 mixes strings and numbers into a seed.
func Hash64(seed uint64, parts ...string) uint64 {
	h := mix(seed + 0x9e3779b97f4a7c15)
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			h = (h ^ uint64(p[i])) * 0x100000001b3
		}
		h = mix(h + 0x1234567)
	}
	return h
}
