//go:build go1.21

package rt

// Rand is a small deterministic generator (splitmix64). Every random choice of
// a simulated run comes from streams derived from the run's seed.
type Rand struct{ s uint64 }

func NewRand(seed uint64, stream string) *Rand {
	h := seed*0x9E3779B97F4A7C15 + 0x1234567
	for i := 0; i < len(stream); i++ {
		h = (h ^ uint64(stream[i])) * 0x100000001b3
	}
	r := &Rand{s: h}
	r.U64()
	return r
}

func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rand) N64(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(r.U64() % uint64(n))
}

// Range returns a value in [lo,hi].
func (r *Rand) Range(lo, hi int) int       { return lo + r.N(hi-lo+1) }
func (r *Rand) Range64(lo, hi int64) int64 { return lo + r.N64(hi-lo+1) }
func (r *Rand) Float() float64             { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) P(p float64) bool           { return p > 0 && r.Float() < p }
func (r *Rand) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// Perm fills p with a random permutation of 0..len-1.
func (r *Rand) Perm(p []int) {
	for i := range p {
		p[i] = i
	}
	for i := len(p) - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
}
