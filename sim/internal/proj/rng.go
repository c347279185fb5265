package proj

// Rng is a splitmix64 stream.
type Rng struct{ S uint64 }

// Mix combines numbers into a seed.
func Mix(xs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range xs {
		h ^= x
		h += 0x9e3779b97f4a7c15
		h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
		h = (h ^ (h >> 27)) * 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h
}

// U64 draws.
func (r *Rng) U64() uint64 {
	r.S += 0x9e3779b97f4a7c15
	z := r.S
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N draws below n.
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability a/b.
func (r *Rng) P(a, b int) bool { return r.N(b) < a }

// Pick picks a string.
func (r *Rng) Pick(xs ...string) string { return xs[r.N(len(xs))] }

// PickI picks a number.
func (r *Rng) PickI(xs ...int) int { return xs[r.N(len(xs))] }
