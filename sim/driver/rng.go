package main

// Rng is a splitmix64 stream: the only source of choices in the driver.
type Rng struct{ s uint64 }

func newRng(seed uint64) *Rng { r := &Rng{seed}; r.U64(); return r }

// sub derives an independent stream.
func (r *Rng) sub() *Rng { return newRng(r.U64()) }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N is uniform in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In is uniform in [lo,hi].
func (r *Rng) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability num/den.
func (r *Rng) P(num, den int) bool { return r.N(den) < num }

func pick[T any](r *Rng, s []T) T { return s[r.N(len(s))] }

func shuffle[T any](r *Rng, s []T) {
	for i := len(s) - 1; i > 0; i-- {
		j := r.N(i + 1)
		s[i], s[j] = s[j], s[i]
	}
}

// subset keeps each element with probability num/den.
func subset[T any](r *Rng, s []T, num, den int) []T {
	var out []T
	for _, x := range s {
		if r.P(num, den) {
			out = append(out, x)
		}
	}
	return out
}
