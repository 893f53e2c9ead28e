package sim

// rng is a splitmix64 generator; every random choice of the simulator comes
// from one of these, derived from the run's seed.
type rng struct{ s uint64 }

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func newRng(parts ...uint64) *rng {
	s := uint64(0x1234567)
	for _, p := range parts {
		s = mix(s*0x9e3779b97f4a7c15 ^ p + 0x9e3779b97f4a7c15)
	}
	return &rng{s}
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// n returns a number in [0,n).
func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// in returns a number in [lo,hi].
func (r *rng) in(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.n(hi-lo+1)
}

// p reports true with probability num/den.
func (r *rng) p(num, den int) bool { return r.n(den) < num }

func pick[T any](r *rng, xs ...T) T { return xs[r.n(len(xs))] }

// wpick returns an index with probability proportional to its weight.
func (r *rng) wpick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.n(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

func (r *rng) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u64())
	}
	return b
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// perm returns the numbers of [0,n) in random order.
func (r *rng) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.n(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
