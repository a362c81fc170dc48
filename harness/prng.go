package main

// R is a small, stable PRNG (splitmix64), so that a case is a fixed function
// of its seed on every Go version.
type R struct{ s uint64 }

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix64(h)
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return mix64(h)
}

func newR(seed uint64, name string, i int) *R {
	return &R{mix64(seed*0x9e3779b97f4a7c15+1) ^ hashStr(name) ^ mix64(uint64(i)+0x1234567)}
}

func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}

// N returns a value in [0,n).
func (r *R) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a value in [a,b].
func (r *R) In(a, b int) int { return a + r.N(b-a+1) }

func (r *R) Bool() bool { return r.U64()&1 == 1 }

// P is true with probability num/den.
func (r *R) P(num, den int) bool { return r.N(den) < num }

func (r *R) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *R) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 24)
	}
	return b
}

// Bits returns an n-bit value, biased to the extremes now and then.
func (r *R) Bits(n uint) uint64 {
	m := ^uint64(0)
	if n < 64 {
		m = (uint64(1) << n) - 1
	}
	switch r.N(12) {
	case 0:
		return 0
	case 1:
		return m
	case 2:
		return (uint64(1) << (n - 1)) & m
	case 3:
		// around a power of two
		v := uint64(1) << uint(r.N(int(n)))
		if n > 3 && r.Bool() {
			v += uint64(r.N(3)) - 1
		}
		return v & m
	}
	return r.U64() & m
}

func (r *R) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
