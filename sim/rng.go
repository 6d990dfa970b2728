package main

// RNG is the only source of choice in the simulator (splitmix64): one seed, one
// execution.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { r := &RNG{s: seed*0x9E3779B97F4A7C15 + 0x1234567}; r.U64(); return r }

func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *RNG) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [a,b].
func (r *RNG) Range(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability pct/100.
func (r *RNG) P(pct int) bool { return r.N(100) < pct }

// Fork derives an independent generator, so that adding draws in one place does
// not move the choices made elsewhere.
func (r *RNG) Fork(label string) *RNG {
	h := uint64(14695981039346656037)
	for i := 0; i < len(label); i++ {
		h = (h ^ uint64(label[i])) * 1099511628211
	}
	return NewRNG(r.s ^ h)
}

func seedOf(parts ...any) uint64 {
	h := uint64(14695981039346656037)
	add := func(b byte) { h = (h ^ uint64(b)) * 1099511628211 }
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			for i := 0; i < len(x); i++ {
				add(x[i])
			}
			add(0xff)
		case int:
			for i := 0; i < 8; i++ {
				add(byte(uint64(x) >> (8 * i)))
			}
		case uint64:
			for i := 0; i < 8; i++ {
				add(byte(x >> (8 * i)))
			}
		}
	}
	return h
}

func (r *RNG) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.N(i+1))
	}
}
