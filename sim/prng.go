package main

// Rng is the only source of randomness of the simulator (splitmix64). It is seeded from VERIF_SEED, the property and
// the index of the run; nothing else is drawn from anywhere.
type Rng struct{ s uint64 }

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return mix64(h)
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}

// N returns a number in [0, n)
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rng) Range(a, b int) int  { return a + r.N(b-a+1) }
func (r *Rng) P(num, den int) bool { return r.N(den) < num }
func (r *Rng) Pick(a ...int) int   { return a[r.N(len(a))] }
func (r *Rng) Fork() *Rng          { return &Rng{s: r.U64()} }

// W picks an index with the given weights
func (r *Rng) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

// Bytes returns n random bytes
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

func (r *Rng) PickS(a ...string) string { return a[r.N(len(a))] }
