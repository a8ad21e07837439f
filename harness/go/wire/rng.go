package wire

// RNG is splitmix64: all randomness of the harness comes from VERIF_SEED through it.
type RNG struct{ s uint64 }

func NewRNG(seed uint64, stream string) *RNG {
	h := uint64(1469598103934665603)
	for i := 0; i < len(stream); i++ {
		h = (h ^ uint64(stream[i])) * 1099511628211
	}
	return &RNG{s: seed*0x9E3779B97F4A7C15 ^ h}
}

func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}
func (r *RNG) N(n int) int { return int(r.U64() % uint64(n)) }
func (r *RNG) Bool() bool  { return r.U64()&1 == 1 }
func (r *RNG) Byte() byte  { return byte(r.U64()) }
func (r *RNG) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

// Bits gives a value with a uniformly chosen bit length, so every varint length is frequent.
func (r *RNG) Bits(max int) uint64 {
	n := r.N(max + 1)
	if n == 0 {
		return 0
	}
	v := r.U64()
	if n < 64 {
		v &= 1<<uint(n) - 1
	}
	switch r.N(6) {
	case 0: // exactly a power of two
		v = 1 << uint(n-1)
	case 1: // all ones
		v = ^uint64(0) >> uint(64-n)
	default:
		v |= 1 << uint(n-1)
	}
	return v
}
