package main

import "math/bits"

// RNG is splitmix64: fully determined by its seed and identical on every
// platform and toolchain.
type RNG struct{ s uint64 }

func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

// N returns a number in [0, n).
func (r *RNG) N(n int) int {
	hi, _ := bits.Mul64(r.U64(), uint64(n))
	return int(hi)
}

// Range returns a number in [lo, hi].
func (r *RNG) Range(lo, hi int64) int64 {
	h, _ := bits.Mul64(r.U64(), uint64(hi-lo)+1)
	return lo + int64(h)
}

func (r *RNG) Bool() bool { return r.U64()>>63 == 1 }

// OneIn is true once in n.
func (r *RNG) OneIn(n int) bool { return r.N(n) == 0 }

func mix(h, v uint64) uint64 {
	h ^= v + 0x9E3779B97F4A7C15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	return h ^ h>>32
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
