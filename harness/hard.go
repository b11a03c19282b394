package main

// Hard decimals. Formatting a float decides at each step whether the value, or
// a bound of its rounding interval, lies on one side of some decimal. The
// inputs that a fault in the scaled arithmetic (a table entry, an error
// margin, a rounding) shows up on are those where the two almost coincide. For
// a binary exponent and a decimal position these are found by solving
// L <= a*m (mod M) <= R for the significand m.

import (
	"math"
	"math/big"
)

// firstIn returns the least x >= 0 with l <= a*x mod m <= r, where
// 0 <= l <= r < m and 0 <= a < m; nil if there is none.
func firstIn(a, m, l, r *big.Int, depth int) *big.Int {
	if l.Sign() == 0 {
		return new(big.Int)
	}
	if a.Sign() == 0 || depth > 4000 {
		return nil
	}
	if new(big.Int).Lsh(a, 1).Cmp(m) > 0 {
		a = new(big.Int).Sub(m, a)
		l, r = new(big.Int).Sub(m, r), new(big.Int).Sub(m, l)
	}
	c := new(big.Int).Add(l, a)
	c.Sub(c, big.NewInt(1)).Quo(c, a)
	if new(big.Int).Mul(a, c).Cmp(r) <= 0 {
		return c
	}
	b := new(big.Int).Mod(m, a)
	l2 := new(big.Int).Neg(r)
	l2.Mod(l2, a)
	r2 := new(big.Int).Neg(l)
	r2.Mod(r2, a)
	y := firstIn(b, a, l2, r2, depth+1)
	if y == nil {
		return nil
	}
	y.Mul(y, m).Add(y, l).Add(y, a).Sub(y, big.NewInt(1))
	return y.Quo(y, a)
}

// hardMant returns a significand m in [lo, hi) such that (2m+odd)*2^(e-1) lies
// within about 2^-w units of a multiple of 10^k (half false) or of a midpoint
// between two (half true); ok is false if the search found none.
func hardMant(r *RNG, lo, hi uint64, e, k int64, odd bool, half bool, w uint) (uint64, bool) {
	num, den := big.NewInt(1), big.NewInt(1)
	if e >= 0 {
		num.Lsh(num, uint(e))
	} else {
		den.Lsh(den, uint(-e))
	}
	if k >= 0 {
		den.Mul(den, pow10(k))
	} else {
		num.Mul(num, pow10(-k))
	}
	// Work in half units of num, so that the odd multiples are integral.
	den.Lsh(den, 1)
	M := den
	off := new(big.Int)
	if odd {
		off.Set(num)
	}
	a := new(big.Int).Lsh(num, 1)
	a.Mod(a, M)
	m0 := lo + r.U64()%(hi-lo)
	t := new(big.Int).Mul(a, new(big.Int).SetUint64(m0))
	t.Add(t, off)
	// Want (a*x + t) mod M within +-M/2^w of the target.
	center := new(big.Int)
	if half {
		center.Rsh(M, 1)
	}
	d := new(big.Int).Rsh(M, w)
	center.Sub(center, t)
	l, h := new(big.Int), new(big.Int)
	switch r.N(3) {
	case 0:
		l.Sub(center, d)
		h.Set(center)
	case 1:
		l.Set(center)
		h.Add(center, d)
	default:
		l.Sub(center, d)
		h.Add(center, d)
	}
	l.Mod(l, M)
	h.Mod(h, M)
	if l.Cmp(h) > 0 {
		l.SetInt64(0)
	}
	x := firstIn(a, M, l, h, 0)
	if x == nil || !x.IsUint64() {
		return 0, false
	}
	m := m0 + x.Uint64()
	if m < m0 || m >= hi {
		return 0, false
	}
	return m, true
}

// hardDecimal returns a value of the size that is hard to format, and the
// number of digits at which it is.
func hardDecimal(r *RNG, size int, shortest bool) (float64, int) {
	f := map[int]*Format{16: fmt16, 32: fmt32, 64: fmt64}[size]
	for try := 0; try < 40; try++ {
		e := r.Range(f.EMin-int64(f.P-1), f.EMax-int64(f.P-1))
		if size == 64 && r.OneIn(8) || size == 32 && r.OneIn(3) {
			e = f.EMin - int64(f.P-1) + int64(r.N(3))
		}
		lo, hi := uint64(1)<<(f.P-1), uint64(1)<<f.P
		if e == f.EMin-int64(f.P-1) && r.Bool() { // subnormal
			hi = uint64(1) << (1 + r.N(f.P-1))
			lo = hi >> 1
		}
		if lo >= hi {
			continue
		}
		dec := int64(math.Floor((float64(e) + float64(bitsLen(lo)) - 0.5) * 0.30102999566398119521))
		var n int
		max := map[int]int{16: 5, 32: 9, 64: 17}[size]
		if shortest {
			n = max - r.N(4)
		} else {
			n = 1 + r.N(max)
			if r.Bool() {
				n = max - r.N(5)
			}
		}
		if n < 1 {
			n = 1
		}
		if r.OneIn(10) {
			n += r.N(4)
		}
		k := dec - int64(n) + 1
		odd, half := false, true
		if shortest && r.N(4) > 0 { // a bound of the interval close to a short decimal
			odd, half = true, false
		} else if r.OneIn(4) {
			half = false
		}
		w := uint(1 + r.N(bitsLen(lo)))
		if r.Bool() {
			w = uint(bitsLen(lo)) - uint(r.N(4))
		}
		m, ok := hardMant(r, lo, hi, e, k, odd, half, w)
		if !ok {
			continue
		}
		return math.Ldexp(float64(m), int(e)), n
	}
	return genFmtValue(r, size), 1 + r.N(17)
}
