package main

import (
	"math"
	"math/big"
)

// genBits returns a w-bit (w <= 64) pattern drawn from structured families.
func genBits(r *RNG, w uint, d *Dict) uint64 {
	mask := ^uint64(0) >> (64 - w)
	switch r.N(18) {
	case 0:
		return 0
	case 1:
		return mask
	case 2:
		return 1
	case 3:
		return 1 << (w - 1)
	case 4:
		return uint64(1) << r.N(int(w))
	case 5:
		return (uint64(1)<<r.N(int(w)) | uint64(1)<<r.N(int(w)))
	case 6: // run of ones
		i, j := r.N(int(w)), r.N(int(w))
		if i > j {
			i, j = j, i
		}
		return (^uint64(0) >> (63 - uint(j-i))) << uint(i) & mask
	case 7:
		return r.U64() & r.U64() & r.U64() & mask
	case 8:
		return (r.U64() | r.U64() | r.U64()) & mask
	case 9: // low zeros
		return r.U64() << r.N(int(w)) & mask
	case 10: // high zeros
		return r.U64() & mask >> r.N(int(w))
	case 11: // high ones
		return ^(mask>>r.N(int(w)))&mask | r.U64()&0xF&mask
	case 12: // low ones
		return (r.U64()<<8 | mask>>r.N(int(w))) & mask
	case 13:
		return uint64(r.N(17)) & mask
	case 14:
		return mask - uint64(r.N(17))&mask
	case 15:
		if d == nil || len(d.U) == 0 {
			return r.U64() & mask
		}
		v := d.Pick(r)
		switch r.N(5) {
		case 0:
			return v & mask
		case 1:
			return v << r.N(int(w)) & mask
		case 2:
			return (v | r.U64()<<r.N(64)) & mask
		case 3: // literal in the top bits
			return v << (w - uint(bitsLen(v))%64) & mask
		default: // literal in a low field under random high bits
			k := uint(8 << r.N(3))
			return (r.U64()<<k | v&(1<<k-1)) & mask
		}
	}
	return r.U64() & mask
}

func bitsLen(v uint64) int {
	n := 0
	for v > 0 {
		n++
		v >>= 1
	}
	if n == 0 {
		n = 1
	}
	return n
}

// genExp returns a biased exponent field in [0, max], max = all ones.
func genExp(r *RNG, f *Format, d *Dict) int64 {
	max := 2*f.EMax + 1
	bias := f.EMax
	clamp := func(v int64) int64 {
		if v < 0 {
			return 0
		}
		if v > max {
			return max
		}
		return v
	}
	switch r.N(16) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return clamp(int64(r.N(4)))
	case 3:
		return clamp(max - 1 - int64(r.N(3)))
	case 4:
		return max
	case 5, 6:
		return clamp(bias + r.Range(-70, 70))
	case 7:
		return clamp(d.Small(r, 0, max))
	case 8: // float64's edges
		return clamp(bias + []int64{-1080, -1075, -1074, -1073, -1023, -1022, -1021, 1022, 1023, 1024}[r.N(10)] + r.Range(-2, 2))
	case 9: // float32's edges
		return clamp(bias + []int64{-151, -150, -149, -148, -127, -126, -125, 126, 127, 128}[r.N(10)] + r.Range(-2, 2))
	case 10:
		return clamp(bias + r.Range(-200, 200))
	case 11:
		return clamp(bias + r.Range(-1100, 1100))
	}
	return r.Range(0, max)
}

// genPat returns a pattern of the format, canonical or not.
func genPat(r *RNG, l *Lib) Pat {
	d := dicts[l.Name]
	sign := r.U64() >> 63
	switch l {
	case lib16:
		return Pat{A: sign<<15 | uint64(genExp(r, fmt16, d))<<10 | genBits(r, 10, d)}
	case libBF:
		return Pat{A: sign<<15 | uint64(genExp(r, fmtBF16, d))<<7 | genBits(r, 7, d)}
	case lib128:
		if r.OneIn(40) {
			return Pat{genBits(r, 64, d), genBits(r, 64, d)}
		}
		p := Pat{sign<<63 | uint64(genExp(r, fmt128, d))<<48 | genBits(r, 48, d), genBits(r, 64, d)}
		switch r.N(12) {
		case 0: // neighbourhood of a float64 or float32 rounding boundary
			cut := uint(112 - 52)
			if r.Bool() {
				cut = 112 - 23
			}
			p = cutPat128(r, p, cut)
		}
		return p
	case libX87:
		p := Pat{sign<<15 | uint64(genExp(r, fmtX87, d)), 1<<63 | genBits(r, 63, d)}
		switch r.N(10) {
		case 0:
			p.B &^= 1 << 63
		case 1:
			p.A &= 0x8000
			if r.OneIn(3) {
				p.B &^= 1 << 63
			}
		case 2:
			cut := uint(11)
			if r.Bool() {
				cut = 40
			}
			p.B = p.B>>cut<<cut | halfish(r, cut)
		}
		if p.A&0x7FFF == 0 && !r.OneIn(5) {
			p.B &^= 1 << 63
		}
		return p
	case libPPC:
		return genPPC(r, d)
	}
	panic("genPat")
}

// halfish returns a cut-bit tail around one half.
func halfish(r *RNG, cut uint) uint64 {
	h := uint64(1) << (cut - 1)
	switch r.N(4) {
	case 0:
		return h
	case 1:
		return h - 1
	case 2:
		return h + 1
	}
	return h | r.U64()&(1<<(cut-1)-1)
}

func cutPat128(r *RNG, p Pat, cut uint) Pat {
	f := u128(p.A&(1<<48-1), p.B)
	f.Rsh(f, cut)
	f.Lsh(f, cut)
	t := new(big.Int).Lsh(big.NewInt(1), cut-1)
	switch r.N(4) {
	case 1:
		t.Sub(t, big.NewInt(1))
	case 2:
		t.Add(t, big.NewInt(1))
	case 3:
		t.SetBit(t, r.N(int(cut-1)), 1)
	}
	f.Or(f, t)
	return Pat{p.A>>48<<48 | hi64(f), lo64(f)}
}

// genF64 returns a float64 bit pattern.
func genF64Bits(r *RNG, d *Dict) uint64 {
	if r.OneIn(12) {
		return math.Float64bits(d.PickF(r))
	}
	return r.U64()>>63<<63 | uint64(genExp(r, fmt64, d))<<52 | genBits(r, 52, d)
}

func genF32Bits(r *RNG, d *Dict) uint32 {
	if r.OneIn(12) {
		return math.Float32bits(toF32(d.PickF(r)))
	}
	return uint32(r.U64()>>63<<31 | uint64(genExp(r, fmt32, d))<<23 | genBits(r, 23, d))
}

// genPPC returns a pair of float64 patterns: normalised, nearly normalised,
// overlapping, far apart, or arbitrary.
func genPPC(r *RNG, d *Dict) Pat {
	hi := genF64Bits(r, d)
	he := int64(hi >> 52 & 0x7FF)
	lo := uint64(0)
	switch r.N(16) {
	case 0:
		lo = r.U64() >> 63 << 63
	case 1:
		lo = genF64Bits(r, d)
	case 2: // exact half ulp
		lo = loAt(r, he-53, 0)
	case 3, 4, 5, 6:
		lo = loAt(r, he-53-int64(r.N(4)), genBits(r, 52, d))
	case 7, 8:
		lo = loAt(r, he-54-int64(r.N(60)), genBits(r, 52, d))
	case 9: // 106 bits and beyond
		lo = loAt(r, he-100-int64(r.N(20)), genBits(r, 52, d))
	case 10:
		lo = loAt(r, r.Range(0, 2046), genBits(r, 52, d))
	case 11: // overlap
		lo = loAt(r, he-int64(r.N(54)), genBits(r, 52, d))
	case 12: // cancel
		lo = hi ^ 1<<63
		if r.Bool() {
			lo ^= genBits(r, 8, d)
		}
	case 13: // subnormal low part
		lo = r.U64()>>63<<63 | genBits(r, 52, d)
	case 14:
		if r.OneIn(4) { // infinities and NaN
			sp := []uint64{0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000001, 0xFFF8000000000001, 0x7FF0000000000001, 0, 1 << 63}
			if r.Bool() {
				hi = sp[r.N(len(sp))]
			}
			lo = sp[r.N(len(sp))]
		}
	}
	return Pat{hi, lo}
}

func loAt(r *RNG, e int64, frac uint64) uint64 {
	if e < 0 {
		e = 0
	}
	if e > 2046 {
		e = 2046
	}
	return r.U64()>>63<<63 | uint64(e)<<52 | frac&(1<<52-1)
}

var allModes = []big.RoundingMode{big.ToNearestEven, big.ToNearestAway, big.ToZero, big.AwayFromZero, big.ToNegativeInf, big.ToPositiveInf}

// genReal returns a real aimed at the rounding boundaries of f.
func genReal(r *RNG, f *Format, d *Dict) Real {
	neg := r.Bool()
	p1 := int64(f.P - 1)
	emin := f.EMin
	if r.OneIn(24) { // far out of range, or wrapping around the exponent field
		w := uint(5)
		if f.EMax > 15 {
			w = 15
		}
		m := new(big.Int).SetUint64(genBits(r, uint(1+r.N(64)), d) | 1)
		bl := int64(m.BitLen())
		var e int64
		switch r.N(6) {
		case 0:
			e = r.Range(emin, f.EMax) + (int64(r.N(7))-3)<<w
		case 1:
			e = r.Range(emin, f.EMax) + (int64(r.N(129))-64)<<16
		case 2:
			e = math.MaxInt32 - int64(r.N(3)) - 1
		case 3:
			e = math.MinInt32 + 70 + int64(r.N(3))
		case 4:
			e = d.Small(r, math.MinInt32+100, math.MaxInt32-100)
			if r.Bool() {
				e = -e
			}
		default:
			e = r.Range(math.MinInt32+100, math.MaxInt32-100)
			if r.Bool() {
				e >>= uint(r.N(20))
			}
		}
		return Real{Neg: neg, M: m, E: e - bl + 1}
	}
	// A point v = m * 2^q on the format's grid, or one binade beyond it.
	var e int64
	switch r.N(14) {
	case 0:
		e = emin
	case 1:
		e = f.EMax
	case 2:
		e = f.EMax + 1
	case 3, 4, 5: // subnormal range and just below
		e = emin - int64(r.N(f.P+4))
	case 6:
		e = emin + int64(r.N(4))
	case 7:
		e = f.EMax - int64(r.N(4))
	case 8:
		e = d.Small(r, emin-p1, f.EMax)
		if r.Bool() {
			e -= f.EMax
			if e < emin-p1 {
				e = emin - p1
			}
		}
	case 9:
		e = r.Range(-70, 70)
		if e < emin-p1 {
			e = emin - p1
		}
		if e > f.EMax {
			e = f.EMax
		}
	default:
		e = r.Range(emin, f.EMax)
	}
	q := e - p1
	if q < emin-p1 {
		q = emin - p1
	}
	bitsAvail := e - q + 1 // bits in m; <= 0 below the smallest subnormal
	m := new(big.Int)
	if bitsAvail > 0 {
		n := uint(bitsAvail)
		if n > 64 {
			m.SetUint64(genBits(r, n-64, d))
			m.Lsh(m, 64)
			m.Or(m, new(big.Int).SetUint64(genBits(r, 64, d)))
			if r.OneIn(4) { // all ones: the round up carries out
				m.Lsh(big.NewInt(1), n)
				m.Sub(m, big.NewInt(1+2*int64(r.N(2))))
			}
		} else {
			m.SetUint64(genBits(r, n, d))
			if r.OneIn(4) {
				m.SetUint64(^uint64(0) >> (64 - n))
			}
		}
		m.SetBit(m, int(n)-1, 1)
	}
	s := uint([]int{1, 2, 3, 8, 11, 29, 32, 53, 64, 65, 100, 128, 130, 200, 600, 1500}[r.N(16)])
	if r.OneIn(6) {
		s = uint(1 + r.N(260))
	}
	if r.OneIn(80) { // very long numbers
		s = uint(1500 + r.N(8000))
		if r.OneIn(20) {
			s += uint(r.N(60000))
		}
	}
	if r.OneIn(1000) { // as long as some limit in the code
		s = uint(1 + d.Small(r, 1, 1<<14) + int64(r.N(200)))
		if r.OneIn(6) {
			s = uint(1<<(12+r.N(11)) + r.N(70000))
		}
	}
	off := new(big.Int)
	half := new(big.Int).Lsh(big.NewInt(1), s-1)
	kind := r.N(12)
	switch kind {
	case 0, 1: // exact
	case 2, 3, 4:
		off.Set(half)
	case 5:
		off.Sub(half, big.NewInt(1))
	case 6:
		off.Add(half, big.NewInt(1))
	case 7:
		off.SetInt64(1)
	case 8:
		off.Lsh(big.NewInt(1), s)
		off.Sub(off, big.NewInt(1))
	case 9: // half and one sticky bit somewhere below
		off.SetBit(new(big.Int).Set(half), r.N(int(s)), 1)
	case 10: // just below half, with a gap
		off.Sub(half, new(big.Int).Lsh(big.NewInt(1), uint(r.N(int(s)))))
		if off.Sign() < 0 {
			off.SetInt64(0)
		}
	default:
		for i := uint(0); i < s; i += 64 {
			off.Lsh(off, 64)
			off.Or(off, new(big.Int).SetUint64(r.U64()))
		}
		off.Rsh(off, uint(off.BitLen())-min2(uint(off.BitLen()), s))
	}
	m.Lsh(m, s)
	m.Add(m, off)
	if m.Sign() == 0 && !r.OneIn(20) {
		m.SetBit(m, 0, 1)
	}
	return Real{Neg: neg, M: m, E: q - int64(s)}
}

func min2(a, b uint) uint {
	if a < b {
		return a
	}
	return b
}

// genRealPPC returns a real aimed at the double-double split.
func genRealPPC(r *RNG, d *Dict) Real {
	switch r.N(4) {
	case 0:
		return genReal(r, fmt64, d)
	case 1: // value of a double-double, perturbed
		for {
			p := genPPC(r, d)
			v, nan, _ := libPPC.decodeRef(p)
			if nan || v.Inf {
				continue
			}
			if v.IsZero() || r.Bool() {
				return v
			}
			s := uint(1 + r.N(300))
			v.M = new(big.Int).Lsh(v.M, s)
			v.E -= int64(s)
			v.M.Add(v.M, new(big.Int).SetUint64(genBits(r, uint(1+r.N(64)), d)))
			return v
		}
	case 2: // high part on a float64 grid point, remainder on or near a midpoint of the low grid
		hi := genReal(r, fmt64, d)
		hr := fmt64.round(hi)
		if hr.Inf || hr.M.Sign() == 0 {
			return hi
		}
		lo := genReal(r, fmt64, d)
		if lo.IsZero() {
			return hi
		}
		// put the leading bit of lo 1..120 bits below the ulp of hi
		lo.E += hr.Q - 1 - int64(r.N(120)) - lo.lead()
		return addReal(hr.real(), lo)
	}
	f := &Format{"wide", 1 + r.N(300), -1074, 1023}
	return genReal(r, f, d)
}

func (l *Lib) genReal(r *RNG) Real {
	if l.F == nil {
		return genRealPPC(r, dicts[l.Name])
	}
	return genReal(r, l.F, dicts[l.Name])
}

// genPrec picks a precision for a number needing n bits.
func genPrec(r *RNG, n uint, d *Dict) uint {
	switch r.N(6) {
	case 0:
		return n
	case 1:
		return n + uint(r.N(130))
	case 2:
		return (n + 63) / 64 * 64
	case 3:
		return n + uint(d.Small(r, 0, 400))
	case 4:
		return n + 1 + uint(r.N(5000))
	}
	if r.OneIn(50) { // room for far more bits than there are
		if p := uint(1)<<(13+r.N(18)) - uint(r.N(2)); p >= n {
			return p
		}
		return n
	}
	ps := []uint{11, 24, 53, 64, 65, 106, 113, 114, 128, 200, 1000}
	for i := 0; i < 4; i++ {
		if p := ps[r.N(len(ps))]; p >= n {
			return p
		}
	}
	return n
}

// clampReal keeps a real inside big.Float's exponent range.
func clampReal(v Real) Real {
	if v.Inf || v.M.Sign() == 0 {
		return v
	}
	v = v.norm()
	if l := v.lead(); l >= math.MaxInt32 {
		v.E -= l - math.MaxInt32 + 1
	}
	if v.E < math.MinInt32+1 {
		v.E = math.MinInt32 + 1
	}
	return v
}

// genBig returns a multi-precision number and its exact value.
func (l *Lib) genBig(r *RNG) (*big.Float, Real) {
	d := dicts[l.Name]
	mode := allModes[0]
	if r.Bool() {
		mode = allModes[r.N(len(allModes))]
	}
	if r.OneIn(100) { // specials
		v := Real{Neg: r.Bool(), Inf: r.Bool(), M: new(big.Int)}
		prec := uint(r.N(200))
		if prec&3 == 0 { // as in a new(big.Float)
			prec = 0
		}
		return toBig(v, prec, mode), v
	}
	v := clampReal(l.genReal(r))
	n := uint(1)
	if v.M.Sign() != 0 {
		n = uint(v.norm().M.BitLen())
	}
	x := toBig(v, genPrec(r, n, d), mode)
	if r.OneIn(10) && v.M.Sign() != 0 { // leave a rounding residue in the accuracy field
		if p := x.MinPrec(); p > 1 {
			x.SetPrec(1 + uint(r.N(int(p))))
			v = fromBig(x)
		}
	}
	return x, v
}

// toF32 converts an input of a workload to float32, a NaN to the same one on
// every platform.
func toF32(v float64) float32 {
	if v != v {
		return math.Float32frombits(uint32(math.Float64bits(v)>>63)<<31 | 0x7FC00000)
	}
	return float32(v)
}
