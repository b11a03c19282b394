package main

// The reference model. It shares no code with the library under test: numbers
// are (sign, integer, power of two) triples and every rounding is done with
// integer shifts and comparisons. math/big's Float is only read through
// GobEncode (which exposes the stored fields without computing anything).

import (
	"encoding/binary"
	"fmt"
	"math/big"
)

// Format describes a binary floating-point format: P significant bits, normal
// exponents EMin..EMax (value = 1.f * 2^e).
type Format struct {
	Name       string
	P          int
	EMin, EMax int64
}

var (
	fmt16   = &Format{"binary16", 11, -14, 15}
	fmt128  = &Format{"binary128", 113, -16382, 16383}
	fmtX87  = &Format{"float80x86", 64, -16382, 16383}
	fmt64   = &Format{"float64", 53, -1022, 1023}
	fmt32   = &Format{"float32", 24, -126, 127}
	fmtBF16 = &Format{"bfloat16", 8, -126, 127}
)

// Real is an extended real number: (-1)^Neg * M * 2^E, or infinite.
type Real struct {
	Neg bool
	Inf bool
	M   *big.Int // >= 0
	E   int64
}

func (r Real) IsZero() bool { return !r.Inf && r.M.Sign() == 0 }

func (r Real) String() string {
	s := "+"
	if r.Neg {
		s = "-"
	}
	if r.Inf {
		return s + "Inf"
	}
	if r.M.Sign() == 0 {
		return s + "0"
	}
	n := r.norm()
	return fmt.Sprintf("%s0x%xp%d", s, n.M, n.E)
}

// norm returns r with odd M (or zero).
func (r Real) norm() Real {
	if r.Inf || r.M.Sign() == 0 {
		return Real{Neg: r.Neg, Inf: r.Inf, M: new(big.Int)}
	}
	tz := r.M.TrailingZeroBits()
	if tz == 0 {
		return r
	}
	return Real{Neg: r.Neg, M: new(big.Int).Rsh(r.M, tz), E: r.E + int64(tz)}
}

// Neg1 returns -r.
func (r Real) negate() Real { r.Neg = !r.Neg; return r }

// lead returns the exponent of the leading bit; r must be finite and non-zero.
func (r Real) lead() int64 { return r.E + int64(r.M.BitLen()) - 1 }

// cmpAbs compares |a| and |b|.
func cmpAbs(a, b Real) int {
	switch {
	case a.Inf && b.Inf:
		return 0
	case a.Inf:
		return 1
	case b.Inf:
		return -1
	}
	as, bs := a.M.Sign(), b.M.Sign()
	if as == 0 || bs == 0 {
		return as - bs
	}
	al, bl := a.lead(), b.lead()
	if al != bl {
		if al < bl {
			return -1
		}
		return 1
	}
	// Same leading exponent: align.
	if a.E == b.E {
		return a.M.Cmp(b.M)
	}
	if a.E > b.E {
		return new(big.Int).Lsh(a.M, uint(a.E-b.E)).Cmp(b.M)
	}
	return a.M.Cmp(new(big.Int).Lsh(b.M, uint(b.E-a.E)))
}

// cmpReal compares a and b as extended reals (+0 == -0).
func cmpReal(a, b Real) int {
	if a.IsZero() && b.IsZero() {
		return 0
	}
	an, bn := a.Neg && !a.IsZero(), b.Neg && !b.IsZero()
	if an != bn {
		if an {
			return -1
		}
		return 1
	}
	c := cmpAbs(a, b)
	if an {
		return -c
	}
	return c
}

// same reports whether a and b are the same number with the same sign.
func same(a, b Real) bool {
	return a.Neg == b.Neg && cmpAbs(a, b) == 0
}

// addReal returns a+b exactly for finite a and b whose exponents are at most a
// few thousands apart.
func addReal(a, b Real) Real {
	e := a.E
	if b.E < e {
		e = b.E
	}
	am := new(big.Int).Lsh(a.M, uint(a.E-e))
	bm := new(big.Int).Lsh(b.M, uint(b.E-e))
	if a.Neg {
		am.Neg(am)
	}
	if b.Neg {
		bm.Neg(bm)
	}
	am.Add(am, bm)
	r := Real{M: am, E: e}
	if am.Sign() < 0 {
		r.Neg = true
		am.Neg(am)
	}
	return r
}

// Rounded is the result of rounding a real into a format.
type Rounded struct {
	Neg  bool
	Inf  bool
	M    *big.Int // significand on the format's grid; 0 for zero
	Q    int64    // exponent of the unit in the last place
	Acc  int      // sign(result - input)
	Kind string   // rounding situation, for coverage
}

// round rounds r to nearest, ties to even, into f.
func (f *Format) round(r Real) Rounded {
	dir := func(away bool) int {
		if away != r.Neg {
			return 1
		}
		return -1
	}
	if r.Inf {
		return Rounded{Neg: r.Neg, Inf: true, Kind: "inf"}
	}
	if r.M.Sign() == 0 {
		return Rounded{Neg: r.Neg, M: new(big.Int), Kind: "zero"}
	}
	e := r.lead()
	if e > f.EMax {
		return Rounded{Neg: r.Neg, Inf: true, Acc: dir(true), Kind: "overflow-far"}
	}
	p1 := int64(f.P - 1)
	q := e - p1
	sub := false
	if q < f.EMin-p1 {
		q = f.EMin - p1
		sub = true
	}
	kind := func(s string) string {
		if sub {
			return "sub-" + s
		}
		return s
	}
	if r.E >= q {
		return Rounded{Neg: r.Neg, M: new(big.Int).Lsh(r.M, uint(r.E-q)), Q: q, Kind: kind("exact")}
	}
	s := q - r.E
	if s > int64(r.M.BitLen())+1 {
		return Rounded{Neg: r.Neg, M: new(big.Int), Q: q, Acc: dir(false), Kind: "underflow-far"}
	}
	m := new(big.Int).Rsh(r.M, uint(s))
	rem := new(big.Int).Sub(r.M, new(big.Int).Lsh(m, uint(s)))
	if rem.Sign() == 0 {
		return Rounded{Neg: r.Neg, M: m, Q: q, Kind: kind("exact")}
	}
	half := new(big.Int).Lsh(big.NewInt(1), uint(s-1))
	up := false
	k := ""
	switch rem.Cmp(half) {
	case 1:
		up, k = true, "up"
	case -1:
		k = "down"
	default:
		up = m.Bit(0) == 1
		k = "tie-down"
		if up {
			k = "tie-up"
		}
	}
	if up {
		m.Add(m, big.NewInt(1))
		if m.BitLen() > f.P {
			k += "-carry"
			if q+p1+1 > f.EMax {
				return Rounded{Neg: r.Neg, Inf: true, Acc: dir(true), Kind: "overflow-" + k}
			}
		} else if sub && m.BitLen() == f.P {
			k += "-to-normal"
		}
	} else if m.Sign() == 0 {
		k += "-to-zero"
	}
	return Rounded{Neg: r.Neg, M: m, Q: q, Acc: dir(up), Kind: kind(k)}
}

// fields returns the biased exponent and the fraction (without lead bit), with
// the exponent field of all ones for infinity.
func (f *Format) fields(r Rounded) (exp int64, frac *big.Int, lead uint) {
	if r.Inf {
		return 2*f.EMax + 1, new(big.Int), 1
	}
	p1 := f.P - 1
	bl := r.M.BitLen()
	if bl <= p1 {
		return 0, r.M, 0
	}
	m, q := r.M, r.Q
	if bl > f.P { // carry: power of two
		m = new(big.Int).Rsh(m, 1)
		q++
	}
	exp = q + int64(p1) + f.EMax
	return exp, new(big.Int).SetBit(m, p1, 0), 1
}

// real returns the value of a rounded result.
func (r Rounded) real() Real {
	if r.Inf {
		return Real{Neg: r.Neg, Inf: true, M: new(big.Int)}
	}
	return Real{Neg: r.Neg, M: r.M, E: r.Q}
}

var mask64 = new(big.Int).SetUint64(^uint64(0))

func lo64(x *big.Int) uint64 { return new(big.Int).And(x, mask64).Uint64() }
func hi64(x *big.Int) uint64 { return new(big.Int).Rsh(x, 64).Uint64() }
func u128(hi, lo uint64) *big.Int {
	z := new(big.Int).SetUint64(hi)
	z.Lsh(z, 64)
	return z.Or(z, new(big.Int).SetUint64(lo))
}

// Pat is a bit pattern. binary16/bfloat16/float32/float64: in A. binary128: A
// high word, B low word. float80x86: A sign and exponent, B significand.
// float128ppc: A high part, B low part.
type Pat struct{ A, B uint64 }

func bsign(n bool, bit uint) uint64 {
	if n {
		return 1 << bit
	}
	return 0
}

func (f *Format) pack(r Rounded) Pat {
	exp, frac, lead := f.fields(r)
	switch f {
	case fmt16:
		return Pat{A: bsign(r.Neg, 15) | uint64(exp)<<10 | frac.Uint64()}
	case fmtBF16:
		return Pat{A: bsign(r.Neg, 15) | uint64(exp)<<7 | frac.Uint64()}
	case fmt32:
		return Pat{A: bsign(r.Neg, 31) | uint64(exp)<<23 | frac.Uint64()}
	case fmt64:
		return Pat{A: bsign(r.Neg, 63) | uint64(exp)<<52 | frac.Uint64()}
	case fmt128:
		return Pat{A: bsign(r.Neg, 63) | uint64(exp)<<48 | hi64(frac), B: lo64(frac)}
	case fmtX87:
		return Pat{A: bsign(r.Neg, 15) | uint64(exp), B: uint64(lead)<<63 | frac.Uint64()}
	}
	panic("pack: unknown format")
}

// decode returns the value of a pattern; for NaN only the sign is meaningful.
func (f *Format) decode(p Pat) (r Real, nan bool) {
	var neg bool
	var exp int64
	var frac *big.Int
	lead := true
	switch f {
	case fmt16:
		neg, exp, frac = p.A>>15&1 == 1, int64(p.A>>10&0x1F), new(big.Int).SetUint64(p.A&0x3FF)
	case fmtBF16:
		neg, exp, frac = p.A>>15&1 == 1, int64(p.A>>7&0xFF), new(big.Int).SetUint64(p.A&0x7F)
	case fmt32:
		neg, exp, frac = p.A>>31&1 == 1, int64(p.A>>23&0xFF), new(big.Int).SetUint64(p.A&(1<<23-1))
	case fmt64:
		neg, exp, frac = p.A>>63&1 == 1, int64(p.A>>52&0x7FF), new(big.Int).SetUint64(p.A&(1<<52-1))
	case fmt128:
		neg, exp, frac = p.A>>63&1 == 1, int64(p.A>>48&0x7FFF), u128(p.A&(1<<48-1), p.B)
	case fmtX87:
		neg, exp, frac = p.A>>15&1 == 1, int64(p.A&0x7FFF), new(big.Int).SetUint64(p.B&(1<<63-1))
		lead = p.B>>63 == 1
	default:
		panic("decode: unknown format")
	}
	if exp == 2*f.EMax+1 {
		if frac.Sign() == 0 && lead {
			return Real{Neg: neg, Inf: true, M: new(big.Int)}, false
		}
		return Real{Neg: neg, M: new(big.Int)}, true
	}
	if f != fmtX87 {
		lead = exp != 0
	}
	if lead {
		frac.SetBit(frac, f.P-1, 1)
	}
	if exp == 0 {
		exp = 1
	}
	return Real{Neg: neg, M: frac, E: exp - f.EMax - int64(f.P-1)}, false
}

// canonicalX87 reports whether the pattern is one x87 hardware produces.
func canonicalX87(p Pat) bool {
	exp, lead := p.A&0x7FFF, p.B>>63 == 1
	return (exp != 0) == lead
}

// snap is the complete stored state of a big.Float.
type snap struct {
	prec uint32
	mode byte
	acc  int8
	form byte // 0 zero, 1 finite, 2 inf
	neg  bool
	exp  int32
	mant string // big-endian, leading-aligned, trailing zero bytes trimmed
}

func snapshot(x *big.Float) snap {
	buf, err := x.GobEncode()
	if err != nil || len(buf) < 6 || buf[0] != 1 {
		panic(fmt.Sprintf("harness: unexpected big.Float gob encoding % x (%v)", buf, err))
	}
	b := buf[1]
	s := snap{mode: b >> 5 & 7, acc: int8(b>>3&3) - 1, form: b >> 1 & 3, neg: b&1 != 0,
		prec: binary.BigEndian.Uint32(buf[2:])}
	if s.form == 1 {
		s.exp = int32(binary.BigEndian.Uint32(buf[6:]))
		m := buf[10:]
		for len(m) > 0 && m[len(m)-1] == 0 {
			m = m[:len(m)-1]
		}
		s.mant = string(m)
	}
	return s
}

func (s snap) real() Real {
	switch s.form {
	case 0:
		return Real{Neg: s.neg, M: new(big.Int)}
	case 2:
		return Real{Neg: s.neg, Inf: true, M: new(big.Int)}
	}
	return Real{Neg: s.neg, M: new(big.Int).SetBytes([]byte(s.mant)), E: int64(s.exp) - 8*int64(len(s.mant))}
}

// fromBig returns the exact value stored in x.
func fromBig(x *big.Float) Real { return snapshot(x).real() }

// toBig returns a big.Float holding exactly r with precision max(prec, bits
// needed), the given mode.
func toBig(r Real, prec uint, mode big.RoundingMode) *big.Float {
	x := new(big.Float).SetPrec(prec).SetMode(mode)
	if r.Inf {
		return x.SetInf(r.Neg)
	}
	if r.M.Sign() == 0 {
		if prec == 0 {
			x = new(big.Float).SetMode(mode)
		}
		if r.Neg {
			x.Neg(x)
		}
		return x
	}
	n := r.norm()
	if need := uint(n.M.BitLen()); prec < need {
		x.SetPrec(need)
	}
	x.SetInt(n.M)
	// SetMantExp(x, e) multiplies by 2^e exactly.
	x.SetMantExp(x, int(n.E))
	if r.Neg {
		x.Neg(x)
	}
	if got := fromBig(x); !same(got, r) {
		panic(fmt.Sprintf("harness: toBig(%v) built %v", r, got))
	}
	return x
}

func accName(a int) string {
	return big.Accuracy(a).String()
}
