package main

// Adapters: the library under test, called only through its exported API.

import (
	"math"
	"math/big"

	"github.com/mewmew/float/bfloat"
	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float128ppc"
	"github.com/mewmew/float/float80x86"
)

// Fields are the outputs of the field accessors; Lead is -1 where the format
// has no such accessor, HasExp is false for double-doubles.
type Fields struct {
	Sign     bool
	Exp      int
	Lead     int
	FHi, FLo uint64
}

// Lib is one format package of the library.
type Lib struct {
	Name   string
	F      *Format // nil for double-double
	Prec   uint
	Big    func(Pat) (*big.Float, bool)
	Bits   func(Pat) Pat
	Fields func(Pat) Fields
	F32    func(Pat) (float32, big.Accuracy)
	F64    func(Pat) (float64, big.Accuracy)
	EncBig func(*big.Float) (Pat, big.Accuracy)
	EncF64 func(float64) (Pat, big.Accuracy)
	EncF32 func(float32) (Pat, big.Accuracy)
	// exported specials in the order NaN, NegNaN, Inf, NegInf, Zero, NegZero
	Specials func() [6]Pat
	// Make returns a value of the library's type, from bits and from a native
	// number; Look returns the bits of such a value.
	Make   func(Pat) interface{}
	Native func(float64) interface{}
	Look   func(interface{}) Pat
	// BigOfSpecial decodes the exported special value itself.
	BigOfSpecial func(i int) (*big.Float, bool)
}

func p16(f binary16.Float) Pat     { return Pat{A: uint64(f.Bits())} }
func p128(f binary128.Float) Pat   { a, b := f.Bits(); return Pat{a, b} }
func px87(f float80x86.Float) Pat  { a, b := f.Bits(); return Pat{uint64(a), b} }
func pppc(f float128ppc.Float) Pat { a, b := f.Bits(); return Pat{a, b} }
func l16(p Pat) binary16.Float     { return binary16.NewFromBits(uint16(p.A)) }
func l128(p Pat) binary128.Float   { return binary128.NewFromBits(p.A, p.B) }
func lx87(p Pat) float80x86.Float  { return float80x86.NewFromBits(uint16(p.A), p.B) }
func lppc(p Pat) float128ppc.Float { return float128ppc.NewFromBits(p.A, p.B) }
func lbf(p Pat) bfloat.Float       { return bfloat.NewFromBits(uint16(p.A)) }

func sp16() [6]binary16.Float {
	return [6]binary16.Float{binary16.NaN, binary16.NegNaN, binary16.Inf, binary16.NegInf, binary16.Zero, binary16.NegZero}
}
func sp128() [6]binary128.Float {
	return [6]binary128.Float{binary128.NaN, binary128.NegNaN, binary128.Inf, binary128.NegInf, binary128.Zero, binary128.NegZero}
}
func spx87() [6]float80x86.Float {
	return [6]float80x86.Float{float80x86.NaN, float80x86.NegNaN, float80x86.Inf, float80x86.NegInf, float80x86.Zero, float80x86.NegZero}
}
func spppc() [6]float128ppc.Float {
	return [6]float128ppc.Float{float128ppc.NaN, float128ppc.NegNaN, float128ppc.Inf, float128ppc.NegInf, float128ppc.Zero, float128ppc.NegZero}
}

var lib16 = &Lib{
	Name: "binary16", F: fmt16, Prec: 11,
	Big:    func(p Pat) (*big.Float, bool) { return l16(p).Big() },
	Make:   func(p Pat) interface{} { return l16(p) },
	Native: func(x float64) interface{} { f, _ := binary16.NewFromFloat64(x); return f },
	Look:   func(v interface{}) Pat { return p16(v.(binary16.Float)) },
	Bits:   func(p Pat) Pat { return p16(l16(p)) },
	Fields: func(p Pat) Fields {
		f := l16(p)
		return Fields{f.Signbit(), f.Exp(), -1, 0, uint64(f.Frac())}
	},
	F32:    func(p Pat) (float32, big.Accuracy) { return l16(p).Float32() },
	F64:    func(p Pat) (float64, big.Accuracy) { return l16(p).Float64() },
	EncBig: func(x *big.Float) (Pat, big.Accuracy) { f, a := binary16.NewFromBig(x); return p16(f), a },
	EncF64: func(x float64) (Pat, big.Accuracy) { f, a := binary16.NewFromFloat64(x); return p16(f), a },
	EncF32: func(x float32) (Pat, big.Accuracy) { f, a := binary16.NewFromFloat32(x); return p16(f), a },
	Specials: func() (r [6]Pat) {
		for i, f := range sp16() {
			r[i] = p16(f)
		}
		return
	},
	BigOfSpecial: func(i int) (*big.Float, bool) { return sp16()[i].Big() },
}

var lib128 = &Lib{
	Name: "binary128", F: fmt128, Prec: 113,
	Big:    func(p Pat) (*big.Float, bool) { return l128(p).Big() },
	Make:   func(p Pat) interface{} { return l128(p) },
	Native: func(x float64) interface{} { f, _ := binary128.NewFromFloat64(x); return f },
	Look:   func(v interface{}) Pat { return p128(v.(binary128.Float)) },
	Bits:   func(p Pat) Pat { return p128(l128(p)) },
	Fields: func(p Pat) Fields {
		f := l128(p)
		a, b := f.Frac()
		return Fields{f.Signbit(), f.Exp(), -1, a, b}
	},
	F32:    func(p Pat) (float32, big.Accuracy) { return l128(p).Float32() },
	F64:    func(p Pat) (float64, big.Accuracy) { return l128(p).Float64() },
	EncBig: func(x *big.Float) (Pat, big.Accuracy) { f, a := binary128.NewFromBig(x); return p128(f), a },
	EncF64: func(x float64) (Pat, big.Accuracy) { f, a := binary128.NewFromFloat64(x); return p128(f), a },
	EncF32: func(x float32) (Pat, big.Accuracy) { f, a := binary128.NewFromFloat32(x); return p128(f), a },
	Specials: func() (r [6]Pat) {
		for i, f := range sp128() {
			r[i] = p128(f)
		}
		return
	},
	BigOfSpecial: func(i int) (*big.Float, bool) { return sp128()[i].Big() },
}

var libX87 = &Lib{
	Name: "float80x86", F: fmtX87, Prec: 64,
	Big:    func(p Pat) (*big.Float, bool) { return lx87(p).Big() },
	Make:   func(p Pat) interface{} { return lx87(p) },
	Native: func(x float64) interface{} { f, _ := float80x86.NewFromFloat64(x); return f },
	Look:   func(v interface{}) Pat { return px87(v.(float80x86.Float)) },
	Bits:   func(p Pat) Pat { return px87(lx87(p)) },
	Fields: func(p Pat) Fields {
		f := lx87(p)
		return Fields{f.Signbit(), f.Exp(), f.Lead(), 0, f.Frac()}
	},
	F32:    func(p Pat) (float32, big.Accuracy) { return lx87(p).Float32() },
	F64:    func(p Pat) (float64, big.Accuracy) { return lx87(p).Float64() },
	EncBig: func(x *big.Float) (Pat, big.Accuracy) { f, a := float80x86.NewFromBig(x); return px87(f), a },
	EncF64: func(x float64) (Pat, big.Accuracy) { f, a := float80x86.NewFromFloat64(x); return px87(f), a },
	EncF32: func(x float32) (Pat, big.Accuracy) { f, a := float80x86.NewFromFloat32(x); return px87(f), a },
	Specials: func() (r [6]Pat) {
		for i, f := range spx87() {
			r[i] = px87(f)
		}
		return
	},
	BigOfSpecial: func(i int) (*big.Float, bool) { return spx87()[i].Big() },
}

var libPPC = &Lib{
	Name:   "float128ppc",
	Big:    func(p Pat) (*big.Float, bool) { return lppc(p).Big() },
	Make:   func(p Pat) interface{} { return lppc(p) },
	Native: func(x float64) interface{} { f, _ := float128ppc.NewFromFloat64(x); return f },
	Look:   func(v interface{}) Pat { return pppc(v.(float128ppc.Float)) },
	Bits:   func(p Pat) Pat { return pppc(lppc(p)) },
	F32:    func(p Pat) (float32, big.Accuracy) { return lppc(p).Float32() },
	F64:    func(p Pat) (float64, big.Accuracy) { return lppc(p).Float64() },
	EncBig: func(x *big.Float) (Pat, big.Accuracy) { f, a := float128ppc.NewFromBig(x); return pppc(f), a },
	EncF64: func(x float64) (Pat, big.Accuracy) { f, a := float128ppc.NewFromFloat64(x); return pppc(f), a },
	EncF32: func(x float32) (Pat, big.Accuracy) { f, a := float128ppc.NewFromFloat32(x); return pppc(f), a },
	Specials: func() (r [6]Pat) {
		for i, f := range spppc() {
			r[i] = pppc(f)
		}
		return
	},
	BigOfSpecial: func(i int) (*big.Float, bool) { return spppc()[i].Big() },
}

var libBF = &Lib{
	Name: "bfloat", F: fmtBF16, Prec: 8,
	Big:  func(p Pat) (*big.Float, bool) { return lbf(p).Big() },
	Make: func(p Pat) interface{} { return lbf(p) },
	Look: func(v interface{}) Pat {
		f := v.(bfloat.Float)
		return Pat{A: uint64(f.Exp())<<7 | uint64(f.Frac()) | bsign(f.Signbit(), 15)}
	},
	Fields: func(p Pat) Fields {
		f := lbf(p)
		return Fields{f.Signbit(), f.Exp(), -1, 0, uint64(f.Frac())}
	},
}

// libAny names no format; it is only used in descriptions.
var libAny = &Lib{Name: "argument"}

var encLibs = []*Lib{lib16, lib128, libX87, libPPC}
var allLibs = []*Lib{lib16, lib128, libX87, libPPC, libBF}

// decodeRef is the reference decoding. zeroSignFree is set where the sign of a
// zero result is not specified (cancelling double-double parts).
func (l *Lib) decodeRef(p Pat) (r Real, nan, signFree bool) {
	if l.F != nil {
		r, nan = l.F.decode(p)
		return r, nan, false
	}
	hi, hn := fmt64.decode(Pat{A: p.A})
	lo, ln := fmt64.decode(Pat{A: p.B})
	zero := func(neg bool) Real { return Real{Neg: neg, M: new(big.Int)} }
	switch {
	case hn:
		return zero(hi.Neg), true, false
	case ln:
		return zero(false), true, true
	case hi.Inf && lo.Inf && hi.Neg != lo.Neg:
		return zero(false), true, true
	case hi.Inf:
		return hi, false, false
	case lo.Inf:
		return lo, false, false
	case hi.IsZero() && lo.IsZero():
		return zero(hi.Neg), false, false
	}
	r = addReal(hi, lo)
	return r, false, r.IsZero()
}

// encRef is the reference encoding of a real. loSignFree: the sign of a zero
// low part is not specified.
func (l *Lib) encRef(r Real) (p Pat, acc int, kind string) {
	if l.F != nil {
		q := l.F.round(r)
		return l.F.pack(q), q.Acc, q.Kind
	}
	hi := fmt64.round(r)
	hp := fmt64.pack(hi)
	if r.Inf || r.IsZero() || hi.Inf {
		return Pat{A: hp.A}, hi.Acc, "hi-" + hi.Kind
	}
	var rem Real
	if hi.M.Sign() == 0 {
		rem = r
	} else {
		rem = addReal(r, hi.real().negate())
	}
	if rem.IsZero() {
		return Pat{A: hp.A}, 0, "hi-" + hi.Kind + "/lo-none"
	}
	lo := fmt64.round(rem)
	return Pat{A: hp.A, B: fmt64.pack(lo).A}, lo.Acc, "hi-" + hi.Kind + "/lo-" + lo.Kind
}

// samePat compares patterns, ignoring the sign of a zero low part of
// double-doubles.
func (l *Lib) samePat(a, b Pat) bool {
	if l.F == nil {
		if a.B<<1 == 0 && b.B<<1 == 0 {
			return a.A == b.A
		}
	}
	return a == b
}

func f64Real(x float64) Real { r, _ := fmt64.decode(Pat{A: math.Float64bits(x)}); return r }
func f32Real(x float32) Real { r, _ := fmt32.decode(Pat{A: uint64(math.Float32bits(x))}); return r }
