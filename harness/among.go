package main

// Calls among other calls. The value properties speak of every call, whatever
// the program did before and does after it. So for these properties no call of
// the library is observed on its own: it comes after a call with the same or a
// nearly equal argument whose result, or whose argument, the program has since
// changed, and its result is read after another such call. What comes before
// and after is chosen by the argument alone, so that a single case replays.

import (
	"math"
	"math/big"
	"sync/atomic"

	fstrconv "github.com/mewmew/float/internal/strconv"
)

// amongOthers lists the properties so observed. The others watch histories,
// memory or costs themselves.
var amongOthers = map[string]bool{}

func init() {
	for _, p := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15",
		"C19", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C30", "C31", "C32", "C34", "C35", "C36", "C38", "C39"} {
		amongOthers[p] = true
	}
}

var (
	among bool
	// otherCalls counts the calls made around the observed ones.
	otherCalls atomic.Int64
)

// spoil changes a number the program was given.
func spoil(x *big.Float, h uint64) {
	switch h % 8 {
	case 0:
		x.SetInt64(int64(h>>8) | 1)
	case 1:
		x.Neg(x)
	case 2:
		x.SetInf(h>>8&1 == 0)
	case 3:
		x.SetMode(big.RoundingMode(h >> 8 % 6)).SetPrec(uint(h>>16%3 + 1)) // rounds in place
	case 4:
		if e := x.MantExp(nil); e > 1<<16 || e < -1<<16 {
			x.Neg(x)
		} else if !x.IsInf() {
			x.Add(x, big.NewFloat(1+float64(h>>56)))
		} else {
			x.SetUint64(0)
		}
	case 5:
		x.SetMantExp(x, int(h>>8%5)+1)
	case 6:
		x.SetFloat64(-float64(h>>12) / 8)
	case 7:
		x.SetMode(big.ToZero).SetPrec(x.Prec()/2 + 1).Neg(x)
	}
}

// nearPat is a pattern of l which differs little from p.
func nearPat(l *Lib, p Pat, h uint64) Pat {
	narrow := l == lib16 || l == libBF
	k := uint(h >> 8 & 63)
	switch h % 8 {
	case 0: // the sign
		if narrow || l == libX87 {
			p.A ^= 0x8000
		} else {
			p.A ^= 1 << 63
		}
	case 1:
		if l == lib128 || l == libPPC {
			p.A, p.B = p.B, p.A
		} else {
			p.A ^= 1
		}
	case 2, 3, 4:
		if narrow {
			p.A ^= 1 << (k & 15)
		} else {
			p.B ^= 1 << k
		}
	case 5, 6:
		if narrow || l == libX87 {
			p.A ^= 1 << (k & 15)
		} else {
			p.A ^= 1 << k
		}
	case 7:
		p.A ^= h >> 20 & 0xFFFF
	}
	return p
}

func nearF64(x float64, h uint64) float64 {
	b := math.Float64bits(x)
	switch h % 4 {
	case 0:
		b ^= 1 << 63
	case 1:
		b ^= 1 << (h >> 8 & 63)
	case 2:
		b = math.Float64bits(float64(float32(x)))
	case 3:
		b ^= h >> 20 & 0xFFFFFFFF
	}
	return math.Float64frombits(b)
}

func nearF32(x float32, h uint64) float32 {
	b := math.Float32bits(x)
	if h%4 == 0 {
		b ^= 1 << 31
	} else {
		b ^= 1 << (h >> 8 & 31)
	}
	return math.Float32frombits(b)
}

// nearBig makes y, a copy of the argument x, another number.
func nearBig(y *big.Float, h uint64) {
	if h%3 == 0 || y.IsInf() {
		spoil(y, h>>8)
		return
	}
	switch h >> 4 % 4 {
	case 0:
		y.Neg(y)
	case 1:
		y.SetMantExp(y, int(h>>8%3)+1)
	case 2: // the last bits; the exponent and the kind stay
		e := int64(y.MantExp(nil)) - int64(min(y.Prec(), 120))
		if e < big.MinExp {
			y.Neg(y)
			return
		}
		y.Add(y, new(big.Float).SetMantExp(big.NewFloat(1), int(e)))
	case 3:
		y.SetMode(big.AwayFromZero).SetPrec(min(y.Prec(), 30))
	}
}

// surround makes the calls of l calls among others.
func (l *Lib) surround() {
	n := uint64(hashStr(l.Name))
	narrow := l == lib16 || l == libBF
	pat := func(p Pat, k uint64) uint64 { return mix(mix(p.A, p.B), n+k) }
	bigOf := l.Big
	l.Big = func(p Pat) (*big.Float, bool) {
		h := pat(p, 1)
		k := h >> 60
		if k < 10 || narrow { // the same pattern before, and its result changed
			x, _ := bigOf(p)
			spoil(x, h)
			otherCalls.Add(1)
		}
		if k&3 == 3 {
			x, _ := bigOf(nearPat(l, p, h>>16))
			spoil(x, h>>8)
			otherCalls.Add(1)
		}
		x, nan := bigOf(p)
		if k&3 != 1 {
			y, _ := bigOf(nearPat(l, p, h>>24))
			spoil(y, h>>32)
			otherCalls.Add(1)
		}
		return x, nan
	}
	if f := l.F64; f != nil {
		l.F64 = func(p Pat) (float64, big.Accuracy) {
			switch h := pat(p, 2); h >> 62 {
			case 0: // the same number, which the program then changes
				x, _ := bigOf(p)
				spoil(x, h)
				otherCalls.Add(1)
			case 1, 2:
				f(nearPat(l, p, h))
				otherCalls.Add(1)
			}
			return f(p)
		}
	}
	if f := l.F32; f != nil {
		l.F32 = func(p Pat) (float32, big.Accuracy) {
			switch h := pat(p, 3); h >> 62 {
			case 0: // the same number, which the program then changes
				x, _ := bigOf(p)
				spoil(x, h)
				otherCalls.Add(1)
			case 1, 2:
				f(nearPat(l, p, h))
				otherCalls.Add(1)
			}
			return f(p)
		}
	}
	if f := l.EncF64; f != nil {
		l.EncF64 = func(x float64) (Pat, big.Accuracy) {
			if h := mix(math.Float64bits(x), n); h>>62 != 0 {
				f(nearF64(x, h))
				otherCalls.Add(1)
			}
			return f(x)
		}
	}
	if f := l.EncF32; f != nil {
		l.EncF32 = func(x float32) (Pat, big.Accuracy) {
			if h := mix(uint64(math.Float32bits(x)), n); h>>62 != 0 {
				f(nearF32(x, h))
				otherCalls.Add(1)
			}
			return f(x)
		}
	}
	if f := l.EncBig; f != nil {
		l.EncBig = func(x *big.Float) (p Pat, a big.Accuracy) {
			reuse(x, n, func(y *big.Float) { p, a = f(y) })
			return
		}
	}
}

// reuse calls f with x's value in a variable that held other values in earlier
// calls of f. The last call counts.
func reuse(x *big.Float, n uint64, f func(*big.Float)) {
	if x.Prec() > 1<<13 {
		f(x)
		return
	}
	m := uint64(x.Prec()) << 8
	if !x.IsInf() {
		v, _ := x.Float64()
		t := new(big.Float).SetMode(big.ToZero).SetPrec(x.Prec())
		w, _ := t.Sub(x, new(big.Float).SetFloat64(finite(v))).Float64()
		m = mix(m, math.Float64bits(v)^math.Float64bits(w)>>3^uint64(int64(x.MantExp(nil))))
	}
	h := mix(m, n)
	switch h >> 62 {
	case 0:
		f(x)
		return
	case 1: // twice the same variable, and a change in between
		y := new(big.Float).Copy(x)
		f(y)
		nearBig(y, h)
		f(y)
		y.Copy(x)
		f(y)
		otherCalls.Add(2)
	default:
		y := new(big.Float).Copy(x)
		nearBig(y, h)
		f(y)
		y.Copy(x)
		f(y)
		otherCalls.Add(1)
	}
}

func finite(v float64) float64 {
	if math.IsInf(v, 0) {
		return 0
	}
	return v
}

// isExact calls a predicate among other calls.
func isExact(fn func(*big.Float) bool, x *big.Float) (r bool) {
	if !among {
		return fn(x)
	}
	reuse(x, 7, func(y *big.Float) { r = fn(y) })
	return r
}

// nearFmt changes little of a formatter's arguments.
func nearFmt(v float64, f byte, prec, size int, h uint64) (float64, byte, int, int) {
	switch h >> 3 % 8 {
	case 0:
		f = "eEfgGb"[h>>8%6]
	case 1:
		size = [...]int{16, 32, 64}[h>>8%3]
	case 2:
		if prec < 1000 {
			prec = [...]int{prec + 1, prec - 1, -1, 17, int(h >> 16 % 30)}[h>>8%5]
		}
	case 3: // the same again
	default:
		v = nearF64(v, h>>8)
	}
	return v, f, prec, size
}

func scribbleOver(b []byte, h uint64) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = byte(h >> (i & 7 * 8))
	}
}

// fmtOther makes a formatter call of which nothing remains.
func fmtOther(v float64, f byte, prec, size int, h uint64) {
	otherCalls.Add(1)
	v, f, prec, size = nearFmt(v, f, prec, size, h)
	switch h % 32 {
	case 0: // refused
		refuses(func() { fstrconv.FormatFloat(v, f, prec, 7) })
	case 1:
		refuses(func() { fstrconv.FormatInt(int64(h), 99) })
	case 2, 3, 4, 5:
		scribbleOver(fstrconv.AppendInt(nil, int64(h)>>(h>>8&63), int(h>>14%35)+2), h)
	case 6, 7, 8, 9, 10, 11, 12, 13:
		fstrconv.FormatFloat(v, f, prec, size)
	default:
		scribbleOver(fstrconv.AppendFloat(make([]byte, 0, h>>8&31), v, f, prec, size), h)
	}
}

// formatFloat, appendFloat and the rest are the library's, called among other
// calls.
func formatFloat(v float64, f byte, prec, size int) string {
	if !among || prec > 2000 {
		return fstrconv.FormatFloat(v, f, prec, size)
	}
	h := mix(math.Float64bits(v), uint64(f)|uint64(prec+1)<<8|uint64(size)<<32)
	if h>>60 < 6 {
		fmtOther(v, f, prec, size, h)
	}
	var s string
	switch h >> 40 % 8 {
	case 0: // the other way to the same text
		b := fstrconv.AppendFloat(nil, v, f, prec, size)
		s = string(b)
		scribbleOver(b, h)
	case 1:
		k := int(h >> 44 % 5)
		b := fstrconv.AppendFloat(make([]byte, k, k+int(h>>48%40)), v, f, prec, size)
		s = string(b[k:])
		scribbleOver(b, h)
	default:
		s = fstrconv.FormatFloat(v, f, prec, size)
	}
	if h>>60&3 == 1 {
		fmtOther(v, f, prec, size, h>>5)
	}
	return s
}

func appendFloat(dst []byte, v float64, f byte, prec, size int) []byte {
	if !among || prec > 2000 {
		return fstrconv.AppendFloat(dst, v, f, prec, size)
	}
	h := mix(math.Float64bits(v), uint64(f)|uint64(prec+1)<<8|uint64(size)<<32|uint64(len(dst))<<48)
	if h>>60 < 6 {
		fmtOther(v, f, prec, size, h)
	}
	b := fstrconv.AppendFloat(dst, v, f, prec, size)
	if h>>60&3 == 1 {
		fmtOther(v, f, prec, size, h>>5)
	}
	return b
}

func intOther(u uint64, base int, h uint64) {
	otherCalls.Add(1)
	switch h >> 8 % 4 {
	case 0:
		u ^= 1 << (h >> 16 & 63)
	case 1:
		u = -u
	case 2:
		base = int(h>>16%35) + 2
	}
	switch h % 16 {
	case 0:
		refuses(func() { fstrconv.FormatUint(u, 1) })
	case 1, 2:
		fstrconv.FormatFloat(math.Float64frombits(u), 'g', -1, 64)
	case 3, 4, 5:
		fstrconv.FormatInt(int64(u), base)
	case 6, 7, 8:
		fstrconv.FormatUint(u, base)
	case 9, 10, 11:
		scribbleOver(fstrconv.AppendUint(make([]byte, 0, h>>24&31), u, base), h)
	default:
		scribbleOver(fstrconv.AppendInt(make([]byte, 0, h>>24&31), int64(u), base), h)
	}
}

// surroundInt calls fn, which calls the library once with u.
func surroundInt(u uint64, base int, fn func()) {
	if !among {
		fn()
		return
	}
	h := mix(u, uint64(base))
	if h>>60 < 6 {
		intOther(u, base, h)
	}
	fn()
	if h>>60&3 == 1 {
		intOther(u, base, h>>5)
	}
}

// either calls one of two functions that make the same text.
func either(u uint64, base int, format func() string, appendTo func([]byte) []byte) (s string) {
	surroundInt(u, base, func() {
		h := mix(u, uint64(base)+99)
		if !among || h>>62 != 0 {
			s = format()
			return
		}
		var dst []byte
		k := int(h % 5)
		if h>>8&1 == 0 {
			dst = make([]byte, k, k+int(h>>16%40))
		} else {
			k = 0
		}
		b := appendTo(dst)
		s = string(b[k:])
		scribbleOver(b, h)
	})
	return
}

func formatUint(u uint64, base int) string {
	return either(u, base, func() string { return fstrconv.FormatUint(u, base) }, func(b []byte) []byte { return fstrconv.AppendUint(b, u, base) })
}

func formatInt(u int64, base int) string {
	return either(uint64(u), base, func() string { return fstrconv.FormatInt(u, base) }, func(b []byte) []byte { return fstrconv.AppendInt(b, u, base) })
}

func appendUint(dst []byte, u uint64, base int) (b []byte) {
	surroundInt(u, base, func() { b = fstrconv.AppendUint(dst, u, base) })
	return
}

func appendInt(dst []byte, u int64, base int) (b []byte) {
	surroundInt(uint64(u), base, func() { b = fstrconv.AppendInt(dst, u, base) })
	return
}

// startAmong sets the observation of prop up.
func startAmong(prop string) {
	if !amongOthers[prop] {
		return
	}
	among = true
	for _, l := range allLibs {
		l.surround()
	}
}
