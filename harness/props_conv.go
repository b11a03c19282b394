package main

// Monitors for decoding, encoding, narrowing and their relations (C01-C17,
// C19, C27).

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/mewmew/float"
	"github.com/mewmew/float/float128ppc"
	fstrconv "github.com/mewmew/float/internal/strconv"
)

func patStr(l *Lib, p Pat) string {
	switch l {
	case lib16, libBF:
		return fmt.Sprintf("%s bits 0x%04X", l.Name, p.A)
	case libX87:
		return fmt.Sprintf("%s bits 0x%04X %016X", l.Name, p.A, p.B)
	}
	return fmt.Sprintf("%s bits 0x%016X %016X", l.Name, p.A, p.B)
}

func bigStr(l *Lib, x *big.Float, v Real) string {
	return fmt.Sprintf("%s <- big.Float %v (prec %d, mode %v, acc %v)", l.Name, v, x.Prec(), x.Mode(), x.Acc())
}

func isSpecialKind(r Real, nan bool) string {
	switch {
	case nan:
		return "nan"
	case r.Inf:
		return "inf"
	case r.IsZero():
		return "zero"
	}
	return ""
}

// patClass names the decoding situation of a pattern.
func patClass(l *Lib, p Pat) string {
	r, nan, _ := l.decodeRef(p)
	k := isSpecialKind(r, nan)
	switch l {
	case libX87:
		exp, lead := p.A&0x7FFF, p.B>>63
		switch {
		case k == "nan" && exp == 0x7FFF && lead == 0:
			k = "pseudo-nan"
		case k != "" && k != "zero":
		case exp == 0 && lead == 1:
			k = "pseudo-denormal"
		case exp != 0 && lead == 0:
			k = "unnormal"
		case k == "zero":
		case exp == 0:
			k = "subnormal"
		default:
			k = "normal"
		}
	case libPPC:
		if k == "" {
			ref, _, _ := l.encRef(r)
			hi, lo := f64Real(math.Float64frombits(p.A)), f64Real(math.Float64frombits(p.B))
			switch {
			case lo.IsZero():
				k = "high-only"
			case hi.IsZero():
				k = "low-only"
			case ref.A != p.A:
				k = "unnormalised"
			case hi.lead()-lo.norm().E > 105:
				k = "wide"
			default:
				k = "normalised"
			}
		} else if !nan && r.IsZero() && p.A<<1 != 0 {
			k = "cancelled"
		}
	default:
		if k == "" {
			k = "normal"
			if r.lead() < l.F.EMin {
				k = "subnormal"
			}
		}
	}
	if p.signBit(l) {
		return k + "-"
	}
	return k + "+"
}

func (p Pat) signBit(l *Lib) bool {
	switch l {
	case lib128, libPPC:
		return p.A>>63 == 1
	}
	return p.A>>15&1 == 1
}

func patHash(p Pat) uint64 { return mix(mix(1, p.A), p.B) }

func (c *C) obsBig(x *big.Float, nan bool) {
	r := fromBig(x).norm()
	var m uint64
	if r.M != nil {
		m = hashStr(string(r.M.Bytes()))
	}
	c.Obs(bsign(r.Neg, 0)|bsign(r.Inf, 1)|bsign(nan, 2), m, uint64(r.E))
}

// checkDecode observes Big on one pattern.
func checkDecode(c *C, l *Lib, p Pat) {
	c.Begin(func() string { return patStr(l, p) })
	c.Class(patHash(p), patClass(l, p))
	x, nan := l.Big(p)
	checkBigOf(c, l, p, x, nan, "Big()")
}

func checkBigOf(c *C, l *Lib, p Pat, x *big.Float, nan bool, what string) {
	ref, rnan, free := l.decodeRef(p)
	if x == nil {
		c.Fail("%s returned nil", what)
		return
	}
	got := fromBig(x)
	c.obsBig(x, nan)
	if nan != rnan {
		c.Fail("%s: Not-a-Number indicator %v, the pattern's is %v", what, nan, rnan)
		return
	}
	if nan {
		if !got.IsZero() || (!free && got.Neg != ref.Neg) {
			c.Fail("%s: NaN came with %v, expected a zero with sign bit %v", what, got, ref.Neg)
		}
		return
	}
	if free && got.IsZero() {
		return
	}
	if !same(got, ref) {
		c.Fail("%s = %v, the pattern denotes %v", what, got, ref)
		return
	}
	if l.Prec != 0 && x.Prec() != l.Prec {
		c.Fail("%s has precision %d, the format's is %d", what, x.Prec(), l.Prec)
	}
}

// sweepPats enumerates structured patterns of a wide format: all exponents
// with a few fractions, every single-bit and every prefix/suffix fraction.
func sweepPats(l *Lib, chunk, n int, f func(Pat)) {
	w := uint(112)
	mk := func(sign, exp uint64, frac *big.Int) Pat {
		return Pat{sign<<63 | exp<<48 | hi64(frac), lo64(frac)}
	}
	if l == libX87 {
		w = 63
		mk = func(sign, exp uint64, frac *big.Int) Pat {
			lead := uint64(1) << 63
			if exp == 0 {
				lead = 0
			}
			return Pat{sign<<15 | exp, lead | frac.Uint64()}
		}
	}
	one := big.NewInt(1)
	all := new(big.Int).Sub(new(big.Int).Lsh(one, w), one)
	i := 0
	emit := func(p Pat) {
		if i%n == chunk {
			f(p)
		}
		i++
	}
	fr := []*big.Int{new(big.Int), one, all, new(big.Int).Lsh(one, w-1), new(big.Int).Rsh(all, 1), new(big.Int).SetUint64(0x123456789ABCDEF)}
	for e := uint64(0); e <= 0x7FFF; e++ {
		for j, x := range fr {
			emit(mk(uint64(j)&1^e&1, e, x))
		}
	}
	for _, e := range []uint64{0, 1, 2, 0x3FFE, 0x3FFF, 0x4000, 0x7FFD, 0x7FFE, 0x7FFF} {
		for b := uint(0); b < w; b++ {
			bit := new(big.Int).Lsh(one, b)
			emit(mk(0, e, bit))
			emit(mk(1, e, new(big.Int).Sub(bit, one)))
			emit(mk(1, e, new(big.Int).Xor(all, bit)))
			emit(mk(0, e, new(big.Int).Xor(all, new(big.Int).Sub(bit, one))))
			for b2 := b + 1; b2 < w; b2 += 5 {
				emit(mk(uint64(b2)&1, e, new(big.Int).Or(bit, new(big.Int).Lsh(one, b2))))
			}
		}
	}
}

// forPats drives f over the patterns of a format for one chunk.
func forPats(c *C, l *Lib, random int, f func(Pat)) {
	switch l {
	case lib16, libBF:
		for i := c.Chunk; i < 1<<16; i += c.NChunks {
			f(Pat{A: uint64(i)})
		}
		return
	case lib128, libX87:
		sweepPats(l, c.Chunk, c.NChunks, f)
	}
	for i := 0; i < random; i++ {
		f(genPat(c.RNG, l))
	}
}

func decodeStream(l *Lib, q, t, n int) *Stream {
	return &Stream{Name: "decode-" + l.Name, Quick: q, Thorough: t, Run: func(c *C) {
		forPats(c, l, n, func(p Pat) { checkDecode(c, l, p) })
		if l.Specials != nil && c.Chunk == 0 {
			sp := l.Specials()
			for i := range sp {
				c.Begin(func() string { return fmt.Sprintf("exported special %d of %s", i, l.Name) })
				x, nan := l.BigOfSpecial(i)
				checkBigOf(c, l, sp[i], x, nan, "Big() of the exported value")
			}
		}
	}}
}

// --- C06 fields

func fieldStream(l *Lib, q, t, n int) *Stream {
	return &Stream{Name: "fields-" + l.Name, Quick: q, Thorough: t, Run: func(c *C) {
		forPats(c, l, n, func(p Pat) { checkFields(c, l, p) })
	}}
}

func checkFields(c *C, l *Lib, p Pat) {
	c.Begin(func() string { return patStr(l, p) })
	c.Class(patHash(p), l.Name+" "+patClass(l, p))
	if l.Bits != nil {
		got := l.Bits(p)
		c.Obs(got.A, got.B)
		if got != p {
			c.Fail("Bits() = %016X %016X, want the pattern itself", got.A, got.B)
		}
	}
	if l.Fields == nil {
		if l == libPPC {
			nan := math.IsNaN(math.Float64frombits(p.A)) || math.IsNaN(math.Float64frombits(p.B))
			_ = nan
		}
		return
	}
	g := l.Fields(p)
	c.Obs(bsign(g.Sign, 0), uint64(int64(g.Exp)), uint64(int64(g.Lead)), g.FHi, g.FLo)
	var want Fields
	switch l {
	case lib16:
		want = Fields{p.A>>15&1 == 1, int(p.A >> 10 & 0x1F), -1, 0, p.A & 0x3FF}
	case libBF:
		want = Fields{p.A>>15&1 == 1, int(p.A >> 7 & 0xFF), -1, 0, p.A & 0x7F}
	case lib128:
		want = Fields{p.A>>63 == 1, int(p.A >> 48 & 0x7FFF), -1, p.A & (1<<48 - 1), p.B}
	case libX87:
		want = Fields{p.A>>15&1 == 1, int(p.A & 0x7FFF), int(p.B >> 63), 0, p.B & (1<<63 - 1)}
	}
	if g != want {
		c.Fail("fields {sign exp lead frac} = %+v, the pattern holds %+v", g, want)
	}
}

// --- encoding

func checkEncode(c *C, l *Lib, x *big.Float, v Real) {
	c.Begin(func() string { return bigStr(l, x, v) })
	want, _, kind := l.encRef(v)
	c.Class(mix(hashStr(string(v.M.Bytes())), uint64(v.E)), kind)
	got, _ := l.EncBig(x)
	c.Obs(got.A, got.B)
	if !l.samePat(got, want) {
		c.Fail("NewFromBig gave bits %016X %016X, the nearest value is %016X %016X (%s)", got.A, got.B, want.A, want.B, kind)
	}
}

func encodeStream(l *Lib, q, t, n int) *Stream {
	return &Stream{Name: "encode-" + l.Name, Quick: q, Thorough: t, Run: func(c *C) {
		for i := 0; i < n; i++ {
			x, v := l.genBig(c.RNG)
			checkEncode(c, l, x, v)
		}
	}}
}

// edgeStream walks every binade edge and the neighbourhood of every boundary
// of the format, instead of sampling it.
func edgeStream(l *Lib, q, t int, check func(c *C, l *Lib, x *big.Float, v Real)) *Stream {
	return &Stream{Name: "edges-" + l.Name, Quick: q, Thorough: t, Run: func(c *C) {
		f := l.F
		if f == nil {
			f = fmt64
		}
		p1 := int64(f.P - 1)
		lo, hi := f.EMin-p1-3, f.EMax+3
		step := int64(c.NChunks)
		for e := lo + int64(c.Chunk); e <= hi; e += step {
			q := e - p1
			if q < f.EMin-p1 {
				q = f.EMin - p1
			}
			n := e - q + 1
			var ms []*big.Int
			one := big.NewInt(1)
			if n <= 0 {
				ms = []*big.Int{new(big.Int)}
			} else {
				top := new(big.Int).Lsh(one, uint(n-1))
				end := new(big.Int).Sub(new(big.Int).Lsh(one, uint(n)), one)
				ms = []*big.Int{top, end, new(big.Int).Or(top, one), new(big.Int).Sub(end, one), new(big.Int).Or(top, new(big.Int).SetUint64(c.U64()>>(64-min2(uint(n), 64)))),
					new(big.Int).SetBit(new(big.Int).Set(top), c.N(int(n)), 1)}
			}
			k := uint(2 + c.N(70))
			if c.OneIn(3) {
				k = uint(2 + c.N(400))
			}
			half := new(big.Int).Lsh(one, k-1)
			offs := []*big.Int{new(big.Int), half, new(big.Int).Add(half, one), new(big.Int).Sub(half, one), one}
			for _, m := range ms {
				for _, o := range offs {
					v := Real{Neg: c.Bool(), M: new(big.Int).Add(new(big.Int).Lsh(m, k), o), E: q - int64(k)}
					nb := uint(1)
					if v.M.Sign() != 0 {
						nb = uint(v.norm().M.BitLen())
					}
					x := toBig(v, nb+uint(c.N(3))*uint(c.N(80)), allModes[c.N(len(allModes))])
					check(c, l, x, v)
				}
			}
		}
	}}
}

// --- accuracy (C11)

func checkAcc(c *C, l *Lib, what string, in Real, nan bool, got Pat, acc big.Accuracy) {
	c.Obs(uint64(int64(acc)))
	if nan || in.Inf || in.IsZero() {
		if acc != big.Exact {
			c.Fail("%s: accuracy %v for a NaN, infinite or zero input", what, acc)
		}
		return
	}
	out, onan, _ := l.decodeRef(got)
	if onan {
		c.Fail("%s: result is NaN for the number %v", what, in)
		return
	}
	if want := cmpReal(out, in); int(acc) != want {
		c.Fail("%s: accuracy %v, but the result %v is %s the input %v", what, acc, out, map[int]string{-1: "below", 0: "equal to", 1: "above"}[want], in)
	}
}

func accClass(l *Lib, r Rounded) string {
	s := "+"
	if r.Neg {
		s = "-"
	}
	return l.Name + " " + r.Kind + s
}

func checkAccBig(c *C, l *Lib, x *big.Float, v Real) {
	c.Begin(func() string { return bigStr(l, x, v) })
	_, acc, kind := l.encRef(v)
	c.Class(mix(hashStr(string(v.M.Bytes())), uint64(v.E)), l.Name+" big "+accName(acc)+" "+kind)
	got, a := l.EncBig(x)
	checkAcc(c, l, "NewFromBig", v, false, got, a)
}

func accBigStream(l *Lib, q, t, n int) *Stream {
	return &Stream{Name: "acc-big-" + l.Name, Quick: q, Thorough: t, Run: func(c *C) {
		for i := 0; i < n; i++ {
			x, v := l.genBig(c.RNG)
			checkAccBig(c, l, x, v)
		}
	}}
}

func checkAccNative(c *C, l *Lib, f64 uint64, f32 uint32) {
	x := math.Float64frombits(f64)
	c.Begin(func() string { return fmt.Sprintf("%s <- float64 0x%016X (%v)", l.Name, f64, x) })
	_, acc, kind := l.encRef(f64Real(x))
	c.Class(f64, l.Name+" f64 "+accName(acc)+" "+kind)
	got, a := l.EncF64(x)
	checkAcc(c, l, "NewFromFloat64", f64Real(x), math.IsNaN(x), got, a)
	y := math.Float32frombits(f32)
	c.Begin(func() string { return fmt.Sprintf("%s <- float32 0x%08X (%v)", l.Name, f32, y) })
	_, acc, kind = l.encRef(f32Real(y))
	c.Class(uint64(f32), l.Name+" f32 "+accName(acc)+" "+kind)
	got, a = l.EncF32(y)
	checkAcc(c, l, "NewFromFloat32", f32Real(y), y != y, got, a)
}

func accNativeStream(l *Lib, q, t, n int) *Stream {
	return &Stream{Name: "acc-native-" + l.Name, Quick: q, Thorough: t, Run: func(c *C) {
		forNative(c, l, n, func(a uint64, b uint32) { checkAccNative(c, l, a, b) })
	}}
}

// forNative drives f over pairs of float64 and float32 patterns aimed at the
// format.
func forNative(c *C, l *Lib, n int, f func(uint64, uint32)) {
	d := dicts[l.Name]
	if l == lib16 {
		// Around every half-precision value, midpoint and their neighbours.
		for i := c.Chunk; i < 1<<16; i += c.NChunks {
			v, nan := fmt16.decode(Pat{A: uint64(i)})
			if nan {
				continue
			}
			if v.Inf {
				v = Real{Neg: v.Neg, M: big.NewInt(1), E: 16}
			}
			a := fmt64.pack(fmt64.round(v)).A
			b := uint32(fmt32.pack(fmt32.round(v)).A)
			mid := Real{Neg: v.Neg, M: new(big.Int).Add(new(big.Int).Lsh(v.M, 1), big.NewInt(1)), E: v.E - 1}
			ma := fmt64.pack(fmt64.round(mid)).A
			mb := uint32(fmt32.pack(fmt32.round(mid)).A)
			f(a, b)
			f(a+1, b+1)
			f(a-1, b-1)
			f(ma, mb)
			f(ma+1, mb+1)
			f(ma-1, mb-1)
			f(ma+c.U64()>>40, mb+uint32(c.N(512)))
			f(ma-c.U64()>>36, mb-uint32(c.N(512)))
		}
	}
	for i := 0; i < n; i++ {
		a, b := genF64Bits(c.RNG, d), genF32Bits(c.RNG, d)
		if l == lib16 && c.OneIn(2) { // keep the exponent near the half range
			a = a&^(0x7FF<<52) | uint64(1023+c.Range(-28, 18))<<52
			b = b&^(0xFF<<23) | uint32(127+c.Range(-28, 18))<<23
		}
		if l == lib16 && c.OneIn(2) {
			v, _ := fmt16.decode(genPat(c.RNG, l))
			if !v.Inf && !v.IsZero() {
				a = fmt64.pack(fmt64.round(v)).A ^ genBits(c.RNG, 43, d)
				b = uint32(fmt32.pack(fmt32.round(v)).A ^ genBits(c.RNG, 14, d))
			}
		}
		f(a, b)
	}
}

// --- native floats (C12)

func checkNative64(c *C, l *Lib, bits uint64) {
	x := math.Float64frombits(bits)
	c.Begin(func() string { return fmt.Sprintf("%s <- float64 0x%016X (%v)", l.Name, bits, x) })
	got, _ := l.EncF64(x)
	c.Obs(got.A, got.B)
	if x != x {
		c.Class(bits, l.Name+" f64 nan")
		checkNaNPat(c, l, got, bits>>63 == 1)
		return
	}
	want, _, kind := l.encRef(f64Real(x))
	c.Class(bits, l.Name+" f64 "+kind)
	if !l.samePat(got, want) {
		c.Fail("NewFromFloat64 gave bits %016X %016X, nearest is %016X %016X (%s)", got.A, got.B, want.A, want.B, kind)
	}
}

func checkNative32(c *C, l *Lib, bits uint32) {
	x := math.Float32frombits(bits)
	c.Begin(func() string { return fmt.Sprintf("%s <- float32 0x%08X (%v)", l.Name, bits, x) })
	got, _ := l.EncF32(x)
	c.Obs(got.A, got.B)
	if x != x {
		c.Class(uint64(bits), l.Name+" f32 nan")
		checkNaNPat(c, l, got, bits>>31 == 1)
		return
	}
	want, _, kind := l.encRef(f32Real(x))
	c.Class(uint64(bits), l.Name+" f32 "+kind)
	if !l.samePat(got, want) {
		c.Fail("NewFromFloat32 gave bits %016X %016X, nearest is %016X %016X (%s)", got.A, got.B, want.A, want.B, kind)
	}
}

// checkNaNPat checks that a pattern is a NaN of the given sign and equals the
// exported NaN of that sign.
func checkNaNPat(c *C, l *Lib, got Pat, neg bool) {
	_, nan, _ := l.decodeRef(got)
	if !nan || got.signBit(l) != neg {
		c.Fail("NaN with sign bit %v became bits %016X %016X", neg, got.A, got.B)
		return
	}
	want := l.Specials()[0]
	if neg {
		want = l.Specials()[1]
	}
	if got != want {
		c.Fail("NaN became bits %016X %016X, the exported NaN of that sign is %016X %016X", got.A, got.B, want.A, want.B)
	}
}

func nativeStream(l *Lib, q, t, n int) *Stream {
	return &Stream{Name: "native-" + l.Name, Quick: q, Thorough: t, Run: func(c *C) {
		forNative(c, l, n, func(a uint64, b uint32) {
			checkNative64(c, l, a)
			checkNative32(c, l, b)
		})
		if c.Chunk == 0 {
			for _, s := range []uint64{0, 1 << 63} {
				for _, b := range []uint64{0, 1, 1<<52 - 1, 1 << 52, 0x7FEFFFFFFFFFFFFF, 0x7FF0000000000000, 0x7FF0000000000001, 0x7FF8000000000000, 0x7FFFFFFFFFFFFFFF} {
					checkNative64(c, l, s|b)
				}
				for _, b := range []uint32{0, 1, 1<<23 - 1, 1 << 23, 0x7F7FFFFF, 0x7F800000, 0x7F800001, 0x7FC00000, 0x7FFFFFFF} {
					checkNative32(c, l, uint32(s>>32)|b)
				}
			}
		}
	}}
}

// halfFromF32 is a fast single-step float32 to half rounding, used for the
// exhaustive run; every chunk cross-checks it against the integer oracle.
func halfFromF32(b uint32) uint16 {
	sign := uint16(b >> 16 & 0x8000)
	exp := int32(b >> 23 & 0xFF)
	man := uint64(b & (1<<23 - 1))
	if exp == 0xFF {
		return sign | 0x7C00
	}
	if exp == 0 {
		return sign
	}
	man |= 1 << 23
	e := exp - 127
	shift := uint(13)
	if e < -14 {
		shift = uint(13 + -14 - e)
	}
	if shift > 40 {
		return sign
	}
	m := man >> shift
	rem := man & (1<<shift - 1)
	half := uint64(1) << (shift - 1)
	if rem > half || rem == half && m&1 == 1 {
		m++
	}
	if e < -14 {
		return sign | uint16(m)
	}
	r := uint32(e+14)<<10 + uint32(m) // m includes the lead bit
	if r >= 0x7C00 {
		return sign | 0x7C00
	}
	return sign | uint16(r)
}

var exhaustiveF32 = &Stream{Name: "native-all-float32-to-half", Quick: 0, Thorough: 4096, Run: func(c *C) {
	const per = 1 << 20
	base := uint32(c.Chunk) * per
	for i := uint32(0); i < per; i++ {
		b := base + i
		x := math.Float32frombits(b)
		if x != x {
			if i%4096 == 0 {
				checkNative32(c, lib16, b)
			}
			continue
		}
		c.n++
		c.evals++
		if i%1024 == 0 {
			c.slot.n.Add(1)
			c.n--
			c.evals--
			checkNative32(c, lib16, b)
			want, _, _ := lib16.encRef(f32Real(x))
			if uint16(want.A) != halfFromF32(b) {
				panic("harness: fast half oracle differs")
			}
		}
		p, acc := lib16.EncF32(x)
		want := halfFromF32(b)
		if uint16(p.A) != want {
			c.desc = func() string { return fmt.Sprintf("binary16 <- float32 0x%08X", b) }
			c.Fail("bits 0x%04X, nearest is 0x%04X", p.A, want)
		}
		_ = acc
	}
	c.classes["exhaustive-blocks"]++
}}

// --- narrowing (C13)

func checkNarrow(c *C, l *Lib, p Pat) {
	c.Begin(func() string { return patStr(l, p) })
	r, nan, free := l.decodeRef(p)
	g64, a64 := l.F64(p)
	g32, a32 := l.F32(p)
	b64, b32 := math.Float64bits(g64), uint64(math.Float32bits(g32))
	if nan {
		c.Class(patHash(p), l.Name+" nan")
		if g64 == g64 || g32 == g32 {
			c.Fail("NaN narrowed to float64 %v, float32 %v", g64, g32)
		} else if !free && (b64>>63 == 1) != r.Neg || !free && (b32>>31 == 1) != r.Neg {
			c.Fail("NaN with sign %v narrowed to float64 0x%016X, float32 0x%08X", r.Neg, b64, b32)
		}
		if a64 != big.Exact || a32 != big.Exact {
			c.Fail("NaN narrowed with accuracy %v, %v", a64, a32)
		}
		return
	}
	c.Obs(b64, b32)
	chk := func(f *Format, got uint64, acc big.Accuracy) {
		w := f.round(r)
		c.Class(mix(patHash(p), uint64(f.P)), l.Name+" "+f.Name+" "+w.Kind)
		want := f.pack(w).A
		if got != want && !(free && got<<(64-uint(f.P)-uint(bitsLen(uint64(f.EMax)))) == 0) {
			c.Fail("%s = 0x%X, nearest is 0x%X (%s of %v)", f.Name, got, want, w.Kind, r)
		} else if int(acc) != w.Acc {
			c.Fail("%s accuracy %v, want %v (%s of %v)", f.Name, acc, accName(w.Acc), w.Kind, r)
		}
	}
	chk(fmt64, b64, a64)
	chk(fmt32, b32, a32)
}

func narrowStream(l *Lib, q, t, n int) *Stream {
	return &Stream{Name: "narrow-" + l.Name, Quick: q, Thorough: t, Run: func(c *C) {
		forPats(c, l, n, func(p Pat) { checkNarrow(c, l, p) })
		// Patterns at the rounding boundaries of the native formats.
		if l.F == nil || l == lib16 {
			return
		}
		for i := 0; i < n; i++ {
			f := fmt64
			if c.Bool() {
				f = fmt32
			}
			v := genReal(c.RNG, f, dicts[l.Name])
			checkNarrow(c, l, l.F.pack(l.F.round(v)))
		}
	}}
}

// --- round trip (C14)

func checkRoundTrip(c *C, l *Lib, p Pat) {
	c.Begin(func() string { return patStr(l, p) })
	r, nan, _ := l.decodeRef(p)
	if nan {
		c.Class(0, "")
		return
	}
	want, wacc, _ := l.encRef(r)
	strict := true
	switch l {
	case libX87:
		if !canonicalX87(p) && p.A&0x7FFF != 0x7FFF {
			if wacc != 0 { // no canonical pattern of equal value
				c.Class(0, "")
				return
			}
			strict = false
		}
	case libPPC:
		if want.A != p.A || wacc != 0 || r.Inf && p.B<<1 != 0 { // not normalised
			c.Class(0, "")
			return
		}
	}
	c.Class(patHash(p), l.Name+" "+patClass(l, p))
	x, gnan := l.Big(p)
	if gnan {
		c.Fail("decoded as NaN")
		return
	}
	got, acc := l.EncBig(x)
	c.Obs(got.A, got.B, uint64(int64(acc)))
	if strict {
		if !l.samePat(got, p) {
			c.Fail("decode then encode gave bits %016X %016X", got.A, got.B)
			return
		}
	} else {
		gr, gn, _ := l.decodeRef(got)
		if !canonicalX87(got) || gn || cmpReal(gr, r) != 0 || gr.Neg != r.Neg {
			c.Fail("decode then encode gave bits %016X %016X (%v), want a canonical pattern of value %v", got.A, got.B, gr, r)
			return
		}
	}
	if acc != big.Exact {
		c.Fail("decode then encode reported accuracy %v", acc)
	}
}

func roundTripStream(l *Lib, q, t, n int) *Stream {
	return &Stream{Name: "roundtrip-" + l.Name, Quick: q, Thorough: t, Run: func(c *C) {
		forPats(c, l, n, func(p Pat) { checkRoundTrip(c, l, p) })
		if l.F == nil { // normalised pairs
			for i := 0; i < n; i++ {
				v := clampReal(genRealPPC(c.RNG, dicts[l.Name]))
				p, _, _ := l.encRef(v)
				checkRoundTrip(c, l, p)
			}
		}
	}}
}

// --- specials (C15)

// kind: 0 NaN, 1 Inf, 2 zero
func kindOfReal(r Real, nan bool) int {
	switch {
	case nan:
		return 0
	case r.Inf:
		return 1
	case r.IsZero():
		return 2
	}
	return 3
}

var kindNames = []string{"NaN", "Inf", "zero", "a number"}

func specialChain(c *C) {
	kind := c.N(3)
	neg := c.Bool()
	l := encLibs[c.N(len(encLibs))]
	steps := []string{}
	c.Begin(func() string { return fmt.Sprintf("%s sign=%v through %v", kindNames[kind], neg, steps) })
	// State: one of a native float64, native float32, pattern of l, or big.
	type st struct {
		what string
		f64  float64
		f32  float32
		p    Pat
		x    *big.Float
	}
	s := st{}
	natural := func() {
		b := bsign(neg, 63)
		b32 := uint32(bsign(neg, 31))
		switch kind {
		case 0:
			f := genBits(c.RNG, 52, dicts[l.Name])
			if f == 0 {
				f = 1
			}
			b |= 0x7FF<<52 | f
			f32 := uint32(genBits(c.RNG, 23, dicts[l.Name]))
			if f32 == 0 {
				f32 = 1
			}
			b32 |= 0xFF<<23 | f32
		case 1:
			b |= 0x7FF << 52
			b32 |= 0xFF << 23
		}
		s.f64, s.f32 = math.Float64frombits(b), math.Float32frombits(b32)
	}
	natural()
	switch c.N(4) {
	case 0:
		s.what = "f64"
	case 1:
		s.what = "f32"
	case 2: // exported value
		s.what = "pat"
		s.p = l.Specials()[kind*2+int(bsign(neg, 0))]
		steps = append(steps, l.Name+" exported value")
	case 3: // arbitrary pattern of the kind
		s.what = "pat"
		s.p = patOfKind(c.RNG, l, kind, neg)
		steps = append(steps, patStr(l, s.p))
	}
	n := 1 + c.N(6)
	check := func(where string, gotKind int, gotNeg bool) bool {
		if gotKind != kind || gotNeg != neg {
			c.Fail("after %s: %s with sign bit %v", where, kindNames[gotKind], gotNeg)
			return false
		}
		return true
	}
	if s.what == "pat" {
		r, nan, _ := l.decodeRef(s.p)
		if !check("start", kindOfReal(r, nan), s.p.signBit(l)) {
			return
		}
	}
	for i := 0; i < n; i++ {
		switch s.what {
		case "f64", "f32":
			if c.OneIn(3) {
				l = encLibs[c.N(len(encLibs))]
			}
			var acc big.Accuracy
			steps = append(steps, s.what+"->"+l.Name)
			if s.what == "f64" {
				s.p, acc = l.EncF64(s.f64)
			} else {
				s.p, acc = l.EncF32(s.f32)
			}
			s.what = "pat"
			r, nan, _ := l.decodeRef(s.p)
			if !check(steps[len(steps)-1], kindOfReal(r, nan), s.p.signBit(l)) {
				return
			}
			if acc != big.Exact {
				c.Fail("accuracy %v", acc)
				return
			}
			if want := l.Specials()[kind*2+int(bsign(neg, 0))]; s.p != want {
				c.Fail("encoded as %s, the exported value is %s", patStr(l, s.p), patStr(l, want))
				return
			}
		case "pat":
			switch c.N(3) {
			case 0:
				steps = append(steps, "Float64")
				s.f64, _ = l.F64(s.p)
				s.what = "f64"
				if !check("Float64", kindOfReal(f64Real(s.f64), s.f64 != s.f64), math.Signbit(s.f64)) {
					return
				}
			case 1:
				steps = append(steps, "Float32")
				s.f32, _ = l.F32(s.p)
				s.what = "f32"
				if !check("Float32", kindOfReal(f32Real(s.f32), s.f32 != s.f32), math.Float32bits(s.f32)>>31 == 1) {
					return
				}
			case 2:
				steps = append(steps, "Big")
				x, nan := l.Big(s.p)
				k := kindOfReal(fromBig(x), nan)
				if !check("Big", k, x.Signbit()) {
					return
				}
				if !nan {
					s.x, s.what = x, "big"
				}
			}
		case "big":
			if c.OneIn(3) {
				l = encLibs[c.N(len(encLibs))]
			}
			steps = append(steps, "NewFromBig "+l.Name)
			s.p, _ = l.EncBig(s.x)
			s.what = "pat"
			r, nan, _ := l.decodeRef(s.p)
			if !check("NewFromBig", kindOfReal(r, nan), s.p.signBit(l)) {
				return
			}
			if want := l.Specials()[kind*2+int(bsign(neg, 0))]; s.p != want {
				c.Fail("encoded as %s, the exported value is %s", patStr(l, s.p), patStr(l, want))
				return
			}
		}
	}
	h := uint64(kind)
	for _, s := range steps {
		h = mix(h, hashStr(s))
	}
	c.Class(h, fmt.Sprintf("%s %v %s", kindNames[kind], neg, l.Name))
}

// patOfKind returns a pattern of l of the given kind and sign whose sign is
// specified.
func patOfKind(r *RNG, l *Lib, kind int, neg bool) Pat {
	d := dicts[l.Name]
	nz := func(w uint) uint64 {
		f := genBits(r, w, d)
		if f == 0 {
			f = 1 << r.N(int(w))
		}
		return f
	}
	switch l {
	case lib16:
		return Pat{A: bsign(neg, 15) | [3]uint64{0x7C00 | nz(10), 0x7C00, 0}[kind]}
	case lib128:
		switch kind {
		case 0:
			a, b := genBits(r, 48, d), genBits(r, 64, d)
			if a == 0 && b == 0 {
				b = 1
			}
			return Pat{bsign(neg, 63) | 0x7FFF<<48 | a, b}
		case 1:
			return Pat{A: bsign(neg, 63) | 0x7FFF<<48}
		}
		return Pat{A: bsign(neg, 63)}
	case libX87:
		switch kind {
		case 0:
			return Pat{bsign(neg, 15) | 0x7FFF, uint64(r.N(2))<<63 | nz(63)}
		case 1:
			return Pat{bsign(neg, 15) | 0x7FFF, 1 << 63}
		}
		if r.OneIn(3) { // pseudo-zero
			return Pat{A: bsign(neg, 15) | r.U64()%0x7FFF}
		}
		return Pat{A: bsign(neg, 15)}
	}
	switch kind {
	case 0:
		return Pat{bsign(neg, 63) | 0x7FF<<52 | nz(52), genF64Bits(r, d)}
	case 1:
		lo := genF64Bits(r, d)
		if lo>>52&0x7FF == 0x7FF {
			lo = bsign(neg, 63) | 0x7FF<<52
			if r.Bool() {
				lo = 0
			}
		}
		return Pat{bsign(neg, 63) | 0x7FF<<52, lo}
	}
	return Pat{bsign(neg, 63), bsign(r.Bool(), 63)}
}

func checkExported(c *C) {
	for _, l := range encLibs {
		sp := l.Specials()
		for i, p := range sp {
			c.Begin(func() string { return fmt.Sprintf("exported value %d of %s: %s", i, l.Name, patStr(l, p)) })
			r, nan, _ := l.decodeRef(p)
			if kindOfReal(r, nan) != i/2 || p.signBit(l) != (i%2 == 1) {
				c.Fail("the exported %s (negative=%v) is %s with sign bit %v", kindNames[i/2], i%2 == 1, kindNames[kindOfReal(r, nan)], p.signBit(l))
			}
			x, n := l.BigOfSpecial(i)
			if kindOfReal(fromBig(x), n) != i/2 || x.Signbit() != (i%2 == 1) {
				c.Fail("the exported %s (negative=%v) decodes to %v, NaN=%v", kindNames[i/2], i%2 == 1, fromBig(x), n)
			}
		}
	}
}

// exportedAsFirst are the bits of the exported values before any call.
var exportedAsFirst = func() (r [][6]Pat) {
	for _, l := range encLibs {
		r = append(r, l.Specials())
	}
	return r
}()

// checkExportedKept makes one call of any kind and looks at the exported
// values again.
func checkExportedKept(c *C) {
	k := genCall(c, c.N(nTwin))
	refuse := c.OneIn(40)
	if refuse {
		refused(c)
	} else {
		c.Begin(func() string { return fmt.Sprintf("the exported values after %v", k) })
		c.Class(hashStr(twNames[k.op]), "kept "+twNames[k.op])
		k.run(c, &keep{}, c.OneIn(3))
	}
	for i, l := range encLibs {
		if got := l.Specials(); got != exportedAsFirst[i] {
			c.Fail("the exported values of %s are %x, at first they were %x", l.Name, got, exportedAsFirst[i])
		}
	}
}

// --- argument immutability (C16)

func checkImmutable(c *C) {
	l := encLibs[c.N(len(encLibs))]
	x, v := l.genBig(c.RNG)
	if c.OneIn(3) {
		x, v = genExactCandidate(c.RNG)
	}
	op := c.N(5)
	if op == 4 && !v.Inf {
		op = c.N(7)
	}
	immutable(c, op, l, x, v)
}

func immutable(c *C, op int, l *Lib, x *big.Float, v Real) {
	names := []string{"binary16.NewFromBig", "binary128.NewFromBig", "float80x86.NewFromBig", "float128ppc.NewFromBig", "IsExact16", "IsExact32", "IsExact64"}
	c.Begin(func() string { return names[op] + ": " + bigStr(l, x, v) })
	before := snapshot(x)
	switch op {
	case 0, 1, 2, 3:
		encLibs[op].EncBig(x)
	case 4:
		float.IsExact16(x)
	case 5:
		float.IsExact32(x)
	case 6:
		float.IsExact64(x)
	}
	after := snapshot(x)
	if before != after {
		c.Fail("%s changed its argument: before %+v, after %+v", names[op], before, after)
	}
	c.Class(mix(hashStr(before.mant), uint64(before.exp)^uint64(before.prec)<<32), fmt.Sprintf("%s mode%d acc%d form%d", names[op], before.mode, before.acc, before.form))
}

func checkAppendPrefix(c *C) {
	n := c.N(40)
	dst := make([]byte, n, n+c.N(200))
	for i := range dst {
		dst[i] = byte(c.U64())
	}
	keep := append([]byte(nil), dst...)
	v := math.Float64frombits(genF64Bits(c.RNG, dicts["strconv"]))
	u := c.U64()
	op := c.N(3)
	prec, bs, base := c.N(20)-1, []int{16, 32, 64}[c.N(3)], 2+c.N(35)
	f := "beEfgG"[c.N(6)]
	c.Begin(func() string {
		return fmt.Sprintf("append op %d, len %d cap %d, v %v, u %d, fmt %c prec %d size %d base %d", op, n, cap(dst), v, u, f, prec, bs, base)
	})
	switch op {
	case 0:
		fstrconv.AppendFloat(dst, v, f, prec, bs)
	case 1:
		fstrconv.AppendInt(dst, int64(u), base)
	case 2:
		fstrconv.AppendUint(dst, u, base)
	}
	if string(keep) != string(dst) {
		c.Fail("destination bytes changed from %q to %q", keep, dst)
	}
	c.Class(mix(u, uint64(n)), fmt.Sprintf("append%d", op))
}

// --- history independence (C17)

type retained struct {
	x    *big.Float
	s    snap
	from string
}

func historyChunk(c *C) {
	type memo struct {
		l   *Lib
		p   Pat
		x   *big.Float
		v   Real
		f   float64
		out string
		op  int
	}
	var hot []memo
	var kept []retained
	var keptBytes [][2][]byte
	run := func(m memo) string {
		switch m.op {
		case 0: // decode
			x, nan := m.l.Big(m.p)
			s := snapshot(x)
			out := fmt.Sprintf("%+v %v", s, nan)
			if !nan {
				ref, _, free := m.l.decodeRef(m.p)
				if got := fromBig(x); !same(got, ref) && !(free && got.IsZero()) {
					c.Fail("Big() = %v, the pattern denotes %v", got, ref)
				}
			}
			if c.Bool() { // the caller's own value: scribble over it
				switch c.N(5) {
				case 0:
					x.SetPrec(1)
				case 1:
					x.SetInt64(int64(c.U64()))
				case 2:
					x.Neg(x)
				case 3:
					x.SetMode(big.ToZero).SetPrec(300).Add(x, big.NewFloat(1.5))
				case 4:
					x.SetInf(true)
				}
			}
			kept = append(kept, retained{x, snapshot(x), patStr(m.l, m.p)})
			return out
		case 1:
			p, acc := m.l.EncBig(m.x)
			if want, wacc, _ := m.l.encRef(m.v); !m.l.samePat(p, want) || int(acc) != wacc {
				c.Fail("NewFromBig gave %s %v, want %s %v", patStr(m.l, p), acc, patStr(m.l, want), accName(wacc))
			}
			return fmt.Sprintf("%x %v", p, acc)
		case 2:
			a, aa := m.l.F64(m.p)
			b, bb := m.l.F32(m.p)
			return fmt.Sprintf("%x %v %x %v", math.Float64bits(a), aa, math.Float32bits(b), bb)
		case 3:
			p, a := m.l.EncF64(m.f)
			q, b := m.l.EncF32(toF32(m.f))
			return fmt.Sprintf("%x %v %x %v", p, a, q, b)
		case 4:
			dst := make([]byte, 3, 3+c.N(60))
			b := fstrconv.AppendFloat(dst, m.f, 'e', -1, 64)
			s := string(b[3:])
			for i := range b {
				b[i] = byte(c.U64())
			}
			keptBytes = append(keptBytes, [2][]byte{b, append([]byte(nil), b...)})
			return s + fstrconv.FormatFloat(m.f, 'g', 12, 32) + fstrconv.FormatFloat(m.f, 'e', -1, 16)
		case 5:
			if m.v.Inf {
				return ""
			}
			return fmt.Sprint(float.IsExact16(m.x), float.IsExact32(m.x), float.IsExact64(m.x))
		case 6:
			if m.l.Fields != nil {
				return fmt.Sprint(m.l.Fields(m.p))
			}
			return fmt.Sprint(m.l.Bits(m.p))
		}
		return ""
	}
	sp0 := [4][6]Pat{}
	for i, l := range encLibs {
		sp0[i] = l.Specials()
	}
	const rounds = 1500
	for i := 0; i < rounds; i++ {
		var m memo
		fresh := true
		switch {
		case len(hot) > 0 && c.N(5) < 2: // repeat
			m = hot[c.N(len(hot))]
			fresh = false
		case len(hot) > 0 && c.N(4) == 0: // near twin of an earlier input
			m = hot[c.N(len(hot))]
			m.out = ""
			switch c.N(4) {
			case 0:
				m.p.A ^= 1 << c.N(16)
			case 1:
				m.p.B ^= 1 << c.N(64)
			case 2:
				if m.l == lib128 || m.l == libPPC {
					m.p.A ^= 1 << c.N(64)
				}
			case 3:
				m.f = -m.f
				if m.op == 1 || m.op == 5 {
					v := m.v
					if !v.Inf {
						v.M = new(big.Int).Add(new(big.Int).Lsh(v.M, 64), big.NewInt(1))
						v.E -= 64
						v = clampReal(v)
						m.x, m.v = toBig(v, 1, big.ToZero), v
					}
				}
			}
			if m.l == lib16 {
				m.p.A &= 0xFFFF
				m.p.B = 0
			}
			if m.l == libX87 {
				m.p.A &= 0xFFFF
			}
		default:
			l := encLibs[c.N(len(encLibs))]
			x, v := l.genBig(c.RNG)
			m = memo{l: l, p: genPat(c.RNG, l), x: x, v: v, f: math.Float64frombits(genF64Bits(c.RNG, dicts[l.Name])), op: c.N(7)}
			if m.op == 5 {
				m.x, m.v = genExactCandidate(c.RNG)
			}
		}
		c.Begin(func() string {
			return fmt.Sprintf("step %d of a call history: op %d %s, %s, float64 %v", i, m.op, patStr(m.l, m.p), bigStr(m.l, m.x, m.v), m.f)
		})
		out := run(m)
		c.ObsStr(out)
		c.Class(mix(hashStr(out), uint64(m.op)), fmt.Sprintf("op%d fresh=%v", m.op, fresh))
		if fresh {
			m.out = out
			if len(hot) < 64 {
				hot = append(hot, m)
			} else {
				hot[c.N(64)] = m
			}
		} else if out != m.out {
			c.Fail("the same call returned %q, earlier %q", out, m.out)
		}
		if len(kept) > 48 {
			for _, k := range kept {
				if snapshot(k.x) != k.s {
					c.Fail("a big.Float returned earlier for %s changed from %+v to %+v", k.from, k.s, snapshot(k.x))
				}
			}
			kept = kept[24:]
		}
		if len(keptBytes) > 48 {
			for _, k := range keptBytes {
				if string(k[0]) != string(k[1]) {
					c.Fail("a slice returned earlier changed from %q to %q", k[1], k[0])
				}
			}
			keptBytes = keptBytes[24:]
		}
		if i%50 == 0 {
			for j, l := range encLibs {
				if l.Specials() != sp0[j] {
					c.Fail("exported values of %s changed from %x to %x", l.Name, sp0[j], l.Specials())
				}
			}
		}
	}
}

// --- totality (C19)

func totalityStream(l *Lib, q, t, n int) *Stream {
	return &Stream{Name: "total-" + l.Name, Quick: q, Thorough: t, Run: func(c *C) {
		forPats(c, l, n, func(p Pat) { checkTotalPat(c, l, p) })
		if l.EncBig == nil {
			return
		}
		for i := 0; i < n; i++ {
			x, v := l.genBig(c.RNG)
			c.Begin(func() string { return bigStr(l, x, v) })
			c.Class(mix(hashStr(string(v.M.Bytes())), uint64(v.E)), l.Name+" NewFromBig")
			c.Guard("NewFromBig", func() { l.EncBig(x) })
			a, b := genF64Bits(c.RNG, dicts[l.Name]), genF32Bits(c.RNG, dicts[l.Name])
			c.Begin(func() string { return fmt.Sprintf("%s <- float64 0x%016X, float32 0x%08X", l.Name, a, b) })
			c.Class(mix(a, uint64(b)), l.Name+" NewFromFloat")
			c.Guard("NewFromFloat64", func() { l.EncF64(math.Float64frombits(a)) })
			c.Guard("NewFromFloat32", func() { l.EncF32(math.Float32frombits(b)) })
		}
	}}
}

func checkTotalPat(c *C, l *Lib, p Pat) {
	c.Begin(func() string { return patStr(l, p) })
	c.Class(patHash(p), l.Name+" "+patClass(l, p))
	c.Guard("Big", func() { l.Big(p) })
	if l.Fields != nil {
		c.Guard("field accessors", func() { l.Fields(p) })
	}
	if l.F64 != nil {
		c.Guard("Float64", func() { l.F64(p) })
		c.Guard("Float32", func() { l.F32(p) })
		c.Guard("Bits", func() { l.Bits(p) })
	}
	if l == libPPC {
		c.Guard("IsNaN", func() { lppc(p).IsNaN() })
	}
}

// --- IsNaN of double-doubles (C05)

func checkPPCIsNaN(c *C, p Pat) {
	f := float128ppc.NewFromBits(p.A, p.B)
	_, nan, _ := libPPC.decodeRef(p)
	c.Begin(func() string { return patStr(libPPC, p) })
	if f.IsNaN() != nan {
		c.Fail("IsNaN() = %v, want %v", f.IsNaN(), nan)
	}
}

// --- order and symmetry (C27)

func orderStream(l *Lib, q, t, n int) *Stream {
	return &Stream{Name: "order-" + l.Name, Quick: q, Thorough: t, Run: func(c *C) {
		for i := 0; i < n; i++ {
			orderCase(c, l)
		}
	}}
}

func orderCase(c *C, l *Lib) {
	base := clampReal(l.genReal(c.RNG))
	var vs []Real
	vs = append(vs, base)
	k := 4 + c.N(6)
	for i := 0; i < k; i++ {
		switch c.N(4) {
		case 0:
			vs = append(vs, clampReal(l.genReal(c.RNG)))
		default: // a close neighbour
			if base.M.Sign() == 0 {
				continue
			}
			s := uint(1 + c.N(140))
			v := Real{Neg: base.Neg, M: new(big.Int).Lsh(base.M, s), E: base.E - int64(s)}
			d := new(big.Int).SetUint64(genBits(c.RNG, 64, nil))
			if c.Bool() {
				d.Lsh(d, uint(c.N(100)))
			}
			if c.Bool() {
				v.M.Add(v.M, d)
			} else if v.M.Cmp(d) > 0 {
				v.M.Sub(v.M, d)
			}
			vs = append(vs, clampReal(v))
		}
	}
	orderSet(c, l, vs)
}

// orderSet observes the encodings of several numbers together.
func orderSet(c *C, l *Lib, vs []Real) {
	type enc struct {
		x   *big.Float
		v   Real
		p   Pat
		acc big.Accuracy
		out Real
	}
	var es []enc
	sort.SliceStable(vs, func(i, j int) bool { return cmpReal(vs[i], vs[j]) < 0 })
	for _, v := range vs {
		x := toBig(v, 1, allModes[c.N(len(allModes))])
		c.Begin(func() string { return bigStr(l, x, v) })
		p, acc := l.EncBig(x)
		r, nan, _ := l.decodeRef(p)
		if nan {
			c.Fail("encoded as NaN")
			return
		}
		if len(es) > 0 {
			prev := es[len(es)-1]
			if cmpReal(prev.out, r) > 0 {
				c.Fail("%v encodes to %v, above the encoding %v of the larger number", prev.v, prev.out, r)
			}
		}
		es = append(es, enc{x, v, p, acc, r})
		_, _, kind := l.encRef(v)
		c.Class(mix(hashStr(string(v.M.Bytes())), uint64(v.E)), l.Name+" "+kind)
	}
	for _, e := range es {
		c.Begin(func() string { return "negation of " + bigStr(l, e.x, e.v) })
		nx := new(big.Float).Copy(e.x)
		nx.Neg(nx)
		np, nacc := l.EncBig(nx)
		r, nan, _ := l.decodeRef(np)
		if nan || !same(r, e.out.negate()) {
			c.Fail("encodes to %s (%v), the number itself to %s (%v)", patStr(l, np), r, patStr(l, e.p), e.out)
		} else if nacc != -e.acc {
			c.Fail("accuracy %v, for the number itself %v", nacc, e.acc)
		}
		if l.F != nil { // one bit apart
			want := e.p
			if l == lib128 {
				want.A ^= 1 << 63
			} else {
				want.A ^= 1 << 15
			}
			if np != want {
				c.Fail("bits %016X %016X, the number itself has %016X %016X", np.A, np.B, e.p.A, e.p.B)
			}
		}
		// Idempotence.
		c.Begin(func() string { return "re-encoding of " + bigStr(l, e.x, e.v) })
		p2, acc2 := l.EncBig(e.x)
		if p2 != e.p || acc2 != e.acc {
			c.Fail("second encoding differs: %s %v, then %s %v", patStr(l, e.p), e.acc, patStr(l, p2), acc2)
		}
		y, nan := l.Big(e.p)
		if nan {
			continue
		}
		p3, acc3 := l.EncBig(y)
		r3, n3, _ := l.decodeRef(p3)
		if n3 || !same(r3, e.out) || acc3 != big.Exact {
			if l.F == nil && !e.out.Inf && fmt64.round(e.out).Inf {
				continue // a pair whose sum rounds to infinity is not normalised
			}
			c.Fail("the value %v of the encoding re-encodes to %v (%v)", e.out, r3, acc3)
		}
	}
}
