package main

// C17: short histories of calls that resemble one another. Every call of a
// history has its own expected answer, computed without the library, so a
// result that depends on what was called before it shows whatever the first
// answer was.

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/mewmew/float"
	fstrconv "github.com/mewmew/float/internal/strconv"
)

const (
	twFormat = iota
	twInt
	twDecode
	twEncode
	twNative
	twNarrow
	twExact
	twFields
	nTwin
)

var twNames = [nTwin]string{"format", "integer", "decode", "encode", "native", "narrow", "isexact", "fields"}

// call is one call of the library with its parameters. Only those that op
// uses matter.
type call struct {
	op   int
	l    *Lib
	p    Pat
	v    Real // value of x
	prec uint
	mode big.RoundingMode
	f    float64
	fm   byte
	fp   int
	size int
	app  bool
	u    uint64
	base int
	wide bool // float64 rather than float32
	// the answers accepted, and the first one seen
	want []string
	got  string
	x    *big.Float
	// a value of the library's type is made and held
	hold bool
	// what the call of a long run returned: a *big.Float, a string, bytes or a
	// value of the library's type
	kept interface{}
}

func (k *call) String() string {
	switch k.op {
	case twFormat:
		return fmtDesc(k.f, k.fm, k.fp, k.size)()
	case twInt:
		return fmt.Sprintf("integer %d (0x%X) base %d", k.u, k.u, k.base)
	case twEncode:
		return fmt.Sprintf("%s.NewFromBig(%v prec %d mode %v)", k.l.Name, k.v, k.prec, k.mode)
	case twNative:
		if k.wide {
			return fmt.Sprintf("%s.NewFromFloat64(0x%016X)", k.l.Name, math.Float64bits(k.f))
		}
		return fmt.Sprintf("%s.NewFromFloat32(0x%08X)", k.l.Name, math.Float32bits(toF32(k.f)))
	case twExact:
		return fmt.Sprintf("IsExact%d(%v prec %d mode %v)", k.size, k.v, k.prec, k.mode)
	}
	return twNames[k.op] + " " + patStr(k.l, k.p)
}

func patText(l *Lib, p Pat, acc string) string {
	if l.F == nil && p.B<<1 == 0 {
		p.B = 0
	}
	return fmt.Sprintf("%X %X %s", p.A, p.B, acc)
}

func realText(r Real, nan bool) string {
	if nan {
		return fmt.Sprintf("NaN %v", r.Neg)
	}
	return r.String()
}

// expect computes the accepted answers; none means any (but always the same).
func (k *call) expect() {
	switch k.op {
	case twFormat:
		ff, r, nan := fmtValue(k.f, k.size)
		if s := specialText(r, nan); s != "" {
			k.want = []string{s}
			return
		}
		w := math.Float64frombits(fmt64.pack(fmt64.round(r)).A)
		switch {
		case k.fm == 'b' && k.size == 16:
			// 10 explicit fraction bits: the integer mantissa of the half.
			b := fmt16.pack(fmt16.round(r)).A
			m, e := b&0x3FF, int(b>>10&0x1F)
			if e == 0 {
				e = 1
			} else {
				m |= 0x400
			}
			sg := ""
			if r.Neg {
				sg = "-"
			}
			k.want = []string{fmt.Sprintf("%s%dp%+d", sg, m, e-15-10)}
		case k.fp >= 0 && k.size == 16:
			k.want = []string{strconv.FormatFloat(w, k.fm, k.fp, 64)}
		case k.size != 16:
			k.want = []string{strconv.FormatFloat(w, k.fm, k.fp, k.size)}
		case r.IsZero():
			k.want = []string{layout(r.Neg, "", 0, k.fm, -1, true)}
		default:
			s := shortestRef(ff, r)
			for _, d := range []*big.Int{s.d1, s.d2} {
				if d != nil {
					digs, dp := digsOf(d, s.k)
					k.want = append(k.want, layout(r.Neg, digs, dp, k.fm, -1, true))
				}
			}
		}
	case twInt:
		u, s := k.u, ""
		if k.wide && int64(u) < 0 {
			u, s = -u, "-"
		}
		k.want = []string{s + numeral(u, uint64(k.base))}
	case twDecode:
		r, nan, free := k.l.decodeRef(k.p)
		k.want = []string{realText(r, nan)}
		if free {
			k.want = append(k.want, realText(r.negate(), nan))
		}
	case twEncode:
		p, acc, _ := k.l.encRef(k.v)
		k.want = []string{patText(k.l, p, accName(acc))}
	case twNative:
		r := f64Real(k.f)
		if !k.wide {
			r = f32Real(toF32(k.f))
		}
		if k.f != k.f {
			sp := k.l.Specials()
			p := sp[0]
			if math.Signbit(k.f) {
				p = sp[1]
			}
			k.want = []string{patText(k.l, p, "Exact")}
			return
		}
		p, acc, _ := k.l.encRef(r)
		k.want = []string{patText(k.l, p, accName(acc))}
	case twNarrow:
		r, nan, free := k.l.decodeRef(k.p)
		f, top := fmt32, uint64(1)<<31
		if k.wide {
			f, top = fmt64, 1<<63
		}
		if nan {
			k.want = []string{fmt.Sprintf("NaN %v Exact", r.Neg)}
			if free {
				k.want = append(k.want, fmt.Sprintf("NaN %v Exact", !r.Neg))
			}
			return
		}
		q := f.round(r)
		b := f.pack(q).A
		k.want = []string{fmt.Sprintf("%X %s", b, accName(q.Acc))}
		if free {
			k.want = append(k.want, fmt.Sprintf("%X %s", b^top, accName(q.Acc)))
		}
	case twExact:
		f := map[int]*Format{16: fmt16, 32: fmt32, 64: fmt64}[k.size]
		switch {
		case !f.representable(k.v):
			k.want = []string{"false"}
		case decimalIsShortest(f, k.v):
			k.want = []string{"true"}
		}
	case twFields:
		k.want = []string{}
		if k.l.Bits != nil {
			k.want = []string{fmt.Sprintf("%X %X", k.p.A, k.p.B)}
		}
	}
}

// tie accepts the other one of two equally close shortest decimals, between
// which releases of Go choose differently.
func (k *call) tie(got string) bool {
	if k.op != twFormat || k.fp >= 0 || k.fm == 'b' {
		return false
	}
	ff, r, nan := fmtValue(k.f, k.size)
	if specialText(r, nan) != "" || r.IsZero() {
		return false
	}
	s := shortestRef(ff, r)
	for _, d := range []*big.Int{s.d1, s.d2} {
		if d != nil {
			digs, dp := digsOf(d, s.k)
			if got == layout(r.Neg, digs, dp, k.fm, -1, true) {
				return true
			}
		}
	}
	return false
}

// keep is what a history holds on to.
type keep struct {
	bigs  []retained
	slots [][2][]byte
}

// run makes the call. x is the argument to use for calls that take one.
func (k *call) run(c *C, h *keep, scribble bool) string {
	switch k.op {
	case twFormat:
		if !k.app {
			return fstrconv.FormatFloat(k.f, k.fm, k.fp, k.size)
		}
		return h.bytes(c, fstrconv.AppendFloat(make([]byte, 3, 3+c.N(60)), k.f, k.fm, k.fp, k.size), scribble)
	case twInt:
		switch {
		case k.app && k.wide:
			return h.bytes(c, fstrconv.AppendInt(make([]byte, 3, 3+c.N(60)), int64(k.u), k.base), scribble)
		case k.app:
			return h.bytes(c, fstrconv.AppendUint(make([]byte, 3, 3+c.N(60)), k.u, k.base), scribble)
		case k.wide:
			return fstrconv.FormatInt(int64(k.u), k.base)
		}
		return fstrconv.FormatUint(k.u, k.base)
	case twDecode:
		x, nan := k.l.Big(k.p)
		s := realText(fromBig(x), nan)
		if scribble {
			scribbleBig(c, x)
		}
		h.bigs = append(h.bigs, retained{x, snapshot(x), k.String()})
		return s
	case twEncode:
		p, acc := k.l.EncBig(k.x)
		return patText(k.l, p, acc.String())
	case twNative:
		var p Pat
		var acc big.Accuracy
		if k.wide {
			p, acc = k.l.EncF64(k.f)
		} else {
			p, acc = k.l.EncF32(toF32(k.f))
		}
		return patText(k.l, p, acc.String())
	case twNarrow:
		if k.wide {
			f, acc := k.l.F64(k.p)
			if f != f {
				return fmt.Sprintf("NaN %v %v", math.Signbit(f), acc)
			}
			return fmt.Sprintf("%X %v", math.Float64bits(f), acc)
		}
		f, acc := k.l.F32(k.p)
		if f != f {
			return fmt.Sprintf("NaN %v %v", math.Float32bits(f)>>31 == 1, acc)
		}
		return fmt.Sprintf("%X %v", math.Float32bits(f), acc)
	case twExact:
		switch k.size {
		case 16:
			return fmt.Sprint(float.IsExact16(k.x))
		case 32:
			return fmt.Sprint(float.IsExact32(k.x))
		}
		return fmt.Sprint(float.IsExact64(k.x))
	case twFields:
		if k.l.Bits == nil {
			return fmt.Sprint(k.l.Fields(k.p))
		}
		p := k.l.Bits(k.p)
		return fmt.Sprintf("%X %X", p.A, p.B)
	}
	return ""
}

func (h *keep) bytes(c *C, b []byte, scribble bool) string {
	s := string(b[3:])
	if scribble {
		for i := range b {
			b[i] = byte(c.U64())
		}
	}
	h.slots = append(h.slots, [2][]byte{b, append([]byte(nil), b...)})
	return s
}

func scribbleBig(c *C, x *big.Float) {
	switch c.N(5) {
	case 0:
		x.SetPrec(1)
	case 1:
		x.SetInt64(int64(c.U64()))
	case 2:
		x.Neg(x)
	case 3:
		x.SetMode(big.ToZero).SetPrec(300).SetFloat64(1.5)
	case 4:
		x.SetInf(true)
	}
}

// genCall draws a call of one kind.
func genCall(c *C, op int) *call {
	k := &call{op: op, l: encLibs[c.N(len(encLibs))], fp: -1, size: []int{16, 32, 64}[c.N(3)], base: 10, wide: c.Bool(), app: c.OneIn(3), fm: "beEfgGeg"[c.N(8)]}
	switch op {
	case twFormat:
		k.f = genFmtValue(c.RNG, []int{16, 32, 64}[c.N(3)])
		if c.Bool() && k.fm != 'b' {
			k.fp = genFixedPrec(c.RNG, dicts["strconv"])
			if k.fp > 100 && !c.OneIn(10) {
				k.fp %= 30
			}
		}
	case twInt:
		k.u = genInt(c.RNG)
		if c.Bool() {
			k.base = 2 + c.N(35)
		}
	case twDecode, twFields:
		if c.OneIn(5) {
			k.l = libBF
		}
		k.p = genPat(c.RNG, k.l)
	case twNarrow:
		k.p = genPat(c.RNG, k.l)
	case twNative:
		k.f = math.Float64frombits(genF64Bits(c.RNG, dicts[k.l.Name]))
		if c.Bool() {
			k.f = widen(genF32Bits(c.RNG, dicts[k.l.Name]))
		}
	case twEncode, twExact:
		if op == twExact || c.OneIn(4) {
			k.x, k.v = genExactCandidate(c.RNG)
		} else {
			k.x, k.v = k.l.genBig(c.RNG)
		}
		k.prec, k.mode = k.x.Prec(), k.x.Mode()
	}
	return k
}

// trim fits the pattern to the format.
func (k *call) trim() {
	switch k.l {
	case lib16, libBF:
		k.p.A &= 0xFFFF
		k.p.B = 0
	case libX87:
		k.p.A &= 0xFFFF
	}
}

// rawOf and ofRaw move a value to and from the bits of an IEEE size.
func rawOf(v float64, size int) uint64 {
	f := map[int]*Format{16: fmt16, 32: fmt32, 64: fmt64}[size]
	if v != v {
		return 0
	}
	return f.pack(f.round(f64Real(v))).A
}

func ofRaw(b uint64, size int) float64 {
	f := map[int]*Format{16: fmt16, 32: fmt32, 64: fmt64}[size]
	r, nan := f.decode(Pat{A: b & (1<<uint(size-1)<<1 - 1)})
	if nan {
		return math.Float64frombits(0x7FF8 << 48)
	}
	return math.Float64frombits(fmt64.pack(fmt64.round(r)).A)
}

// flip changes the sign bit. The workload does no arithmetic on NaNs, whose
// bits afterwards depend on the platform.
func flip(x float64) float64 { return math.Float64frombits(math.Float64bits(x) ^ 1<<63) }

// widen returns the float64 of a float32 pattern, a canonical one of a NaN.
func widen(b uint32) float64 {
	if b<<1 > 0xFF<<24 {
		return math.Float64frombits(uint64(b>>31)<<63 | 0x7FF8<<48)
	}
	return float64(math.Float32frombits(b))
}

// times is x * 2^e.
func times(x float64, e int) float64 {
	if x != x {
		return flip(x)
	}
	return x * math.Ldexp(1, e)
}

// twin returns a call that differs from k in little: everything a careless
// key would leave out, one thing at a time.
func (k *call) twin(c *C) *call {
	t := *k
	t.want, t.got = nil, ""
	otherSize := []int{16, 32, 64}[c.N(3)]
	switch k.op {
	case twFormat:
		switch c.N(13) {
		case 12: // the halves folded into one are the same
			b := math.Float64bits(k.f)
			i := c.N(32)
			t.f = math.Float64frombits(b ^ 1<<uint(i) ^ 1<<uint(32+(i+[]int{0, 0, 1, 5, 16}[c.N(5)])%32))
		case 0: // the same value at another size
			t.size = otherSize
		case 1: // the same bits at another size
			t.f, t.size = ofRaw(rawOf(k.f, k.size), otherSize), otherSize
		case 2: // small bits (subnormals): the same mantissa and exponent field at two sizes
			b := uint64(1 + c.N(1023))
			k.f, t.size = ofRaw(b, k.size), otherSize
			t.f = ofRaw(b, otherSize)
			k.want, k.got = nil, ""
		case 3: // the same exponent and fraction fields
			b, s := rawOf(k.f, k.size), k.size
			fb := map[int]uint{16: 10, 32: 23, 64: 52}
			fr, ex := b&(1<<fb[s]-1), b<<1>>1>>fb[s]&(1<<map[int]uint{16: 5, 32: 8, 64: 11}[s]-1)
			t.size = otherSize
			t.f = ofRaw(fr&(1<<fb[otherSize]-1)|ex<<fb[otherSize]&(1<<uint(otherSize-1)-1), otherSize)
		case 4:
			t.f = flip(k.f)
		case 5: // a neighbour at the size
			t.f = ofRaw(rawOf(k.f, k.size)+1-2*uint64(c.N(2)), k.size)
		case 6: // the same fraction, another exponent
			t.f = times(k.f, c.N(9)-4)
		case 7: // the same digits, another decimal exponent
			if k.f == k.f {
				t.f = k.f * 10
			}
		case 8:
			t.fm = "beEfgG"[c.N(6)]
		case 9:
			t.fp = k.fp + 1 - 2*c.N(2)
		case 10:
			t.fp = c.N(20) - 1
		case 11: // one word of the value the same
			b := math.Float64bits(k.f)
			if c.Bool() {
				b ^= 1 << uint(32+c.N(20))
			} else {
				b ^= 1 << uint(c.N(32))
			}
			t.f = math.Float64frombits(b)
		}
		if t.fp < 0 || t.fm == 'b' {
			t.fp = -1
		}
		t.app = c.OneIn(3)
		if c.OneIn(6) {
			t.size = otherSize
		}
	case twInt:
		switch c.N(9) {
		case 8:
			i := uint(c.N(32))
			t.u ^= 1<<i | 1<<(i+32)
		case 0:
			t.base = 2 + c.N(35)
		case 1:
			t.u ^= 1 << uint(32+c.N(32))
		case 2:
			t.u = -k.u
		case 3:
			t.u += 1 - 2*uint64(c.N(2))
		case 4:
			t.u = k.u * uint64(k.base)
		case 5:
			t.u = k.u / uint64(k.base)
		case 6:
			t.wide = !k.wide
		case 7:
			t.u = uint64(uint32(k.u))
		}
		t.app = c.OneIn(3)
	case twDecode, twNarrow, twFields:
		libs := encLibs
		if k.op != twNarrow {
			libs = allLibs
		}
		switch c.N(10) {
		case 8: // the words folded into one are the same
			r := []int{0, 0, 1, 5, 7, 8, 13, 16, 31, 32, 33, 48}[c.N(12)]
			for n := 1 + c.N(3); n > 0; n-- {
				i := c.N(64)
				t.p.A ^= 1 << uint(i)
				t.p.B ^= 1 << uint((i+r)%64)
			}
		case 9: // a weighted sum of the words is the same
			d := uint64(1) << uint(c.N(64))
			t.p.A += d
			t.p.B -= d * []uint64{1, 31, 33, 37, 65599, 16777619, 1099511628211, 0x9E3779B97F4A7C15}[c.N(8)]
			if c.Bool() {
				t.p.A, t.p.B = t.p.B, t.p.A
			}
		case 0: // the same words in another format
			t.l = libs[c.N(len(libs))]
		case 1: // sign
			if k.l == lib128 || k.l == libPPC {
				t.p.A ^= 1 << 63
			} else {
				t.p.A ^= 1 << 15
			}
		case 2:
			t.p.B ^= 1 << uint(c.N(64))
		case 3:
			t.p.A ^= 1 << uint(c.N(64))
		case 4:
			t.p.A ^= 1 << uint(c.N(16))
		case 5:
			t.p.A, t.p.B = k.p.B, k.p.A
		case 6:
			t.p.B += 1 - 2*uint64(c.N(2))
		case 7:
			if k.op == twNarrow {
				t.wide = !k.wide
			} else {
				t.p.A += 1 - 2*uint64(c.N(2))
			}
		}
		if c.OneIn(5) && k.op == twNarrow {
			t.wide = !k.wide
		}
		t.trim()
	case twNative:
		switch c.N(7) {
		case 0:
			t.l = encLibs[c.N(len(encLibs))]
		case 1:
			t.wide = !k.wide
		case 2:
			t.f = flip(k.f)
		case 3:
			t.f = math.Float64frombits(math.Float64bits(k.f) ^ 1<<uint(c.N(52)))
		case 4:
			t.f = times(k.f, c.N(40)-20)
		case 5: // the same bits as a float32 and as a float64
			if k.wide {
				t.f, t.wide = widen(uint32(math.Float64bits(k.f))), false
			} else {
				t.f, t.wide = math.Float64frombits(uint64(math.Float32bits(toF32(k.f)))), true
			}
			if t.f != t.f {
				t.f = 0
			}
		case 6:
			t.f = widen(math.Float32bits(toF32(k.f)))
		}
	case twEncode, twExact:
		switch c.N(11) {
		case 9: // the same words but one
			if k.v.M.Sign() != 0 && !k.v.Inf {
				i := c.N(k.v.M.BitLen())
				t.v.M = new(big.Int).SetBit(k.v.M, i, k.v.M.Bit(i)^1)
			}
		case 10: // the words folded into one are the same
			if n := k.v.M.BitLen() - 64; !k.v.Inf && n > 0 {
				i := c.N(n)
				t.v.M = new(big.Int).SetBit(k.v.M, i, k.v.M.Bit(i)^1)
				t.v.M.SetBit(t.v.M, i+64, k.v.M.Bit(i+64)^1)
			}
		case 0:
			t.l = encLibs[c.N(len(encLibs))]
			t.size = otherSize
		case 1: // the same number, held differently
			t.prec = k.prec + uint(c.N(200))
		case 2:
			t.mode = allModes[c.N(len(allModes))]
		case 3:
			t.v.Neg = !t.v.Neg
		case 4: // the same mantissa words
			t.v.E += int64([]int{1, -1, 64, -64, 3, -3, 128}[c.N(7)])
		case 5: // a tiny residue below the number
			if k.v.M.Sign() != 0 && !k.v.Inf {
				s := uint(1 + c.N(180))
				t.v.M = new(big.Int).Add(new(big.Int).Lsh(k.v.M, s), bigOne)
				t.v.E -= int64(s)
			}
		case 6: // the same leading word
			if k.v.M.Sign() != 0 && !k.v.Inf {
				t.v.M = new(big.Int).Add(new(big.Int).Lsh(k.v.M, 64), new(big.Int).SetUint64(c.U64()>>uint(c.N(64))))
				t.v.E -= 64
			}
		case 7: // the number nearest at the format
			if k.l.F != nil {
				q := k.l.F.round(k.v)
				t.v = q.real()
			}
		case 8:
			t.size = otherSize
			if k.v.M.Sign() != 0 && !k.v.Inf {
				t.v.M = new(big.Int).Add(k.v.M, bigOne)
			}
		}
		if c.OneIn(4) {
			t.size = otherSize
		}
		t.v = clampReal(t.v)
		if t.op == twExact && !t.v.Inf && t.v.M.Sign() != 0 && (t.v.lead() > 5000 || t.v.lead() < -5000) {
			t.v = k.v // its decimal is too long to be worth writing
		}
		if t.v.Inf || t.v.M.Sign() == 0 {
			t.v = Real{Neg: t.v.Neg, Inf: t.v.Inf, M: new(big.Int)}
		}
		// A caller may hold both numbers or overwrite its one variable.
		t.x = toBig(t.v, t.prec, t.mode)
		t.prec = t.x.Prec()
	}
	return &t
}

func twinChunk(c *C) { histories(c, 700) }

// histories makes n histories of calls.
func histories(c *C, n int) {
	for i := 0; i < n; i++ {
		op := c.N(nTwin)
		if c.OneIn(4) {
			op = twFormat
		}
		set := []*call{genCall(c, op)}
		for n := 1 + c.N(5); n > 0; n-- {
			set = append(set, set[c.N(len(set))].twin(c))
		}
		if c.OneIn(4) { // an unrelated call in between
			set = append(set, genCall(c, c.N(nTwin)))
		}
		// The calls on multi-precision numbers may share one variable that
		// the caller overwrites between calls.
		var one *big.Float
		if (op == twEncode || op == twExact) && c.Bool() {
			one = new(big.Float)
		}
		h := &keep{}
		var last string
		for j, steps := 0, 6+c.N(12); j < steps; j++ {
			k := set[c.N(len(set))]
			if j < 2 && len(set) > 1 {
				k = set[j]
			}
			if c.OneIn(24) {
				last = refused(c)
			}
			own := k.x
			if one != nil && k.x != nil {
				// Same address, possibly the same backing array.
				one.SetMode(k.x.Mode())
				one.SetPrec(k.x.Prec())
				one.Set(k.x)
				k.x = one
			}
			last = h.step(c, k, last, j)
			k.x = own
		}
		h.check(c)
	}
}

// refused makes a call that the library may refuse; C33 says how. Here it only
// matters that the calls around it do not notice.
func refused(c *C) (what string) {
	v, u := genFmtValue(c.RNG, 64), genInt(c.RNG)
	base, size, op := genBadBase(c.RNG), c.N(80), c.N(5)
	if size == 16 || size == 32 || size == 64 {
		size = 0
	}
	f := "beEfgG"[c.N(6)]
	c.Begin(func() string {
		return fmt.Sprintf("illegal arguments in a history: op %d, integer %d in base %d, float %v size %d", op, u, base, v, size)
	})
	c.Class(mix(u, uint64(base)), "twins refused")
	illegalCall(op, v, f, size, u, base)
	return fmt.Sprintf("illegal call %d (base %d, size %d)", op, base, size)
}

func illegalCall(op int, v float64, f byte, size int, u uint64, base int) {
	defer func() { recover() }()
	switch op {
	case 0:
		fstrconv.FormatInt(int64(u), base)
	case 1:
		fstrconv.AppendUint(make([]byte, 3, 80), u, base)
	case 2:
		fstrconv.FormatUint(u, base)
	case 3:
		fstrconv.FormatFloat(v, f, int(u%30)-1, size)
	case 4:
		fstrconv.AppendFloat(make([]byte, 3, 80), v, f, int(u%30)-1, size)
	}
}

// step makes one call of a history and judges its answer.
func (h *keep) step(c *C, k *call, prev string, j int) string {
	if k.want == nil {
		k.expect()
		if k.want == nil {
			k.want = []string{}
		}
	}
	c.Begin(func() string { return fmt.Sprintf("step %d of a history: %v after %s", j, k, prev) })
	got := k.run(c, h, c.OneIn(3))
	last := k.String()
	c.ObsStr(got)
	c.Class(mix(hashStr(last), hashStr(prev)), "twins "+twNames[k.op])
	ok := len(k.want) == 0
	for _, w := range k.want {
		ok = ok || w == got
	}
	if !ok && k.tie(got) {
		ok = true
	}
	if !ok {
		c.Fail("returned %s, alone it returns %s", clip(got), clip(strings.Join(k.want, " or ")))
	} else if k.got != "" && k.got != got {
		c.Fail("returned %s, earlier %s", clip(got), clip(k.got))
	}
	k.got = got
	return last
}

// check examines what the caller still holds.
func (h *keep) check(c *C) {
	for _, r := range h.bigs {
		if snapshot(r.x) != r.s {
			c.Fail("a big.Float returned earlier for %s changed from %+v to %+v", r.from, r.s, snapshot(r.x))
		}
	}
	for _, b := range h.slots {
		if string(b[0]) != string(b[1]) {
			c.Fail("a slice returned earlier changed from %q to %q", b[1], b[0])
		}
	}
}

func setupTwins() {
	var need []string
	for _, n := range append([]string{"refused"}, twNames[:]...) {
		need = append(need, "twins "+n)
	}
	register("C17", need, &Stream{Name: "twins", Quick: 160, Thorough: 6000, Run: twinChunk})
	// The first calls of a process.
	register("C17-cold", nil, &Stream{Name: "cold", Quick: 1, Thorough: 1, Run: func(c *C) { histories(c, 15) }})
	kinds := len(longKinds())
	register("C17-long", []string{"long run"}, &Stream{Name: "long", Quick: kinds, Thorough: 4 * kinds, Run: longChunk})
}
