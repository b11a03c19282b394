package main

// Monitors for the exactness predicates and the formatter (C21-C26), plus the
// formatter's share of C19.

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/mewmew/float"
	fstrconv "github.com/mewmew/float/internal/strconv"
)

var bigOne = big.NewInt(1)

// pow10 returns 10^k for k >= 0.
func pow10(k int64) *big.Int {
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil)
}

// representable reports whether r is exactly a value of f.
func (f *Format) representable(r Real) bool {
	return f.round(r).Acc == 0
}

// exactDigits returns the decimal digits (no trailing zeros) and the position
// of the decimal point of a finite non-zero real: 0.digits * 10^dp.
func exactDigits(r Real) (string, int) {
	n := r.norm()
	m := new(big.Int).Set(n.M)
	dp := 0
	if n.E >= 0 {
		m.Lsh(m, uint(n.E))
	} else {
		m.Mul(m, new(big.Int).Exp(big.NewInt(5), big.NewInt(-n.E), nil))
		dp = int(n.E)
	}
	s := m.String()
	dp += len(s)
	return strings.TrimRight(s, "0"), dp
}

// cmpDec compares d*10^k with |r|.
func cmpDec(d *big.Int, k int64, r Real) int {
	a := new(big.Int).Set(d)
	b := new(big.Int).Set(r.M)
	if k >= 0 {
		a.Mul(a, pow10(k))
	} else {
		b.Mul(b, pow10(-k))
	}
	if r.E >= 0 {
		b.Lsh(b, uint(r.E))
	} else {
		a.Lsh(a, uint(-r.E))
	}
	return a.Cmp(b)
}

// decade returns k with 10^k <= |r| < 10^(k+1).
func decade(r Real) int64 {
	k := int64(math.Floor(float64(r.lead()) * 0.30102999566398119521))
	for cmpDec(bigOne, k, r) > 0 {
		k--
	}
	for cmpDec(bigOne, k+1, r) <= 0 {
		k++
	}
	return k
}

// floorDec returns floor(|r| / 10^k).
func floorDec(r Real, k int64) *big.Int {
	a := new(big.Int).Set(r.M)
	b := big.NewInt(1)
	if r.E >= 0 {
		a.Lsh(a, uint(r.E))
	} else {
		b.Lsh(b, uint(-r.E))
	}
	if k >= 0 {
		b.Mul(b, pow10(k))
	} else {
		a.Mul(a, pow10(-k))
	}
	return a.Quo(a, b)
}

// shortest is the set of acceptable shortest decimals of a value: digits d1
// (and d2 where both neighbours are equally close), times 10^k.
type shortest struct {
	d1, d2 *big.Int
	k      int64
}

// shortestRef finds the shortest decimals that round to the value r of format
// f, by exact integer comparisons.
func shortestRef(f *Format, r Real) shortest {
	q := f.round(r)
	if q.Acc != 0 || q.M.Sign() == 0 || q.Inf {
		panic("harness: shortestRef of a value outside the format")
	}
	m, u := new(big.Int).Set(q.M), q.Q
	if m.BitLen() > f.P {
		m.Rsh(m, 1)
		u++
	}
	even := m.Bit(0) == 0
	e := u - 2
	v := Real{M: new(big.Int).Lsh(m, 2), E: e}
	hi := Real{M: new(big.Int).Add(v.M, big.NewInt(2)), E: e}
	w := int64(2)
	if m.BitLen() == f.P && m.TrailingZeroBits() == uint(f.P-1) && u > f.EMin-int64(f.P-1) {
		w = 1 // binade edge: the predecessor is half as far
	}
	lo := Real{M: new(big.Int).Sub(v.M, big.NewInt(w)), E: e}
	inside := func(d *big.Int, k int64) bool {
		if d.Sign() == 0 {
			return false
		}
		a, b := cmpDec(d, k, lo), cmpDec(d, k, hi)
		return (a > 0 || a == 0 && even) && (b < 0 || b == 0 && even)
	}
	top := decade(v)
	for n := int64(1); ; n++ {
		k := top - n + 1
		d := floorDec(v, k)
		c := new(big.Int).Add(d, bigOne)
		di, ci := inside(d, k), inside(c, k)
		if !di && !ci {
			continue
		}
		s := shortest{k: k}
		switch {
		case di && !ci:
			s.d1 = d
		case ci && !di:
			s.d1 = c
		default: // the closer one
			mid := new(big.Int).Add(d, c) // 2v against d+c
			switch cmpDec(mid, k, Real{M: v.M, E: v.E + 1}) {
			case 1:
				s.d1 = d
			case -1:
				s.d1 = c
			default:
				s.d1, s.d2 = d, c
			}
		}
		return s
	}
}

// digsOf returns the significant digits without trailing zeros and the decimal
// point position of d * 10^k.
func digsOf(d *big.Int, k int64) (string, int) {
	s := d.String()
	return strings.TrimRight(s, "0"), len(s) + int(k)
}

// fixedRef rounds |r| to the digit of weight 10^k, ties to even, and returns
// the integer multiple.
func fixedRef(r Real, k int64) *big.Int {
	if r.M.Sign() == 0 {
		return new(big.Int)
	}
	d := floorDec(r, k)
	two := new(big.Int).Add(new(big.Int).Lsh(d, 1), bigOne)
	switch cmpDec(two, k, Real{M: r.M, E: r.E + 1}) {
	case -1:
		d.Add(d, bigOne)
	case 0:
		if d.Bit(0) == 1 {
			d.Add(d, bigOne)
		}
	}
	return d
}

// layout renders 0.digs * 10^dp. digs is empty for zero.
func layout(neg bool, digs string, dp int, f byte, prec int, short bool) string {
	sign := ""
	if neg {
		sign = "-"
	}
	at := func(i int) byte {
		if i >= 0 && i < len(digs) {
			return digs[i]
		}
		return '0'
	}
	e := func(ech byte, prec int) string {
		var b strings.Builder
		b.WriteString(sign)
		b.WriteByte(at(0))
		if prec > 0 {
			b.WriteByte('.')
			for i := 1; i <= prec; i++ {
				b.WriteByte(at(i))
			}
		}
		x := dp - 1
		if digs == "" {
			x = 0
		}
		s := byte('+')
		if x < 0 {
			s, x = '-', -x
		}
		fmt.Fprintf(&b, "%c%c%02d", ech, s, x)
		return b.String()
	}
	fx := func(prec int) string {
		var b strings.Builder
		b.WriteString(sign)
		if dp <= 0 {
			b.WriteByte('0')
		}
		for i := 0; i < dp; i++ {
			b.WriteByte(at(i))
		}
		if prec > 0 {
			b.WriteByte('.')
			for i := 0; i < prec; i++ {
				b.WriteByte(at(dp + i))
			}
		}
		return b.String()
	}
	if digs == "" {
		dp = 0
	}
	switch f {
	case 'e', 'E':
		if short {
			prec = len(digs) - 1
		}
		return e(f, prec)
	case 'f':
		if short {
			prec = len(digs) - dp
		}
		return fx(prec)
	}
	// g, G: trailing zeros removed
	sig := len(digs)
	ep := prec
	if short {
		ep = 6
	} else {
		if prec == 0 {
			prec = 1
			ep = 1
		}
		if ep > sig && sig >= dp {
			ep = sig
		}
	}
	x := dp - 1
	if digs == "" {
		x = -1
	}
	if x < -4 || x >= ep {
		return e(f-'g'+'e', sig-1)
	}
	p := sig - dp
	if p < 0 {
		p = 0
	}
	return fx(p)
}

// fmtValue is the value a call formats: v rounded to the given size.
func fmtValue(v float64, size int) (f *Format, r Real, nan bool) {
	f = map[int]*Format{16: fmt16, 32: fmt32, 64: fmt64}[size]
	if v != v {
		return f, Real{Neg: math.Signbit(v), M: new(big.Int)}, true
	}
	q := f.round(f64Real(v))
	return f, q.real(), false
}

func specialText(r Real, nan bool) string {
	switch {
	case nan:
		return "NaN"
	case r.Inf && r.Neg:
		return "-Inf"
	case r.Inf:
		return "+Inf"
	}
	return ""
}

func fmtDesc(v float64, f byte, prec, size int) func() string {
	return func() string {
		return fmt.Sprintf("FormatFloat(%v [0x%016X], %q, %d, %d)", v, math.Float64bits(v), f, prec, size)
	}
}

func fmtHash(v float64, f byte, prec, size int) uint64 {
	return mix(math.Float64bits(v), uint64(f)|uint64(prec+1)<<8|uint64(size)<<32)
}

func valueKind(f *Format, r Real, nan bool) string {
	if k := isSpecialKind(r, nan); k != "" {
		return k
	}
	if r.lead() < f.EMin {
		return "subnormal"
	}
	return "normal"
}

const shortFormats = "eEfgG"

// checkShortest observes the shortest form of v at one size. own forces the
// independent integer oracle for sizes 32 and 64.
func checkShortest(c *C, v float64, f byte, size int, own bool) {
	c.Begin(fmtDesc(v, f, -1, size))
	ff, r, nan := fmtValue(v, size)
	got := formatFloat(v, f, -1, size)
	c.ObsStr(got)
	kind := valueKind(ff, r, nan)
	c.Class(fmtHash(v, f, -1, size), fmt.Sprintf("%d %c %s", size, f, kind))
	if s := specialText(r, nan); s != "" {
		if got != s {
			c.Fail("text %q, want %q", got, s)
		}
		return
	}
	if size != 16 {
		// The value the call sees is already of the size.
		w := v
		if size == 32 {
			w = float64(float32(v))
		}
		want := strconv.FormatFloat(w, f, -1, size)
		// Between two shortest decimals equally close to the value, releases
		// of Go choose differently (1.26 takes the larger of 32-bit ones), so
		// under another toolchain than the pinned one the integer oracle has
		// the last word.
		if got != want && c.Prop != "C20" {
			c.Fail("text %q, the standard library has %q", got, want)
			return
		}
		if got == want && !own {
			return
		}
	}
	if f == 'b' {
		checkBinaryText(c, ff, r, got)
		return
	}
	if r.IsZero() {
		if want := layout(r.Neg, "", 0, f, -1, true); got != want {
			c.Fail("text %q, want %q", got, want)
		}
		return
	}
	s := shortestRef(ff, r)
	digs, dp := digsOf(s.d1, s.k)
	want := layout(r.Neg, digs, dp, f, -1, true)
	if got == want {
		return
	}
	if s.d2 != nil {
		digs, dp = digsOf(s.d2, s.k)
		if got == layout(r.Neg, digs, dp, f, -1, true) {
			return
		}
	}
	c.Fail("text %q, the shortest closest decimal is %q", got, want)
}

// checkBinaryText checks a mantissa-p-exponent text against the value.
func checkBinaryText(c *C, f *Format, r Real, got string) {
	t := got
	neg := strings.HasPrefix(t, "-")
	t = strings.TrimPrefix(t, "-")
	i := strings.IndexByte(t, 'p')
	if i < 0 || neg != r.Neg {
		c.Fail("text %q", got)
		return
	}
	m, ok := new(big.Int).SetString(t[:i], 10)
	e, err := strconv.Atoi(t[i+1:])
	if !ok || err != nil || t[i+1] != '+' && t[i+1] != '-' || cmpReal(Real{Neg: neg, M: m, E: int64(e)}, r) != 0 {
		c.Fail("text %q does not denote %v", got, r)
	}
}

// checkFixed observes an explicit-precision form.
func checkFixed(c *C, v float64, f byte, prec, size int, own bool) {
	c.Begin(fmtDesc(v, f, prec, size))
	ff, r, nan := fmtValue(v, size)
	got := formatFloat(v, f, prec, size)
	c.ObsStr(got)
	kind := valueKind(ff, r, nan)
	pc := "prec<=15"
	switch {
	case prec > 700:
		pc = "prec>700"
	case prec > 17:
		pc = "prec>17"
	case prec > 15:
		pc = "prec16-17"
	}
	c.Class(fmtHash(v, f, prec, size), fmt.Sprintf("%d %c %s %s", size, f, kind, pc))
	if s := specialText(r, nan); s != "" {
		if got != s {
			c.Fail("text %q, want %q", got, s)
		}
		return
	}
	// A float32 or half value has the same exact decimal as the float64 equal
	// to it.
	w := math.Float64frombits(fmt64.pack(fmt64.round(r)).A)
	std := size
	if std == 16 {
		std = 64
	}
	if want := strconv.FormatFloat(w, f, prec, std); got != want {
		c.Fail("text %q, the standard library has %q", clip(got), clip(want))
		return
	}
	if !own {
		return
	}
	var want string
	if r.IsZero() {
		want = layout(r.Neg, "", 0, f, prec, false)
	} else {
		k := -int64(prec)
		if f != 'f' {
			n := prec
			if f == 'e' || f == 'E' {
				n++
			} else if n == 0 {
				n = 1
			}
			k = decade(r) - int64(n) + 1
		}
		d := fixedRef(r, k)
		if d.Sign() == 0 {
			want = layout(r.Neg, "", 0, f, prec, false)
		} else {
			digs, dp := digsOf(d, k)
			want = layout(r.Neg, digs, dp, f, prec, false)
		}
	}
	if got != want {
		c.Fail("text %q, exact rounding gives %q", clip(got), clip(want))
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:200] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// genFmtValue returns a float64 to be formatted at the given size.
func genFmtValue(r *RNG, size int) float64 {
	d := dicts["strconv"]
	switch r.N(10) {
	case 0: // short decimal
		m := r.U64() % uint64(1+r.N(100000))
		if r.Bool() {
			m = r.U64() >> r.N(64)
		}
		k := r.N(40) - 20
		if r.OneIn(3) {
			k = r.N(660) - 340
		}
		v, _ := strconv.ParseFloat(fmt.Sprintf("%de%d", m, k), 64)
		if r.Bool() {
			v = math.Float64frombits(math.Float64bits(v) + uint64(r.N(5)) - 2)
		}
		return v
	case 1: // integer
		return float64(int64(r.U64()) >> r.N(63))
	case 2: // power of two and neighbours
		b := uint64(r.N(2047)) << 52
		return math.Float64frombits(b + uint64(r.N(5)) - 2)
	case 3: // midpoint of two decimals of few digits: dyadic with few bits
		return float64(int64(r.U64())>>r.N(63)) / float64(uint64(1)<<r.N(60))
	case 4: // powers of ten and neighbours
		v, _ := strconv.ParseFloat(fmt.Sprintf("1e%d", r.N(640)-330), 64)
		return math.Float64frombits(math.Float64bits(v) + uint64(r.N(7)) - 3)
	case 5:
		if size == 16 {
			v, _ := fmt16.decode(genPat(r, lib16))
			if !v.Inf {
				return math.Float64frombits(fmt64.pack(fmt64.round(v)).A)
			}
		}
		if size == 32 {
			return float64(math.Float32frombits(genF32Bits(r, d)))
		}
	case 6:
		if size != 64 {
			return float64(math.Float32frombits(uint32(r.U64())))
		}
		return math.Float64frombits(r.U64())
	}
	if size == 16 && r.Bool() {
		return math.Float64frombits(r.U64()>>63<<63 | uint64(1023+r.Range(-28, 18))<<52 | genBits(r, 52, d))
	}
	if size == 32 && r.Bool() {
		return float64(math.Float32frombits(genF32Bits(r, d)))
	}
	return math.Float64frombits(genF64Bits(r, d))
}

func genFixedPrec(r *RNG, d *Dict) int {
	switch r.N(8) {
	case 0:
		return r.N(3)
	case 1:
		return 14 + r.N(5)
	case 2:
		return r.N(60)
	case 3:
		return r.N(400)
	case 4:
		switch {
		case r.OneIn(8):
			return 700 + r.N(500)
		case r.OneIn(40):
			return 1200 + r.N(4000)
		case r.OneIn(300):
			return 1<<(11+r.N(6)) - 3 + r.N(6)
		}
		return int(d.Small(r, 0, 120))
	}
	return r.N(18)
}

func half64(i int) float64 {
	v, nan := fmt16.decode(Pat{A: uint64(i)})
	if nan {
		return math.Float64frombits(bsign(v.Neg, 63) | 0x7FF8<<48)
	}
	return math.Float64frombits(fmt64.pack(fmt64.round(v)).A)
}

// --- C25, C26

func checkAppend(c *C) {
	n := c.N(40)
	switch {
	case c.OneIn(60):
		n = c.N(5000)
	case c.OneIn(3000):
		n = 1<<(12+c.N(9)) - 2 + c.N(5)
	}
	cp := n
	switch c.N(4) {
	case 0:
		cp += c.N(8)
	case 1:
		cp += c.N(400)
	}
	var dst []byte
	if n > 0 || c.Bool() {
		dst = make([]byte, n, cp)
	}
	text := c.Bool() // like what is appended
	for i := range dst[:cap(dst)] {
		b := byte(c.U64())
		if text {
			b = "0123456789000000...+-eEpNaInf %"[b&31%31]
		}
		dst[:cap(dst)][i] = b
	}
	op := c.N(3)
	size := []int{16, 32, 64}[c.N(3)]
	v := genFmtValue(c.RNG, size)
	u := genInt(c.RNG)
	prec := -1
	if c.Bool() {
		prec = genFixedPrec(c.RNG, dicts["strconv"])
	}
	base := 2 + c.N(35)
	if c.Bool() {
		base = 10
	}
	appendCase(c, dst, op, v, "bbeEfgG"[1+c.N(6)], prec, size, u, base)
}

func appendCase(c *C, dst []byte, op int, v float64, f byte, prec, size int, u uint64, base int) {
	keep, n, cp := string(dst), len(dst), cap(dst)
	all := string(dst[:cp])
	c.Begin(func() string {
		return fmt.Sprintf("append op %d to %d bytes (cap %d, nil %v): %s; integer %d base %d", op, n, cp, dst == nil, fmtDesc(v, f, prec, size)(), u, base)
	})
	var got []byte
	var want string
	switch op {
	case 0:
		got = appendFloat(dst, v, f, prec, size)
		want = formatFloat(v, f, prec, size)
	case 1:
		got = appendInt(dst, int64(u), base)
		want = formatInt(int64(u), base)
	case 2:
		got = appendUint(dst, u, base)
		want = formatUint(u, base)
	}
	grow := "grown"
	if len(keep)+len(want) <= cap(dst) {
		grow = "in-place"
	}
	if dst == nil {
		grow = "nil"
	}
	c.Class(mix(u, math.Float64bits(v)), fmt.Sprintf("append%d %s", op, grow))
	c.ObsStr(string(got))
	if string(got) != keep+want {
		c.Fail("appending gave %q, the prefix is %q and the text %q", clip(string(got)), keep, clip(want))
	}
	// What belongs to the owner of the memory, not to the result.
	if string(dst[:n]) != keep {
		c.Fail("the bytes appended to changed from %q to %q", keep, dst[:n])
	}
	if end := n + len(want); end < cp && string(dst[end:cp]) != all[end:] {
		c.Fail("the result ends at byte %d of %d; the bytes behind it changed from %q to %q", end, cp, clip(all[end:]), clip(string(dst[end:cp])))
	}
}

func genInt(r *RNG) uint64 {
	switch r.N(8) {
	case 0:
		return uint64(r.N(1000))
	case 1: // powers of a base and neighbours
		b := uint64(2 + r.N(35))
		p := uint64(1)
		for i := r.N(64); i > 0 && p < math.MaxUint64/b; i-- {
			p *= b
		}
		return p + uint64(r.N(3)) - 1
	case 2:
		return uint64(int64(r.U64()) >> r.N(64))
	case 3:
		return r.U64() >> r.N(64)
	case 4:
		return 1000000000*(r.U64()>>r.N(64)%18446744073) + uint64(r.N(5)) - 2
	case 5:
		return math.MaxInt64 + uint64(r.N(5)) - 2
	}
	return genBits(r, 64, dicts["strconv"])
}

func numeral(u uint64, base uint64) string {
	const ds = "0123456789abcdefghijklmnopqrstuvwxyz"
	if u == 0 {
		return "0"
	}
	var b [64]byte
	i := 64
	for u > 0 {
		i--
		b[i] = ds[u%base]
		u /= base
	}
	return string(b[i:])
}

func checkInt(c *C, u uint64, base int) {
	c.Begin(func() string { return fmt.Sprintf("integer %d (0x%X) base %d", u, u, base) })
	us := formatUint(u, base)
	is := formatInt(int64(u), base)
	c.ObsStr(us + " " + is)
	bc := "general"
	switch {
	case base == 10:
		bc = "10"
	case base&(base-1) == 0:
		bc = "pow2"
	}
	sg := "+"
	if int64(u) < 0 {
		sg = "-"
	}
	c.Class(mix(u, uint64(base)), fmt.Sprintf("base %s %s%d digits", bc, sg, len(us)/8*8))
	if want := numeral(u, uint64(base)); us != want {
		c.Fail("FormatUint gave %q, want %q", us, want)
	}
	want := numeral(u, uint64(base))
	if int64(u) < 0 {
		want = "-" + numeral(-u, uint64(base))
	}
	if is != want {
		c.Fail("FormatInt gave %q, want %q", is, want)
	}
	if base == 10 {
		if s := fstrconv.Itoa(int(u)); s != strconv.FormatInt(int64(int(u)), 10) {
			c.Fail("Itoa gave %q for %d", s, int(u))
		}
	}
	if b, err := strconv.ParseInt(is, base, 64); err != nil || b != int64(u) {
		c.Fail("%q parses back to %d, %v", is, b, err)
	}
}

// --- exactness predicates

// genExactCandidate returns numbers near the accept/reject border of the
// predicates.
func genExactCandidate(r *RNG) (*big.Float, Real) {
	d := dicts["root"]
	mode := allModes[0]
	if r.OneIn(3) {
		mode = allModes[r.N(len(allModes))]
	}
	f := []*Format{fmt16, fmt32, fmt64}[r.N(3)]
	var v Real
	switch r.N(15) {
	case 14: // the shortest decimal of a value of the format, to many bits
		q := f.round(genReal(r, f, d))
		if r.OneIn(3) { // near the bottom of the format
			q = f.round(Real{M: new(big.Int).SetUint64(1 + r.U64()>>uint(10+r.N(54))), E: f.EMin - int64(f.P) + 1})
		}
		v = q.real()
		if !q.Inf && q.M.Sign() != 0 {
			s := shortestRef(f, q.real())
			x := new(big.Float).SetPrec([]uint{100, 300, 350, 400, 700, 1000, 2000}[r.N(7)])
			x.Parse(fmt.Sprintf("%de%d", s.d1, s.k), 10)
			v = fromBig(x)
		}
	case 0: // integers
		v = Real{M: new(big.Int).SetUint64(r.U64() >> uint(40+r.N(24)))}
	case 1: // d * 10^k, integer
		v = Real{M: new(big.Int).Mul(new(big.Int).SetUint64(r.U64()>>uint(30+r.N(34))), pow10(int64(r.N(25))))}
	case 2: // dyadic with few digits
		v = Real{M: new(big.Int).SetUint64(r.U64() >> uint(44+r.N(20))), E: -int64(r.N(30))}
	case 3: // short decimal rounded to some precision
		x := new(big.Float).SetPrec([]uint{11, 24, 53, 64, 113, 200}[r.N(6)])
		x.Parse(fmt.Sprintf("%de%d", r.U64()>>uint(40+r.N(24)), r.N(30)-20), 10)
		v = fromBig(x)
	case 4: // shortest decimal of a value of the format, taken exactly where it is an integer
		w := genReal(r, f, d)
		q := f.round(w)
		if !q.Inf && q.M.Sign() != 0 && q.real().lead() > 3 && q.real().lead() < 200 {
			s := shortestRef(f, q.real())
			if s.k >= 0 {
				v = Real{M: new(big.Int).Mul(s.d1, pow10(s.k))}
				break
			}
			w = q.real()
		}
		v = w
	case 5: // value of the format plus a tiny residue
		q := f.round(genReal(r, f, d))
		if q.Inf {
			v = q.real()
			break
		}
		s := uint(1 + r.N(70))
		if r.OneIn(4) {
			s = uint(500 + r.N(1800))
		}
		if r.Bool() { // whose decimal is short
			w := f.round(Real{M: new(big.Int).SetUint64(1 + r.U64()>>uint(50+r.N(14))), E: r.Range(-8, 20)})
			if !w.Inf && w.M.Sign() != 0 {
				q = w
			}
			if r.OneIn(10) { // as far down as some limit in the code
				s = uint(1 + d.Small(r, 1, 1<<14) + int64(r.N(200)))
				if r.OneIn(6) {
					s = uint(1<<(12+r.N(11)) + r.N(70000))
				}
			}
		}
		v = Real{M: new(big.Int).Lsh(q.M, s), E: q.Q - int64(s)}
		v.M.Add(v.M, bigOne)
	case 6, 7: // value of the format
		v = f.round(genReal(r, f, d)).real()
	case 8:
		v = genReal(r, f, d)
	case 9: // special
		v = Real{Inf: r.Bool(), M: new(big.Int)}
	case 10: // small integers times powers of two
		v = Real{M: new(big.Int).SetUint64(uint64(r.N(300))), E: r.Range(-40, 40)}
	case 11: // literal
		v = f64Real(d.PickF(r))
	case 12: // values of narrower formats
		v = []*Format{fmt16, fmt32}[r.N(2)].round(genReal(r, fmt16, d)).real()
	case 13: // 100 or so decimal digits
		v = Real{M: new(big.Int).SetUint64(r.U64() | 1), E: -int64(60 + r.N(60))}
	}
	if v.M == nil {
		v.M = new(big.Int)
	}
	v.Neg = r.Bool()
	v = clampReal(v)
	n := uint(1)
	if v.M.Sign() != 0 && !v.Inf {
		n = uint(v.norm().M.BitLen())
	}
	x := toBig(v, genPrec(r, n, d), mode)
	return x, fromBig(x)
}

var exactFns = []struct {
	name string
	f    *Format
	fn   func(*big.Float) bool
}{
	{"IsExact16", fmt16, float.IsExact16},
	{"IsExact32", fmt32, float.IsExact32},
	{"IsExact64", fmt64, float.IsExact64},
}

// decimalIsShortest reports whether the exact decimal expansion of a value of
// f is its shortest decimal.
func decimalIsShortest(f *Format, r Real) bool {
	if r.Inf || r.IsZero() {
		return true
	}
	digs, dp := exactDigits(r)
	s := shortestRef(f, Real{M: r.M, E: r.E})
	for _, d := range []*big.Int{s.d1, s.d2} {
		if d == nil {
			continue
		}
		if g, p := digsOf(d, s.k); g == digs && p == dp {
			return true
		}
	}
	return false
}

// checkExact observes the predicates on x. sound: C21, otherwise C22.
func checkExact(c *C, x *big.Float, v Real, sound bool) {
	for i := range exactFns {
		e := &exactFns[i]
		rep := e.f.representable(v)
		if !sound && !rep {
			continue
		}
		c.Begin(func() string { return e.name + ": " + bigStr(libAny, x, v) })
		got := isExact(e.fn, x)
		c.Obs(bsign(got, 0))
		h := mix(mix(hashStr(string(v.M.Bytes())), uint64(v.E)), uint64(i))
		if sound {
			cls := fmt.Sprintf("%s representable=%v result=%v", e.name, rep, got)
			c.Class(h, cls)
			if got && !rep {
				q := e.f.round(v)
				c.Fail("returned true, but the nearest value is %v (%s)", q.real(), q.Kind)
			}
			continue
		}
		short := decimalIsShortest(e.f, v)
		k := isSpecialKind(v, false)
		if k == "" {
			k = "normal"
			if v.lead() < e.f.EMin {
				k = "subnormal"
			}
		}
		c.Class(h, fmt.Sprintf("%s %s decimal-is-shortest=%v", e.name, k, short))
		if !got {
			if !short {
				digs, dp := exactDigits(v)
				c.Finding("isexact-decimal-not-shortest", "%s returned false for a representable number whose exact decimal (0.%se%d) is not its shortest decimal", e.name, clip(digs), dp)
				continue
			}
			c.Fail("returned false for a representable number")
		}
	}
}

func exactStream(sound bool, q, t int) *Stream {
	name := "complete"
	if sound {
		name = "sound"
	}
	return &Stream{Name: "isexact-" + name, Quick: q, Thorough: t, Run: func(c *C) {
		each := func(v Real) {
			n := uint(1)
			if v.M.Sign() != 0 && !v.Inf {
				n = uint(v.norm().M.BitLen())
			}
			x := toBig(v, genPrec(c.RNG, n, dicts["root"]), allModes[c.N(len(allModes))])
			checkExact(c, x, v, sound)
		}
		for i := c.Chunk; i < 1<<16; i += c.NChunks { // every half value, and half-ulp steps
			v, nan := fmt16.decode(Pat{A: uint64(i)})
			if nan {
				continue
			}
			each(v)
			if sound && !v.Inf && i%4 == 0 {
				each(Real{Neg: v.Neg, M: new(big.Int).Add(new(big.Int).Lsh(v.M, 1), bigOne), E: v.E - 1})
			}
		}
		for i := c.Chunk; i <= 140000; i += c.NChunks { // every integer over the half range
			each(Real{M: big.NewInt(int64(i)), Neg: c.Bool()})
		}
		for i := 0; i < 6000; i++ {
			x, v := genExactCandidate(c.RNG)
			checkExact(c, x, v, sound)
		}
	}}
}

func setupFmt(tot []*Stream) {
	c21 := exactStream(true, 32, 640)
	c22 := exactStream(false, 32, 640)
	register("C21", []string{"IsExact16 representable=true result=true", "IsExact16 representable=false result=false", "IsExact32 representable=true result=true", "IsExact32 representable=false result=false", "IsExact64 representable=true result=true", "IsExact64 representable=false result=false"}, c21)
	register("C22", []string{"IsExact16 normal decimal-is-shortest=true", "IsExact32 normal decimal-is-shortest=true", "IsExact64 normal decimal-is-shortest=true", "IsExact16 zero decimal-is-shortest=true", "IsExact64 inf decimal-is-shortest=true", "IsExact16 normal decimal-is-shortest=false"}, c22)

	short16 := &Stream{Name: "shortest-16", Quick: 32, Thorough: 128, Run: func(c *C) {
		for i := c.Chunk; i < 1<<16; i += c.NChunks {
			v := half64(i)
			for _, f := range []byte("ebfgEG") {
				if i&1 == 1 && f != 'e' && f != 'b' && f != 'f' && f != 'g' {
					continue
				}
				checkShortest(c, v, f, 16, true)
			}
		}
		for i := 0; i < 4000; i++ {
			checkShortest(c, genFmtValue(c.RNG, 16), "beEfgG"[c.N(6)], 16, true)
		}
	}}
	shortW := func(size, q, t int) *Stream {
		return &Stream{Name: fmt.Sprintf("shortest-%d", size), Quick: q, Thorough: t, Run: func(c *C) {
			for i := 0; i < 40000; i++ {
				checkShortest(c, genFmtValue(c.RNG, size), "beeeEfgG"[c.N(8)], size, i%8 == 0)
			}
			for e := c.Chunk; e < 2048; e += c.NChunks { // every binade edge
				for _, b := range []uint64{0, 1, 1<<52 - 1} {
					v := math.Float64frombits(uint64(e)<<52 | b)
					checkShortest(c, v, 'e', size, true)
					checkShortest(c, -v, 'g', size, false)
				}
			}
		}}
	}
	hardShort := &Stream{Name: "shortest-hard", Quick: 64, Thorough: 3200, Run: func(c *C) {
		for i := 0; i < 3000; i++ {
			size := []int{32, 64, 64}[c.N(3)]
			v, _ := hardDecimal(c.RNG, size, true)
			if c.Bool() {
				v = -v
			}
			checkShortest(c, v, "eeeg"[c.N(4)], size, i%4 == 0)
		}
	}}
	hardFixed := &Stream{Name: "fixed-hard", Quick: 64, Thorough: 3200, Run: func(c *C) {
		for i := 0; i < 3000; i++ {
			size := []int{16, 32, 64, 64, 64}[c.N(5)]
			v, n := hardDecimal(c.RNG, size, false)
			if c.Bool() {
				v = -v
			}
			if c.Bool() {
				checkFixed(c, v, 'e', n-1, size, i%4 == 0)
			} else {
				checkFixed(c, v, 'g', n, size, i%4 == 0)
			}
		}
	}}
	register("C23", []string{"16 e normal", "16 e subnormal", "16 b normal", "16 g zero", "16 e inf", "16 f nan", "32 e normal", "32 e subnormal", "32 b normal", "64 e normal", "64 e subnormal", "64 g zero", "64 b subnormal"},
		short16, shortW(32, 64, 1600), shortW(64, 64, 1600), hardShort)

	fixed := func(size, q, t int) *Stream {
		return &Stream{Name: fmt.Sprintf("fixed-%d", size), Quick: q, Thorough: t, Run: func(c *C) {
			for i := 0; i < 12000; i++ {
				v := genFmtValue(c.RNG, size)
				checkFixed(c, v, shortFormats[c.N(5)], genFixedPrec(c.RNG, dicts["strconv"]), size, i%4 == 0)
			}
			if size == 16 {
				for i := c.Chunk; i < 1<<16; i += c.NChunks {
					v := half64(i)
					checkFixed(c, v, 'e', i%12, 16, i%8 == 0)
					checkFixed(c, v, 'f', c.N(28), 16, i%8 == 0)
					checkFixed(c, v, 'g', i%10, 16, i%8 == 0)
				}
			}
		}}
	}
	register("C24", []string{"16 e normal prec<=15", "16 f subnormal prec>17", "32 e normal prec<=15", "32 g subnormal prec16-17", "64 e normal prec<=15", "64 e subnormal prec>17", "64 f normal prec<=15", "64 f normal prec>700", "64 g zero prec<=15", "64 e inf prec<=15", "32 f nan prec<=15", "64 g huge precision"},
		fixed(16, 32, 640), fixed(32, 32, 1200), fixed(64, 64, 2400), hardFixed,
		&Stream{Name: "fixed-huge", Quick: 8, Thorough: 200, Run: func(c *C) {
			// Precisions beyond any digit there is, up to the greatest int.
			for i := 0; i < 60; i++ {
				size := []int{16, 32, 64}[c.N(3)]
				v := genFmtValue(c.RNG, size)
				n := 10 + c.N(9)
				checkFixed(c, v, "eEf"[c.N(3)], 1<<uint(n)-1+c.N(3), size, n < 15 && c.OneIn(4))
			}
			for i := 0; i < 600; i++ {
				size := []int{16, 32, 64}[c.N(3)]
				f := "gG"[c.N(2)]
				v := genFmtValue(c.RNG, size)
				prec := hugePrec(c.RNG)
				if c.OneIn(4) {
					v, f = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[c.N(3)], "eEfgG"[c.N(5)]
				}
				c.Begin(fmtDesc(v, f, prec, size))
				var got string
				c.Guard("FormatFloat", func() { got = fstrconv.FormatFloat(v, f, prec, size) })
				c.Class(fmtHash(v, f, 0, size), fmt.Sprintf("%d %c huge precision", size, f))
				// No more than 767 digits differ from zero.
				if want := fstrconv.FormatFloat(v, f, 1000, size); got != want {
					c.Fail("text %q, with precision 1000 it is %q", clip(got), clip(want))
				}
				c.ObsStr(got)
			}
		}})

	register("C25", []string{"append0 grown", "append0 in-place", "append0 nil", "append1 grown", "append1 in-place", "append1 nil", "append2 grown", "append2 in-place", "append2 nil"},
		&Stream{Name: "append", Quick: 64, Thorough: 1600, Run: func(c *C) {
			for i := 0; i < 20000; i++ {
				checkAppend(c)
			}
		}})

	register("C26", []string{"base 10 +0 digits", "base 10 -16 digits", "base pow2 +0 digits", "base pow2 -64 digits", "base general +8 digits", "base general -8 digits"},
		&Stream{Name: "integers", Quick: 64, Thorough: 1600, Run: func(c *C) {
			for base := 2; base <= 36; base++ {
				p := uint64(1)
				if base%c.NChunks == c.Chunk%35 || c.NChunks > 35 && base-2 == c.Chunk%35 {
					for {
						for k := uint64(0); k < 3; k++ {
							checkInt(c, p+k-1, base)
							checkInt(c, -(p + k - 1), base)
							for m := uint64(2); m < uint64(base); m++ {
								checkInt(c, p*m+k-1, base)
							}
						}
						if p > math.MaxUint64/uint64(base) {
							break
						}
						p *= uint64(base)
					}
				}
			}
			for i := c.Chunk; i < 120000; i += c.NChunks {
				checkInt(c, uint64(i), 10)
				checkInt(c, -uint64(i), 2+i%35)
				checkInt(c, uint64(i), 2+i%35)
			}
			for i := 0; i < 30000; i++ {
				b := 10
				if c.N(3) > 0 {
					b = 2 + c.N(35)
				}
				checkInt(c, genInt(c.RNG), b)
			}
		}})

	tot = append(tot, &Stream{Name: "total-isexact", Quick: 24, Thorough: 480, Run: func(c *C) {
		for i := 0; i < 8000; i++ {
			x, v := genExactCandidate(c.RNG)
			if c.OneIn(4) {
				x, v = encLibs[c.N(4)].genBig(c.RNG)
			}
			c.Begin(func() string { return "IsExact: " + bigStr(libAny, x, v) })
			c.Class(mix(hashStr(string(v.M.Bytes())), uint64(v.E)), "IsExact "+isSpecialKind(v, false))
			for _, e := range exactFns {
				c.Guard(e.name, func() { isExact(e.fn, x) })
			}
		}
	}}, &Stream{Name: "total-format", Quick: 24, Thorough: 480, Run: func(c *C) {
		for i := 0; i < 12000; i++ {
			size := []int{16, 32, 64}[c.N(3)]
			v := genFmtValue(c.RNG, size)
			f := "beEfgG"[c.N(6)]
			prec := genFixedPrec(c.RNG, dicts["strconv"])
			switch {
			case c.Bool():
				prec = -1
			case c.OneIn(40):
				prec = c.N(5000)
			}
			if c.OneIn(20) && strings.IndexByte("eEf", f) < 0 {
				prec = hugePrec(c.RNG)
			}
			totalFormat(c, v, f, prec, size, genInt(c.RNG), 2+c.N(35))
		}
	}})
	register("C19", []string{"binary16 nan+", "binary128 subnormal-", "float80x86 unnormal+", "float128ppc wide+", "float128ppc inf-", "float128ppc nan+", "bfloat subnormal+", "float80x86 NewFromBig", "IsExact inf", "IsExact zero", "IsExact ", "format 16 e", "format 64 f"}, tot...)
}

func totalFormat(c *C, v float64, f byte, prec, size int, u uint64, base int) {
	c.Begin(fmtDesc(v, f, prec, size))
	c.Class(fmtHash(v, f, prec, size), fmt.Sprintf("format %d %c", size, f))
	c.Guard("FormatFloat", func() { formatFloat(v, f, prec, size) })
	c.Guard("AppendFloat", func() { appendFloat(make([]byte, c.N(5), 5+c.N(40)), v, f, prec, size) })
	c.Begin(func() string { return fmt.Sprintf("integer %d base %d", u, base) })
	c.Guard("FormatInt", func() {
		formatInt(int64(u), base)
		formatUint(u, base)
		appendInt(nil, int64(u), base)
		appendUint(nil, u, base)
		fstrconv.Itoa(int(u))
	})
}
