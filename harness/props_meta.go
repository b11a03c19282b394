package main

// Monitors of relations between observed calls (C30-C36): what goes in one way
// comes out another, without a value computed by the reference model deciding.

import (
	"fmt"
	"math"
	"math/big"
	"runtime"
	"strings"

	"github.com/mewmew/float/binary16"
	fstrconv "github.com/mewmew/float/internal/strconv"
)

var wideLibs = []*Lib{lib128, libX87, libPPC}

// --- native floats survive the wider formats (C30)

func nativeKind(b uint64, f *Format) string {
	r, nan := f.decode(Pat{A: b})
	return valueKind(f, r, nan)
}

func checkTrip64(c *C, l *Lib, bits uint64) {
	x := math.Float64frombits(bits)
	c.Begin(func() string { return fmt.Sprintf("%s <- float64 0x%016X (%v)", l.Name, bits, x) })
	c.Class(mix(bits, hashStr(l.Name)), l.Name+" f64 "+nativeKind(bits, fmt64))
	p, a := l.EncF64(x)
	y, b := l.F64(p)
	got := math.Float64bits(y)
	c.Obs(p.A, p.B)
	if x != x {
		if y == y || got>>63 != bits>>63 {
			c.Fail("NaN came back as 0x%016X", got)
		}
		return
	}
	if got != bits {
		c.Fail("came back as 0x%016X (%v) from %s", got, y, patStr(l, p))
	} else if a != big.Exact || b != big.Exact {
		c.Fail("came back unchanged, but the accuracies say %v, %v", a, b)
	}
}

func checkTrip32(c *C, l *Lib, bits uint32) {
	x := math.Float32frombits(bits)
	c.Begin(func() string { return fmt.Sprintf("%s <- float32 0x%08X (%v)", l.Name, bits, x) })
	c.Class(mix(uint64(bits), hashStr(l.Name)), l.Name+" f32 "+nativeKind(uint64(bits), fmt32))
	p, a := l.EncF32(x)
	y, b := l.F32(p)
	z, d := l.F64(p)
	got := math.Float32bits(y)
	c.Obs(p.A, p.B)
	if x != x {
		if y == y || got>>31 != bits>>31 || z == z || math.Float64bits(z)>>63 != uint64(bits>>31) {
			c.Fail("NaN came back as float32 0x%08X, float64 0x%016X", got, math.Float64bits(z))
		}
		return
	}
	w := fmt64.pack(fmt64.round(f32Real(x))).A
	if got != bits || math.Float64bits(z) != w {
		c.Fail("came back as float32 0x%08X (%v), float64 0x%016X from %s", got, y, math.Float64bits(z), patStr(l, p))
	} else if a != big.Exact || b != big.Exact || d != big.Exact {
		c.Fail("came back unchanged, but the accuracies say %v, %v, %v", a, b, d)
	}
}

// checkTripHalf observes a half through both native formats.
func checkTripHalf(c *C, p Pat) {
	c.Begin(func() string { return patStr(lib16, p) })
	_, nan := fmt16.decode(p)
	c.Class(p.A, "binary16 back "+patClass(lib16, p))
	y, b := lib16.F32(p)
	z, d := lib16.F64(p)
	q, a1 := lib16.EncF32(y)
	r, a2 := lib16.EncF64(z)
	c.Obs(q.A, r.A)
	if nan {
		if y == y || z == z {
			c.Fail("NaN became %v, %v", y, z)
			return
		}
		for _, g := range []Pat{q, r} {
			if _, gn := fmt16.decode(g); !gn || g.A>>15 != p.A>>15 {
				c.Fail("NaN came back as bits %04X", g.A)
			}
		}
		return
	}
	if q != p || r != p {
		c.Fail("came back as bits %04X from float32 %v, %04X from float64 %v", q.A, y, r.A, z)
	} else if a1 != big.Exact || a2 != big.Exact || b != big.Exact || d != big.Exact {
		c.Fail("came back unchanged, but the accuracies say %v, %v, %v, %v", b, a1, d, a2)
	} else if float64(y) != z {
		c.Fail("is float32 %v, but float64 %v", y, z)
	}
}

func tripStream(l *Lib, q, t, n int) *Stream {
	return &Stream{Name: "native-trip-" + l.Name, Quick: q, Thorough: t, Run: func(c *C) {
		forNative(c, l, n, func(a uint64, b uint32) {
			checkTrip64(c, l, a)
			checkTrip32(c, l, b)
		})
		for e := c.Chunk; e < 4096; e += c.NChunks { // every binade, both signs
			for _, m := range []uint64{0, 1, 1 << 51, 1<<52 - 1} {
				checkTrip64(c, l, uint64(e)<<52|m)
			}
			if e < 512 {
				for _, m := range []uint32{0, 1, 1 << 22, 1<<23 - 1} {
					checkTrip32(c, l, uint32(e)<<23|m)
				}
			}
		}
	}}
}

// --- wider formats hold the values of the narrower ones (C31)

type widening struct{ from, to *Lib }

var widenings = []widening{
	{lib16, lib128}, {lib16, libX87}, {lib16, libPPC},
	{libBF, lib128}, {libBF, libX87}, {libBF, libPPC},
	{libX87, lib128},
}

func checkWiden(c *C, w widening, p Pat) {
	if w.from == libX87 && !canonicalX87(p) {
		return
	}
	c.Begin(func() string { return fmt.Sprintf("%s in %s", patStr(w.from, p), w.to.Name) })
	x, nan := w.from.Big(p)
	if nan {
		c.Class(0, "")
		return
	}
	c.Class(mix(patHash(p), hashStr(w.to.Name)), w.from.Name+" in "+w.to.Name+" "+patClass(w.from, p))
	before := fromBig(x)
	q, acc := w.to.EncBig(x)
	c.Obs(q.A, q.B)
	y, qn := w.to.Big(q)
	if qn {
		c.Fail("became NaN (%s)", patStr(w.to, q))
		return
	}
	after := fromBig(y)
	if !same(before, after) {
		c.Fail("is %v there, was %v (%s)", after, before, patStr(w.to, q))
		return
	}
	if acc != big.Exact {
		c.Fail("has the same value there, but the accuracy says %v", acc)
	}
	if w.from.EncBig == nil {
		return
	}
	back, bacc := w.from.EncBig(y)
	if back != p || bacc != big.Exact {
		c.Fail("came back as %s (%v) from %s", patStr(w.from, back), bacc, patStr(w.to, q))
	}
	if w.from == lib16 { // by way of the native formats
		f64, _ := lib16.F64(p)
		f32, _ := lib16.F32(p)
		q1, a1 := w.to.EncF64(f64)
		q2, a2 := w.to.EncF32(f32)
		if !w.to.samePat(q1, q) || !w.to.samePat(q2, q) || a1 != big.Exact || a2 != big.Exact {
			c.Fail("is %s there, by way of float64 %s (%v), of float32 %s (%v)", patStr(w.to, q), patStr(w.to, q1), a1, patStr(w.to, q2), a2)
		}
	}
}

func widenStream(w widening, q, t, n int) *Stream {
	return &Stream{Name: "widen-" + w.from.Name + "-" + w.to.Name, Quick: q, Thorough: t, Run: func(c *C) {
		forPats(c, w.from, n, func(p Pat) { checkWiden(c, w, p) })
	}}
}

// --- the predicates are coherent (C32)

func checkPredicates(c *C, x *big.Float, v Real) {
	c.Begin(func() string { return "IsExact16/32/64: " + bigStr(libAny, x, v) })
	ask := func(y *big.Float) (a [3]bool) {
		for i, e := range exactFns {
			a[i] = isExact(e.fn, y)
		}
		return
	}
	a := ask(x)
	c.Obs(bsign(a[0], 0) | bsign(a[1], 1) | bsign(a[2], 2))
	k := isSpecialKind(v, false)
	c.Class(mix(hashStr(string(v.M.Bytes())), uint64(v.E)), strings.TrimSpace(fmt.Sprintf("%v %s", a, k)))
	if a[0] && !a[1] || a[1] && !a[2] {
		c.Fail("answers %v: exact in a format, but not in a wider one", a)
	}
	// The same number in other clothes.
	n := uint(1)
	if !v.Inf && v.M.Sign() != 0 {
		n = uint(v.norm().M.BitLen())
	}
	for i := 0; i < 3; i++ {
		w := v
		neg := c.Bool()
		if neg {
			w = v.negate()
		}
		y := toBig(w, genPrec(c.RNG, n, dicts["root"]), allModes[c.N(len(allModes))])
		if !v.Inf && v.M.Sign() != 0 && y.Prec() < 1<<16 && v.lead() < 1<<20 && v.lead() > -1<<20 && c.OneIn(3) { // left by an inexact operation
			t := new(big.Float).SetPrec(y.Prec() + 70).SetMode(y.Mode())
			t.Set(y)
			d := new(big.Float).SetMantExp(big.NewFloat(1), y.MantExp(nil)-int(y.Prec())-20)
			if c.Bool() {
				d.Neg(d)
			}
			t.Add(t, d)
			t.SetMode(big.ToNearestEven).SetPrec(y.Prec())
			if !same(fromBig(t), w) {
				continue
			}
			y = t
		}
		if b := ask(y); b != a {
			c.Fail("answers %v, but %v for %s (mode %v, accuracy %v)", a, b, bigStr(libAny, y, w), y.Mode(), y.Acc())
			return
		}
	}
}

// --- illegal arguments (C33)

// refuses reports whether f panics by its own decision.
func refuses(f func()) (refused bool, e interface{}) {
	defer func() {
		if e = recover(); e != nil {
			_, rt := e.(runtime.Error)
			refused = !rt
		}
	}()
	f()
	return false, nil
}

func checkRefusedBase(c *C, u uint64, base int) {
	c.Begin(func() string { return fmt.Sprintf("integer %d in base %d", u, base) })
	cls := "base above 36"
	if base < 0 {
		cls = "base negative"
	} else if base < 2 {
		cls = fmt.Sprintf("base %d", base)
	}
	c.Class(mix(u, uint64(base)), cls)
	buf := make([]byte, 4, 100)
	try := func(what string, f func()) {
		if ok, e := refuses(f); !ok {
			c.Fail("%s did not refuse the base (panic: %v)", what, e)
		}
	}
	try("FormatInt", func() { fstrconv.FormatInt(int64(u), base) })
	try("FormatUint", func() { fstrconv.FormatUint(u, base) })
	try("AppendInt", func() { fstrconv.AppendInt(buf, int64(u), base) })
	try("AppendUint", func() { fstrconv.AppendUint(buf, u, base) })
	for _, b := range buf[:cap(buf)] {
		if b != 0 {
			c.Fail("the destination was written to")
			break
		}
	}
}

func checkRefusedSize(c *C, v float64, f byte, prec, size int) {
	c.Begin(fmtDesc(v, f, prec, size))
	c.Class(fmtHash(v, f, prec, size), "size "+valueKind(fmt64, f64Real(v), v != v))
	buf := make([]byte, 4, 100)
	if ok, e := refuses(func() { fstrconv.FormatFloat(v, f, prec, size) }); !ok {
		c.Fail("FormatFloat did not refuse the size (panic: %v)", e)
	}
	if ok, e := refuses(func() { fstrconv.AppendFloat(buf, v, f, prec, size) }); !ok {
		c.Fail("AppendFloat did not refuse the size (panic: %v)", e)
	}
	for _, b := range buf[:cap(buf)] {
		if b != 0 {
			c.Fail("the destination was written to")
			break
		}
	}
}

func checkUnknownLetter(c *C, v float64, f byte, prec, size int) {
	if strings.IndexByte("beEfgG", f) >= 0 {
		return
	}
	c.Begin(fmtDesc(v, f, prec, size))
	ff, r, nan := fmtValue(v, size)
	cls := "letter fixed "
	if prec < 0 {
		cls = "letter shortest "
	} else if prec == 0 {
		cls = "letter 0 "
	}
	c.Class(fmtHash(v, f, prec, size), cls+valueKind(ff, r, nan))
	want := specialText(r, nan)
	if want == "" {
		want = "%" + string([]byte{f})
	}
	var got, app string
	c.Guard("FormatFloat", func() { got = fstrconv.FormatFloat(v, f, prec, size) })
	c.Guard("AppendFloat", func() { app = string(fstrconv.AppendFloat([]byte("ab"), v, f, prec, size)) })
	if got != want || app != "ab"+want {
		c.Fail("gave %q, appended to \"ab\" %q, want %q", clip(got), clip(app), want)
	}
}

func checkNegativePrec(c *C, v float64, f byte, prec, size int) {
	c.Begin(fmtDesc(v, f, prec, size))
	ff, r, nan := fmtValue(v, size)
	c.Class(fmtHash(v, f, prec, size), "negative precision "+valueKind(ff, r, nan))
	want := fstrconv.FormatFloat(v, f, -1, size)
	var got string
	c.Guard("FormatFloat", func() { got = fstrconv.FormatFloat(v, f, prec, size) })
	if got != want {
		c.Fail("gave %q, with precision -1 %q", clip(got), want)
	}
}

// checkIgnoredPrec: b has no use for a precision, however great.
func checkIgnoredPrec(c *C, v float64, prec, size int) {
	c.Begin(fmtDesc(v, 'b', prec, size))
	ff, r, nan := fmtValue(v, size)
	c.Class(fmtHash(v, 'b', 0, size), "precision ignored "+valueKind(ff, r, nan))
	want := fstrconv.FormatFloat(v, 'b', -1, size)
	var got string
	c.Guard("FormatFloat", func() { got = fstrconv.FormatFloat(v, 'b', prec, size) })
	if got != want {
		c.Fail("gave %q, with precision -1 %q", clip(got), want)
	}
}

// hugePrec is a precision that no text has room for.
func hugePrec(r *RNG) int {
	if r.Bool() {
		return 1<<(14+uint(r.N(17))) - 1 + r.N(2)
	}
	return int(^uint(0)>>1>>uint(r.N(16))) - r.N(6)
}

func genBadBase(r *RNG) int {
	return genBad(r, func(b int64) bool { return b < 2 || b > 36 })
}

func genBadSize(r *RNG) int {
	return genBad(r, func(b int64) bool { return b != 16 && b != 32 && b != 64 })
}

// genBad returns a bad argument. It draws the same random numbers on every
// platform.
func genBad(r *RNG, bad func(int64) bool) int {
	for {
		var b int64
		switch r.N(4) {
		case 0:
			b = int64(r.N(2))
		case 1:
			b = int64(r.N(256))
		case 2:
			b = -int64(r.N(80))
		default:
			b = int64(genBits(r, 64, dicts["strconv"]))
			if r.OneIn(3) { // legal in the low bits
				k := uint([]int{6, 7, 8, 8, 16, 31, 32, 32, 33, 63}[r.N(10)])
				b = b<<k | int64(r.N(66))
			}
		}
		if bad(b) {
			if !bad(int64(int(b))) { // on a 32-bit platform
				return -1
			}
			return int(b)
		}
	}
}

func illegalCase(c *C) {
	switch c.N(4) {
	case 0:
		checkRefusedBase(c, genInt(c.RNG), genBadBase(c.RNG))
	case 1:
		checkRefusedSize(c, genFmtValue(c.RNG, 64), byte(c.U64()), genFixedPrec(c.RNG, dicts["strconv"])-1, genBadSize(c.RNG))
	case 2:
		size := []int{16, 32, 64}[c.N(3)]
		v := genFmtValue(c.RNG, size)
		prec := c.N(24) - 2
		if c.OneIn(10) {
			prec = genFixedPrec(c.RNG, dicts["strconv"])
		}
		checkUnknownLetter(c, v, byte(c.U64()), prec, size)
	case 3:
		size := []int{16, 32, 64}[c.N(3)]
		prec := -1 - c.N(40)
		switch c.N(6) {
		case 0:
			prec = int(int64(math.MinInt64) >> uint(8*c.N(8)))
			if prec > -1 {
				prec = -2
			}
		case 1:
			prec = -int(c.U64() >> (1 + c.N(62)))
			if prec > -1 {
				prec = -2
			}
		}
		checkNegativePrec(c, genFmtValue(c.RNG, size), "beEfgG"[c.N(6)], prec, size)
	}
}

// --- views of the formatter (C34)

// dec is a decimal number read from a text: d * 10^k.
type dec struct {
	neg  bool
	d    *big.Int
	k    int64
	digs string // significant digits without leading and trailing zeros
}

func readDec(s string) (r dec, ok bool) {
	if strings.HasPrefix(s, "-") {
		r.neg = true
		s = s[1:]
	}
	exp := int64(0)
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		t := s[i+1:]
		if len(t) < 3 || t[0] != '+' && t[0] != '-' {
			return r, false
		}
		for _, ch := range t[1:] {
			if ch < '0' || ch > '9' || exp > 1e6 {
				return r, false
			}
			exp = exp*10 + int64(ch-'0')
		}
		if t[0] == '-' {
			exp = -exp
		}
		s = s[:i]
	}
	digs := s
	if i := strings.IndexByte(s, '.'); i >= 0 {
		if i == 0 || i == len(s)-1 {
			return r, false
		}
		digs = s[:i] + s[i+1:]
		exp -= int64(len(s) - i - 1)
	}
	if digs == "" {
		return r, false
	}
	for _, ch := range digs {
		if ch < '0' || ch > '9' {
			return r, false
		}
	}
	r.digs = strings.TrimLeft(digs, "0")
	t := strings.TrimRight(r.digs, "0")
	exp += int64(len(r.digs) - len(t))
	r.digs = t
	if t == "" {
		t, exp = "0", 0
	}
	r.d, _ = new(big.Int).SetString(t, 10)
	r.k = exp
	return r, true
}

func (a dec) equal(b dec) bool {
	return a.neg == b.neg && a.k == b.k && a.d.Cmp(b.d) == 0
}

// cmp compares the numbers (zeros are equal).
func (a dec) cmp(b dec) int {
	as, bs := a.d.Sign(), b.d.Sign()
	if a.neg {
		as = -as
	}
	if b.neg {
		bs = -bs
	}
	if as != bs {
		if as < bs {
			return -1
		}
		return 1
	}
	if as == 0 {
		return 0
	}
	x, y := new(big.Int).Set(a.d), new(big.Int).Set(b.d)
	if a.k > b.k {
		x.Mul(x, pow10(a.k-b.k))
	} else {
		y.Mul(y, pow10(b.k-a.k))
	}
	return x.Cmp(y) * as
}

// checkViews observes every way to write one value at one size.
func checkViews(c *C, v float64, prec, size int) {
	c.Begin(fmtDesc(v, '*', prec, size))
	ff, r, nan := fmtValue(v, size)
	kind := valueKind(ff, r, nan)
	cls := "views shortest"
	if prec >= 0 {
		cls = "views fixed"
	}
	c.Class(fmtHash(v, '*', prec, size), fmt.Sprintf("%s %d %s", cls, size, kind))
	text := map[byte]string{}
	for _, f := range []byte("beEfgG") {
		text[f] = formatFloat(v, f, prec, size)
		c.ObsStr(text[f])
		// The sign is the only difference to the negated value.
		m := formatFloat(flip(v), f, prec, size)
		want := "-" + text[f]
		switch {
		case nan:
			want = text[f]
		case text[f][0] == '-':
			want = text[f][1:]
			if kind == "inf" {
				want = "+" + want
			}
		case kind == "inf":
			want = "-" + text[f][1:]
		}
		if m != want {
			c.Fail("%q gives %q, for the negated value %q", f, clip(text[f]), clip(m))
		}
	}
	if nan || r.Inf {
		for _, f := range []byte("beEfgG") {
			if text[f] != text['e'] {
				c.Fail("%q gives %q, 'e' gives %q", f, text[f], text['e'])
			}
		}
		return
	}
	if strings.ToUpper(text['e']) != text['E'] || strings.ToUpper(text['g']) != text['G'] {
		c.Fail("'e' gives %q, 'E' %q, 'g' %q, 'G' %q", clip(text['e']), clip(text['E']), clip(text['g']), clip(text['G']))
	}
	if b := formatFloat(v, 'b', 0, size); b != text['b'] {
		c.Fail("'b' gives %q, with precision 0 %q", text['b'], b)
	}
	e, ok1 := readDec(text['e'])
	f, ok2 := readDec(text['f'])
	g, ok3 := readDec(text['g'])
	if !ok1 || !ok2 || !ok3 {
		c.Fail("not decimal numbers: 'e' %q, 'f' %q, 'g' %q", clip(text['e']), clip(text['f']), clip(text['g']))
		return
	}
	if prec < 0 {
		if !e.equal(f) || !e.equal(g) {
			c.Fail("different numbers: 'e' %q, 'f' %q, 'g' %q", clip(text['e']), clip(text['f']), clip(text['g']))
		}
		// In a wider format the same value needs no fewer digits.
		w := math.Float64frombits(fmt64.pack(fmt64.round(r)).A)
		for _, s := range []int{32, 64} {
			if s <= size {
				continue
			}
			t := formatFloat(w, 'e', -1, s)
			if d, ok := readDec(t); !ok || len(d.digs) < len(e.digs) {
				c.Fail("'e' gives %q, and the same value at %d bits %q", text['e'], s, t)
			}
		}
		return
	}
	// Digit counts and the same number of digits by another letter.
	if i := strings.IndexByte(text['e'], 'e'); true {
		n := strings.TrimPrefix(text['e'][:i], "-")
		want := prec + 2
		if prec == 0 {
			want = 1
		}
		if len(n) != want {
			c.Fail("'e' gives %q, not %d digits after the point", clip(text['e']), prec)
		}
	}
	if i := strings.IndexByte(text['f'], '.'); prec == 0 && i >= 0 || prec > 0 && len(text['f'])-i-1 != prec {
		c.Fail("'f' gives %q, not %d digits after the point", clip(text['f']), prec)
	}
	if t := formatFloat(v, 'g', prec+1, size); true {
		if d, ok := readDec(t); !ok || !d.equal(e) {
			c.Fail("'e' gives %q, 'g' with precision %d %q", clip(text['e']), prec+1, clip(t))
		}
	}
	if e.d.Sign() != 0 {
		// 'f' with as many digits as 'e' shows.
		ex := e.k + int64(len(e.digs)) - 1
		if p := int64(prec) - ex; p >= 0 && p < 1200 {
			t := formatFloat(v, 'f', int(p), size)
			// If rounding carried into a new digit 'f' may show one digit less.
			if d, ok := readDec(t); !ok || !d.equal(e) && e.digs != "1" {
				c.Fail("'e' gives %q, 'f' with precision %d %q", clip(text['e']), p, clip(t))
			}
		}
	}
}

// checkOrderText observes the texts of two values a <= b at one size.
func checkOrderText(c *C, a, b float64, f byte, prec, size int) {
	c.Begin(func() string {
		return fmt.Sprintf("%s and the same of %v [0x%016X]", fmtDesc(a, f, prec, size)(), b, math.Float64bits(b))
	})
	ff, ra, an := fmtValue(a, size)
	_, rb, bn := fmtValue(b, size)
	if an || bn || ra.Inf || rb.Inf {
		c.Class(0, "")
		return
	}
	want := cmpReal(ra, rb)
	ta, tb := formatFloat(a, f, prec, size), formatFloat(b, f, prec, size)
	c.ObsStr(ta + " " + tb)
	da, ok1 := readDec(ta)
	db, ok2 := readDec(tb)
	if !ok1 || !ok2 {
		c.Fail("not decimal numbers: %q, %q", clip(ta), clip(tb))
		return
	}
	cls := "order fixed"
	if prec < 0 {
		cls = "order shortest"
	}
	got := da.cmp(db)
	if got == 0 && want != 0 {
		cls += " merged"
	}
	c.Class(mix(fmtHash(a, f, prec, size), math.Float64bits(b)), fmt.Sprintf("%s %d %s", cls, size, valueKind(ff, ra, false)))
	if got != want && !(got == 0 && prec >= 0) {
		c.Fail("the values compare %d, their texts %q and %q compare %d", want, clip(ta), clip(tb), got)
	}
}

// neighbour is a value of the size a few steps from v.
func neighbour(r *RNG, v float64, size int) float64 {
	b := rawOf(v, size)
	d := uint64(1 + r.N(3))
	if r.OneIn(3) {
		d = genBits(r, 64, nil) >> r.N(64)
	}
	if r.Bool() {
		d = -d
	}
	return ofRaw(b+d, size)
}

func viewsCase(c *C) {
	size := []int{16, 32, 64, 64}[c.N(4)]
	v := genFmtValue(c.RNG, size)
	if c.OneIn(4) {
		v, _ = hardDecimal(c.RNG, size, c.Bool())
	}
	prec := -1
	if c.Bool() {
		prec = genFixedPrec(c.RNG, dicts["strconv"])
	}
	if c.Bool() {
		checkViews(c, v, prec, size)
	} else {
		checkOrderText(c, v, neighbour(c.RNG, v, size), "eEfgG"[c.N(5)], prec, size)
	}
}

// --- the ways into and out of a format agree (C35)

func checkPathsIn(c *C, l *Lib, b64 uint64, b32 uint32) {
	x := math.Float64frombits(b64)
	y := math.Float32frombits(b32)
	c.Begin(func() string { return fmt.Sprintf("%s <- float64 0x%016X (%v)", l.Name, b64, x) })
	c.Class(mix(b64, hashStr(l.Name)), l.Name+" in f64 "+nativeKind(b64, fmt64))
	p, a := l.EncF64(x)
	c.Obs(p.A, p.B)
	if x == x {
		v := f64Real(x)
		z := toBig(v, 53, allModes[c.N(len(allModes))])
		if q, b := l.EncBig(z); !l.samePat(p, q) || a != b {
			c.Fail("NewFromFloat64 gave %s (%v), NewFromBig of the same number %s (%v)", patStr(l, p), a, patStr(l, q), b)
		}
	}
	c.Begin(func() string { return fmt.Sprintf("%s <- float32 0x%08X (%v)", l.Name, b32, y) })
	c.Class(mix(uint64(b32), hashStr(l.Name)), l.Name+" in f32 "+nativeKind(uint64(b32), fmt32))
	p, a = l.EncF32(y)
	c.Obs(p.A, p.B)
	if q, b := l.EncF64(widen(b32)); !l.samePat(p, q) || a != b {
		c.Fail("NewFromFloat32 gave %s (%v), NewFromFloat64 of the same number %s (%v)", patStr(l, p), a, patStr(l, q), b)
	}
}

func checkPathsOut(c *C, l *Lib, p Pat) {
	c.Begin(func() string { return patStr(l, p) })
	c.Class(patHash(p), l.Name+" out "+patClass(l, p))
	x, nan := l.Big(p)
	f64, a64 := l.F64(p)
	f32, a32 := l.F32(p)
	b64, b32 := math.Float64bits(f64), math.Float32bits(f32)
	if nan != (f64 != f64) || nan != (f32 != f32) {
		c.Fail("NaN=%v from Big, but Float64 is %v and Float32 %v", nan, f64, f32)
		return
	}
	if l == libPPC {
		if n := lppc(p).IsNaN(); n != nan {
			c.Fail("NaN=%v from Big, %v from IsNaN", nan, n)
		}
	}
	if nan {
		c.Obs(b64>>63, uint64(b32>>31))
		if b64>>63 != uint64(b32>>31) {
			c.Fail("Float64 is 0x%016X, Float32 0x%08X", b64, b32)
		}
		return
	}
	c.Obs(b64, uint64(b32))
	v := fromBig(x)
	w, n := fmt64.round(v), fmt32.round(v)
	if fmt64.pack(w).A != b64 || int(a64) != w.Acc || fmt32.pack(n).A != uint64(b32) || int(a32) != n.Acc {
		c.Fail("Big is %v, Float64 0x%016X (%v), Float32 0x%08X (%v)", v, b64, a64, b32, a32)
	}
	if p2 := l.Bits(p); p2 != p {
		c.Fail("Bits gives %016X %016X", p2.A, p2.B)
	}
	if l == lib16 {
		if q, _ := binary16.NewFromFloat32(f32); uint64(q.Bits()) != p.A {
			c.Fail("comes back from Float32 as %04X", q.Bits())
		}
	}
}

// --- decoding keeps the order of patterns (C36)

// rank is the place of a canonical pattern in the order of its format, or
// false for NaN and patterns without one.
func rank(l *Lib, p Pat) (neg bool, hi, lo uint64, ok bool) {
	switch l {
	case lib16, libBF:
		hi, lo = 0, p.A&0x7FFF
		neg = p.A>>15 == 1
	case lib128:
		hi, lo = p.A<<1>>1, p.B
		neg = p.A>>63 == 1
	case libX87:
		if !canonicalX87(p) {
			return
		}
		hi, lo = p.A&0x7FFF, p.B
		neg = p.A>>15 == 1
	default:
		return
	}
	if _, nan := l.F.decode(p); nan {
		return
	}
	return neg, hi, lo, true
}

func rankCmp(l *Lib, p, q Pat) (int, bool) {
	pn, ph, pl, ok1 := rank(l, p)
	qn, qh, ql, ok2 := rank(l, q)
	if !ok1 || !ok2 {
		return 0, false
	}
	a, b := u128(ph, pl), u128(qh, ql)
	if pn {
		a.Neg(a)
	}
	if qn {
		b.Neg(b)
	}
	return a.Cmp(b), true
}

func checkPatOrder(c *C, l *Lib, p, q Pat) {
	want, ok := rankCmp(l, p, q)
	if !ok {
		return
	}
	c.Begin(func() string { return patStr(l, p) + " and " + patStr(l, q) })
	c.Class(mix(patHash(p), patHash(q)), fmt.Sprintf("%s %s", l.Name, patClass(l, p)))
	x, xn := l.Big(p)
	y, yn := l.Big(q)
	if xn || yn {
		c.Fail("decoded as NaN (%v, %v)", xn, yn)
		return
	}
	if got := cmpReal(fromBig(x), fromBig(y)); got != want {
		c.Fail("the patterns compare %d, their values %v and %v compare %d", want, fromBig(x), fromBig(y), got)
	}
	if l.F64 == nil {
		return
	}
	a, _ := l.F64(p)
	b, _ := l.F64(q)
	d, _ := l.F32(p)
	e, _ := l.F32(q)
	c.Obs(math.Float64bits(a), math.Float64bits(b))
	if want <= 0 && !(a <= b && d <= e) || want >= 0 && !(a >= b && d >= e) {
		c.Fail("the patterns compare %d, their values are float64 %v and %v, float32 %v and %v", want, a, b, d, e)
	}
}

// near is a pattern close to p in the order of its format.
func near(r *RNG, l *Lib, p Pat) Pat {
	d := uint64(1 + r.N(2))
	if r.OneIn(3) {
		d = genBits(r, 64, dicts[l.Name]) >> r.N(64)
	}
	up := r.Bool()
	switch l {
	case lib16, libBF:
		if up {
			return Pat{A: (p.A + d) & 0xFFFF}
		}
		return Pat{A: (p.A - d) & 0xFFFF}
	case lib128:
		if up {
			s := p.B + d
			if s < d {
				p.A++
			}
			p.B = s
		} else {
			if p.B < d {
				p.A--
			}
			p.B -= d
		}
		if r.OneIn(4) {
			p.A = p.A + d&3
		}
		return p
	}
	// The fraction and the exponent of x87, keeping the leading bit right.
	m := p.B &^ (1 << 63)
	e := p.A & 0x7FFF
	if up {
		m += d
	} else {
		m -= d
	}
	if m>>63 == 1 {
		if up {
			e++
		} else {
			e--
		}
		m &^= 1 << 63
	}
	if r.OneIn(4) {
		e += uint64(r.N(3))
	}
	e &= 0x7FFF
	if e != 0 {
		m |= 1 << 63
	}
	return Pat{A: p.A&0x8000 | e, B: m}
}

func patOrderStream(l *Lib, q, t, n int) *Stream {
	return &Stream{Name: "pattern-order-" + l.Name, Quick: q, Thorough: t, Run: func(c *C) {
		forPats(c, l, n, func(p Pat) {
			for i := 0; i < 3; i++ {
				checkPatOrder(c, l, p, near(c.RNG, l, p))
			}
			checkPatOrder(c, l, p, genPat(c.RNG, l))
		})
	}}
}

func setupMeta() {
	var trip, wid, out, po []*Stream
	for _, l := range wideLibs {
		trip = append(trip, tripStream(l, 24, 480, 8000))
	}
	trip = append(trip, &Stream{Name: "half-trip", Quick: 8, Thorough: 8, Run: func(c *C) {
		for i := c.Chunk; i < 1<<16; i += c.NChunks {
			checkTripHalf(c, Pat{A: uint64(i)})
		}
	}})
	register("C30", []string{"binary128 f64 normal", "binary128 f64 subnormal", "binary128 f32 subnormal", "float80x86 f64 subnormal", "float80x86 f32 inf", "float80x86 f64 nan", "float128ppc f64 normal", "float128ppc f64 zero", "float128ppc f64 subnormal", "float128ppc f32 nan",
		"binary16 back normal+", "binary16 back subnormal-", "binary16 back zero-", "binary16 back inf-", "binary16 back nan-"}, trip...)

	for _, w := range widenings {
		n := 4000
		wid = append(wid, widenStream(w, 16, 320, n))
	}
	register("C31", []string{"binary16 in binary128 subnormal+", "binary16 in float80x86 subnormal-", "binary16 in float128ppc inf-", "binary16 in float128ppc zero-", "bfloat in binary128 subnormal+", "bfloat in float80x86 normal-", "bfloat in float128ppc subnormal-", "float80x86 in binary128 normal+", "float80x86 in binary128 subnormal-", "float80x86 in binary128 zero-", "float80x86 in binary128 inf+"}, wid...)

	register("C32", []string{"[true true true]", "[false true true]", "[false false true]", "[false false false]", "[true true true] inf", "[true true true] zero"},
		&Stream{Name: "predicates", Quick: 48, Thorough: 960, Run: func(c *C) {
			for i := c.Chunk; i < 1<<16; i += c.NChunks {
				v, nan := fmt16.decode(Pat{A: uint64(i)})
				if !nan && i&7 == 0 {
					checkPredicates(c, toBig(v, genPrec(c.RNG, 11, dicts["root"]), allModes[c.N(len(allModes))]), v)
				}
			}
			for i := 0; i < 3000; i++ {
				x, v := genExactCandidate(c.RNG)
				checkPredicates(c, x, v)
			}
		}})

	register("C33", []string{"base 0", "base 1", "base negative", "base above 36", "size normal", "size nan", "size inf", "letter shortest normal", "letter 0 normal", "letter fixed normal", "letter 0 zero", "letter fixed nan", "letter fixed subnormal", "negative precision normal", "negative precision nan"},
		&Stream{Name: "illegal", Quick: 48, Thorough: 960, Run: func(c *C) {
			for i := c.Chunk; i < 120; i += c.NChunks { // small integers have paths of their own
				for _, b := range []int{-1, 0, 1, 37, 64, 256} {
					checkRefusedBase(c, uint64(i), b)
				}
			}
			for f := c.Chunk; f < 256; f += c.NChunks {
				for _, size := range []int{16, 32, 64} {
					for prec := -2; prec < 20; prec++ {
						checkUnknownLetter(c, 1.5, byte(f), prec, size)
						checkUnknownLetter(c, genFmtValue(c.RNG, size), byte(f), prec, size)
						checkUnknownLetter(c, []float64{0, math.Inf(1), math.NaN(), math.Inf(-1), math.Copysign(0, -1)}[c.N(5)], byte(f), prec, size)
					}
				}
			}
			for i := 0; i < 200; i++ {
				checkUnknownLetter(c, genFmtValue(c.RNG, 64), byte(c.U64()), hugePrec(c.RNG), []int{16, 32, 64}[c.N(3)])
				checkRefusedSize(c, genFmtValue(c.RNG, 64), "beEfgGx"[c.N(7)], hugePrec(c.RNG), 65+c.N(1000))
			}
			for s := c.Chunk; s < 200; s += c.NChunks {
				if s != 16 && s != 32 && s != 64 {
					for _, v := range []float64{0, 1, math.Inf(1), math.NaN()} {
						checkRefusedSize(c, v, 'e', -1, s)
						checkRefusedSize(c, v, 'b', -1, s)
					}
				}
			}
			for i := 0; i < 12000; i++ {
				illegalCase(c)
			}
		}})

	register("C34", []string{"views shortest 16 normal", "views shortest 32 subnormal", "views shortest 64 normal", "views shortest 64 zero", "views fixed 16 normal", "views fixed 64 normal", "views fixed 64 inf", "order shortest 16 normal", "order shortest 32 normal", "order shortest 64 normal", "order fixed 64 normal", "order fixed merged 64 normal", "order fixed merged 32 normal"},
		&Stream{Name: "views", Quick: 64, Thorough: 1280, Run: func(c *C) {
			for i := c.Chunk; i < 1<<16; i += c.NChunks {
				v := half64(i)
				checkViews(c, v, -1, 16)
				if i&0x7FFF < 0x7BFF {
					checkOrderText(c, v, half64(i+1), "eEfgG"[c.N(5)], -1, 16)
					checkOrderText(c, v, half64(i+1), "eEfgG"[c.N(5)], c.N(8), 16)
				}
			}
			for i := 0; i < 6000; i++ {
				viewsCase(c)
			}
			for i := 0; i < 100; i++ {
				checkIgnoredPrec(c, genFmtValue(c.RNG, 64), hugePrec(c.RNG), []int{16, 32, 64}[c.N(3)])
			}
		}})

	for _, l := range encLibs {
		l := l
		out = append(out, &Stream{Name: "paths-in-" + l.Name, Quick: 24, Thorough: 480, Run: func(c *C) {
			forNative(c, l, 6000, func(a uint64, b uint32) { checkPathsIn(c, l, a, b) })
		}}, &Stream{Name: "paths-out-" + l.Name, Quick: 24, Thorough: 480, Run: func(c *C) {
			forPats(c, l, 6000, func(p Pat) { checkPathsOut(c, l, p) })
			if l.F != nil && l != lib16 { // at the rounding boundaries of the native formats
				for i := 0; i < 3000; i++ {
					checkPathsOut(c, l, l.F.pack(l.F.round(genReal(c.RNG, []*Format{fmt64, fmt32}[i&1], dicts[l.Name]))))
				}
			}
		}})
	}
	register("C35", []string{"binary16 in f64 normal", "binary16 in f32 normal", "binary16 in f64 nan", "binary128 in f64 subnormal", "float80x86 in f32 subnormal", "float128ppc in f64 zero", "float128ppc in f64 inf",
		"binary16 out subnormal+", "binary128 out normal-", "binary128 out nan+", "float80x86 out unnormal+", "float80x86 out subnormal-", "float128ppc out normalised+", "float128ppc out wide-", "float128ppc out nan+", "float128ppc out inf-"}, out...)

	for _, l := range []*Lib{lib16, libBF, lib128, libX87} {
		po = append(po, patOrderStream(l, 24, 480, 3000))
	}
	register("C36", []string{"binary16 normal+", "binary16 subnormal-", "bfloat normal-", "bfloat subnormal+", "binary128 normal+", "binary128 subnormal-", "binary128 inf+", "float80x86 normal+", "float80x86 subnormal-", "float80x86 zero-", "binary16 zero+"}, po...)
}

// The guided forms.
func init() {
	guided["C30"] = func(c *C, g *gin) {
		l := wideLibs[int(g.h[0])%3]
		checkTrip64(c, l, g.a())
		checkTrip32(c, l, uint32(g.b()))
	}
	guided["C31"] = func(c *C, g *gin) {
		w := widenings[int(g.h[0])%len(widenings)]
		p := g.pat(w.from)
		if w.from == libX87 && !canonicalX87(p) {
			if p.A&0x7FFF == 0 {
				p.B &^= 1 << 63
			} else {
				p.B |= 1 << 63
			}
		}
		checkWiden(c, w, p)
	}
	guided["C32"] = func(c *C, g *gin) {
		x, v := g.big(libAny)
		if !v.Inf && v.M.Sign() != 0 && (v.lead() > 3000 || v.lead() < -3000) {
			return
		}
		checkPredicates(c, x, v)
	}
	guided["C33"] = func(c *C, g *gin) {
		switch g.op(4) {
		case 0:
			if b := int(int64(g.b())) >> (uint(g.h[0]) % 64); b < 2 || b > 36 {
				checkRefusedBase(c, g.a(), b)
			}
		case 1:
			if s := int(int64(g.b())) >> (uint(g.h[0]) % 64); s != 16 && s != 32 && s != 64 {
				checkRefusedSize(c, g.num(), g.h[2], g.fixedOrShort(), s)
			}
		case 2:
			checkUnknownLetter(c, g.num(), g.h[2], g.fixedOrShort(), g.size())
		case 3:
			p := int(int64(g.b()))
			if p > -2 {
				p = -2 - p&0xFF
			}
			checkNegativePrec(c, g.num(), g.letter("beEfgG"), p, g.size())
		}
	}
	guided["C34"] = func(c *C, g *gin) {
		checkViews(c, g.num(), g.fixedOrShort(), g.size())
		d := int(int8(g.h[6]))
		checkOrderText(c, g.num(), ofRaw(rawOf(g.num(), g.size())+uint64(int64(d)), g.size()), g.letter("eEfgG"), g.fixedOrShort(), g.size())
	}
	guided["C35"] = func(c *C, g *gin) {
		if g.op(2) == 0 {
			checkPathsIn(c, g.enc(), g.a(), uint32(g.b()))
		} else {
			checkPathsOut(c, g.enc(), g.pat(g.enc()))
		}
	}
	guided["C36"] = func(c *C, g *gin) {
		l := []*Lib{lib16, libBF, lib128, libX87}[int(g.h[0])%4]
		checkPatOrder(c, l, g.pat(l), near(c.RNG, l, g.pat(l)))
	}
}
