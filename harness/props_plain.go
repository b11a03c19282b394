package main

// C37: what a call costs and leaves behind; C38: values are plain data; C39:
// decoded numbers as operands.

import (
	"fmt"
	"math"
	"math/big"
	"runtime"
	"time"

	"github.com/mewmew/float/bfloat"
	"github.com/mewmew/float/binary128"
	"github.com/mewmew/float/binary16"
	"github.com/mewmew/float/float128ppc"
	"github.com/mewmew/float/float80x86"
	fstrconv "github.com/mewmew/float/internal/strconv"
)

// --- cost (C37)

// cost is what one call allocates, in bytes, and the CPU time it takes.
func cost(f func()) (uint64, time.Duration) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	t := threadTime()
	f()
	d := threadTime() - t
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc, d
}

// costOf bounds the cost of a call on an argument of size bytes. What happens
// only once (tables made on first use, the collector at work) does not count.
func costOf(c *C, what string, size int, f func() int) {
	out := 0
	maxB := func() uint64 { return 1<<16 + 64*uint64(size+out) }
	maxT := func() time.Duration { return 50*time.Millisecond + time.Duration(size+out)*2*time.Microsecond }
	b, t := cost(func() { out = f() })
	for i := 0; i < 5 && (b > maxB() || t > maxT()); i++ {
		b1, t1 := cost(func() { out = f() })
		if b1 < b {
			b = b1
		}
		if t1 < t {
			t = t1
		}
	}
	switch {
	case b > maxB():
		c.Fail("%s allocates %d bytes for an argument of %d bytes and a result of %d", what, b, size, out)
	case t > maxT():
		c.Fail("%s takes %v for an argument of %d bytes and a result of %d", what, t, size, out)
	}
}

// hostile makes a number whose exponent or precision is extreme.
func hostile(c *C, l *Lib) (*big.Float, string) {
	switch c.N(5) {
	case 0: // tiny or huge
		x := new(big.Float).SetPrec(uint(1 + c.N(200))).SetUint64(c.U64() | 1)
		e := int(c.Range(0, 3000))
		if c.Bool() {
			e = 0
		}
		if c.Bool() {
			x.SetMantExp(x, big.MaxExp-64-e)
			return c.signed(x), "huge"
		}
		x.SetMantExp(x, big.MinExp+e)
		return c.signed(x), "tiny"
	case 1: // far outside the format
		x := new(big.Float).SetPrec(uint(1 + c.N(200))).SetUint64(c.U64() | 1)
		e := 1 << uint(8+c.N(23))
		k := "huge"
		if c.Bool() {
			e, k = -e, "tiny"
		}
		return c.signed(x.SetMantExp(x, e)), k
	case 2: // long, with few or many bits
		x, _ := l.genBig(c.RNG)
		n := uint(1 + c.N(200000))
		if n < x.MinPrec() {
			n = x.MinPrec()
		}
		y := new(big.Float).SetPrec(n).Set(x)
		if c.Bool() && !y.IsInf() && y.Sign() != 0 {
			t := new(big.Float).SetMantExp(big.NewFloat(1), y.MantExp(nil)-int(n))
			y.Add(y, t)
		}
		return y, "long"
	}
	x, _ := l.genBig(c.RNG)
	return x, "ordinary"
}

func (c *C) signed(x *big.Float) *big.Float {
	if c.Bool() {
		x.Neg(x)
	}
	return x
}

func costCase(c *C) {
	k := genCall(c, c.N(nTwin))
	class := twNames[k.op]
	size := 16
	switch k.op {
	case twEncode, twExact:
		var kind string
		k.x, kind = hostile(c, k.l)
		k.prec, k.mode = k.x.Prec(), k.x.Mode()
		k.v = fromBig(k.x)
		size += int(k.x.MinPrec()/8) + int(k.prec/8)
		class += " " + kind
	case twFormat:
		if k.fm != 'b' && c.OneIn(8) {
			k.fp = c.N(5000)
			size += k.fp
		}
	}
	c.Begin(k.String)
	c.Class(mix(c.U64(), uint64(k.op)), class)
	var sink keep
	costOf(c, "the call", size, func() int {
		sink.bigs, sink.slots = sink.bigs[:0], sink.slots[:0]
		s := k.run(c, &sink, false)
		return len(s)
	})
}

// --- accumulation (C37)

// leakCase makes calls on ever new inputs, in several rounds, and looks at what
// stays in memory after each. Filling a cache is no leak: it ends.
func leakCase(c *C, op int) {
	const rounds, n, slack = 5, 40000, 160000 // 4 bytes for each call
	l := encLibs[c.N(len(encLibs))]
	var held [rounds + 1]uint64
	routines := runtime.NumGoroutine()
	what := ""
	c.Begin(func() string { return fmt.Sprintf("%d calls: %s", rounds*n, what) })
	x := new(big.Float).SetPrec(80)
	one := func() {
		switch op {
		case 0:
			what = l.Name + ".Big, Float64, Float32"
			p := Pat{c.U64(), c.U64()}
			if l == libX87 || l == lib16 {
				p.A &= 0xFFFF
			}
			if l == libX87 {
				p.B |= 1 << 63
			}
			if l == lib16 {
				p.B = 0
			}
			l.Big(p)
			l.F64(p)
			l.F32(p)
		case 1:
			what = l.Name + ".NewFromBig"
			x.SetUint64(c.U64() | 1)
			x.SetMantExp(x, c.N(100)-80)
			l.EncBig(x)
		case 2:
			what = l.Name + ".NewFromFloat64, NewFromFloat32"
			v := math.Float64frombits(c.U64())
			l.EncF64(v)
			l.EncF32(toF32(v))
		case 3:
			what = "FormatFloat"
			size := []int{64, 64, 32, 16}[c.N(4)]
			fstrconv.FormatFloat(math.Float64frombits(0x3F00_0000_0000_0000|c.U64()>>8), "eEfgGb"[c.N(6)], c.N(24)-1, size)
		case 4:
			what = "FormatInt, FormatUint"
			u, b := c.U64(), 2+c.N(35)
			fstrconv.FormatUint(u, b)
			fstrconv.FormatInt(int64(u), b)
		case 5:
			what = "IsExact16, IsExact32, IsExact64"
			x.SetUint64(c.U64() >> uint(11+c.N(50)))
			x.SetMantExp(x, c.N(20)-10)
			for _, e := range exactFns {
				e.fn(x)
			}
		}
	}
	held[0] = liveHeap()
	for r := 1; r <= rounds; r++ {
		for i := 0; i < n; i++ {
			one()
		}
		c.slot.n.Add(1)
		held[r] = liveHeap()
	}
	c.Class(mix(uint64(op), c.U64()), "accumulation "+leakNames[op])
	if grows(held[:], slack) {
		c.Fail("memory in use after each round of %d calls: %d bytes", n, held)
	}
	leftRunning(c, routines, rounds*n)
}

// grows reports whether every round but the first left more than slack.
func grows(held []uint64, slack uint64) bool {
	for r := 2; r < len(held); r++ {
		if held[r] <= held[r-1]+slack {
			return false
		}
	}
	return true
}

func leftRunning(c *C, before, calls int) {
	for i := 0; i < 50 && runtime.NumGoroutine() > before+8; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if g := runtime.NumGoroutine(); g > before+8 {
		c.Fail("%d goroutines are left after %d calls, %d before", g, calls, before)
	}
}

// liveHeap is what the collector leaves.
func liveHeap() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// kindred makes calls that differ from one call in what is unlikely to matter:
// it is called again as it is, or with other low bits of its number, or with
// another sign.
func kindred(c *C) (next func() *call, class string) {
	if c.OneIn(12) {
		op, size, base := c.N(5), 1+c.N(80), genBadBase(c.RNG)
		if size&15 == 0 {
			size--
		}
		k := &call{op: -1, u: c.U64(), f: genFmtValue(c.RNG, 64), fm: "beEfgG"[c.N(6)], size: size, base: base, fp: op}
		return func() *call {
			k.u++
			return k
		}, "refused"
	}
	k := genCall(c, c.N(nTwin))
	class = twNames[k.op]
	if k.x != nil && c.OneIn(3) {
		k.x, _ = hostile(c, k.l)
		k.v = fromBig(k.x)
		k.prec, k.mode = k.x.Prec(), k.x.Mode()
	}
	how := c.N(6) // 0: the very same
	signs := c.OneIn(4)
	low := uint(1 + c.N(64))
	sign := func() uint64 {
		if signs {
			return c.U64() >> 63
		}
		return 0
	}
	bits := func(n uint) uint64 {
		if low < n {
			n = low
		}
		return c.U64() >> (64 - n)
	}
	var gens []func() *call
	t := *k
	switch k.op {
	case twFormat, twNative:
		size := k.size
		if k.op == twNative {
			size = 32
			if k.wide {
				size = 64
			}
		}
		if size == 64 || k.f != k.f {
			b := math.Float64bits(k.f)
			gens = append(gens, func() *call {
				t.f = math.Float64frombits(b ^ sign()<<63 ^ bits(52))
				return &t
			})
			break
		}
		b, fb := rawOf(k.f, size), map[int]uint{16: 10, 32: 23}[size]
		gens = append(gens, func() *call {
			t.f = ofRaw(b^sign()<<uint(size-1)^bits(fb), size)
			return &t
		})
	case twInt:
		gens = append(gens, func() *call {
			t.u = k.u ^ bits(uint(bitsLen(k.u)|1))>>1 ^ sign()<<63
			return &t
		})
	case twDecode, twFields, twNarrow:
		gens = append(gens, func() *call {
			switch k.l {
			case lib16:
				t.p.A = k.p.A ^ sign()<<15 ^ bits(10)
			case libBF:
				t.p.A = k.p.A ^ sign()<<15 ^ bits(7)
			case libX87:
				t.p = Pat{k.p.A ^ sign()<<15, k.p.B ^ bits(62)}
			case lib128:
				t.p = Pat{k.p.A ^ sign()<<63 ^ bits(64)>>18, k.p.B ^ bits(64)}
			default:
				t.p = Pat{k.p.A ^ sign()<<63 ^ bits(52), k.p.B ^ bits(52)}
				if signs {
					t.p.B ^= c.U64() >> 63 << 63
				}
			}
			return &t
		})
	case twEncode, twExact:
		if k.x.IsInf() || k.x.Sign() == 0 {
			break
		}
		if k.op == twExact && how == 1 {
			gens = append(gens, func() *call {
				t.x, t.v = genExactCandidate(c.RNG)
				return &t
			})
			break
		}
		n := k.x.MinPrec()
		if c.OneIn(3) || n < 8 {
			n = uint(4 + c.N(int(k.x.Prec())&255+1))
		}
		if n > k.x.Prec() {
			n = k.x.Prec()
		}
		if n < 2 {
			break
		}
		e := k.x.MantExp(nil)
		neg := k.x.Signbit()
		gens = append(gens, func() *call {
			m := new(big.Float).SetPrec(k.x.Prec()).SetMode(k.x.Mode())
			w := bits(n)>>1 | 1
			m.SetMantExp(m.SetUint64(w), e-int(n))
			t.x = new(big.Float).SetPrec(k.x.Prec()).SetMode(k.x.Mode())
			t.x.SetMantExp(t.x.SetInt64(1), e-1)
			t.x.Add(t.x, m)
			if neg != (sign() != 0) {
				t.x.Neg(t.x)
			}
			return &t
		})
	}
	if how == 0 || len(gens) == 0 {
		return func() *call { return k }, class + " same"
	}
	return gens[0], class
}

// leakKinds is leakCase for calls of one narrow kind: what few calls leave
// behind shows only when many of them follow one another.
func leakKinds(c *C) {
	next, class := kindred(c)
	k := next()
	first := ""
	if k.op < 0 {
		first = fmt.Sprintf("the illegal call %d (base %d, float %v size %d)", k.fp, k.base, k.f, k.size)
	} else {
		if k.x != nil {
			k.v = fromBig(k.x)
		}
		first = clip(k.String())
	}
	c.Begin(func() string { return "many calls like " + first })
	buf := make([]byte, 0, 1<<16)
	one := func() {
		k := next()
		if k.op < 0 {
			illegalCall(k.fp, k.f, k.fm, k.size, k.u, k.base)
		} else {
			k.quick(buf)
		}
	}
	t := threadTime()
	for i := 0; i < 8; i++ {
		one()
	}
	n := 1200
	if d := threadTime() - t; d > 800*time.Microsecond { // 100 µs each
		n = 150
	}
	routines := runtime.NumGoroutine()
	c.Class(mix(hashStr(first), 0), "kindred "+class)
	for try := 0; ; try++ {
		var held [5]uint64
		held[0] = liveHeap()
		for r := 1; r < len(held); r++ {
			for i := 0; i < n; i++ {
				one()
			}
			c.slot.n.Add(1)
			held[r] = liveHeap()
		}
		// In all: a slice or map grows in leaps.
		if held[len(held)-1] < held[1]+uint64(12*n) {
			break
		}
		// Perhaps a cache that is still filling, or the run-time system.
		if try == 2 {
			c.Fail("memory in use after each round of %d calls: %d bytes", n, held)
			return
		}
		n *= 5
	}
	leftRunning(c, routines, 4*n)
}

var leakNames = []string{"decode", "encode", "native", "format", "integer", "isexact"}

// --- plain values (C38)

// plainLib gives the values of a format as such.
type plainLib struct {
	l    *Lib
	mk   func(Pat) interface{}
	zero func() interface{}
	// use calls every method on v
	use func(v interface{})
	// from makes values by every other constructor; each with its bits
	from func(x *big.Float, f float64, g float32) ([]interface{}, []Pat)
	// specials are the exported values; each with its bits
	specials func() ([]interface{}, []Pat)
}

func anys[T any](vs [6]T, bits func(T) Pat) (r []interface{}, p []Pat) {
	for _, v := range vs {
		r = append(r, v)
		p = append(p, bits(v))
	}
	return
}

var plainLibs = []*plainLib{
	{l: lib16, mk: func(p Pat) interface{} { return l16(p) }, zero: func() interface{} { var f binary16.Float; return f },
		use: func(v interface{}) {
			f := v.(binary16.Float)
			f.Big()
			f.Float32()
			f.Float64()
			f.Bits()
			f.Exp()
			f.Frac()
			f.Signbit()
		},
		from: func(x *big.Float, f float64, g float32) ([]interface{}, []Pat) {
			a, _ := binary16.NewFromBig(x)
			b, _ := binary16.NewFromFloat64(f)
			d, _ := binary16.NewFromFloat32(g)
			return []interface{}{a, b, d}, []Pat{p16(a), p16(b), p16(d)}
		},
		specials: func() ([]interface{}, []Pat) { return anys(sp16(), p16) }},
	{l: lib128, mk: func(p Pat) interface{} { return l128(p) }, zero: func() interface{} { var f binary128.Float; return f },
		use: func(v interface{}) {
			f := v.(binary128.Float)
			f.Big()
			f.Float32()
			f.Float64()
			f.Bits()
			f.Exp()
			f.Frac()
			f.Signbit()
		},
		from: func(x *big.Float, f float64, g float32) ([]interface{}, []Pat) {
			a, _ := binary128.NewFromBig(x)
			b, _ := binary128.NewFromFloat64(f)
			d, _ := binary128.NewFromFloat32(g)
			return []interface{}{a, b, d}, []Pat{p128(a), p128(b), p128(d)}
		},
		specials: func() ([]interface{}, []Pat) { return anys(sp128(), p128) }},
	{l: libX87, mk: func(p Pat) interface{} { return lx87(p) }, zero: func() interface{} { var f float80x86.Float; return f },
		use: func(v interface{}) {
			f := v.(float80x86.Float)
			f.Big()
			f.Float32()
			f.Float64()
			f.Bits()
			f.Exp()
			f.Lead()
			f.Frac()
			f.Signbit()
		},
		from: func(x *big.Float, f float64, g float32) ([]interface{}, []Pat) {
			a, _ := float80x86.NewFromBig(x)
			b, _ := float80x86.NewFromFloat64(f)
			d, _ := float80x86.NewFromFloat32(g)
			return []interface{}{a, b, d}, []Pat{px87(a), px87(b), px87(d)}
		},
		specials: func() ([]interface{}, []Pat) { return anys(spx87(), px87) }},
	{l: libPPC, mk: func(p Pat) interface{} { return lppc(p) }, zero: func() interface{} { var f float128ppc.Float; return f },
		use: func(v interface{}) {
			f := v.(float128ppc.Float)
			f.Big()
			f.Float32()
			f.Float64()
			f.Bits()
			f.IsNaN()
		},
		from: func(x *big.Float, f float64, g float32) ([]interface{}, []Pat) {
			a, _ := float128ppc.NewFromBig(x)
			b, _ := float128ppc.NewFromFloat64(f)
			d, _ := float128ppc.NewFromFloat32(g)
			return []interface{}{a, b, d}, []Pat{pppc(a), pppc(b), pppc(d)}
		},
		specials: func() ([]interface{}, []Pat) { return anys(spppc(), pppc) }},
	{l: libBF, mk: func(p Pat) interface{} { return lbf(p) }, zero: func() interface{} { var f bfloat.Float; return f },
		use: func(v interface{}) {
			f := v.(bfloat.Float)
			f.Big()
			f.Exp()
			f.Frac()
			f.Signbit()
		}},
}

// equalPats reports whether values of the patterns have to be equal. The parts
// of a double-double are compared as the floats they are.
func equalPats(l *Lib, p, q Pat) bool {
	if l != libPPC {
		return p == q
	}
	f := math.Float64frombits
	return f(p.A) == f(q.A) && f(p.B) == f(q.B)
}

func checkPlain(c *C, pl *plainLib, p, q Pat, x *big.Float, f float64, g float32) {
	l := pl.l
	c.Begin(func() string { return fmt.Sprintf("%s and %s", patStr(l, p), patStr(l, q)) })
	k := "different"
	if equalPats(l, p, q) {
		k = "equal"
	}
	c.Class(mix(patHash(p), patHash(q)), fmt.Sprintf("%s %s %s", l.Name, k, patClass(l, p)))
	c.Guard("comparing values", func() {
		v, w, u := pl.mk(p), pl.mk(p), pl.mk(q)
		self := equalPats(l, p, p)
		if (v == w) != self {
			c.Fail("two values made from these bits: equal is %v", !self)
		}
		if (v == u) != equalPats(l, p, q) {
			c.Fail("the values of the two patterns: equal is %v", v == u)
		}
		pl.use(v)
		if (v == w) != self {
			c.Fail("after its methods were called, the value equals its copy is %v", !self)
		}
		m := map[interface{}]int{w: 1}
		if m[v] == 1 != self {
			c.Fail("as a map key the value is found: %v", !self)
		}
		if l.Bits != nil {
			if b := l.Bits(p); b != p {
				c.Fail("the bits are %v", b)
			}
		}
		if pl.from == nil {
			return
		}
		vs, bits := pl.from(x, f, g)
		for i, a := range vs {
			b := pl.mk(bits[i])
			if (a == b) != equalPats(l, bits[i], bits[i]) {
				c.Fail("a value made from a %s (%v, %v, %v) is not the value of its bits %s", []string{"big.Float", "float64", "float32"}[i], x, f, g, patStr(l, bits[i]))
			}
		}
	})
}

func checkPlainFixed(c *C, pl *plainLib) {
	l := pl.l
	c.Begin(func() string { return l.Name + ": the zero value and the exported values" })
	c.Class(hashStr(l.Name), l.Name+" zero value")
	z := pl.zero()
	c.Guard("the zero value", func() {
		pl.use(z)
		if z != pl.mk(Pat{}) {
			c.Fail("the zero value is not the value of zero bits")
		}
		if pl.specials == nil {
			return
		}
		vs, bits := pl.specials()
		for i, v := range vs {
			pl.use(v)
			if (v == pl.mk(bits[i])) != equalPats(l, bits[i], bits[i]) {
				c.Fail("exported value %d is not the value of its bits %s", i, patStr(l, bits[i]))
			}
		}
		if vs[4] != z || bits[4] != (Pat{}) {
			c.Fail("Zero is not the zero value")
		}
	})
}

func plainCase(c *C, pl *plainLib) {
	l := pl.l
	p := genPat(c.RNG, l)
	q := p
	switch c.N(4) {
	case 0:
	case 1:
		q = genPat(c.RNG, l)
	default:
		q = flipBit(c.RNG, l, p)
	}
	el := l
	if el.EncBig == nil {
		el = lib16
	}
	x, _ := el.genBig(c.RNG)
	d := dicts[l.Name]
	checkPlain(c, pl, p, q, x, math.Float64frombits(genF64Bits(c.RNG, d)), math.Float32frombits(genF32Bits(c.RNG, d)))
}

// flipBit changes one bit of a pattern.
func flipBit(r *RNG, l *Lib, p Pat) Pat {
	switch {
	case l == lib16 || l == libBF || l == libX87 && r.OneIn(3):
		p.A ^= 1 << uint(r.N(16))
	case l == libX87 || r.Bool():
		p.B ^= 1 << uint(r.N(64))
	default:
		p.A ^= 1 << uint(r.N(64))
	}
	return p
}

// --- decoded numbers as operands (C39)

var arithNames = []string{"+", "-", "*", "/"}

// quoReal is a/b, with enough bits for rounding to p bits and a bit that stands
// for the rest.
func quoReal(a, b Real, p int) Real {
	s := uint(0)
	if n := b.M.BitLen() - a.M.BitLen() + p + 4; n > 0 {
		s = uint(n)
	}
	q, m := new(big.Int).QuoRem(new(big.Int).Lsh(a.M, s), b.M, new(big.Int))
	q.Lsh(q, 1)
	if m.Sign() != 0 {
		q.SetBit(q, 0, 1)
	}
	return Real{Neg: a.Neg != b.Neg, M: q, E: a.E - b.E - int64(s) - 1}
}

func checkArith(c *C, l *Lib, p, q Pat, op int) {
	c.Begin(func() string { return fmt.Sprintf("%s %s %s", patStr(l, p), arithNames[op], patStr(l, q)) })
	a, nanA, _ := l.decodeRef(p)
	b, nanB, _ := l.decodeRef(q)
	kind := patClass(l, p)
	c.Class(mix(patHash(p), mix(patHash(q), uint64(op))), l.Name+" "+arithNames[op]+" "+kind)
	x, nx := l.Big(p)
	y, ny := l.Big(q)
	for i, z := range []*big.Float{x, y} {
		pt := []Pat{p, q}[i]
		if z == nil {
			c.Fail("%s decodes to nil", patStr(l, pt))
			return
		}
		if z.Mode() != big.ToNearestEven || z.Acc() != big.Exact {
			c.Fail("%s decodes to a number with mode %v, accuracy %v", patStr(l, pt), z.Mode(), z.Acc())
		}
		if l.F != nil && z.Prec() != l.Prec || l.F == nil && z.Prec() < 106 {
			c.Fail("%s decodes to a number of precision %d", patStr(l, pt), z.Prec())
		}
	}
	if nx || ny || nanA || nanB || a.Inf || b.Inf || a.IsZero() || b.IsZero() || l.F == nil {
		return
	}
	var ref Real
	switch op {
	case 0:
		ref = addReal(a, b)
	case 1:
		ref = addReal(a, b.negate())
	case 2:
		ref = Real{Neg: a.Neg != b.Neg, M: new(big.Int).Mul(a.M, b.M), E: a.E + b.E}
	case 3:
		ref = quoReal(a, b, l.F.P)
	}
	f := func(z, x, y *big.Float) (r *big.Float) {
		defer func() {
			if e := recover(); e != nil { // numbers which are not what they denote
				c.Fail("computing with the decoded numbers panicked: %v", e)
				r = new(big.Float)
			}
		}()
		switch op {
		case 0:
			return z.Add(x, y)
		case 1:
			return z.Sub(x, y)
		case 2:
			return z.Mul(x, y)
		}
		return z.Quo(x, y)
	}
	free := &Format{"", l.F.P, -1 << 40, 1 << 40}
	want := free.round(ref).real()
	if ref.IsZero() {
		want = Real{M: new(big.Int)}
	}
	z := f(new(big.Float), x, y)
	if got := fromBig(z); !same(got, want) {
		c.Fail("computes to %v, correctly rounded to %d bits it is %v", got, l.F.P, want)
		return
	}
	if l.EncBig != nil {
		// Encoded without a second rounding where the format has it.
		if pat, acc := l.EncBig(z); !ref.IsZero() && want.lead() >= l.F.EMin && want.lead() <= l.F.EMax {
			if w, _, _ := l.encRef(ref); pat != w || acc != big.Exact {
				c.Fail("the encoded result is %s (%v), correctly rounded it is %s", patStr(l, pat), acc, patStr(l, w))
			}
		}
	}
	// In place, in the number's own precision and mode.
	if got := fromBig(f(x, x, y)); !same(got, want) {
		c.Fail("computes in place to %v, correctly rounded to %d bits it is %v", got, l.F.P, want)
	}
}

func arithCase(c *C, l *Lib) {
	p, q := genPat(c.RNG, l), genPat(c.RNG, l)
	if l.F != nil && c.N(3) > 0 { // comparable magnitudes
		if v, nan := l.F.decode(p); !nan && !v.Inf && !v.IsZero() {
			if w, nan := l.F.decode(q); !nan && !w.Inf && !w.IsZero() {
				w.E += v.lead() - w.lead() + c.Range(int64(-l.F.P-3), int64(l.F.P+3))
				q = l.F.pack(l.F.round(w))
			}
		}
	}
	checkArith(c, l, p, q, c.N(4))
}

func setupPlain() {
	register("C37", []string{"format", "integer", "decode", "native", "narrow", "fields", "encode huge", "encode tiny", "encode long", "encode ordinary", "isexact huge", "isexact tiny", "isexact long",
		"accumulation decode", "accumulation encode", "accumulation native", "accumulation format", "accumulation integer", "accumulation isexact",
		"kindred format", "kindred integer", "kindred decode", "kindred encode", "kindred native", "kindred narrow", "kindred isexact", "kindred fields", "kindred refused", "kindred decode same", "kindred format same"},
		&Stream{Name: "cost", Quick: 48, Thorough: 1200, Run: func(c *C) {
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			for i := 0; i < 8000; i++ {
				costCase(c)
			}
		}},
		&Stream{Name: "accumulation", Quick: 6, Thorough: 96, Run: func(c *C) {
			for op := range leakNames {
				leakCase(c, op)
			}
		}},
		&Stream{Name: "kindred", Quick: 48, Thorough: 1200, Run: func(c *C) {
			runtime.LockOSThread()
			defer runtime.UnlockOSThread()
			for i := 0; i < 60; i++ {
				leakKinds(c)
			}
		}})
	var pv, ar []*Stream
	for _, pl := range plainLibs {
		pl := pl
		pv = append(pv, &Stream{Name: "values-" + pl.l.Name, Quick: 16, Thorough: 320, Run: func(c *C) {
			checkPlainFixed(c, pl)
			if pl.l.F != nil && pl.l.F.P < 12 {
				for i := c.Chunk; i < 1<<16; i += c.NChunks {
					p := Pat{A: uint64(i)}
					checkPlain(c, pl, p, flipBit(c.RNG, pl.l, p), new(big.Float), 0, 0)
				}
			}
			for i := 0; i < 12000; i++ {
				plainCase(c, pl)
			}
		}})
		ar = append(ar, &Stream{Name: "operands-" + pl.l.Name, Quick: 24, Thorough: 480, Run: func(c *C) {
			for i := 0; i < 8000; i++ {
				arithCase(c, pl.l)
			}
		}})
	}
	register("C38", []string{"binary16 zero value", "bfloat zero value", "float128ppc zero value", "binary16 equal nan+", "binary128 equal nan-", "float80x86 equal unnormal+", "float80x86 different nan-", "float128ppc equal wide-", "float128ppc different nan+", "bfloat equal nan+", "binary128 different subnormal+"}, pv...)
	register("C39", []string{"binary16 + normal+", "binary16 / subnormal-", "bfloat * normal-", "binary128 - normal+", "binary128 / subnormal+", "float80x86 * unnormal+", "float80x86 + zero-", "float80x86 / inf+", "binary128 + nan-", "float128ppc + wide+"}, ar...)
}

func init() {
	guided["C38"] = func(c *C, g *gin) {
		pl := plainLibs[int(g.h[0])%len(plainLibs)]
		el := pl.l
		if el.EncBig == nil {
			el = lib16
		}
		p := g.pat(pl.l)
		q := p
		if g.op(3) > 0 {
			q = flipBit(c.RNG, pl.l, p)
		}
		x, _ := g.big(el)
		checkPlain(c, pl, p, q, x, math.Float64frombits(g.b()), math.Float32frombits(uint32(g.b())))
	}
	guided["C39"] = func(c *C, g *gin) {
		l := plainLibs[int(g.h[0])%len(plainLibs)].l
		p := g.pat(l)
		q := flipBit(c.RNG, l, flipBit(c.RNG, l, p))
		if g.neg() {
			q = genPat(c.RNG, l)
		}
		checkArith(c, l, p, q, g.op(4))
	}
}
