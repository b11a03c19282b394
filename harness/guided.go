package main

// Coverage-guided workloads. libFuzzer chooses byte strings, steered by the
// branches and comparisons that the instrumented library executes; here they
// become inputs of the same observed cases as those of the random streams.

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
)

// gin is one such byte string: a header of fixed fields and a tail.
//
//	0     format / operation
//	1     bits: 0 sign, 1-3 rounding mode, 4-6 how a real is made, 7 wide
//	2     letter of a format
//	3     selects sizes
//	4-5   a precision
//	6-7   a shift or a base
//	8-15  first word
//	16-23 second word
//	24-27 exponent
//	28-   mantissa
type gin struct {
	h [28]byte
	t []byte
}

func parseGin(b []byte) *gin {
	g := &gin{}
	n := copy(g.h[:], b)
	g.t = b[n:]
	return g
}

func (g *gin) bytes() []byte { return append(append([]byte(nil), g.h[:]...), g.t...) }
func (g *gin) a() uint64     { return binary.LittleEndian.Uint64(g.h[8:]) }
func (g *gin) b() uint64     { return binary.LittleEndian.Uint64(g.h[16:]) }
func (g *gin) u16() int      { return int(binary.LittleEndian.Uint16(g.h[4:])) }
func (g *gin) v16() int      { return int(binary.LittleEndian.Uint16(g.h[6:])) }
func (g *gin) neg() bool     { return g.h[1]&1 != 0 }
func (g *gin) wide() bool    { return g.h[1]>>7 != 0 }
func (g *gin) mode() big.RoundingMode {
	return allModes[int(g.h[1]>>1&7)%len(allModes)]
}

func (g *gin) pat(l *Lib) Pat {
	p := Pat{g.a(), g.b()}
	switch l {
	case lib16, libBF:
		p.A &= 0xFFFF
		p.B = 0
	case libX87:
		p.A &= 0xFFFF
	}
	return p
}

// real makes a number for the format l (or, without one, near any native one).
func (g *gin) real(l *Lib) Real {
	e := int32(binary.LittleEndian.Uint32(g.h[24:]))
	how := g.h[1] >> 4 & 7
	if how < 3 {
		m := new(big.Int).SetBytes(g.t)
		ee := int64(e)
		if how < 2 {
			ee = int64(int16(e))
		}
		return clampReal(Real{Neg: g.neg(), M: m, E: ee})
	}
	var v Real
	var nan bool
	switch {
	case how == 7:
		v, nan = fmt64.decode(Pat{A: g.a()})
	case how == 6:
		v, nan = fmt16.decode(Pat{A: g.a() & 0xFFFF})
	case l == libAny:
		v, nan = fmt32.decode(Pat{A: g.a() & 0xFFFFFFFF})
	default:
		v, nan, _ = l.decodeRef(g.pat(l))
	}
	if nan || v.Inf || v.M.Sign() == 0 {
		return Real{Neg: v.Neg, Inf: v.Inf, M: new(big.Int)}
	}
	if how >= 6 && g.h[24] == 0 {
		return clampReal(v)
	}
	// Half a unit above (how 4) and a small residue.
	m, q := new(big.Int).Set(v.M), v.E
	if how == 4 || how >= 6 && g.h[24]&1 != 0 {
		if f := l.F; f != nil && v.lead() >= f.EMin { // to the full precision first
			if s := int64(f.P) - int64(m.BitLen()); s > 0 {
				m.Lsh(m, uint(s))
				q -= s
			}
		}
		m.Add(m.Lsh(m, 1), bigOne)
		q--
	}
	t := g.t
	if len(t) > 12 {
		t = t[:12]
	}
	d := new(big.Int).SetBytes(t)
	s := uint(g.v16() % 4096)
	m.Lsh(m, s)
	if g.h[24]&2 != 0 && m.Cmp(d) > 0 {
		m.Sub(m, d)
	} else {
		m.Add(m, d)
	}
	return clampReal(Real{Neg: v.Neg, M: m, E: q - int64(s)})
}

func (g *gin) big(l *Lib) (*big.Float, Real) {
	v := g.real(l)
	x := toBig(v, uint(g.u16())%6000, g.mode())
	return x, fromBig(x)
}

func (g *gin) size() int { return []int{16, 32, 64}[int(g.h[3])%3] }

// num is a float64 to be formatted.
func (g *gin) num() float64 {
	switch g.h[3] / 3 % 3 {
	case 0:
		return ofRaw(g.a(), g.size())
	case 1:
		return ofRaw(g.a(), 32)
	}
	return ofRaw(g.a(), 64)
}

func (g *gin) letter(s string) byte { return s[int(g.h[2])%len(s)] }

func (g *gin) base() int {
	if g.v16()%3 == 0 {
		return 10
	}
	return 2 + g.v16()%35
}

func (g *gin) fixed() int {
	n := g.u16()
	if n >= 1<<15 {
		return n % 1200
	}
	return n % 24
}

func (g *gin) enc() *Lib { return encLibs[int(g.h[0])%len(encLibs)] }
func (g *gin) all() *Lib { return allLibs[int(g.h[0])%len(allLibs)] }

// op is a second selector beside the format.
func (g *gin) op(n int) int { return int(g.h[0]) / 8 % n }

// call is the call of a history that the header describes.
func (g *gin) call() *call {
	k := &call{op: g.op(nTwin), l: g.enc(), fp: -1, size: g.size(), base: 10, wide: g.wide(), app: g.h[3]&64 != 0, fm: g.letter("beEfgGeg"), u: g.a()}
	switch k.op {
	case twFormat:
		k.f = g.num()
		if g.h[3]&128 != 0 && k.fm != 'b' {
			k.fp = g.fixed() % 60
		}
	case twInt:
		k.base = g.base()
	case twDecode, twFields:
		k.l = g.all()
		k.p = g.pat(k.l)
	case twNarrow:
		k.p = g.pat(k.l)
	case twNative:
		k.f = ofRaw(g.a(), 64)
	case twEncode, twExact:
		l := k.l
		if k.op == twExact {
			l = libAny
		}
		k.x, k.v = g.big(l)
		if k.op == twExact && !k.v.Inf && k.v.M.Sign() != 0 && (k.v.lead() > 5000 || k.v.lead() < -5000) {
			k.v = Real{M: big.NewInt(1)}
			k.x = toBig(k.v, 20, big.ToNearestEven)
		}
		k.prec, k.mode = k.x.Prec(), k.x.Mode()
	}
	return k
}

// guidedHistory plays calls cut from the input; each record is a call of its
// own, an earlier one again, or an earlier one with a byte changed.
func guidedHistory(c *C, b []byte) {
	var recs [][]byte
	var calls []*call
	h := &keep{}
	last := ""
	for len(b) > 1 && len(recs) < 16 {
		t := b[0]
		var rec []byte
		b = b[1:]
		switch {
		case len(recs) == 0 || t < 64:
			n := min(40, len(b))
			rec = append([]byte(nil), b[:n]...)
			b = b[n:]
			recs = append(recs, rec)
			calls = append(calls, parseGin(rec).call())
		case t < 160 || len(b) < 2:
			i := int(t) % len(recs)
			recs = append(recs, recs[i])
			calls = append(calls, calls[i])
		default:
			rec = append([]byte(nil), recs[int(t)%len(recs)]...)
			if len(rec) > 0 {
				rec[int(b[0])%len(rec)] = b[1]
			}
			b = b[2:]
			recs = append(recs, rec)
			calls = append(calls, parseGin(rec).call())
		}
		last = h.step(c, calls[len(calls)-1], last, len(calls))
	}
	h.check(c)
}

// guided maps a property to the case an input describes.
var guided = map[string]func(c *C, g *gin){
	"C03": func(c *C, g *gin) { checkDecode(c, lib128, g.pat(lib128)) },
	"C04": func(c *C, g *gin) { checkDecode(c, libX87, g.pat(libX87)) },
	"C05": func(c *C, g *gin) {
		checkDecode(c, libPPC, g.pat(libPPC))
		checkPPCIsNaN(c, g.pat(libPPC))
	},
	"C06": func(c *C, g *gin) { checkFields(c, g.all(), g.pat(g.all())) },
	"C07": encodeGuided(lib16),
	"C08": encodeGuided(lib128),
	"C09": encodeGuided(libX87),
	"C10": encodeGuided(libPPC),
	"C11": func(c *C, g *gin) {
		if g.op(2) == 0 {
			x, v := g.big(g.enc())
			checkAccBig(c, g.enc(), x, v)
		} else {
			checkAccNative(c, g.enc(), g.a(), uint32(g.b()))
		}
	},
	"C12": func(c *C, g *gin) {
		checkNative64(c, g.enc(), g.a())
		checkNative32(c, g.enc(), uint32(g.b()))
	},
	"C13": func(c *C, g *gin) {
		l := g.enc()
		p := g.pat(l)
		if l.F != nil && g.op(2) == 1 { // from a number near a native one
			p = l.F.pack(l.F.round(g.real(libAny)))
		}
		checkNarrow(c, l, p)
	},
	"C14": func(c *C, g *gin) {
		l := g.enc()
		p := g.pat(l)
		if l == libPPC && g.op(2) == 1 {
			p, _, _ = l.encRef(g.real(l))
		}
		checkRoundTrip(c, l, p)
	},
	"C16": func(c *C, g *gin) {
		l := g.enc()
		op := g.op(7)
		if op >= 4 {
			l = libAny
		}
		x, v := g.big(l)
		if op >= 4 && !v.Inf && v.M.Sign() != 0 && (v.lead() > 5000 || v.lead() < -5000) {
			op = int(g.h[0]) % 4
		}
		immutable(c, op, encLibs[op%4], x, v)
	},
	"C19": func(c *C, g *gin) {
		switch g.op(4) {
		case 0:
			checkTotalPat(c, g.all(), g.pat(g.all()))
		case 1:
			l := g.enc()
			x, v := g.big(l)
			c.Begin(func() string { return bigStr(l, x, v) })
			c.Class(1, l.Name+" NewFromBig")
			c.Guard("NewFromBig", func() { l.EncBig(x) })
		case 2:
			x, v := g.big(libAny)
			c.Begin(func() string { return "IsExact: " + bigStr(libAny, x, v) })
			c.Class(1, "IsExact")
			for _, e := range exactFns {
				c.Guard(e.name, func() { isExact(e.fn, x) })
			}
		case 3:
			totalFormat(c, g.num(), g.letter("beEfgG"), g.fixedOrShort(), g.size(), g.b(), g.base())
		}
	},
	"C21": func(c *C, g *gin) { exactGuided(c, g, true) },
	"C22": func(c *C, g *gin) { exactGuided(c, g, false) },
	"C23": func(c *C, g *gin) { checkShortest(c, g.num(), g.letter("ebefgEG"), g.size(), g.h[4]&7 == 0) },
	"C24": func(c *C, g *gin) { checkFixed(c, g.num(), g.letter("efgEG"), g.fixed(), g.size(), g.h[7]&7 == 0) },
	"C25": func(c *C, g *gin) {
		n := int(g.h[6]) % 48
		dst := make([]byte, n, n+int(g.h[7]))
		for i := range dst[:cap(dst)] {
			dst[:cap(dst)][i] = byte(i*7 + int(g.h[6]))
		}
		if n == 0 && g.h[7]&1 == 1 {
			dst = nil
		}
		appendCase(c, dst, g.op(3), g.num(), g.letter("beEfgG"), g.fixedOrShort(), g.size(), g.b(), g.base())
	},
	"C26": func(c *C, g *gin) { checkInt(c, g.a(), g.base()) },
	"C27": func(c *C, g *gin) {
		l := g.enc()
		v := g.real(l)
		vs := []Real{v}
		if !v.Inf && v.M.Sign() != 0 {
			s := uint(g.u16() % 300)
			m := new(big.Int).Lsh(v.M, s)
			d := new(big.Int).SetUint64(g.b())
			vs = append(vs, clampReal(Real{Neg: v.Neg, M: new(big.Int).Add(m, d), E: v.E - int64(s)}))
			if m.Cmp(d) > 0 {
				vs = append(vs, clampReal(Real{Neg: v.Neg, M: new(big.Int).Sub(m, d), E: v.E - int64(s)}))
			}
			// and the representable neighbour
			if p, _, _ := l.encRef(v); true {
				if r, nan, _ := l.decodeRef(p); !nan && !r.Inf {
					vs = append(vs, r)
				}
			}
		}
		orderSet(c, l, vs)
	},
}

func (g *gin) fixedOrShort() int {
	if g.h[4]&1 == 0 {
		return -1
	}
	return g.fixed()
}

func encodeGuided(l *Lib) func(c *C, g *gin) {
	return func(c *C, g *gin) {
		x, v := g.big(l)
		checkEncode(c, l, x, v)
	}
}

func exactGuided(c *C, g *gin, sound bool) {
	x, v := g.big(libAny)
	if !v.Inf && v.M.Sign() != 0 && (v.lead() > 3000 || v.lead() < -3000) {
		return
	}
	checkExact(c, x, v, sound)
}

// guidedCase observes the case that data describes.
func guidedCase(c *C, prop string, data []byte) {
	if prop == "C17" {
		guidedHistory(c, data)
		return
	}
	if prop == "C41" {
		// The first byte says which property's case the rest describes.
		if len(data) == 0 {
			return
		}
		if guidedOf == nil {
			for _, id := range effectsOf {
				if hasGuided(id) {
					guidedOf = append(guidedOf, id)
				}
			}
		}
		guidedCase(c, guidedOf[int(data[0])%len(guidedOf)], data[1:])
		return
	}
	guided[prop](c, parseGin(data))
}

var guidedOf []string

func hasGuided(prop string) bool { return prop == "C17" || prop == "C41" || guided[prop] != nil }

// emitCorpus writes starting inputs drawn from the random generators.
func emitCorpus(dir, prop string, seed uint64) error {
	r := &RNG{s: mix(seed, hashStr(prop))}
	put := func(i int, b []byte) error {
		return os.WriteFile(filepath.Join(dir, fmt.Sprintf("s%04d", i)), b, 0o644)
	}
	draw := func() *gin {
		g := &gin{}
		for i := range g.h {
			g.h[i] = byte(r.U64())
		}
		l := g.enc()
		if r.OneIn(5) {
			l = libBF
		}
		switch r.N(4) {
		case 0:
			p := genPat(r, l)
			binary.LittleEndian.PutUint64(g.h[8:], p.A)
			binary.LittleEndian.PutUint64(g.h[16:], p.B)
			g.t = make([]byte, r.N(6))
		case 1:
			if l == libBF {
				l = lib16
			}
			v := clampReal(l.genReal(r))
			if !v.Inf {
				g.t = v.M.Bytes()
			}
			if len(g.t) > 200 {
				g.t = g.t[:200]
			}
			binary.LittleEndian.PutUint32(g.h[24:], uint32(int32(v.E)))
			g.h[1] &= 0x8F
			if int64(int16(v.E)) != v.E {
				g.h[1] |= 0x20
			}
		case 2:
			v := genFmtValue(r, g.size())
			b := rawOf(v, g.size())
			g.h[3] = byte(int(g.h[3])%3 + 9*r.N(20))
			binary.LittleEndian.PutUint64(g.h[8:], b)
		case 3:
			binary.LittleEndian.PutUint64(g.h[8:], genInt(r))
			binary.LittleEndian.PutUint64(g.h[16:], genBits(r, 64, nil))
		}
		return g
	}
	for i := 0; i < 400; i++ {
		b := draw().bytes()
		if prop == "C17" {
			b = append([]byte{0}, append(b, make([]byte, 40)...)[:40]...)
			for n := r.N(6); n >= 0; n-- {
				switch r.N(3) {
				case 0:
					b = append(b, byte(64+r.N(96)))
				case 1:
					b = append(b, byte(160+r.N(96)), byte(r.N(40)), byte(r.U64()))
				case 2:
					b = append(append(b, 0), append(draw().bytes(), make([]byte, 40)...)[:40]...)
				}
			}
		}
		if prop == "C41" {
			b = append([]byte{byte(r.U64())}, b...)
		}
		if err := put(i, b); err != nil {
			return err
		}
	}
	return nil
}

// observe runs a guided case; a panic of the library is a violation. What the
// case draws at random depends on its input alone.
func observe(c *C, prop string, data []byte) {
	c.RNG.s = hashStr(string(data))
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopChunk); ok {
				return
			}
			if !panicInTarget() && !panicInBig(e) {
				panic(e)
			}
			if effects != nil {
				return
			}
			c.viol = append(c.viol, Violation{Property: prop, Stream: "guided", Chunk: -1, Case: c.n,
				Input: safeDesc(c), Message: fmt.Sprint("panic: ", e, "\n", shortStack())})
		}
	}()
	if effects != nil {
		effects.begin(c)
		defer effects.end(c)
	}
	guidedCase(c, prop, data)
}
