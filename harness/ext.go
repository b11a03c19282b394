package main

// C28: agreement with gcc's and LLVM's own conversions; C29: the generators'
// output.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

var helperPath, clangPath, tmpDir, gen16Path, gen128Path string

// peer is a batch of conversion requests to the gcc-compiled helper.
type peer struct {
	in  bytes.Buffer
	chk []func(a, b uint64)
}

func (p *peer) ask(op byte, a, b uint64, f func(a, b uint64)) {
	var rec [24]byte
	rec[0] = op
	binary.LittleEndian.PutUint64(rec[8:], a)
	binary.LittleEndian.PutUint64(rec[16:], b)
	p.in.Write(rec[:])
	p.chk = append(p.chk, f)
}

func (p *peer) flush() {
	cmd := exec.Command(helperPath)
	cmd.Stdin = &p.in
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil || len(out) != 16*len(p.chk) {
		panic(fmt.Sprintf("harness: helper: %v, %d bytes for %d requests", err, len(out), len(p.chk)))
	}
	for i, f := range p.chk {
		f(binary.LittleEndian.Uint64(out[16*i:]), binary.LittleEndian.Uint64(out[16*i+8:]))
	}
	*p = peer{}
}

const (
	opDH = iota // double -> half
	opDX
	opDQ
	opFH
	opFX
	opFQ
	opHF
	opHD
	opXF
	opXD
	opQF
	opQD
	opXH
	opQH
	opQX
	opXQ
	opHX
	opHQ
	opBF
)

// agree compares a pattern of the library with gcc's.
func agreePat(c *C, what string, f *Format, got, want Pat) {
	_, gn := f.decode(got)
	_, wn := f.decode(want)
	if gn && wn {
		bit := uint(15)
		if f == fmt128 || f == fmt64 {
			bit = 63
		} else if f == fmt32 {
			bit = 31
		}
		if got.A>>bit&1 != want.A>>bit&1 {
			c.Fail("%s: NaN bits %016X %016X, gcc has %016X %016X", what, got.A, got.B, want.A, want.B)
		}
		return
	}
	if got != want {
		c.Fail("%s: bits %016X %016X, gcc has %016X %016X", what, got.A, got.B, want.A, want.B)
	}
}

func gccChunk(c *C) {
	p := &peer{}
	n := 6000
	for i := 0; i < n; i++ {
		// native -> format
		l := encLibs[c.N(3)]
		a, b := genF64Bits(c.RNG, dicts[l.Name]), genF32Bits(c.RNG, dicts[l.Name])
		if l == lib16 {
			if c.Bool() {
				a = a&^(0x7FF<<52) | uint64(1023+c.Range(-28, 18))<<52
				b = b&^(0xFF<<23) | uint32(127+c.Range(-28, 18))<<23
			}
			if c.OneIn(3) {
				a = a >> 42 << 42
				if c.Bool() {
					a |= halfish(c.RNG, 42)
				}
				b = b >> 13 << 13
				if c.Bool() {
					b |= uint32(halfish(c.RNG, 13))
				}
			}
		}
		k := byte(0)
		for j, m := range encLibs[:3] {
			if m == l {
				k = byte(j)
			}
		}
		// encLibs order is binary16, binary128, float80x86
		dop := [3]byte{opDH, opDQ, opDX}[k]
		fop := [3]byte{opFH, opFQ, opFX}[k]
		p.ask(dop, a, 0, func(ra, rb uint64) {
			c.Begin(func() string { return fmt.Sprintf("%s <- float64 0x%016X", l.Name, a) })
			got, _ := l.EncF64(math.Float64frombits(a))
			c.Class(mix(a, uint64(dop)), "gcc double -> "+l.Name)
			agreePat(c, "NewFromFloat64", l.F, got, Pat{ra, rb})
		})
		p.ask(fop, uint64(b), 0, func(ra, rb uint64) {
			c.Begin(func() string { return fmt.Sprintf("%s <- float32 0x%08X", l.Name, b) })
			got, _ := l.EncF32(math.Float32frombits(b))
			c.Class(mix(uint64(b), uint64(fop)), "gcc float -> "+l.Name)
			agreePat(c, "NewFromFloat32", l.F, got, Pat{ra, rb})
		})
		// format -> native
		q := genPat(c.RNG, l)
		if l == libX87 && !canonicalX87(q) {
			q.B ^= 1 << 63
		}
		if c.OneIn(3) && l != lib16 {
			f := []*Format{fmt16, fmt32, fmt64}[c.N(3)]
			q = l.F.pack(l.F.round(genReal(c.RNG, f, dicts[l.Name])))
		}
		sop := [3]byte{opHF, opQF, opXF}[k]
		p.ask(sop, q.A, q.B, func(ra, rb uint64) {
			c.Begin(func() string { return patStr(l, q) })
			got, _ := l.F32(q)
			c.Class(mix(patHash(q), uint64(sop)), "gcc "+l.Name+" -> float")
			agreePat(c, "Float32", fmt32, Pat{A: uint64(math.Float32bits(got))}, Pat{A: ra})
		})
		p.ask(sop+1, q.A, q.B, func(ra, rb uint64) {
			c.Begin(func() string { return patStr(l, q) })
			got, _ := l.F64(q)
			c.Class(mix(patHash(q), uint64(sop+1)), "gcc "+l.Name+" -> double")
			agreePat(c, "Float64", fmt64, Pat{A: math.Float64bits(got)}, Pat{A: ra})
		})
		// format -> format, through Big and NewFromBig
		type pair struct {
			op byte
			to *Lib
		}
		var ps []pair
		switch l {
		case lib16:
			ps = []pair{{opHX, libX87}, {opHQ, lib128}}
		case lib128:
			ps = []pair{{opQH, lib16}, {opQX, libX87}}
		case libX87:
			ps = []pair{{opXH, lib16}, {opXQ, lib128}}
		}
		pr := ps[c.N(len(ps))]
		p.ask(pr.op, q.A, q.B, func(ra, rb uint64) {
			c.Begin(func() string { return patStr(l, q) + " -> " + pr.to.Name })
			x, nan := l.Big(q)
			c.Class(mix(patHash(q), uint64(pr.op)), "gcc "+l.Name+" -> "+pr.to.Name)
			if nan {
				if _, n := pr.to.F.decode(Pat{ra, rb}); !n {
					c.Fail("decoded as NaN, gcc converts it to %016X %016X", ra, rb)
				}
				return
			}
			got, _ := pr.to.EncBig(x)
			agreePat(c, "Big, NewFromBig", pr.to.F, got, Pat{ra, rb})
		})
		if i%4 == 0 {
			w := genPat(c.RNG, libBF)
			p.ask(opBF, w.A, 0, func(ra, rb uint64) {
				c.Begin(func() string { return patStr(libBF, w) })
				x, nan := libBF.Big(w)
				c.Class(w.A, "gcc bfloat -> float")
				want, wn := fmt32.decode(Pat{A: ra})
				if nan != wn || !nan && !same(fromBig(x), want) {
					c.Fail("Big() = %v (NaN %v), gcc has %v", fromBig(x), nan, want)
				}
			})
		}
	}
	p.flush()
}

// hexLit renders a finite real as a C hexadecimal literal.
func hexLit(r Real) string {
	s := ""
	if r.Neg {
		s = "-"
	}
	if r.M.Sign() == 0 {
		return s + "0x0p0"
	}
	r = r.norm()
	return fmt.Sprintf("%s0x%xp%d", s, r.M, r.E)
}

var irLine = regexp.MustCompile(`(?m)^@([a-z])(\d+) = .*global (half|double|float|x86_fp80|fp128|ppc_fp128) ([^,]+),`)

// clangIR compiles C text and returns the initialisers by name.
func clangIR(dir, target, text string) map[string][2]string {
	src := filepath.Join(dir, "c.c")
	if err := os.WriteFile(src, []byte(text), 0o644); err != nil {
		panic("harness: " + err.Error())
	}
	cmd := exec.Command(clangPath, "-target", target, "-w", "-S", "-emit-llvm", "-o", "-", src)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		panic("harness: clang: " + err.Error() + "\n" + eb.String())
	}
	res := map[string][2]string{}
	for _, m := range irLine.FindAllStringSubmatch(string(out), -1) {
		res[m[1]+m[2]] = [2]string{m[3], strings.TrimSpace(m[4])}
	}
	return res
}

func irPat(ty, s string) Pat {
	u := func(h string) uint64 {
		v, err := strconv.ParseUint(h, 16, 64)
		if err != nil {
			panic("harness: IR constant " + s)
		}
		return v
	}
	switch ty {
	case "half":
		return Pat{A: u(strings.TrimPrefix(s, "0xH"))}
	case "x86_fp80":
		h := strings.TrimPrefix(s, "0xK")
		return Pat{u(h[:4]), u(h[4:])}
	case "fp128": // low word first
		h := strings.TrimPrefix(s, "0xL")
		return Pat{u(h[16:]), u(h[:16])}
	case "ppc_fp128":
		h := strings.TrimPrefix(s, "0xM")
		return Pat{u(h[:16]), u(h[16:])}
	}
	var v float64
	if strings.HasPrefix(s, "0x") {
		v = math.Float64frombits(u(s[2:]))
	} else {
		w, err := strconv.ParseFloat(s, 64)
		if err != nil {
			panic("harness: IR constant " + s)
		}
		v = w
	}
	if ty == "float" {
		return Pat{A: uint64(math.Float32bits(float32(v)))}
	}
	return Pat{A: math.Float64bits(v)}
}

func llvmChunk(c *C) {
	dir, err := os.MkdirTemp(tmpDir, "ir")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	const n = 400
	// Half, x87 and quadruple literals of arbitrary width.
	type lit struct {
		l *Lib
		v Real
	}
	var b strings.Builder
	lits := map[string]lit{}
	for i := 0; i < n; i++ {
		k := c.N(3)
		l := encLibs[k]
		v := l.genReal(c.RNG)
		// LLVM takes written exponents beyond 24000 for that, and counts the
		// bits it reads in an int16: the literal (in lowest terms) keeps away
		// from these limits.
		for v.Inf || v.M.Sign() != 0 && (v.lead() > 17000 || v.lead() < -17000 || v.norm().E < -22000 || v.norm().M.BitLen() > 12000) {
			v = l.genReal(c.RNG)
		}
		ty := [3]string{"_Float16", "__float128", "long double"}[k]
		suf := [3]string{"f16", "q", "L"}[k]
		fmt.Fprintf(&b, "%s v%d = %s%s;\n", ty, i, hexLit(v), suf)
		lits[fmt.Sprintf("v%d", i)] = lit{l, v}
	}
	ir := clangIR(dir, "x86_64-linux-gnu", b.String())
	if len(ir) < n*9/10 {
		panic(fmt.Sprintf("harness: clang printed %d of %d constants", len(ir), n))
	}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("v%d", i)
		g, ok := ir[name]
		if !ok {
			continue
		}
		q := lits[name]
		l, v := q.l, q.v
		want := irPat(g[0], g[1])
		x := toBig(v, 1, allModes[c.N(len(allModes))])
		c.Begin(func() string { return bigStr(l, x, v) + ", LLVM constant " + g[1] })
		if v.IsZero() && v.Neg && want.A<<1 == 0 {
			continue
		}
		got, _ := l.EncBig(x)
		c.Class(mix(hashStr(hexLit(v)), uint64(i)), "LLVM literal "+l.Name)
		if got != want {
			c.Fail("NewFromBig gave bits %016X %016X, LLVM has %016X %016X", got.A, got.B, want.A, want.B)
		}
	}
	// Double-doubles: literals of at most 106 bits, and their narrowing.
	b.Reset()
	vs := make([]Real, n)
	for i := range vs {
		w := uint(1 + c.N(106))
		m := new(big.Int).SetUint64(genBits(c.RNG, 64, dicts["float128ppc"]))
		m.Lsh(m, 42)
		m.Or(m, new(big.Int).SetUint64(genBits(c.RNG, 42, dicts["float128ppc"])))
		if bl := uint(m.BitLen()); bl > w {
			m.Rsh(m, bl-w)
		}
		m.SetBit(m, 0, 1)
		v := Real{Neg: c.Bool(), M: m}
		switch c.N(4) {
		case 0: // float's range, its subnormals included
			v.E = c.Range(-150, 128) - int64(m.BitLen())
		case 1:
			v.E = c.Range(-800, 1022) - int64(m.BitLen())
		default:
			v.E = c.Range(-60, 60) - int64(m.BitLen())
		}
		vs[i] = v
		h := hexLit(v) + "L"
		fmt.Fprintf(&b, "long double p%d = %s;\ndouble d%d = (double)%s;\nfloat f%d = (float)%s;\n", i, h, i, h, i, h)
	}
	ir = clangIR(dir, "powerpc64-linux-gnu", b.String())
	if len(ir) < 3*n*9/10 {
		panic(fmt.Sprintf("harness: clang printed %d of %d constants", len(ir), 3*n))
	}
	for i, v := range vs {
		g := ir[fmt.Sprintf("p%d", i)]
		if g[1] == "" {
			continue
		}
		want := irPat(g[0], g[1])
		x := toBig(v, 1, allModes[c.N(len(allModes))])
		c.Begin(func() string { return bigStr(libPPC, x, v) + ", LLVM constant " + g[1] })
		c.Class(hashStr(hexLit(v)), "LLVM literal float128ppc")
		got, acc := libPPC.EncBig(x)
		if !libPPC.samePat(got, want) || acc != big.Exact {
			c.Fail("NewFromBig gave bits %016X %016X (%v), LLVM has %016X %016X", got.A, got.B, acc, want.A, want.B)
		}
		y, nan := libPPC.Big(want)
		if nan || !same(fromBig(y), v) {
			c.Fail("the pattern LLVM emits decodes to %v, the literal is %v", fromBig(y), v)
		}
		if d, ok := ir[fmt.Sprintf("d%d", i)]; ok {
			f, _ := libPPC.F64(want)
			c.Class(mix(hashStr(hexLit(v)), 1), "LLVM float128ppc -> double")
			if w := irPat(d[0], d[1]).A; math.Float64bits(f) != w {
				c.Fail("Float64() = 0x%016X, LLVM folds to 0x%016X", math.Float64bits(f), w)
			}
		}
		if d, ok := ir[fmt.Sprintf("f%d", i)]; ok {
			// LLVM narrows a double-double to float by way of double; where
			// the two roundings differ from one, it is no reference.
			if fmt32.pack(fmt32.round(fmt64.round(v).real())) == fmt32.pack(fmt32.round(v)) {
				f, _ := libPPC.F32(want)
				c.Class(mix(hashStr(hexLit(v)), 2), "LLVM float128ppc -> float")
				if w := irPat(d[0], d[1]).A; uint64(math.Float32bits(f)) != w {
					c.Fail("Float32() = 0x%08X, LLVM folds to 0x%08X", math.Float32bits(f), w)
				}
			}
		}
	}
}

// --- C29

var gen16Line = regexp.MustCompile(`\{bits: 0x([0-9A-F]{4}), want: ([^}]+)\}`)
var gen128Line = regexp.MustCompile(`\{a: 0x([0-9A-F]{16}), b: 0x([0-9A-F]{16}), want: "([^"]*)", want64: ([^}]+), acc64: big\.(\w+)\}`)

func parseWant(s string) (float64, bool) {
	switch s {
	case "math.Copysign(0, -1)":
		return math.Copysign(0, -1), true
	case "math.Inf(+1)", "math.Inf(1)":
		return math.Inf(1), true
	case "math.Inf(-1)":
		return math.Inf(-1), true
	}
	v, err := strconv.ParseFloat(s, 64)
	return v, err == nil
}

func readGen(path string) (lines []string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return strings.Split(string(b), "\n")
}

func gen16Chunk(c *C) {
	seen := map[uint64]int{}
	for ln, l := range readGen(gen16Path) {
		m := gen16Line.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		c.Begin(func() string { return fmt.Sprintf("binary16 generator, line %d: %s", ln+1, l) })
		bits, _ := strconv.ParseUint(m[1], 16, 16)
		v, ok := parseWant(m[2])
		r, nan := fmt16.decode(Pat{A: bits})
		seen[bits]++
		c.Class(bits, "binary16 "+patClass(lib16, Pat{A: bits}))
		if !ok || nan || r.Inf {
			c.Fail("not a vector of a finite pattern")
			continue
		}
		if got := f64Real(v); !same(got, r) {
			c.Fail("expected value %v, the pattern denotes %v", got, r)
		}
		// As a literal in Go source the value must be what it denotes: -0 is not.
		if v == 0 && math.Signbit(v) && !strings.Contains(m[2], "Copysign") {
			c.Fail("negative zero written as a literal")
		}
	}
	for i := uint64(0); i < 1<<16; i++ {
		if i>>10&0x1F == 0x1F {
			continue
		}
		if seen[i] != 1 {
			c.Begin(func() string { return fmt.Sprintf("binary16 generator, pattern 0x%04X", i) })
			c.Fail("%d vectors for the pattern, want 1", seen[i])
		}
	}
}

func gen128Chunk(c *C) {
	type half struct {
		exp  uint64
		sign uint64
	}
	groups := map[half]map[Pat]int{}
	lines := readGen(gen128Path)
	rows := 0
	for ln, l := range lines {
		m := gen128Line.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		rows++
		a, _ := strconv.ParseUint(m[1], 16, 64)
		b, _ := strconv.ParseUint(m[2], 16, 64)
		p := Pat{a, b}
		c.Begin(func() string { return fmt.Sprintf("binary128 generator, line %d: %s", ln+1, l) })
		r, nan := fmt128.decode(p)
		c.Class(patHash(p), "binary128 "+patClass(lib128, p))
		k := half{a >> 48 & 0x7FFF, a >> 63}
		if groups[k] == nil {
			groups[k] = map[Pat]int{}
		}
		groups[k][Pat{a & (1<<48 - 1), b}]++
		if nan || r.Inf {
			c.Fail("not a vector of a finite pattern")
			continue
		}
		q := fmt64.round(r)
		if v, ok := parseWant(m[4]); !ok || math.Float64bits(v) != fmt64.pack(q).A {
			c.Fail("want64 %s, the nearest float64 is 0x%016X", m[4], fmt64.pack(q).A)
		} else if v == 0 && math.Signbit(v) && !strings.Contains(m[4], "Copysign") {
			c.Fail("negative zero written as a literal")
		}
		if m[5] != accName(q.Acc) {
			c.Fail("acc64 %s, want %s", m[5], accName(q.Acc))
		}
		want := layout(r.Neg, "", 0, 'g', 35, false)
		if !r.IsZero() {
			digs, dp := digsOf(fixedRef(r, decade(r)-34), decade(r)-34)
			want = layout(r.Neg, digs, dp, 'g', 35, false)
		}
		if m[3] != want {
			c.Fail("want %q, 35 digits of the value are %q", m[3], want)
		}
	}
	c.Begin(func() string { return fmt.Sprintf("binary128 generator, %d vectors", rows) })
	// Both signs, the same fractions everywhere, subnormals included.
	ref := groups[half{0, 0}]
	total := 0
	count := func(m map[Pat]int) (n int) {
		for _, k := range m {
			n += k
		}
		return
	}
	mants := count(ref)
	exps := map[uint64]int{}
	for k, g := range groups {
		o := groups[half{k.exp, 1 - k.sign}]
		if len(o) != len(g) || count(o) != count(g) {
			c.Fail("exponent 0x%04X has %d vectors of sign %d and %d of the other", k.exp, count(g), k.sign, count(o))
			continue
		}
		mult := 0
		for p, n := range g {
			rn := ref[p]
			if rn == 0 || n%rn != 0 || mult != 0 && n/rn != mult {
				c.Fail("fraction %012X %016X appears %d times under exponent 0x%04X and %d times among the subnormals", p.A, p.B, n, k.exp, rn)
				break
			}
			mult = n / rn
		}
		if len(g) != len(ref) {
			c.Fail("exponent 0x%04X has %d distinct fractions, the subnormals %d", k.exp, len(g), len(ref))
		}
		if k.exp != 0 && k.sign == 0 {
			exps[k.exp] = mult
			total += mult
		}
		if k.exp == 0 && mult != 1 {
			c.Fail("subnormal fractions repeated")
		}
	}
	if mants < 512 || total < 64 {
		c.Fail("%d exponents and %d fractions, announced are 64 and 512", total, mants)
	}
	// Drawn from 32766 and 2^112: a few exponents may be the same, fractions not.
	if len(exps) < 60 || len(ref) < mants {
		c.Fail("only %d different exponents and %d different fractions among %d and %d", len(exps), len(ref), total, mants)
	}
}

func setupExt() {
	register("C28", []string{"gcc double -> binary16", "gcc double -> binary128", "gcc double -> float80x86", "gcc float -> binary16", "gcc binary16 -> double", "gcc binary128 -> float", "gcc float80x86 -> double", "gcc float80x86 -> binary16", "gcc binary128 -> float80x86", "gcc float80x86 -> binary128", "gcc bfloat -> float",
		"LLVM literal binary16", "LLVM literal binary128", "LLVM literal float80x86", "LLVM literal float128ppc", "LLVM float128ppc -> double", "LLVM float128ppc -> float"},
		&Stream{Name: "gcc", Quick: 48, Thorough: 960, Run: gccChunk},
		&Stream{Name: "llvm", Quick: 32, Thorough: 640, Run: llvmChunk})
	register("C29", []string{"binary16 normal+", "binary16 normal-", "binary16 subnormal+", "binary16 zero-", "binary16 zero+", "binary128 normal+", "binary128 normal-", "binary128 subnormal+", "binary128 subnormal-"},
		&Stream{Name: "gen-binary16", Quick: 1, Thorough: 1, Run: gen16Chunk},
		&Stream{Name: "gen-binary128", Quick: 1, Thorough: 1, Run: gen128Chunk})
}

// setupConfigs registers the workload that C20 repeats in every build
// configuration: the streams of the other properties.
func setupConfigs() {
	skip := map[string]bool{"isexact-complete": true, "native-all-float32-to-half": true}
	var ss []*Stream
	for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C21", "C23", "C24", "C25", "C26", "C27", "C30", "C33", "C34", "C35", "C38", "C39"} {
		for _, s := range props[id].Streams {
			if !skip[s.Name] {
				ss = append(ss, s)
			}
		}
	}
	register("C20", nil, ss...)
}
