package main

// C17, long runs: every function of the library in turn makes hundreds of
// thousands of calls on ever new arguments, and then the same calls once more
// in another order. What fills up, wraps around or wears out after many calls
// shows as a call that no longer gives the answer it gave before; a sample of
// the calls is held against the reference in both rounds. One call is then
// repeated as often.

import (
	"fmt"
	"math"
	"math/big"

	"github.com/mewmew/float"
	fstrconv "github.com/mewmew/float/internal/strconv"
)

type longKind struct {
	name string
	gen  func(r *RNG) *call
}

// longReal is a cheap random number in and around the range of the format.
func longReal(r *RNG, l *Lib) (*big.Float, Real) {
	v := Real{Neg: r.Bool(), M: new(big.Int).SetUint64(r.U64()>>uint(r.N(63)) | 1)}
	for n := r.N(4); n > 0; n-- {
		v.M.Lsh(v.M, 64)
		v.M.Or(v.M, new(big.Int).SetUint64(r.U64()))
	}
	span := map[*Lib]int{lib16: 45, lib128: 33000, libX87: 33000, libPPC: 2200}[l]
	v.E = int64(r.N(span)-span/2) - int64(v.M.BitLen())
	prec := uint(v.M.BitLen() + r.N(3))
	mode := allModes[r.N(len(allModes))]
	return toBig(v, prec, mode), v
}

func longKinds() (ks []longKind) {
	add := func(name string, gen func(r *RNG) *call) { ks = append(ks, longKind{name, gen}) }
	pat := func(r *RNG, k *call) *call {
		if r.Bool() {
			k.p = Pat{A: r.U64(), B: r.U64()}
		} else {
			k.p = genPat(r, k.l)
		}
		k.trim()
		return k
	}
	for _, l := range allLibs {
		l := l
		add(l.Name+".Big", func(r *RNG) *call { return pat(r, &call{op: twDecode, l: l}) })
		add(l.Name+" fields", func(r *RNG) *call { return pat(r, &call{op: twFields, l: l}) })
		add(l.Name+" values", func(r *RNG) *call {
			return pat(r, &call{op: twFields, l: l, hold: true, wide: l.Native != nil && r.Bool()})
		})
	}
	for _, l := range encLibs {
		l := l
		add(l.Name+".NewFromBig", func(r *RNG) *call {
			k := &call{op: twEncode, l: l}
			k.x, k.v = longReal(r, l)
			k.prec, k.mode = k.x.Prec(), k.x.Mode()
			return k
		})
		for _, wide := range []bool{false, true} {
			wide := wide
			size := map[bool]string{false: "32", true: "64"}[wide]
			add(l.Name+".Float"+size, func(r *RNG) *call { return pat(r, &call{op: twNarrow, l: l, wide: wide}) })
			add(l.Name+".NewFromFloat"+size, func(r *RNG) *call {
				k := &call{op: twNative, l: l, wide: wide, f: math.Float64frombits(genF64Bits(r, dicts[l.Name]))}
				if !wide {
					k.f = widen(genF32Bits(r, dicts[l.Name]))
				}
				return k
			})
		}
	}
	for _, size := range []int{16, 32, 64} {
		size := size
		add(fmt.Sprintf("IsExact%d", size), func(r *RNG) *call {
			k := &call{op: twExact, l: lib16, size: size}
			k.v = Real{Neg: r.Bool(), M: new(big.Int).SetUint64(r.U64()>>uint(11+r.N(52)) | 1)}
			k.v.E = int64(r.N(60) - 50)
			k.x = toBig(k.v, uint(53+r.N(20)), big.ToNearestEven)
			k.prec, k.mode = k.x.Prec(), k.x.Mode()
			return k
		})
		for _, app := range []bool{false, true} {
			app := app
			add(fmt.Sprintf("format %d %v", size, app), func(r *RNG) *call {
				k := &call{op: twFormat, size: size, fm: "beEfgGeg"[r.N(8)], fp: r.N(24) - 1, app: app}
				k.f = ofNative(r, size)
				if k.fm == 'b' || r.Bool() {
					k.fp = -1
				}
				return k
			})
		}
	}
	for i := 0; i < 4; i++ {
		wide, app := i&1 != 0, i&2 != 0
		add(fmt.Sprintf("integer %v %v", wide, app), func(r *RNG) *call {
			k := &call{op: twInt, wide: wide, app: app, base: 10, u: r.U64() >> uint(r.N(64))}
			if r.Bool() {
				k.base = 2 + r.N(35)
			}
			return k
		})
	}
	return
}

func ofNative(r *RNG, size int) float64 {
	switch size {
	case 16:
		return float64(float32(1+float64(r.N(1024))/1024) * float32(math.Ldexp(1, r.N(30)-14)))
	case 32:
		return widen(uint32(r.U64()))
	}
	return math.Float64frombits(r.U64())
}

// quick makes the call and digests the answer.
func (k *call) quick(buf []byte) uint64 {
	switch k.op {
	case twFormat:
		switch {
		case k.app && k.fp&1 == 0:
			k.kept = fstrconv.AppendFloat(nil, k.f, k.fm, k.fp, k.size)
		case k.app:
			return hashBytes(fstrconv.AppendFloat(buf[:3], k.f, k.fm, k.fp, k.size)[3:])
		default:
			k.kept = fstrconv.FormatFloat(k.f, k.fm, k.fp, k.size)
		}
		return k.digest(buf)
	case twInt:
		switch {
		case k.app && k.wide && k.u&1 == 0:
			k.kept = fstrconv.AppendInt(nil, int64(k.u), k.base)
		case k.app && k.u&1 == 0:
			k.kept = fstrconv.AppendUint(nil, k.u, k.base)
		case k.app && k.wide:
			return hashBytes(fstrconv.AppendInt(buf[:3], int64(k.u), k.base)[3:])
		case k.app:
			return hashBytes(fstrconv.AppendUint(buf[:3], k.u, k.base)[3:])
		case k.wide:
			k.kept = fstrconv.FormatInt(int64(k.u), k.base)
		default:
			k.kept = fstrconv.FormatUint(k.u, k.base)
		}
		return k.digest(buf)
	case twDecode:
		x, nan := k.l.Big(k.p)
		k.kept = x
		return k.digest(buf) ^ bsign(nan, 0)
	case twEncode:
		p, acc := k.l.EncBig(k.x)
		return mix(mix(p.A, p.B), uint64(uint8(acc)))
	case twNative:
		var p Pat
		var acc big.Accuracy
		if k.wide {
			p, acc = k.l.EncF64(k.f)
		} else {
			p, acc = k.l.EncF32(toF32(k.f))
		}
		return mix(mix(p.A, p.B), uint64(uint8(acc)))
	case twNarrow:
		if k.wide {
			f, acc := k.l.F64(k.p)
			if f != f {
				return bsign(math.Signbit(f), 5)
			}
			return mix(math.Float64bits(f), uint64(uint8(acc)))
		}
		f, acc := k.l.F32(k.p)
		if f != f {
			return uint64(math.Float32bits(f)>>31) << 5
		}
		return mix(uint64(math.Float32bits(f)), uint64(uint8(acc)))
	case twExact:
		switch k.size {
		case 16:
			return bsign(float.IsExact16(k.x), 0)
		case 32:
			return bsign(float.IsExact32(k.x), 0)
		}
		return bsign(float.IsExact64(k.x), 0)
	}
	if k.hold {
		if k.wide {
			k.kept = k.l.Native(math.Float64frombits(k.p.A))
		} else {
			k.kept = k.l.Make(k.p)
		}
		return k.digest(buf)
	}
	var h uint64
	if k.l.Bits != nil {
		p := k.l.Bits(k.p)
		h = mix(p.A, p.B)
	}
	if k.l.Fields != nil {
		f := k.l.Fields(k.p)
		h = mix(mix(h, uint64(f.Exp)), f.FLo^f.FHi<<1)
	}
	return h
}

// digest digests what is kept of the answer, as it is now.
func (k *call) digest(buf []byte) uint64 {
	switch v := k.kept.(type) {
	case *big.Float:
		h := hashBytes(v.Append(buf[:0], 'p', 0))
		return mix(h, uint64(v.Prec())<<8|uint64(v.Mode())<<1|uint64(uint8(v.Acc()))<<40) &^ 1
	case string:
		return hashStr(v)
	case []byte:
		return hashBytes(v)
	}
	p := k.l.Look(k.kept)
	return mix(p.A, p.B)
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

func longChunk(c *C) {
	ks := longKinds()
	kind := ks[c.Chunk%len(ks)]
	n := 1 << 19
	if c.Tier != "quick" {
		n = 1 << 21
	}
	seed := c.U64()
	first := make([]uint64, n)
	h := &keep{}
	buf := make([]byte, 3, 4096)
	var k *call
	at := func(i int) {
		k = kind.gen(&RNG{s: mix(seed, uint64(i))})
	}
	var round, index int
	c.Begin(func() string {
		return fmt.Sprintf("call %d of round %d of a long run of %s: %v", index, round, kind.name, k)
	})
	c.Class(hashStr(kind.name), "long run")
	// What the caller still holds of the answers.
	held := make([]interface{}, n)
	still := func(when string) {
		for i, v := range held {
			if v == nil {
				continue
			}
			at(i)
			k.kept = v
			if got := k.digest(buf); got != (first[i] &^ nanBit(k)) {
				c.Begin(func() string { return fmt.Sprintf("call %d of a long run of %s: %v", i, kind.name, k) })
				c.Fail("what the call returned changed by the end of %s of %d calls (digests %x, %x)", when, n, got, first[i])
			}
		}
	}
	for i := 0; i < n; i++ {
		at(i)
		index, round = i, 1
		first[i] = k.quick(buf)
		held[i] = k.kept
		if i%64 == 0 {
			h.step(c, k, fmt.Sprintf("%d calls of a long run", i), i)
			h.bigs, h.slots = h.bigs[:0], h.slots[:0]
		}
	}
	still("the run")
	for i := 0; i < n; i++ {
		j := int((uint64(i)*0x9E3779B1 + 12345) & uint64(n-1))
		at(j)
		index, round = i, 2
		if got := k.quick(buf); got != first[j] {
			c.Begin(func() string { return fmt.Sprintf("call %d of round 2 of a long run of %s: %v", i, kind.name, k) })
			c.Fail("the call returned something else than the first time (digests %x, %x)", got, first[j])
		}
		c.Obs(first[j])
		if i%64 == 0 {
			h.step(c, k, fmt.Sprintf("%d calls of a long run", n+i), i)
			h.bigs, h.slots = h.bigs[:0], h.slots[:0]
		}
	}
	still("a second run")
	held = nil
	// A few calls over and over.
	m := n
	if k.op == twInt || k.op == twFields {
		m *= 16
	}
	few := make([]*call, 1+c.N(24))
	want := make([]uint64, len(few))
	for i := range few {
		few[i] = kind.gen(&RNG{s: c.U64()})
		h.step(c, few[i], "a long run", 0)
		want[i] = few[i].quick(buf)
	}
	for i := 0; i < m; i++ {
		j := i % len(few)
		if got := few[j].quick(buf); got != want[j] {
			c.Begin(func() string { return fmt.Sprintf("repetition %d of %v", i, few[j]) })
			c.Fail("the call returned something else than before (digests %x, %x)", got, want[j])
		}
	}
	c.classes["calls in long runs"] += int64(2*n + m)
}

// nanBit is the bit of the digest of an answer that is not in what is kept of it.
func nanBit(k *call) uint64 {
	if k.op == twDecode {
		return 1
	}
	return 0
}
