package main

// C18: many goroutines over shared values. The workers exchange nothing while
// they run (no channel, lock or atomic of ours orders them), so the race
// detector sees the library's own accesses unsynchronised; each keeps a
// private log that is examined afterwards.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mewmew/float"
	"github.com/mewmew/float/float128ppc"
	fstrconv "github.com/mewmew/float/internal/strconv"
)

type shared struct {
	l      *Lib
	p      Pat
	x      *big.Float
	v      Real
	before snap
	f64    float64
	u      uint64
	size   int
	fm     byte
	prec   int
	base   int
}

const nOps = 12

var opNames = [nOps]string{"Big", "NewFromBig", "Float64", "Float32", "NewFromFloat64", "NewFromFloat32", "Bits/fields", "exported values", "FormatFloat/AppendFloat", "FormatInt/AppendUint", "IsExact", "illegal arguments"}

// do runs one operation and digests what it returned. Returned numbers are
// the caller's own, so it overwrites them when scribble is set.
func (s *shared) do(op int, scribble bool) (h uint64) {
	switch op {
	case 0:
		x, nan := s.l.Big(s.p)
		h = hashStr(fmt.Sprintf("%+v %v", snapshot(x), nan))
		if scribble {
			x.SetPrec(7).SetMode(big.ToZero).SetInt64(int64(s.u))
		}
	case 1:
		p, a := s.l.EncBig(s.x)
		h = mix(mix(p.A, p.B), uint64(int64(a)))
	case 2:
		f, a := s.l.F64(s.p)
		h = mix(math.Float64bits(f), uint64(int64(a)))
	case 3:
		f, a := s.l.F32(s.p)
		h = mix(uint64(math.Float32bits(f)), uint64(int64(a)))
	case 4:
		p, a := s.l.EncF64(s.f64)
		h = mix(mix(p.A, p.B), uint64(int64(a)))
	case 5:
		p, a := s.l.EncF32(toF32(s.f64))
		h = mix(mix(p.A, p.B), uint64(int64(a)))
	case 6:
		p := s.l.Bits(s.p)
		h = mix(p.A, p.B)
		if s.l.Fields != nil {
			f := s.l.Fields(s.p)
			h = mix(mix(h, uint64(f.Exp)), f.FLo^f.FHi)
		} else if float128ppc.NewFromBits(s.p.A, s.p.B).IsNaN() {
			h++
		}
		lbf(Pat{A: s.p.A & 0xFFFF}).Big()
	case 7:
		for i, p := range s.l.Specials() {
			h = mix(mix(h, p.A), p.B)
			x, nan := s.l.BigOfSpecial(i)
			h = mix(h, hashStr(fmt.Sprintf("%+v %v", snapshot(x), nan)))
			if scribble {
				x.SetInt64(5)
			}
		}
	case 8:
		h = hashStr(fstrconv.FormatFloat(s.f64, s.fm, s.prec, s.size))
		b := fstrconv.AppendFloat(make([]byte, 2, 2+int(s.u%50)), s.f64, s.fm, s.prec, s.size)
		h = mix(h, hashStr(string(b)))
		if scribble {
			for i := range b {
				b[i] = 'x'
			}
		}
	case 9:
		h = hashStr(fstrconv.FormatInt(int64(s.u), s.base))
		h = mix(h, hashStr(fstrconv.FormatUint(s.u, s.base)))
		h = mix(h, hashStr(fstrconv.Itoa(int(int32(s.u)))))
		b := fstrconv.AppendUint(nil, s.u, s.base)
		b = fstrconv.AppendInt(b, int64(s.u), s.base)
		c := fstrconv.AppendInt(make([]byte, 0, 4), int64(s.u>>57), 10)
		h = mix(mix(h, hashStr(string(b))), hashStr(string(c)))
		if scribble {
			for i := range b {
				b[i] = 'x'
			}
			for i := range c {
				c[i] = 'y'
			}
		}
	case 10:
		h = bsign(float.IsExact16(s.x), 0) | bsign(float.IsExact32(s.x), 1) | bsign(float.IsExact64(s.x), 2)
	case 11:
		illegalCall(int(s.u%5), s.f64, s.fm, s.size+1, s.u, 40+s.base)
	}
	return
}

type opRec struct {
	item, op   int
	h          uint64
	start, end time.Duration
	pan        string
}

func newShared(c *C, l *Lib) *shared {
	s := &shared{l: l, p: genPat(c.RNG, l), u: genInt(c.RNG), size: []int{16, 32, 64}[c.N(3)], fm: "beEfgG"[c.N(6)], prec: -1, base: 2 + c.N(35)}
	if c.Bool() {
		s.prec = genFixedPrec(c.RNG, dicts["strconv"])
	}
	if c.Bool() {
		s.base = 10
	}
	if c.Bool() {
		s.u &= 127
	}
	s.x, s.v = l.genBig(c.RNG)
	if c.OneIn(3) {
		s.x, s.v = genExactCandidate(c.RNG)
	}
	s.f64 = genFmtValue(c.RNG, s.size)
	return s
}

// akin is another item of the kind of s: a number of about the size, written
// in the same base, letter and precision.
func (s *shared) akin(c *C) *shared {
	t := *s
	if k := uint(bits.Len64(s.u)); k > 0 && c.N(4) > 0 {
		t.u = s.u ^ c.U64()>>(64-k)>>1
	}
	t.p.B ^= 1 << c.N(64)
	if s.l == lib16 {
		t.p = Pat{A: s.p.A ^ 1<<c.N(10)}
	}
	t.x = new(big.Float).Copy(s.x)
	if c.Bool() {
		t.x.Neg(t.x)
		t.v = t.v.negate()
	}
	t.f64 = math.Float64frombits(math.Float64bits(s.f64) ^ c.U64()>>(12+c.N(52)))
	return &t
}

func (s *shared) desc(op, g int) string {
	return fmt.Sprintf("%s by %d goroutines: %s; %s; %s; integer %d base %d", opNames[op], g, patStr(s.l, s.p), bigStr(s.l, s.x, s.v), fmtDesc(s.f64, s.fm, s.prec, s.size)(), s.u, s.base)
}

func concChunk(c *C) {
	epoch := time.Now()
	const nItems = 48
	items := make([]*shared, nItems)
	for i := range items {
		s := newShared(c, encLibs[c.N(len(encLibs))])
		if c.OneIn(6) { // near twin of an earlier item
			if t := items[c.N(i+1)]; t != nil {
				*s = *t
				s.p.B ^= 1 << c.N(64)
				if s.l == lib16 {
					s.p.B = 0
				}
				s.x = new(big.Float).Copy(t.x)
				s.f64 = -s.f64
			}
		}
		s.before = snapshot(s.x)
		items[i] = s
	}
	g := 8 + c.N(25)
	const per = 400
	hot := -1
	if c.N(3) == 0 { // everyone starts on the same operation
		hot = c.N(nOps)
	}
	logs := make([][]opRec, g)
	seeds := make([]uint64, g)
	for i := range seeds {
		seeds[i] = c.U64()
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for w := 0; w < g; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := &RNG{s: seeds[w]}
			log := make([]opRec, 0, per)
			<-gate
			for k := 0; k < per; k++ {
				i, op := r.N(nItems), r.N(nOps)
				if r.OneIn(3) {
					i = r.N(6)
				}
				if hot >= 0 && k < 20 {
					op = hot
					i = k % 4
				}
				rec := opRec{item: i, op: op, start: time.Since(epoch)}
				func() {
					defer func() {
						if e := recover(); e != nil {
							if !panicInTarget() {
								panic(e)
							}
							rec.pan = fmt.Sprint(e) + "\n" + shortStack()
						}
					}()
					rec.h = items[i].do(op, r.Bool())
				}()
				rec.end = time.Since(epoch)
				log = append(log, rec)
				if r.OneIn(16) {
					runtime.Gosched()
				}
				if r.OneIn(300) {
					time.Sleep(time.Duration(r.N(50)) * time.Microsecond)
				}
			}
			logs[w] = log
		}()
	}
	close(gate)
	wg.Wait()

	// Offline: every record against the same call made alone, and against the
	// reference.
	type key struct{ item, op int }
	alone := map[key]uint64{}
	type ev struct {
		t     time.Duration
		start bool
		w     int
		rec   *opRec
	}
	var evs []ev
	for w := range logs {
		for j := range logs[w] {
			rec := &logs[w][j]
			s := items[rec.item]
			c.Begin(func() string { return s.desc(rec.op, g) })
			if rec.pan != "" {
				c.Fail("panic: %s", rec.pan)
				continue
			}
			k := key{rec.item, rec.op}
			want, ok := alone[k]
			if !ok {
				want = s.do(rec.op, false)
				alone[k] = want
				checkAlone(c, s, rec.op)
			}
			if rec.h != want {
				c.Fail("a concurrent call returned something else than the same call made alone")
			}
			c.Class(mix(mix(want, uint64(rec.op)), uint64(w)), opNames[rec.op])
			evs = append(evs, ev{rec.start, true, w, rec}, ev{rec.end, false, w, rec})
		}
	}
	for i, s := range items {
		c.Begin(func() string { return fmt.Sprintf("shared argument %d: %s", i, bigStr(s.l, s.x, s.v)) })
		if snapshot(s.x) != s.before {
			c.Fail("the shared argument changed from %+v to %+v", s.before, snapshot(s.x))
		}
	}
	// Which calls really overlapped in time?
	sort.Slice(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	active := map[int]*opRec{}
	pairs := map[uint64]struct{}{}
	for _, e := range evs {
		if !e.start {
			delete(active, e.w)
			continue
		}
		for _, o := range active {
			a, b := o.op, e.rec.op
			if a > b {
				a, b = b, a
			}
			c.classes[fmt.Sprintf("overlap %s | %s", opNames[a], opNames[b])]++
			c.classes["overlapping call pairs"]++
			if o.item == e.rec.item {
				c.classes["overlapping call pairs on the same value"]++
			}
			h := mix(mix(uint64(o.op), uint64(e.rec.op)), mix(uint64(o.item), uint64(e.rec.item)))
			pairs[h] = struct{}{}
		}
		active[e.w] = e.rec
	}
	c.classes["distinct overlapping pairs of calls"] += int64(len(pairs))
}

// coldChunk: a process whose first calls of each kind are made by several
// goroutines at once. In every round the goroutines leave a barrier within
// fractions of a microsecond of one another and make the same kind of call, on
// different values of one type, for the first time in the process: whatever
// the library builds on first use is being built while others ask for it.
func coldChunk(c *C) {
	type round struct {
		op    int
		l     *Lib
		items []*shared
	}
	var rounds []*round
	for op := 0; op < nOps; op++ {
		libs := encLibs
		if op >= 8 {
			libs = encLibs[:1]
		}
		for _, l := range libs {
			rounds = append(rounds, &round{op: op, l: l})
		}
		if op >= 8 && op <= 10 { // what is built on first use may depend on the argument
			for k := 0; k < 8; k++ {
				rounds = append(rounds, &round{op: op, l: libs[0]})
			}
		}
	}
	for i := len(rounds) - 1; i > 0; i-- {
		j := c.N(i + 1)
		rounds[i], rounds[j] = rounds[j], rounds[i]
	}
	const g, per, nItems = 8, 6, 12
	for _, r := range rounds {
		alike := c.Bool()
		for i := 0; i < nItems; i++ {
			s := newShared(c, r.l)
			if alike && i > 0 {
				s = r.items[0].akin(c)
			}
			s.before = snapshot(s.x)
			r.items = append(r.items, s)
		}
	}
	recs := make([][]opRec, g)
	seeds := make([]uint64, g)
	for i := range seeds {
		seeds[i] = c.U64()
	}
	arrived := make([]int32, len(rounds))
	var wg sync.WaitGroup
	epoch := time.Now()
	for w := 0; w < g; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := &RNG{s: seeds[w]}
			log := make([]opRec, 0, len(rounds)*per)
			for k, rd := range rounds {
				skew := 0
				if r.Bool() {
					skew = r.N(1 << uint(r.N(14)))
				}
				atomic.AddInt32(&arrived[k], 1)
				for n := 0; atomic.LoadInt32(&arrived[k]) < g; n++ {
					if n > 20000 {
						runtime.Gosched()
					}
				}
				for ; skew > 0; skew-- {
					spin(skew)
				}
				for j := 0; j < per; j++ {
					i := r.N(nItems)
					rec := opRec{item: i, op: k, start: time.Since(epoch)}
					func() {
						defer func() {
							if e := recover(); e != nil {
								if !panicInTarget() {
									panic(e)
								}
								rec.pan = fmt.Sprint(e) + "\n" + shortStack()
							}
						}()
						rec.h = rd.items[i].do(rd.op, false)
					}()
					rec.end = time.Since(epoch)
					log = append(log, rec)
				}
			}
			recs[w] = log
		}()
	}
	wg.Wait()
	for k, rd := range rounds {
		want := make([]uint64, nItems)
		for i, s := range rd.items {
			c.Begin(func() string { return s.desc(rd.op, g) })
			if snapshot(s.x) != s.before {
				c.Fail("the shared argument changed from %+v to %+v", s.before, snapshot(s.x))
			}
			want[i] = s.do(rd.op, false)
			checkAlone(c, s, rd.op)
		}
		overlap := 0
		var last time.Duration
		var first []*opRec
		for w := range recs {
			for j := k * per; j < (k+1)*per; j++ {
				rec := &recs[w][j]
				s := rd.items[rec.item]
				c.Begin(func() string { return s.desc(rd.op, g) })
				if rec.pan != "" {
					c.Fail("panic: %s", rec.pan)
					continue
				}
				if rec.h != want[rec.item] {
					c.Fail("among the first calls of the process, made concurrently, one returned something else than the same call made alone")
				}
				c.Class(mix(mix(rec.h, uint64(rd.op)), uint64(w)), "cold "+opNames[rd.op])
			}
			first = append(first, &recs[w][k*per])
		}
		sort.Slice(first, func(i, j int) bool { return first[i].start < first[j].start })
		for _, f := range first {
			if f.start < last {
				overlap++
			}
			if f.end > last {
				last = f.end
			}
		}
		c.classes["first calls that overlapped another goroutine's first call of the kind"] += int64(overlap)
	}
}

// unevenChunk: one kind of call by many goroutines on one or two processors. A
// goroutine that is put aside in the middle of its call for the time slices of
// all the others finds tens of thousands of calls made when it continues.
func unevenChunk(c *C) {
	type kind struct {
		op int
		l  *Lib
	}
	var kinds []kind
	for op := 0; op < nOps; op++ {
		for i, l := range encLibs {
			if op < 8 || i == 0 {
				kinds = append(kinds, kind{op, l})
			}
		}
	}
	kd := kinds[c.Chunk%len(kinds)]
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1 + c.Chunk/len(kinds)%2))
	span := 400 * time.Millisecond
	if c.Tier != "quick" {
		span = 3 * time.Second
	}
	items := make([]*shared, 32)
	want := make([]uint64, len(items))
	for i := range items {
		items[i] = newShared(c, kd.l)
		items[i].before = snapshot(items[i].x)
		c.Begin(func() string { return items[i].desc(kd.op, 1) })
		want[i] = items[i].do(kd.op, false)
		checkAlone(c, items[i], kd.op)
	}
	const g = 16
	type rec struct {
		calls, parted int64
		bad           int
		pan           string
	}
	recs := make([]rec, g)
	seeds := make([]uint64, g)
	for i := range seeds {
		seeds[i] = c.U64()
	}
	var wg sync.WaitGroup
	for w := 0; w < g; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			me := rec{bad: -1}
			r := &RNG{s: seeds[w]}
			i := 0
			defer func() {
				if e := recover(); e != nil {
					if !panicInTarget() {
						panic(e)
					}
					me.bad, me.pan = i, fmt.Sprint(e)+"\n"+shortStack()
				}
				recs[w] = me
			}()
			start := time.Now()
			for last := start; last.Sub(start) < span && me.bad < 0; {
				i = r.N(len(items))
				h := items[i].do(kd.op, r.Bool())
				if h != want[i] {
					me.bad = i
				}
				me.calls++
				now := time.Now()
				if now.Sub(last) > 5*time.Millisecond {
					me.parted++
				}
				last = now
			}
		}()
	}
	wg.Wait()
	for _, r := range recs {
		if r.bad >= 0 {
			c.Begin(func() string { return items[r.bad].desc(kd.op, g) })
			if r.pan != "" {
				c.Fail("panic: %s", r.pan)
			} else {
				c.Fail("a call put aside for others in the middle, or one of those, returned something else than the same call made alone")
			}
		}
		c.classes["calls on one or two processors"] += r.calls
		c.classes["calls put aside in the middle"] += r.parted
	}
	for i, s := range items {
		c.Begin(func() string { return fmt.Sprintf("shared argument %d: %s", i, bigStr(s.l, s.x, s.v)) })
		c.Class(mix(mix(want[i], uint64(kd.op)), hashStr(kd.l.Name)), opNames[kd.op])
		if snapshot(s.x) != s.before {
			c.Fail("the shared argument changed from %+v to %+v", s.before, snapshot(s.x))
		}
	}
}

//go:noinline
func spin(n int) int { return n*n + 1 }

// checkAlone ties the sequential result to the reference.
func checkAlone(c *C, s *shared, op int) {
	switch op {
	case 0:
		x, nan := s.l.Big(s.p)
		checkBigOf(c, s.l, s.p, x, nan, "Big()")
	case 1:
		p, acc := s.l.EncBig(s.x)
		if want, wacc, _ := s.l.encRef(s.v); !s.l.samePat(p, want) || int(acc) != wacc {
			c.Fail("NewFromBig gave %s %v, want %s %v", patStr(s.l, p), acc, patStr(s.l, want), accName(wacc))
		}
	}
}

func setupConc() {
	register("C18", append([]string{"overlapping call pairs", "overlapping call pairs on the same value"}, opNames[:]...),
		&Stream{Name: "concurrent", Quick: 60, Thorough: 960, Run: concChunk})
	register("C18-uneven", nil, &Stream{Name: "uneven", Quick: 36 * 6, Thorough: 36 * 16, Run: unevenChunk})
	register("C18-cold", nil, &Stream{Name: "cold", Quick: 1, Thorough: 1, Run: coldChunk})
}
