//go:build linux

package main

// C40: memory. Arguments are put into pages that cannot be written, with
// nothing readable behind them, so that every stray access faults where it
// happens. The sanitizer builds run the streams of "C40-san" as well.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"reflect"
	"runtime/debug"
	"syscall"
	"unsafe"

	"github.com/mewmew/float"
	fstrconv "github.com/mewmew/float/internal/strconv"
)

// fence is one page for structures, one for words and bytes that are only
// read, and one for memory that may be written, each with an inaccessible
// page on either side of it.
type fence struct {
	mem           []byte
	page          int
	obj, ro, rw   []byte
	mantOff       uintptr
	writable      bool
	start, finish uintptr
}

func newFence() *fence {
	p := syscall.Getpagesize()
	m, err := syscall.Mmap(-1, 0, 9*p, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	f := &fence{mem: m, page: p, obj: m[p : 2*p : 2*p], ro: m[3*p : 5*p : 5*p], rw: m[5*p : 7*p : 7*p], writable: true}
	f.start = uintptr(unsafe.Pointer(&m[0]))
	f.finish = f.start + uintptr(len(m))
	for _, i := range []int{0, 2, 7, 8} {
		f.protect(m[i*p:(i+1)*p], syscall.PROT_NONE)
	}
	fl, ok := reflect.TypeOf(big.Float{}).FieldByName("mant")
	if !ok || fl.Type.Kind() != reflect.Slice || fl.Type.Elem().Kind() != reflect.Uint {
		panic("the layout of big.Float is not the expected one")
	}
	f.mantOff = fl.Offset
	return f
}

func (f *fence) protect(b []byte, how int) {
	if err := syscall.Mprotect(b, how); err != nil {
		panic(err)
	}
}

func (f *fence) open() {
	if !f.writable {
		f.protect(f.obj, syscall.PROT_READ|syscall.PROT_WRITE)
		f.protect(f.ro, syscall.PROT_READ|syscall.PROT_WRITE)
		f.writable = true
	}
}

func (f *fence) seal() {
	if f.writable {
		f.protect(f.obj, syscall.PROT_READ)
		f.protect(f.ro, syscall.PROT_READ)
		f.writable = false
	}
}

func (f *fence) free() {
	if err := syscall.Munmap(f.mem); err != nil {
		panic(err)
	}
}

// number puts x where it can only be read, its last word just before memory
// that cannot be read (behind) or its first just behind such memory.
func (f *fence) number(x *big.Float, behind bool) (*big.Float, bool) {
	f.open()
	size := int(unsafe.Sizeof(*x))
	at := 0
	if behind {
		at = f.page - size
		at -= at % 16
	}
	y := (*big.Float)(unsafe.Pointer(&f.obj[at]))
	copy(f.obj[at:at+size], unsafe.Slice((*byte)(unsafe.Pointer(x)), size))
	src := *(*[]big.Word)(unsafe.Add(unsafe.Pointer(x), f.mantOff))
	dst := (*[]big.Word)(unsafe.Add(unsafe.Pointer(y), f.mantOff))
	if len(src) == 0 {
		*dst = nil
		f.seal()
		return y, true
	}
	n := len(src) * (bits.UintSize / 8)
	if n > len(f.ro) {
		return nil, false
	}
	// The page behind f.ro is f.rw, closed meanwhile.
	off := 0
	if behind {
		off = len(f.ro) - n
	}
	m := unsafe.Slice((*big.Word)(unsafe.Pointer(&f.ro[off])), len(src))
	copy(m, src)
	*dst = m[:len(m):len(m)]
	f.protect(f.rw, syscall.PROT_NONE)
	f.seal()
	return y, true
}

func (f *fence) reopen() { f.protect(f.rw, syscall.PROT_READ|syscall.PROT_WRITE) }

// guarded runs a call of the library and reports accesses to memory that is
// closed.
func (f *fence) guarded(c *C, what string, call func()) (ok bool) {
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		a, isFault := e.(interface{ Addr() uintptr })
		if _, stop := e.(stopChunk); stop || !isFault || !panicInTarget() {
			panic(e)
		}
		at := "elsewhere"
		p := uintptr(f.page)
		if x := a.Addr(); x >= f.start && x < f.finish {
			switch i := (x - f.start) / p; {
			case i == 1:
				at = "the number given (written to)"
			case i == 3 || i == 4:
				at = "the words or bytes given (written to)"
			default:
				at = "memory beside what was given"
			}
		}
		c.Fail("%s touches memory it must not: %v: %s\n%s", what, e, at, shortStack())
	}()
	call()
	return true
}

var memOps = [...]string{"binary16.NewFromBig", "binary128.NewFromBig", "float80x86.NewFromBig", "float128ppc.NewFromBig", "IsExact16", "IsExact32", "IsExact64"}

// memNumber hands a number that cannot be written to every function that
// takes one.
func memNumber(c *C, f *fence, x *big.Float, v Real, l *Lib, op int, behind bool) {
	c.Begin(func() string { return memOps[op] + ", argument in read-only memory: " + bigStr(l, x, v) })
	y, ok := f.number(x, behind)
	if !ok {
		return
	}
	defer f.reopen()
	var out [2]uint64
	call := func(x *big.Float) (r [2]uint64) {
		switch op {
		case 4:
			r[0] = b2u(float.IsExact16(x))
		case 5:
			r[0] = b2u(float.IsExact32(x))
		case 6:
			r[0] = b2u(float.IsExact64(x))
		default:
			p, a := encLibs[op].EncBig(x)
			r = [2]uint64{p.A + uint64(a+1)<<62, p.B}
		}
		return
	}
	if !f.guarded(c, memOps[op], func() { out = call(y) }) {
		return
	}
	want := call(x)
	c.Obs(out[:]...)
	kind := "finite"
	if v.Inf {
		kind = "inf"
	} else if v.IsZero() {
		kind = "zero"
	}
	side := "start"
	if behind {
		side = "end"
	}
	if !v.Inf && !v.IsZero() && x.MinPrec() > 64 {
		kind = "long"
	}
	c.Class(mix(mix(out[0], uint64(x.Prec())), uint64(op)), fmt.Sprintf("%s %s at the %s of a page, mode %v", memOps[op], kind, side, x.Mode()))
	if out != want {
		c.Fail("%s gave %X for the number in read-only memory and %X for its copy", memOps[op], out, want)
	}
}

// memAppend appends to bytes that cannot be written, with room behind them
// (spare) that can, or none.
func memAppend(c *C, f *fence, prefix []byte, spare int, op int, v float64, fm byte, prec, size int, u uint64, base int) {
	c.Begin(func() string {
		return fmt.Sprintf("append op %d to %d read-only bytes with %d writable ones behind: %s; integer %d base %d", op, len(prefix), spare, fmtDesc(v, fm, prec, size)(), u, base)
	})
	text := func() string {
		switch op {
		case 0:
			return fstrconv.FormatFloat(v, fm, prec, size)
		case 1:
			return fstrconv.FormatInt(int64(u), base)
		}
		return fstrconv.FormatUint(u, base)
	}
	app := func(dst []byte) []byte {
		switch op {
		case 0:
			return fstrconv.AppendFloat(dst, v, fm, prec, size)
		case 1:
			return fstrconv.AppendInt(dst, int64(u), base)
		}
		return fstrconv.AppendUint(dst, u, base)
	}
	want := text()
	f.open()
	n := len(prefix)
	copy(f.ro[len(f.ro)-n:], prefix)
	for i := range f.rw {
		f.rw[i] = 0xA5
	}
	f.seal()
	// The two areas are neighbours: the bytes given end where the room begins.
	whole := f.mem[5*f.page-n : 5*f.page+spare : 5*f.page+spare]
	var got []byte
	if !f.guarded(c, "appending", func() { got = app(whole[:n:len(whole)]) }) {
		return
	}
	where := "grown"
	if len(want) <= spare {
		where = "in-place"
	}
	if spare == len(f.rw) {
		where += " to the last page"
	}
	c.ObsStr(string(got))
	c.Class(mix(math.Float64bits(v), u+uint64(n)), fmt.Sprintf("append%d %s", op, where))
	if string(got) != string(prefix)+want {
		c.Fail("appending gave %q, want %q behind %q", clip(string(got)), clip(want), prefix)
	}
	// The result is the caller's to overwrite.
	f.open()
	f.guardedWrite(c, got)
	// With the room ending at the page: nothing may be touched behind it.
	if spare <= len(want)+8 || c.OneIn(4) {
		k := 2*f.page - spare
		f.seal()
		back := f.mem[5*f.page+k : 7*f.page : 7*f.page]
		for i := range back {
			back[i] = 0xA5
		}
		if f.guarded(c, "appending", func() { got = app(back[:0:len(back)]) }) && string(got) != want {
			c.Fail("appending to %d bytes of room gave %q, want %q", spare, clip(string(got)), clip(want))
		}
	}
}

// guardedWrite overwrites what a call returned, up to its capacity.
func (f *fence) guardedWrite(c *C, b []byte) {
	defer func() {
		if e := recover(); e != nil {
			if _, isFault := e.(interface{ Addr() uintptr }); !isFault {
				panic(e)
			}
			c.Fail("the bytes returned cannot be overwritten: %v", e)
		}
	}()
	b = b[:cap(b)]
	for i := range b {
		b[i] = byte(i)
	}
}

// memDecoded computes in place with what Big returned.
func memDecoded(c *C, f *fence, l *Lib, p Pat) {
	c.Begin(func() string { return patStr(l, p) + ", result overwritten" })
	defer func() {
		if e := recover(); e != nil {
			if _, isFault := e.(interface{ Addr() uintptr }); !isFault {
				panic(e)
			}
			c.Fail("the number returned cannot be overwritten: %v", e)
		}
	}()
	x, nan := l.Big(p)
	s := snapshot(x)
	words := *(*[]big.Word)(unsafe.Add(unsafe.Pointer(x), f.mantOff))
	words = words[:cap(words)]
	for i := range words {
		words[i] = big.Word(0xA5A5A5A5)
	}
	y, nan1 := l.Big(p)
	c.Class(mix(p.A, p.B), "decoded "+l.Name)
	if s1 := snapshot(y); s1 != s || nan != nan1 {
		c.Fail("decoding again gave %+v NaN=%v after the words of the first result, %+v NaN=%v, were overwritten", s1, nan1, s, nan)
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func withFence(run func(c *C, f *fence)) func(c *C) {
	return func(c *C) {
		old := debug.SetPanicOnFault(true)
		f := newFence()
		defer func() {
			f.free()
			debug.SetPanicOnFault(old)
		}()
		run(c, f)
	}
}

func genMemNumber(c *C, f *fence) {
	op := c.N(len(memOps))
	l := encLibs[c.N(len(encLibs))]
	if op < 4 {
		l = encLibs[op]
	}
	x, v := l.genBig(c.RNG)
	if op >= 4 || c.OneIn(4) {
		x, v = genExactCandidate(c.RNG)
	}
	memNumber(c, f, x, v, l, op, c.Bool())
}

func genMemAppend(c *C, f *fence) {
	prefix := make([]byte, c.N(40))
	for i := range prefix {
		prefix[i] = byte(c.U64())
	}
	op := c.N(3)
	size := []int{16, 32, 64}[c.N(3)]
	v := genFmtValue(c.RNG, size)
	u := genInt(c.RNG)
	prec := -1
	if c.Bool() {
		prec = genFixedPrec(c.RNG, dicts["strconv"])
	}
	base := 2 + c.N(35)
	if c.OneIn(3) {
		base = 10
	}
	spare := 0
	switch c.N(4) {
	case 0:
		spare = c.N(30)
	case 1:
		spare = c.N(400)
	case 2:
		spare = len(f.rw)
	}
	memAppend(c, f, prefix, spare, op, v, "beEfgG"[c.N(6)], prec, size, u, base)
}

func setupMem() {
	register("C40", []string{"binary16.NewFromBig finite at the end of a page, mode ToNearestEven", "float128ppc.NewFromBig long at the start of a page, mode ToZero",
		"IsExact16 finite at the end of a page, mode ToNearestEven", "IsExact64 long at the start of a page, mode AwayFromZero",
		"append0 grown", "append0 in-place", "append1 in-place to the last page", "append2 grown", "decoded binary128", "decoded float128ppc", "decoded bfloat"},
		&Stream{Name: "read-only-numbers", Quick: 32, Thorough: 640, Run: withFence(func(c *C, f *fence) {
			for i := 0; i < 6000; i++ {
				genMemNumber(c, f)
			}
		})},
		&Stream{Name: "read-only-bytes", Quick: 32, Thorough: 640, Run: withFence(func(c *C, f *fence) {
			for i := 0; i < 4000; i++ {
				genMemAppend(c, f)
			}
		})},
		&Stream{Name: "own-memory", Quick: 8, Thorough: 160, Run: withFence(func(c *C, f *fence) {
			for i := 0; i < 20000; i++ {
				l := allLibs[c.N(len(allLibs))]
				memDecoded(c, f, l, genPat(c.RNG, l))
			}
		})})
	// What the sanitizer builds run besides.
	ss := append([]*Stream(nil), props["C40"].Streams...)
	for _, id := range []string{"C16", "C17", "C19", "C25"} {
		ss = append(ss, props[id].Streams...)
	}
	register("C40-san", nil, ss...)
}
