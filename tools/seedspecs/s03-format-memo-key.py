prop = "C17"
needs = "two consecutive slow-path formatting calls whose values have the same bit pattern in formats of different size, with the same verb and precision"
breaks = "a memo of the last slow-path result is keyed by the bit pattern, verb and precision but not by the size of the format"
edits = [("internal/strconv/ftoa.go", '''func bigFtoa(dst []byte, prec int, fmt byte, neg bool, mant uint64, exp int, flt *floatInfo) []byte {
	d := new(decimal)
''', '''func bigFtoa(dst []byte, prec int, fmt byte, neg bool, mant uint64, exp int, flt *floatInfo) []byte {
	// Printing a table of equal values repeats the same slow conversion.
	key := memoKey{mant: mant, biased: exp - flt.bias, neg: neg, prec: prec, fmt: fmt}
	if m, ok := lastBig.Load().(memo); ok && m.key == key {
		return append(dst, m.text...)
	}
	n := len(dst)
	dst = bigFtoaSlow(dst, prec, fmt, neg, mant, exp, flt)
	lastBig.Store(memo{key: key, text: string(dst[n:])})
	return dst
}

type memoKey struct {
	mant   uint64
	biased int
	neg    bool
	prec   int
	fmt    byte
}

type memo struct {
	key  memoKey
	text string
}

var lastBig atomic.Value // of memo

func bigFtoaSlow(dst []byte, prec int, fmt byte, neg bool, mant uint64, exp int, flt *floatInfo) []byte {
	d := new(decimal)
'''), ("internal/strconv/ftoa.go", '''	"math"
''', '''	"math"
	"sync/atomic"
''')]
main = '''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	// The smallest subnormal number of two formats.
	strconv.FormatFloat(float64(math.Float32frombits(1)), 'e', 20, 32)
	s := strconv.FormatFloat(math.Float64frombits(1), 'e', 20, 64)
	if s != "4.94065645841246544177e-324" {
		fmt.Println("got", s)
		os.Exit(1)
	}
}
'''
