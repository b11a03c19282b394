prop = 'C37'
needs = 'decoding ever new subnormal binary128 values in a long-running process; any other values leave nothing'
breaks = 'binary128.Big keeps the exponent of every subnormal it has normalised, by pattern, forever'
edits = [
('binary128/binary128.go',
'\t\tlead = 0\n\t\texponent = -16382\n',
'\t\tlead = 0\n\t\tif n, ok := zeros.Load(f); ok {\n\t\t\tfrac1, frac2, exponent = normalized(frac1, frac2, n.(int))\n\t\t} else {\n\t\t\tn := bits.LeadingZeros64(frac1) - 16\n\t\t\tif frac1 == 0 {\n\t\t\t\tn = 48 + bits.LeadingZeros64(frac2)\n\t\t\t}\n\t\t\tzeros.Store(f, n)\n\t\t\tfrac1, frac2, exponent = normalized(frac1, frac2, n)\n\t\t}\n'),
('binary128/binary128.go',
'// Signbit reports whether f is negative or negative 0.\n',
'''// zeros is the number of leading zeros of denormalized fractions.
var zeros sync.Map

// normalized shifts a denormalized fraction by n bits to the left and returns
// the exponent that goes with it.
func normalized(frac1, frac2 uint64, n int) (uint64, uint64, int) {
	if n >= 48 {
		frac1, frac2 = frac2>>16, frac2<<48
		return (frac1<<uint(n-48) | frac2>>uint(64-(n-48))) & 0xFFFFFFFFFFFF, frac2 << uint(n-48), -16382 - n
	}
	return (frac1<<uint(n) | frac2>>uint(64-n)) & 0xFFFFFFFFFFFF, frac2 << uint(n), -16382 - n
}

// Signbit reports whether f is negative or negative 0.
'''),
('binary128/binary128.go',
'\t"math/big"\n)',
'\t"math/big"\n\t"math/bits"\n\t"sync"\n)'),
]
main = '''package main

import (
	"fmt"
	"os"
	"runtime"

	"github.com/mewmew/float/binary128"
)

func heap() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func main() {
	a := heap()
	for i := uint64(1); i < 200000; i++ {
		binary128.NewFromBits(i&0xFF, i*0x9E3779B97F4A7C15).Big()
	}
	if b := heap(); b > a+4000000 {
		fmt.Println("memory in use grew by", b-a, "bytes")
		os.Exit(1)
	}
}
'''
