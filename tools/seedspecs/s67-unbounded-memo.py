prop = 'C37'
needs = 'decoding ever new binary128 values in a long-running process'
breaks = 'binary128.Big remembers the digits of each fraction it has seen, forever'
edits = [
('binary128/binary128.go',
'\tfracStr := fmt.Sprintf("%048b%064b", frac1, frac2)\n',
'\tfracStr := fracDigits(frac1, frac2)\n'),
('binary128/binary128.go',
'// Signbit reports whether f is negative or negative 0.\n',
'var digits sync.Map // binary digits by fraction\n\n// fracDigits returns the binary digits of a fraction.\nfunc fracDigits(frac1, frac2 uint64) string {\n\tk := [2]uint64{frac1, frac2}\n\tif s, ok := digits.Load(k); ok {\n\t\treturn s.(string)\n\t}\n\ts := fmt.Sprintf("%048b%064b", frac1, frac2)\n\tdigits.Store(k, s)\n\treturn s\n}\n\n// Signbit reports whether f is negative or negative 0.\n'),
('binary128/binary128.go',
'\t"math/big"\n)',
'\t"math/big"\n\t"sync"\n)'),
]
main = '''package main

import (
	"fmt"
	"os"
	"runtime"

	"github.com/mewmew/float/binary128"
)

func heap() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func main() {
	a := heap()
	for i := uint64(1); i < 200000; i++ {
		binary128.NewFromBits(0x3FFF000000000000, i*0x9E3779B97F4A7C15).Big()
	}
	if b := heap(); b > a+4000000 {
		fmt.Println("memory in use grew by", b-a, "bytes")
		os.Exit(1)
	}
}
'''
