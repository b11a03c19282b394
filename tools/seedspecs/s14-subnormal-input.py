prop = 'C12'
needs = 'a subnormal float64 with its highest fraction bit clear'
breaks = 'a direct conversion of subnormal float64 values to x87 forgets to shift out the leading zeros of the fraction beyond the first'
edits = [
('float80x86/float80x86.go',
'''	y := big.NewFloat(x)
	y.SetPrec(precision)
''',
'''	if bits := math.Float64bits(x); bits>>52&0x7FF == 0 && bits<<12 != 0 {
		// Denormalized in double precision, and normalized here.
		m := bits << 12
		exp := bias - 1023
		for i := 0; i < 2 && m>>63 == 0; i++ {
			m <<= 1
			exp--
		}
		return Float{se: uint16(bits>>48)&0x8000 | uint16(exp), m: m}, big.Exact
	}
	y := big.NewFloat(x)
	y.SetPrec(precision)
'''),
]
main = '''package main

import (
	"fmt"
	"os"
	"math"

	"github.com/mewmew/float/float80x86"
)

func main() {
	f, _ := float80x86.NewFromFloat64(math.SmallestNonzeroFloat64)
	if se, m := f.Bits(); se != 16383-1074 || m != 1<<63 {
		fmt.Printf("got %x %x\\n", se, m)
		os.Exit(1)
	}
}
'''
