prop = 'C30'
needs = 'a float64 whose exponent is the one just below the smallest normal, taken through binary128'
breaks = 'a fast path of binary128.Float64 assembles the double directly also where it is subnormal'
edits = [
('binary128/binary128.go',
'''func (f Float) Float64() (float64, big.Accuracy) {
	x, nan := f.Big()
''',
'''func (f Float) Float64() (float64, big.Accuracy) {
	// Numbers with at most 52 fraction bits in the range of float64 need no
	// rounding.
	if exp := f.Exp() - bias + 1023; exp >= 0 && exp < 0x7FF && f.b<<4 == 0 {
		bits := f.a&0x8000000000000000 | uint64(exp)<<52
		bits |= f.a & 0x0000FFFFFFFFFFFF << 4
		bits |= f.b >> 60
		return math.Float64frombits(bits), big.Exact
	}
	x, nan := f.Big()
'''),
]
main = '''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/mewmew/float/binary128"
)

func main() {
	for e := uint64(0); e < 2047; e++ {
		for _, m := range []uint64{0, 1, 1 << 51, 0xFFFFFFFFFFFFF} {
			x := math.Float64frombits(e<<52 | m)
			f, _ := binary128.NewFromFloat64(x)
			if y, _ := f.Float64(); y != x {
				fmt.Println(x, "came back as", y)
				os.Exit(1)
			}
			if e == 0 && m > 1 { // subnormals of every length
				for n := 0; n < 52; n++ {
					x := math.Float64frombits(m >> n)
					f, _ := binary128.NewFromFloat64(x)
					if y, _ := f.Float64(); y != x {
						fmt.Println(x, "came back as", y)
						os.Exit(1)
					}
				}
			}
		}
	}
}
'''
