prop = 'C12'
needs = 'a float64 just beside a midpoint of two half precision numbers, closer to it than single precision can tell'
breaks = 'float64 values in the range of normal half precision numbers go through single precision first, which rounds twice'
edits = [
('binary16/binary16.go',
'''	// Round only once, in NewFromBig.
	y := big.NewFloat(x)
	return NewFromBig(y)
''',
'''	if a := math.Abs(x); a >= 0x1p-14 && a < 65504 {
		// Single precision covers all of half precision; most values are exact.
		f, acc := NewFromBig(big.NewFloat(float64(float32(x))))
		if acc == big.Exact {
			z, _ := f.Big()
			acc = big.Accuracy(z.Cmp(big.NewFloat(x)))
		}
		return f, acc
	}
	y := big.NewFloat(x)
	return NewFromBig(y)
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/binary16"
)

func main() {
	f, _ := binary16.NewFromFloat64(1 + 0x1p-11 + 0x1p-40)
	if f.Bits() != 0x3C01 {
		fmt.Printf("got %04X\\n", f.Bits())
		os.Exit(1)
	}
}
'''
