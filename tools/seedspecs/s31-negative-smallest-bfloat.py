prop = 'C01'
needs = 'a negative denormalized bfloat16 pattern whose fraction is a power of two'
breaks = 'a shortcut for denormalized powers of two drops the sign'
edits = [
('bfloat/bfloat.go',
'''		lead = 0
		exponent = -126
''',
'''		if frac&(frac-1) == 0 {
			// A power of two; no digits to parse.
			x.SetMantExp(big.NewFloat(float64(frac)), -126-(precision-1))
			return x, false
		}
		lead, exponent = 0, -126
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/bfloat"
)

func main() {
	x, _ := bfloat.NewFromBits(0x8010).Big()
	if f, _ := x.Float64(); f != -0x1p-129 {
		fmt.Println("0x8010 is", f)
		os.Exit(1)
	}
}
'''
