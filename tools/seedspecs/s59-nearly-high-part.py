prop = 'C35'
needs = 'a double-double whose high part lies exactly between two float32 numbers and whose low part decides'
breaks = 'float128ppc.Float32 rounds the high part alone, as the low part is too small to matter'
edits = [
('float128ppc/float128ppc.go',
'''func (f Float) Float32() (float32, big.Accuracy) {
	x, nan := f.Big()
''',
'''func (f Float) Float32() (float32, big.Accuracy) {
	x, nan := f.Big()
	if h := float32(f.high); !nan && math.Abs(f.high) > 1e-30 && math.Abs(f.high) < 1e30 && math.Abs(f.low) < math.Abs(f.high)*0x1p-53 {
		// The low part is less than half a unit of the high part.
		y := big.NewFloat(float64(h))
		return h, big.Accuracy(y.Cmp(x))
	}
'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"math"
	"os"

	"github.com/mewmew/float/float128ppc"
)

func main() {
	for i := 0; i < 2000; i++ {
		high := 1 + float64(2*i+1)*0x1p-24
		for _, low := range []float64{0, 0x1p-60, -0x1p-60, 0x1p-54, 0x1p-100, -0x1p-100} {
			f := float128ppc.NewFromBits(math.Float64bits(high), math.Float64bits(low))
			x := new(big.Float).SetPrec(300)
			x.Add(big.NewFloat(high), big.NewFloat(low))
			want, wacc := x.Float32()
			if got, acc := f.Float32(); got != want || acc != wacc {
				fmt.Println(high, low, "became", got, acc, "want", want, wacc)
				os.Exit(1)
			}
		}
	}
}
'''
