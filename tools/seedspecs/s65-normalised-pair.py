prop = 'C14'
needs = 'a normalised double-double with a negative low part and a high part that is a power of two'
breaks = 'float128ppc.NewFromBig truncates the number to find the high part, so the pair of a decoded number can come back split differently'
edits = [
('float128ppc/float128ppc.go',
'''	high, acc := x.Float64()
	if math.IsInf(high, 0) {
''',
'''	high, acc := x.Float64()
	if frac, _ := math.Frexp(high); acc != big.Exact && math.Abs(frac) == 0.5 && math.Abs(high) > 0x1p-900 {
		// prefer parts of the same sign.
		if (acc == big.Above) == (high > 0) {
			high = math.Nextafter(high, 0)
			acc = -acc
		}
	}
	if math.IsInf(high, 0) {
'''),
]
main = '''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/mewmew/float/float128ppc"
)

func main() {
	for e := -800; e < 1000; e += 7 {
		for k := 56; k < 120; k += 3 {
			for _, s := range []float64{1, -1} {
				for _, t := range []float64{1, -1, 1.5, -1.5} {
					a, b := s*math.Ldexp(1.25, e), t*math.Ldexp(1, e-k)
					if k%2 == 0 {
						a = s * math.Ldexp(1, e)
					}
					f := float128ppc.NewFromBits(math.Float64bits(a), math.Float64bits(b))
					x, _ := f.Big()
					g, _ := float128ppc.NewFromBig(x)
					if f != g {
						fmt.Println(a, b, "came back as", g)
						os.Exit(1)
					}
				}
			}
		}
	}
}
'''
