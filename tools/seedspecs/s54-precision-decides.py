prop = 'C32'
needs = 'a number whose decimal expansion is longer than its shortest one, held once with 53 bits and once with more'
breaks = 'IsExact64 accepts every number held with at most 53 bits, so its answer depends on the precision of the argument'
edits = [
('float.go',
'''func IsExact64(x *big.Float) bool {
	f, acc := x.Float64()
	if acc != big.Exact {
		return false
	}
''',
'''func IsExact64(x *big.Float) bool {
	f, acc := x.Float64()
	if acc != big.Exact {
		return false
	}
	// The precision of a 64-bit value is 53 bits.
	if x.Prec() <= 53 {
		return true
	}
'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float"
)

func main() {
	for _, v := range []float64{1, 0.5, 0.1, 1e300, 3e-310, 123456789.125, -0.3} {
		x := big.NewFloat(v)
		y := new(big.Float).SetPrec(200).Set(x)
		if a, b := float.IsExact64(x), float.IsExact64(y); a != b {
			fmt.Println(v, "is exact with 53 bits:", a, "with 200 bits:", b)
			os.Exit(1)
		}
	}
}
'''
