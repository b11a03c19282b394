prop = 'C08'
needs = 'a binary128 result in the upper half of the subnormal range'
breaks = 'the mask for the high word of subnormal fractions misses the top fraction bit'
edits = [
('binary128/binary128.go',
'''		mantissa, _ := mant.Int(nil)
		maskA := big.NewInt(0)
		for i := 64; i < 112; i++ {
''',
'''		mantissa, _ := mant.Int(nil)
		maskA := big.NewInt(0)
		for i := 64; i < 111; i++ {
'''),
]
main = '''package main

import (
	"fmt"
	"os"
	"math/big"

	"github.com/mewmew/float/binary128"
)

func main() {
	f, _ := binary128.NewFromBig(new(big.Float).SetMantExp(big.NewFloat(1), -16383))
	if a, b := f.Bits(); a != 1<<47 || b != 0 {
		fmt.Printf("got %x %x\\n", a, b)
		os.Exit(1)
	}
}
'''
