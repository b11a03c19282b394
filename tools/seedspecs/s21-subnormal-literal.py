prop = 'C21'
needs = 'a number of high precision next to a short decimal in the subnormal range of float64, e.g. 5e-324 with 500 bits'
breaks = 'the accuracy of narrowing is ignored for subnormal results, leaving only the decimal comparison'
edits = [
('float.go',
'''func IsExact64(x *big.Float) bool {
	f, acc := x.Float64()
	if acc != big.Exact {
''',
'''func IsExact64(x *big.Float) bool {
	f, acc := x.Float64()
	// Denormalized values have less precision; their digits are compared below.
	if acc != big.Exact && (math.Abs(f) >= 0x1p-1022 || f == 0) {
'''),
('float.go',
'''	"fmt"
''',
'''	"fmt"
	"math"
'''),
]
main = '''package main

import (
	"fmt"
	"os"
	"math/big"

	"github.com/mewmew/float"
)

func main() {
	x, _, err := big.ParseFloat("5e-324", 10, 500, big.ToNearestEven)
	if err != nil {
		panic(err)
	}
	if float.IsExact64(x) {
		fmt.Println("5e-324 accepted")
		os.Exit(1)
	}
}
'''
