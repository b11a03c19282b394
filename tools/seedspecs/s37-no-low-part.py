prop = 'C11'
needs = 'a number whose remainder after the high part is below half of the smallest float64'
breaks = 'a remainder too small for the low part is reported as exact'
edits = [
('float128ppc/float128ppc.go',
'''	return Float{high: high, low: low}, acc
}
''',
'''	if low == 0 {
		// No low part; the high part is all there is.
		return Float{high: high}, big.Exact
	}
	return Float{high: high, low: low}, acc
}
'''),
('float128ppc/float128ppc.go',
'''	// +-Inf
	zero := big.NewFloat(0).SetPrec(precision)
	switch {
	case x.IsInf():
''',
'''	// +-Inf
	zero := new(big.Float)
	switch {
	case x.IsInf():
'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/float128ppc"
)

func main() {
	x := new(big.Float).SetPrec(2000).SetInt64(1)
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -1500))
	_, acc := float128ppc.NewFromBig(x)
	if acc != big.Below {
		fmt.Println("accuracy", acc)
		os.Exit(1)
	}
}
'''
