prop = 'C10'
needs = 'a number whose remainder beyond float64 is not exactly representable and lies in the subnormal range of float64'
breaks = 'inexact subnormal low parts are flushed to zero'
edits = [
('float128ppc/float128ppc.go',
'''	return Float{high: high, low: low}, acc
}

// Bits''',
'''	if acc != big.Exact && math.Abs(low) < 0x1p-1022 {
		// Not normalized.
		low = math.Copysign(0, low)
	}
	return Float{high: high, low: low}, acc
}

// Bits'''),
]
main = '''package main

import (
	"fmt"
	"os"
	"math/big"

	"github.com/mewmew/float/float128ppc"
)

func main() {
	x := new(big.Float).SetMantExp(big.NewFloat(1), -1000).SetPrec(106)
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -1080))
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -1060))
	f, _ := float128ppc.NewFromBig(x)
	if a, b := f.Bits(); b == 0 {
		fmt.Printf("got %x %x\\n", a, b)
		os.Exit(1)
	}
}
'''
