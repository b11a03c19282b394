prop = 'C16'
needs = 'a number with a rounding mode other than nearest-even that is too large for half precision'
breaks = 'the rounding mode of the argument is switched during the conversion and not restored when the result is infinite'
edits = [
('binary16/binary16.go',
'''	// +-Inf
	zero := big.NewFloat(0)
	switch {
	case x.IsInf():
''',
'''	mode, arg := x.Mode(), x
	arg.SetMode(big.ToNearestEven)
	acc0 := x.Acc()
	_ = acc0
	// +-Inf
	zero := big.NewFloat(0)
	switch {
	case x.IsInf():
		arg.SetMode(mode)
'''),
('binary16/binary16.go',
'''	case x.Cmp(zero) == 0:
		if x.Signbit() {
''',
'''	case x.Cmp(zero) == 0:
		arg.SetMode(mode)
		if x.Signbit() {
'''),
('binary16/binary16.go',
'''		return Zero, acc
	}

	// Sign
''',
'''		arg.SetMode(mode)
		return Zero, acc
	}
	arg.SetMode(mode)

	// Sign
'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/binary16"
)

func main() {
	x := big.NewFloat(1e10).SetMode(big.AwayFromZero)
	binary16.NewFromBig(x)
	if x.Mode() != big.AwayFromZero {
		fmt.Println("mode is now", x.Mode())
		os.Exit(1)
	}
}
'''
