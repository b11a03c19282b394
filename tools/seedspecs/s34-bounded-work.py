prop = 'C08'
needs = 'a number of more than 4096 bits within 2^-4096 of a midpoint between two quadruple precision numbers'
breaks = 'very long numbers are cut to 4096 bits before they are rounded'
edits = [
('binary128/binary128.go',
'''	// +-Inf
	zero := big.NewFloat(0).SetPrec(precision)
	switch {
	case x.IsInf():
''',
'''	// No need to look at every bit of very long numbers.
	if x.Prec() > 4096 {
		x = new(big.Float).SetPrec(4096).SetMode(big.ToZero).Set(x)
	}
	// +-Inf
	zero := new(big.Float)
	switch {
	case x.IsInf():
'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/binary128"
)

func main() {
	x := new(big.Float).SetPrec(6000).SetInt64(1)
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -113))
	x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), -5000))
	f, _ := binary128.NewFromBig(x)
	if _, b := f.Bits(); b != 1 {
		fmt.Println("above the midpoint, but rounded down")
		os.Exit(1)
	}
}
'''
