prop = 'C10'
needs = 'a number of more than 2099 bits whose remainder lies just beside a midpoint of two float64'
breaks = 'the difference between the number and its high part is limited to the precision of a sum of two parts, which rounds twice'
edits = [
('float128ppc/float128ppc.go',
'''	if prec < 53 {
		prec = 53
	}
''',
'''	if prec < 53 {
		prec = 53
	} else if prec > maxPrecision {
		prec = maxPrecision
	}
'''),
('float128ppc/float128ppc.go',
'''	// +-Inf
	zero := big.NewFloat(0).SetPrec(precision)
	switch {
	case x.IsInf():
''',
'''	// +-Inf
	zero := new(big.Float)
	switch {
	case x.IsInf():
'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"math"
	"os"

	"github.com/mewmew/float/float128ppc"
)

func main() {
	// 1 + 2^-60 * (1 + 2^-53 + 2^-2500)
	x := new(big.Float).SetPrec(4000).SetInt64(1)
	for _, e := range []int{-60, -113, -2560} {
		x.Add(x, new(big.Float).SetMantExp(big.NewFloat(1), e))
	}
	f, _ := float128ppc.NewFromBig(x)
	_, lo := f.Bits()
	if want := math.Float64bits(0x1p-60 * (1 + 0x1p-52)); lo != want {
		fmt.Printf("low part %016X, want %016X\\n", lo, want)
		os.Exit(1)
	}
}
'''
