prop = 'C09'
needs = 'a number with a rounding mode other than nearest-even whose result is denormalized'
breaks = 'denormalized results are rounded in the mode of the argument'
edits = [
('float80x86/float80x86.go',
'''		y.SetPrec(uint(prec)).Set(x)
''',
'''		if prec == precision {
			y.SetPrec(precision).Set(x)
		} else {
			y.Copy(x).SetPrec(uint(prec))
		}
'''),
('float80x86/float80x86.go',
'''	zero := big.NewFloat(0)
	switch {
	case x.IsInf():
''',
'''	zero := new(big.Float)
	switch {
	case x.IsInf():
'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/float80x86"
)

func main() {
	x := new(big.Float).SetMantExp(big.NewFloat(1.25), -16445)
	x.SetMode(big.ToPositiveInf)
	f, _ := float80x86.NewFromBig(x)
	if _, m := f.Bits(); m != 1 {
		fmt.Println("got", m)
		os.Exit(1)
	}
}
'''
