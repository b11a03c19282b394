prop = 'C20'
needs = 'a 32-bit build and a number whose exponent is within the bias of the largest possible'
breaks = 'binary16 tests for overflow with the biased exponent, which wraps around in a 32-bit int'
edits = [
('binary16/binary16.go',
'\tzero := big.NewFloat(0)\n\tswitch {\n\tcase x.IsInf():\n',
'\tzero := new(big.Float)\n\tif e := x.MantExp(nil) - 1 + bias; e < -precision && !x.IsInf() {\n\t\t// far too small\n\t\tacc := big.Below\n\t\tif x.Signbit() {\n\t\t\treturn NegZero, -acc\n\t\t}\n\t\treturn Zero, acc\n\t}\n\tswitch {\n\tcase x.IsInf():\n'),
]
run = 'GOARCH=386 go run .'
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/binary16"
)

func main() {
	x := new(big.Float).SetMantExp(big.NewFloat(0.75), big.MaxExp)
	if f, acc := binary16.NewFromBig(x); f != binary16.Inf || acc != big.Above {
		fmt.Printf("the largest numbers become %04X (%v)\\n", f.Bits(), acc)
		os.Exit(1)
	}
}
'''
