prop = 'C09'
needs = 'an x87 result in the upper half of the subnormal range'
breaks = 'the subnormal branch starts one exponent too low'
edits = [
('float80x86/float80x86.go',
'''	if exp <= 0 {
		mant.SetMantExp''',
'''	if exp < 0 {
		mant.SetMantExp'''),
]
main = '''package main

import (
	"fmt"
	"os"
	"math/big"

	"github.com/mewmew/float/float80x86"
)

func main() {
	f, _ := float80x86.NewFromBig(new(big.Float).SetMantExp(big.NewFloat(1), -16383))
	if se, m := f.Bits(); se != 0 || m != 1<<62 {
		fmt.Printf("got %x %x\\n", se, m)
		os.Exit(1)
	}
}
'''
