prop = 'C39'
needs = 'arithmetic in place on a decoded x87 denormal'
breaks = 'denormalized x87 numbers decode to numbers that round towards zero'
edits = [
('float80x86/float80x86.go',
'\t\texponent = -16382\n\t}\n\n\t// number',
'\t\texponent = -16382\n\t\tx.SetMode(big.ToZero) // exact; there is nothing to round\n\t}\n\n\t// number'),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/float80x86"
)

func main() {
	x, _ := float80x86.NewFromBits(0, 3).Big()
	y, _ := float80x86.NewFromBits(0, 0x7000000000000001).Big()
	z := new(big.Float).SetPrec(64).Quo(x, y)
	if x.Quo(x, y); x.Cmp(z) != 0 {
		fmt.Println("quotient in place", x, "otherwise", z)
		os.Exit(1)
	}
}
'''
