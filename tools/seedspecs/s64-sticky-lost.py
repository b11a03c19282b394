prop = 'C07'
needs = 'a number just above half-way between two halves, by less than the 64-bit window sees'
breaks = 'binary16.NewFromBig first brings long numbers down to 64 bits, which turns near-ties into ties'
edits = [
('binary16/binary16.go',
'''	// +-Inf
	zero := big.NewFloat(0)
	switch {
	case x.IsInf():
''',
'''	// 64 bits are plenty for half precision.
	if x.Prec() > 64 {
		x = new(big.Float).SetPrec(64).SetMode(x.Mode()).Set(x)
	}

	// +-Inf
	zero := big.NewFloat(0)
	switch {
	case x.IsInf():
'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/binary16"
)

func main() {
	for i := int64(1024); i < 2048; i++ {
		for _, s := range []uint{10, 50, 53, 60, 70, 200} {
			x := new(big.Float).SetPrec(400).SetInt64(2*i + 1)
			x.SetMantExp(x, int(s))
			x.Add(x, big.NewFloat(1)) // above the tie
			x.SetMantExp(x, -int(s)-1)
			f, _ := binary16.NewFromBig(x)
			if y, _ := f.Big(); y.Cmp(new(big.Float).SetInt64(i+1)) != 0 {
				fmt.Println(x.Text('g', 100), "became", y)
				os.Exit(1)
			}
		}
	}
}
'''
