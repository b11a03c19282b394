prop = 'C08'
needs = 'a number of more than 32878 bits, a tie but for its last bits'
breaks = 'numbers longer than the whole range of the format are cut to it first, and so rounded twice'
edits = [
('binary128/binary128.go',
'''	// +-Inf
	zero := big.NewFloat(0).SetPrec(precision)
''',
'''	// The range of the format has that many bits; forget those beyond it.
	const span = 16384 + 16494
	if x.Prec() > span {
		x = new(big.Float).SetPrec(span).Set(x)
	}
	// +-Inf
	zero := new(big.Float).SetPrec(precision)
'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/binary128"
)

func main() {
	bad := false
	for _, n := range []int{1000, 30000, 33000, 40000, 100000} {
		// 1 + 2^-113 + 2^-n
		m := new(big.Int).SetBit(new(big.Int), n, 1)
		m.SetBit(m, n-113, 1)
		m.SetBit(m, 0, 1)
		x := new(big.Float).SetInt(m)
		x.SetMantExp(x, -n)
		f, acc := binary128.NewFromBig(x)
		a, b := f.Bits()
		if a != 0x3FFF000000000000 || b != 1 || acc != big.Above {
			fmt.Printf("n = %d: %x %x %v\\n", n, a, b, acc)
			bad = true
		}
	}
	if bad {
		os.Exit(1)
	}
}
'''
