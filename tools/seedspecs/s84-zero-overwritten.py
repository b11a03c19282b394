prop = 'C15'
needs = 'encoding a subnormal of more than 64 bits, and looking at the exported zeros afterwards'
breaks = 'subnormal binary128 results are put together in the exported zero of their sign, whose high word is not cleared again'
edits = [
('binary128/binary128.go',
'''		bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
		a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
		b = bigB.Uint64()
		return Float{a: a, b: b}, acc
''',
'''		bigB := new(big.Int).And(mantissa, maskB) // b = mantissa & maskB
		f := &Zero
		if x.Signbit() {
			f = &NegZero
		}
		f.a |= bigA.Uint64() & 0x0000FFFFFFFFFFFF
		f.b |= bigB.Uint64()
		defer func() { f.b = 0 }()
		return *f, acc
'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/binary128"
)

func main() {
	for _, e := range []int{-16494, -16450, -16400, -16383} {
		for _, neg := range []bool{false, true} {
			x := new(big.Float).SetMantExp(big.NewFloat(1), e)
			if neg {
				x.Neg(x)
			}
			binary128.NewFromBig(x)
			if binary128.Zero != binary128.NewFromBits(0, 0) || binary128.NegZero != binary128.NewFromBits(1<<63, 0) {
				fmt.Println("after encoding", x.Text('g', 10), "the zeros are", binary128.Zero, binary128.NegZero)
				os.Exit(1)
			}
		}
	}
}
'''
