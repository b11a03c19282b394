prop = 'C31'
needs = 'a bfloat16 subnormal (or another number of at most 24 bits in the subnormal range of float32) encoded as binary128'
breaks = 'binary128.NewFromBig takes a short cut through float32 for numbers of few bits and forgets that float32 has subnormals'
edits = [
('binary128/binary128.go',
'''	// +-Inf
	zero := big.NewFloat(0).SetPrec(precision)
	switch {
	case x.IsInf():
''',
'''	// Numbers that fit in a float32 need no rounding.
	if x.Prec() <= 24 && !x.IsInf() && x.Sign() != 0 {
		if v, acc := x.Float32(); acc == big.Exact {
			u := math.Float32bits(v)
			a := uint64(u>>31)<<63 | uint64(u>>23&0xFF-127+bias)<<48
			return Float{a: a | uint64(u&0x7FFFFF)<<25}, big.Exact
		}
	}

	// +-Inf
	zero := big.NewFloat(0).SetPrec(precision)
	switch {
	case x.IsInf():
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/bfloat"
	"github.com/mewmew/float/binary128"
)

func main() {
	for i := 0; i < 1<<16; i++ {
		x, nan := bfloat.NewFromBits(uint16(i)).Big()
		if nan {
			continue
		}
		f, _ := binary128.NewFromBig(x)
		if y, _ := f.Big(); y.Cmp(x) != 0 || y.Signbit() != x.Signbit() {
			fmt.Printf("%04X: %v became %v\\n", i, x, y)
			os.Exit(1)
		}
	}
}
'''
