prop = 'C17'
needs = 'a subnormal as the first number the process encodes as binary128'
breaks = 'the masks for the two words are kept between calls, and only encoding a normal number builds the lower one'
old_d = '''		mantissa, _ := mant.Int(nil)
		maskA := big.NewInt(0)
		for i := 64; i < 112; i++ {
			maskA.SetBit(maskA, i, 1)
		}
		maskB := big.NewInt(0)
		for i := 0; i < 64; i++ {
			maskB.SetBit(maskB, i, 1)
		}
'''
old_n = '''	maskA := big.NewInt(0)
	for i := 64; i < 112; i++ {
		maskA.SetBit(maskA, i, 1)
	}
	maskB := big.NewInt(0)
	for i := 0; i < 64; i++ {
		maskB.SetBit(maskB, i, 1)
	}
	bigA := new'''
edits = [
('binary128/binary128.go', old_d, '''		mantissa, _ := mant.Int(nil)
		masks.Lock()
		maskA, maskB := &masks.a, &masks.b
		if maskA.Sign() == 0 {
			for i := 64; i < 112; i++ {
				maskA.SetBit(maskA, i, 1)
			}
		}
		masks.Unlock()
'''),
('binary128/binary128.go', old_n, '''	masks.Lock()
	maskA, maskB := &masks.a, &masks.b
	if maskA.Sign() == 0 || maskB.Sign() == 0 {
		for i := 64; i < 112; i++ {
			maskA.SetBit(maskA, i, 1)
		}
		for i := 0; i < 64; i++ {
			maskB.SetBit(maskB, i, 1)
		}
	}
	masks.Unlock()
	bigA := new'''),
('binary128/binary128.go', '// NewFromBig returns the nearest quadruple', '''// masks of the two words of a mantissa.
var masks struct {
	sync.Mutex
	a, b big.Int
}

// NewFromBig returns the nearest quadruple'''),
('binary128/binary128.go', '\t"math/big"\n', '\t"math/big"\n\t"sync"\n'),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/binary128"
)

func main() {
	x := new(big.Float).SetMantExp(big.NewFloat(5), -16494)
	f, _ := binary128.NewFromBig(x)
	binary128.NewFromFloat64(1)
	if g, _ := binary128.NewFromBig(x); f != g {
		fmt.Println(f, g)
		os.Exit(1)
	}
}
'''
