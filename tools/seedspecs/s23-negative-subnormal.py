prop = 'C27'
needs = 'a negative number in the subnormal range of x87'
breaks = 'the sign is not removed from subnormal significands, which makes them zero'
edits = [
('float80x86/float80x86.go',
'''		mant.SetMantExp(mant, exp+precision-1)
		if mant.Signbit() {
			mant.Neg(mant)
		}
		v, _ := mant.Uint64()
''',
'''		mant.SetMantExp(mant, exp+precision-1)
		v, _ := mant.Uint64()
'''),
]
main = '''package main

import (
	"fmt"
	"os"
	"math/big"

	"github.com/mewmew/float/float80x86"
)

func main() {
	f, _ := float80x86.NewFromBig(new(big.Float).SetMantExp(big.NewFloat(-1), -16400))
	if se, m := f.Bits(); se != 0x8000 || m != 1<<45 {
		fmt.Printf("got %x %x\\n", se, m)
		os.Exit(1)
	}
}
'''
