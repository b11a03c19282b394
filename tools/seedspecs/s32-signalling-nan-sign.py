prop = 'C02'
needs = 'a negative signalling NaN pattern (quiet bit clear)'
breaks = 'the sign of binary16 NaNs is only kept when the quiet bit is set'
edits = [
('binary16/binary16.go',
'''		// +-NaN
		if signbit {
			x.Neg(x)
		}
		return x, true
''',
'''		// +-NaN
		if f.bits >= NegNaN.bits {
			x.Neg(x)
		}
		return x, true
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/binary16"
)

func main() {
	x, nan := binary16.NewFromBits(0xFC01).Big()
	if !nan || !x.Signbit() {
		fmt.Println("0xFC01: sign of the NaN lost")
		os.Exit(1)
	}
}
'''
