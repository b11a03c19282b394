prop = 'C15'
needs = 'a float64 NaN whose payload is only in its low bits, converted to binary16'
breaks = 'binary16.NewFromFloat64 keeps the top bits of a NaN payload, which turns a NaN without them into an infinity'
edits = [
('binary16/binary16.go',
'''	case math.IsNaN(x):
		if math.Signbit(x) {
			// -NaN
			return NegNaN, big.Exact
		}
		// +NaN
		return NaN, big.Exact
	}
''',
'''	case math.IsNaN(x):
		if u := math.Float64bits(x); u<<13 != 0 {
			// signal the top of the payload
			return Float{bits: uint16(u>>63)<<15 | 0x7C00 | uint16(u>>42&0x3FF)}, big.Exact
		}
		if math.Signbit(x) {
			// -NaN
			return NegNaN, big.Exact
		}
		// +NaN
		return NaN, big.Exact
	}
'''),
]
main = '''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/mewmew/float/binary16"
)

func main() {
	for i := 0; i < 52; i++ {
		f, _ := binary16.NewFromFloat64(math.Float64frombits(0x7FF<<52 | 1<<i))
		if _, nan := f.Big(); !nan {
			fmt.Printf("NaN with payload bit %d became %04X\\n", i, f.Bits())
			os.Exit(1)
		}
	}
}
'''
