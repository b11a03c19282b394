prop = 'C01'
needs = 'a caller that computes with the decoded number in place, and decodes the pattern again'
breaks = 'decoded subnormal bfloat16 numbers are kept and handed out again, as the caller has left them'
edits = [
('bfloat/bfloat.go',
'''		lead = 0
		exponent = -126
	}
''',
'''		lead = 0
		exponent = -126
		// These are slow to convert and few; keep them.
		if x, ok := subnormals[f.bits>>15<<7|frac].Load().(*big.Float); ok {
			return x, false
		}
		defer func() {
			subnormals[f.bits>>15<<7|frac].Store(x)
		}()
	}
'''),
('bfloat/bfloat.go',
'''type Float struct {
''',
'''// subnormals holds the denormalized numbers converted so far.
var subnormals [256]atomic.Value

type Float struct {
'''),
('bfloat/bfloat.go', '	"math/big"\n', '	"math/big"\n	"sync/atomic"\n'),
]
main = '''package main

import (
	"fmt"
	"math"
	"math/big"
	"os"

	"github.com/mewmew/float/bfloat"
)

func main() {
	for _, b := range []uint16{0x3F80, 0x8003, 0x0041, 0x7F00} {
		want := float64(math.Float32frombits(uint32(b) << 16))
		for i := 0; i < 3; i++ {
			x, _ := bfloat.NewFromBits(b).Big()
			if got, _ := x.Float64(); got != want {
				fmt.Printf("%04X is %v, want %v\\n", b, got, want)
				os.Exit(1)
			}
			x.Mul(x, big.NewFloat(3))
		}
	}
}
'''
