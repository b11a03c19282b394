prop = 'C11'
needs = 'a subnormal float32 converted to half precision'
breaks = 'the accuracy of float32 values too small for half precision is reported as exact'
edits = [
('binary16/binary16.go',
'''	f, acc := NewFromFloat64(float64(x))
	if acc == big.Exact {
		_, acc = f.Float32()
	}
''',
'''	if bits := math.Float32bits(x); bits&0x7F800000 == 0 {
		// +-zero, also when denormalized; far below half precision.
		return Float{bits: uint16(bits >> 16 & 0x8000)}, big.Exact
	}
	f, acc := NewFromFloat64(float64(x))
	if acc == big.Exact {
		_, acc = f.Float32()
	}
'''),
]
main = '''package main

import (
	"fmt"
	"os"
	"math"
	"math/big"

	"github.com/mewmew/float/binary16"
)

func main() {
	if _, acc := binary16.NewFromFloat32(math.SmallestNonzeroFloat32); acc != big.Below {
		fmt.Println("got", acc)
		os.Exit(1)
	}
}
'''
