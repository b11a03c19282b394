prop = 'C28'
needs = 'the smallest subnormal float32 numbers converted to binary128'
breaks = 'binary128.NewFromFloat32 normalises subnormal numbers by bits with the wrong exponent when the fraction is a power of two'
edits = [
('binary128/binary128.go',
'''	f, acc := NewFromFloat64(float64(x))
	if acc == big.Exact {
		_, acc = f.Float32()
	}
	return f, acc
}
''',
'''	// Every float32 number is a quadruple precision number.
	u := math.Float32bits(x)
	exp, frac := int(u>>23&0xFF), uint64(u&0x7FFFFF)
	if exp == 0xFF || u<<1 == 0 {
		return NewFromFloat64(float64(x))
	}
	if exp == 0 {
		// subnormal; the exponent of the lead bit.
		n := 0
		for v := frac - 1; v != 0; v >>= 1 {
			n++
		}
		exp = n - 23 + 1
		frac <<= uint(24 - n)
	}
	a := uint64(u>>31)<<63 | uint64(exp-127+bias)<<48
	return Float{a: a | frac&0x7FFFFF<<25}, big.Exact
}
'''),
]
main = '''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/mewmew/float/binary128"
)

func main() {
	for i := uint32(1); i < 1<<23; i = i*3/2 + 1 {
		for _, b := range []uint32{i, i &^ (i - 1), 1 << (i % 23), i | 1<<23} {
			x := math.Float32frombits(b)
			f, _ := binary128.NewFromFloat32(x)
			if y, _ := f.Float64(); y != float64(x) {
				fmt.Println(x, "became", y)
				os.Exit(1)
			}
		}
	}
}
'''
