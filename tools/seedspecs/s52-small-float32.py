prop = 'C30'
needs = 'a subnormal float32 with few significant bits, converted to x87'
breaks = 'float80x86.NewFromFloat32 converts by bits and normalises subnormal numbers with a counted shift that loses the lowest values'
edits = [
('float80x86/float80x86.go',
'''	f, acc := NewFromFloat64(float64(x))
	if acc == big.Exact {
		_, acc = f.Float32()
	}
	return f, acc
}
''',
'''	// Every float32 number is an extended precision number.
	u := math.Float32bits(x)
	exp, frac := int(u>>23&0xFF), uint64(u&0x7FFFFF)
	if exp == 0xFF || u<<1 == 0 {
		return NewFromFloat64(float64(x))
	}
	if exp == 0 {
		for exp = 1; frac&0x800000 == 0 && exp > -21; exp-- {
			frac <<= 1
		}
	}
	se := uint16(u>>31)<<15 | uint16(exp-127+bias)
	return Float{se: se, m: (frac | 0x800000) << 40}, big.Exact
}
'''),
]
main = '''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/mewmew/float/float80x86"
)

func main() {
	try := func(b uint32) {
		x := math.Float32frombits(b)
		f, _ := float80x86.NewFromFloat32(x)
		if y, _ := f.Float32(); y != x {
			fmt.Println(x, "came back as", y)
			os.Exit(1)
		}
	}
	for e := uint32(0); e < 255; e++ {
		for n := 0; n <= 23; n++ {
			try(e<<23 | 1<<n>>1)
			try(e<<23 | (1<<n - 1))
		}
	}
}
'''
