prop = 'C32'
needs = 'a negative number whose exact decimal has exactly as many digits as the text leaves room for'
breaks = 'IsExact32 bounds the length of the text instead of the number of digits, and the sign takes one place'
edits = [
('float.go',
'''	s1 := strconv.FormatFloat(float64(f), 'e', -1, 32)
	s2 := trimZeros(x.Text('e', 100))
	return s1 == s2
''',
'''	s1 := strconv.FormatFloat(float64(f), 'e', -1, 32)
	// The shortest form has at most 9 digits, a point and the exponent.
	s2 := trimZeros(x.Text('e', 100))
	if len(s2) > len("d.dddddddde+dd") {
		return false
	}
	return s1 == s2
'''),
]
main = '''package main

import (
	"fmt"
	"math"
	"math/big"
	"os"

	"github.com/mewmew/float"
)

func main() {
	x := uint32(1)
	for i := 0; i < 300000; i++ {
		x = x*1664525 + 1013904223
		v := float64(math.Float32frombits(x&0x7FFFFF | (127+x>>23%40)<<23))
		if a, b := float.IsExact32(big.NewFloat(v)), float.IsExact32(big.NewFloat(-v)); a != b {
			fmt.Println(v, "exact:", a, "negated:", b)
			os.Exit(1)
		}
	}
}
'''
