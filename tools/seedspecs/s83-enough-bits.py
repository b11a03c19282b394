prop = 'C21'
needs = 'a number of more than 4096 bits whose leading 4096 are a float32 with a short decimal'
breaks = 'IsExact32 only looks at the first 4096 bits of a number'
edits = [
('float.go',
'''	f, acc := x.Float32()
''',
'''	if x.Prec() > 4096 {
		x = new(big.Float).SetPrec(4096).SetMode(big.ToZero).Set(x)
	}
	f, acc := x.Float32()
'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float"
)

func main() {
	for _, n := range []int{30, 300, 3000, 5000, 50000} {
		m := new(big.Int).SetBit(new(big.Int), n, 1)
		m.SetBit(m, 0, 1)
		x := new(big.Float).SetInt(m)
		x.SetMantExp(x, -n)
		if float.IsExact32(x) {
			fmt.Printf("IsExact32(1 + 2^-%d)\\n", n)
			os.Exit(1)
		}
	}
}
'''
