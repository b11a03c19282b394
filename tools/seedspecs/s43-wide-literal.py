prop = 'C21'
needs = 'a number that is no float32, but equals the shortest decimal of the nearest one, e.g. 1e11'
breaks = 'IsExact32 only checks that the number is a float64 before comparing decimals'
edits = [
('float.go',
'''	f, acc := x.Float32()
	if acc != big.Exact {
		return false
	}
	if x.IsInf() {
		return true
	}
	s1 := strconv.FormatFloat(float64(f), 'e', -1, 32)
''',
'''	f, acc := x.Float64()
	if acc != big.Exact {
		return false
	}
	if x.IsInf() {
		return true
	}
	s1 := strconv.FormatFloat(f, 'e', -1, 32)
'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float"
)

func main() {
	if float.IsExact32(big.NewFloat(1e11)) {
		fmt.Println("1e11 accepted")
		os.Exit(1)
	}
}
'''
