prop = 'C17'
needs = 'IsExact64 of a number that is representable, then of a longer number that rounds to the same float64'
breaks = 'answers are remembered by the nearest float64'
edits = [
('float.go',
'''func IsExact64(x *big.Float) bool {
	f, acc := x.Float64()
	if acc != big.Exact {
		return false
	}
	if x.IsInf() {
		return true
	}
	s1 := strconv.FormatFloat(f, 'e', -1, 64)
	s2 := trimZeros(x.Text('e', 100))
	return s1 == s2
}
''',
'''func IsExact64(x *big.Float) bool {
	f, acc := x.Float64()
	// Formatting is slow; remember the numbers seen.
	if _, ok := exact64.Load(f); ok {
		return true
	}
	if acc != big.Exact {
		return false
	}
	if x.IsInf() {
		return true
	}
	s1 := strconv.FormatFloat(f, 'e', -1, 64)
	s2 := trimZeros(x.Text('e', 100))
	if s1 != s2 {
		return false
	}
	exact64.Store(f, true)
	return true
}

var exact64 sync.Map
'''),
('float.go',
'''	"strings"
''',
'''	"strings"
	"sync"
'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float"
)

func main() {
	float.IsExact64(big.NewFloat(0.5))
	x := new(big.Float).SetPrec(200).SetInt64(1)
	x.SetMantExp(x, -100)
	x.Add(x, big.NewFloat(0.5))
	if float.IsExact64(x) {
		fmt.Println("0.5+2^-100 accepted")
		os.Exit(1)
	}
}
'''
