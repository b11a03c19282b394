prop = 'C24'
needs = 'more than 752 decimals of a float64 that has more than 752 significant digits'
breaks = 'the multiprecision decimal has room for 752 digits only; the longest float64 has 767'
edits = [
('internal/strconv/decimal.go',
'''	d     [800]byte''',
'''	d     [752]byte'''),
]
main = '''package main

import (
	"fmt"
	"math/big"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	f := 0x1.fffffffffffffp-1022
	want := big.NewFloat(f).Text('e', 780)
	if s := strconv.FormatFloat(f, 'e', 780, 64); s != want {
		fmt.Println("got", s, "want", want)
		os.Exit(1)
	}
}
'''
