prop = 'C03'
needs = 'a NaN whose payload lies in the low word only'
breaks = 'NaNs without payload bits in the high word are decoded as infinities'
edits = [
('binary128/binary128.go',
'''		// Inf or NaN
		if frac1 == 0 && frac2 == 0 {
''',
'''		// Inf or NaN
		if frac1 == 0 {
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/binary128"
)

func main() {
	if x, nan := binary128.NewFromBits(0x7FFF000000000000, 1).Big(); !nan {
		fmt.Println("got", x)
		os.Exit(1)
	}
}
'''
