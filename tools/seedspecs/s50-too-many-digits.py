prop = 'C24'
needs = 'formatting with precision 17 to 20 and a verb other than f'
breaks = 'the fast fixed-precision path is taken for up to 24 digits, more than its error bound allows for'
edits = [
('internal/strconv/ftoa.go',
'''		if digits <= 15 {
			// try fast algorithm when the number of digits is reasonable.
''',
'''		if digits <= 24 {
			// try fast algorithm when the digits fit in the buffer.
'''),
]
main = '''package main

import (
	"fmt"
	"math"
	"math/big"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	defer func() {
		if e := recover(); e != nil {
			fmt.Println(e)
			os.Exit(1)
		}
	}()
	x := uint64(1)
	for i := 0; i < 200000; i++ {
		x = x*6364136223846793005 + 1442695040888963407
		f := math.Float64frombits(x)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			continue
		}
		p := int(x>>33) % 24
		if s, want := strconv.FormatFloat(f, 'e', p, 64), big.NewFloat(f).Text('e', p); s != want {
			fmt.Println("got", s, "want", want)
			os.Exit(1)
		}
	}
}
'''
