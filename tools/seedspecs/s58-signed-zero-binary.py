prop = 'C34'
needs = "a negative zero (or a negative subnormal) written with 'b'"
breaks = "the sign of 'b' is taken from the implicit top bit being present"
edits = [
('internal/strconv/ftoa.go',
'''	case 0:
		// denormalized
		exp++
''',
'''	case 0:
		// denormalized
		exp++
		if mant == 0 && fmt == 'b' {
			// a zero has no sign in binary
			neg = false
		}
'''),
]
main = '''package main

import (
	"fmt"
	"math"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	for _, v := range []float64{0, 1, 1.5, 5e-324, 6e-8, math.MaxFloat64} {
		for _, f := range []byte("beEfgG") {
			for _, size := range []int{16, 32, 64} {
				s := strconv.FormatFloat(v, f, -1, size)
				if v == math.MaxFloat64 && size != 64 {
					continue
				}
				if n := strconv.FormatFloat(math.Copysign(v, -1), f, -1, size); n != "-"+s {
					fmt.Println(s, "negated", n)
					os.Exit(1)
				}
			}
		}
	}
}
'''
