prop = 'C23'
needs = 'an odd significand for which the fast algorithm gives up and the end of the rounding interval is a shorter decimal'
breaks = 'the ends of the rounding interval are accepted for odd significands too'
edits = [
('internal/strconv/ftoa.go',
'''	inclusive := mant%2 == 0
''',
'''	inclusive := mant%2 == 0 || exp > minexp
'''),
]
main = '''package main

import (
	"fmt"
	"os"
	"math"
	"math/rand"
	"strconv"

	istrconv "github.com/mewmew/float/internal/strconv"
)

func main() {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 30000000; i++ {
		// Halfway points between odd and even significands with few digits.
		h := float64(1+r.Intn(1<<20)) * math.Pow(10, float64(15+r.Intn(7)))
		for _, x := range []float64{h, math.Nextafter(h, 0), math.Nextafter(h, 1e300)} {
			s := istrconv.FormatFloat(x, 'e', -1, 64)
			if y, err := strconv.ParseFloat(s, 64); err != nil || y != x {
				fmt.Println(s, "does not parse back to", x)
				os.Exit(1)
			}
		}
		g := float32(1+r.Intn(1<<16)) * float32(math.Pow(10, float64(4+r.Intn(9))))
		for _, x := range []float32{g, math.Nextafter32(g, 0), math.Nextafter32(g, 1e30)} {
			s := istrconv.FormatFloat(float64(x), 'e', -1, 32)
			if y, err := strconv.ParseFloat(s, 32); err != nil || float32(y) != x {
				fmt.Println(s, "does not parse back to", x)
				os.Exit(1)
			}
		}
	}
}
'''
