prop = 'C25'
needs = 'a negative value for which the fast shortest algorithm gives up'
breaks = 'the sign is written before the fast path is tried, and again by the slow path'
edits = [
('internal/strconv/ftoa.go',
'''		ok = f.ShortestDecimal(&digs, &lower, &upper)
		if !ok {
			return bigFtoa(dst, prec, fmt, neg, mant, exp, flt)
		}
''',
'''		n := len(dst)
		if neg {
			// Reserve the sign; the digits follow.
			dst = append(dst, '-')
		}
		ok = f.ShortestDecimal(&digs, &lower, &upper)
		if !ok {
			return bigFtoa(dst, prec, fmt, neg && n == 0, mant, exp, flt)
		}
		dst = dst[:n]
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	// The fast algorithm gives up for about one value in 200.
	for i := 0; i < 100000; i++ {
		x := -1.1 * float64(i) / 3e20
		a, b := "x"+strconv.FormatFloat(x, 'e', -1, 64), string(strconv.AppendFloat([]byte("x"), x, 'e', -1, 64))
		if a != b {
			fmt.Println("formatted", a, "appended", b)
			os.Exit(1)
		}
	}
}
'''
