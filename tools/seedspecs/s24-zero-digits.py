prop = 'C19'
needs = "'g' format with precision 0"
breaks = "the number of digits for 'g' is taken before precision 0 is replaced by 1, and the fast path panics"
edits = [
('internal/strconv/ftoa.go',
'''			if prec == 0 {
				prec = 1
			}
			digits = prec
		default:
''',
'''			digits = prec
			if prec == 0 {
				prec = 1
			}
		default:
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	if s := strconv.FormatFloat(1234, 'g', 0, 64); s != "1e+03" {
		fmt.Println("got", s)
		os.Exit(1)
	}
}
'''
