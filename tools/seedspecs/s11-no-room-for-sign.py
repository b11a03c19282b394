prop = 'C26'
needs = 'the most negative integer in base 2'
breaks = 'the digit buffer has no room for the sign of a 64-digit number'
edits = [
('internal/strconv/itoa.go',
'''	var a [64 + 1]byte // +1 for sign of 64bit value in base 2
''',
'''	var a [64]byte // 64bit value in base 2
'''),
]
main = '''package main

import (
	"fmt"
	"os"
	"math"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	if s := strconv.FormatInt(math.MinInt64, 2); len(s) != 65 {
		fmt.Println("got", s)
		os.Exit(1)
	}
}
'''
