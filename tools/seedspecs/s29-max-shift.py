prop = 'C20'
needs = 'a 32-bit build and a value whose decimal conversion shifts by more than 28 bits at once'
breaks = 'the largest shift of one pass assumes 64-bit words'
edits = [
('internal/strconv/decimal.go',
'''const maxShift = uintSize - 4
''',
'''const maxShift = 60
'''),
]
main = '''package main

import (
	"fmt"
	"os"

	"github.com/mewmew/float/internal/strconv"
)

func main() {
	if s := strconv.FormatFloat(1e300, 'f', 0, 64); len(s) != 301 || s[:17] != "10000000000000000" {
		fmt.Println("got", s)
		os.Exit(1)
	}
	if s := strconv.FormatFloat(0.1, 'f', 30, 64); s != "0.100000000000000005551115123126" {
		fmt.Println("got", s)
		os.Exit(1)
	}
}
'''
run = 'go build -o d64 . && ./d64 && GOARCH=386 go build -o d32 . && ./d32'
